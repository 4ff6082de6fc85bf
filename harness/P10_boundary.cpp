// Boundary detection: which facets, edges and vertices are on the boundary of a mesh or segment, at any time.
// BOUND: conforming meshes (every facet in at most two cells) of up to 4 triangles on 5 vertices (quick 3), 3 tetrahedra on 5 vertices (quick 2), 3 lines, 2 quadrilaterals, polygons or hexahedra, in any combination of vertices; queries interleaved at any point of the construction; every assignment of the cells to up to two segments
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
using namespace viennagrid;
template <typename T, typename X, typename C> static void one(TM<X> &t, C const &c, IV const *sel)
{
  typedef typename result_of::const_element_range<C, T>::type R; typedef typename result_of::iterator<R>::type I; R r(c); PosOf<X> p(t.m, t.h); std::size_t n = 0; bool any = false; ISS all = t.all(T::dim, sel);
  for (I it = r.begin(); it != r.end(); ++it) { IS s = p(*it); if (!all.count(s)) continue; ++n; bool b = is_boundary(c, *it); any |= b; CHECKM(b == t.on_boundary(s, sel), "an element is on the boundary exactly if it lies on a facet of only one cell"); }
  CHECKM(n == all.size(), "all elements are visited"); (void)any;
}
template <typename X, typename C> static void low(TM<X> &t, C const &c, IV const *sel, simplex_tag<1>) { one<vertex_tag>(t, c, sel); }
template <typename X, typename C, typename T> static void low(TM<X> &t, C const &c, IV const *sel, T) { one<vertex_tag>(t, c, sel); one<line_tag>(t, c, sel); }
template <typename X, typename C> static void low(TM<X> &t, C const &c, IV const *sel, tetrahedron_tag) { one<vertex_tag>(t, c, sel); one<line_tag>(t, c, sel); one<triangle_tag>(t, c, sel); }
template <typename X, typename C> static void low(TM<X> &t, C const &c, IV const *sel, hexahedron_tag) { one<quadrilateral_tag>(t, c, sel); one<vertex_tag>(t, c, sel); one<line_tag>(t, c, sel); }
template <typename X, typename C> static void verify(TM<X> &t, C const &c, IV const *sel = 0) { low(t, c, sel, typename CT<X>::T()); }
// grow a mesh cell by cell; a query may come after every step
template <typename X> static void grow(int verts, int cells_)
{
  TM<X> t; t.vertices(verts); t.cell(iota_(Ref<typename CT<X>::T>::nv));
  for (int i = 1; i < cells_; ++i) { if (vs_pick("query", 2)) verify(t, t.m); IV b; if (!t.pick_conforming(verts, b)) break; if (vs_pick("reversed", 2)) std::reverse(b.begin(), b.end()); t.cell(b); }
  verify(t, t.m); verify(t, t.m);
}
VS_HARNESS(triangles_2d) { grow<triangular_2d_mesh>(5, 3); }
VS_HARNESS_THOROUGH(four_triangles_2d) { grow<triangular_2d_mesh>(5, 4); }
VS_HARNESS(triangles_3d) { grow<triangular_3d_mesh>(4, 3); }
VS_HARNESS(tetrahedra_3d) { grow<tetrahedral_3d_mesh>(vs_tier() ? 6 : 5, 2); }
VS_HARNESS_THOROUGH(three_tetrahedra_3d) { grow<tetrahedral_3d_mesh>(5, 3); }
VS_HARNESS(lines_1d) { grow<line_1d_mesh>(4, 4); }
VS_HARNESS(lines_2d) { grow<line_2d_mesh>(4, 3); }
static const int QE[4][2] = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 2, 3 } };
VS_HARNESS(quadrilaterals_2d)
{
  TM<quadrilateral_2d_mesh> t; t.vertices(8); t.cell(iota_(4)); if (vs_pick("query", 2)) verify(t, t.m); int e = vs_pick("e", 4), f = vs_pick("f", 4), d = vs_pick("d", 2); IV b(4, -1); b[QE[f][0]] = QE[e][d]; b[QE[f][1]] = QE[e][1 - d]; int nx = 4; for (int i = 0; i < 4; ++i) if (b[i] < 0) b[i] = nx++; t.cell(b); verify(t, t.m);
  IV c(4); c[0] = b[0]; c[1] = 6; c[2] = 7; c[3] = b[1]; std::swap(c[3], c[1]); t.c.push_back(c); bool ok = t.manifold(); t.c.pop_back(); vs_assume(ok); t.cell(c); verify(t, t.m);
}
VS_HARNESS(polygons_2d)
{ TM<polygonal_2d_mesh> t; t.vertices(8); t.cell(iota_(5)); int s = vs_pick("edge", 5), d = vs_pick("dir", 2), n = vs_pick("extra", 2); int x = s, y = (s + 1) % 5; if (d) std::swap(x, y); IV b; b.push_back(x); b.push_back(y); b.push_back(5); b.push_back(6); if (n) b.push_back(7); if (vs_pick("query", 2)) verify(t, t.m); t.cell(b); verify(t, t.m); }
static IV glue(int fd, int fs, int gd, int gs, int rot, int mir)
{ int q[4], k = 0, g[4], l = 0; IV b(8, -1); for (int i = 0; i < 8; ++i) { if ((i >> fd & 1) == fs) q[k++] = i; if ((i >> gd & 1) == gs) g[l++] = i; } static const int cyc[4] = { 0, 1, 3, 2 }; for (int i = 0; i < 4; ++i) b[g[cyc[i]]] = q[cyc[mir ? (8 - i + rot) % 4 : (i + rot) % 4]]; int nx = 8; for (int i = 0; i < 8; ++i) if (b[i] < 0) b[i] = nx++; return b; }
VS_HARNESS(hexahedra_3d)
{ TM<hexahedral_3d_mesh> t; t.vertices(12); t.cell(iota_(8)); if (vs_pick("query", 2)) verify(t, t.m); int fd = vs_pick("fdir", 3), fs = vs_pick("fside", 2), gd = vs_tier() ? vs_pick("gdir", 3) : 1, gs = vs_pick("gside", 2), rot = vs_pick("rot", 4), mir = vs_pick("mirror", 2); t.cell(glue(fd, fs, gd, gs, rot, mir)); verify(t, t.m); }
// vertices with arbitrary ids: the sharing that decides the boundary depends on id comparisons
VS_HARNESS(symbolic_ids)
{
  typedef triangular_2d_mesh M; typedef result_of::element<M, vertex_tag>::type::id_type ID; TM<M> t; int id[4]; for (int i = 0; i < 4; ++i) { id[i] = vs_int("id", 0, 15); for (int j = 0; j < i; ++j) vs_assume(id[i] != id[j]); } for (int i = 0; i < 4; ++i) t.h.push_back(make_vertex_with_id(t.m, ID(id[i]), P2(i, 0)));
  t.cell(iota_(3)); IV b; b.push_back(3); b.push_back(2); b.push_back(1); t.cell(b); verify(t, t.m);
}
// segments: every assignment of cells, added in any order, with queries in between
template <typename X> static void segs(TM<X> &t, bool between)
{
  typedef typename result_of::segmentation<X>::type S; typedef typename result_of::segment_handle<S>::type H; S sg(t.m); H s[2] = { sg.make_segment(), sg.make_segment() }; int n = (int)t.c.size(); IV sel[2] = { IV(n, 0), IV(n, 0) };
  for (int i = 0; i < n; ++i) { int w = vs_pick("assign", 4); for (int k = 0; k < 2; ++k) if (w >> k & 1) { add(s[k], t[i]); sel[k][i] = 1; } if (between && i + 1 < n && vs_pick("query", 2)) for (int k = 0; k < 2; ++k) verify(t, s[k], &sel[k]); }
  for (int k = 0; k < 2; ++k) verify(t, s[k], &sel[k]); verify(t, t.m);
}
static IV iv(int a, int b, int c, int d = -1) { IV v; v.push_back(a); v.push_back(b); v.push_back(c); if (d >= 0) v.push_back(d); return v; }
VS_HARNESS(segments_triangles) { TM<triangular_2d_mesh> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); segs(t, true); }
VS_HARNESS(segments_tetrahedra) { TM<tetrahedral_3d_mesh> t; t.vertices(6); t.cell(iv(0, 1, 2, 3)); t.cell(iv(4, 1, 2, 3)); t.cell(iv(4, 5, 1, 2)); segs(t, vs_tier() > 0); }
VS_HARNESS(segments_quads) { TM<quadrilateral_2d_mesh> t; t.vertices(8); t.cell(iv(0, 1, 2, 3)); t.cell(iv(1, 4, 3, 5)); t.cell(iv(2, 3, 6, 7)); segs(t, true); }
VS_HARNESS(segment_grows)
{ // cells created through a segment; the other segment and the mesh keep up
  typedef triangular_2d_mesh M; typedef result_of::segmentation<M>::type S; typedef result_of::segment_handle<S>::type H; TM<M> t; t.vertices(5); S sg(t.m); H s[2] = { sg.make_segment(), sg.make_segment() }; static const int C[3][3] = { { 0, 1, 2 }, { 1, 2, 3 }, { 3, 2, 4 } }; IV sel[2];
  for (int i = 0; i < 3; ++i) { int w = vs_pick("into", 2); VH<M>::V v; for (int k = 0; k < 3; ++k) v.push_back(t.h[C[i][k]]); t.ch.push_back(make_cell(s[w], v.begin(), v.end())); t.c.push_back(IV(C[i], C[i] + 3)); sel[w].push_back(1); sel[1 - w].push_back(0); if (vs_pick("query", 2)) { verify(t, s[0], &sel[0]); verify(t, s[1], &sel[1]); verify(t, t.m); } }
  verify(t, t.m); verify(t, s[0], &sel[0]); verify(t, s[1], &sel[1]);
}
VS_HARNESS(copied_mesh)
{ // a copy answers for itself, and stays fresh when it grows
  typedef triangular_2d_mesh M; TM<M> t; t.vertices(4); t.cell(iv(0, 1, 2)); if (vs_pick("query", 2)) verify(t, t.m); TM<M> u; if (vs_pick("assign", 2)) u.m = t.m; else { M c(t.m); u.m = c; } u.c = t.c; for (int i = 0; i < 4; ++i) u.h.push_back(viennagrid::vertices(u.m).handle_at(i)); u.ch.push_back(cells(u.m).handle_at(0)); if (vs_pick("query2", 2)) verify(u, u.m); u.cell(iv(3, 1, 2)); verify(u, u.m); verify(t, t.m);
}
// boundary elements of an element
VS_HARNESS(element_boundary)
{
  typedef tetrahedral_3d_mesh M; TM<M> t; t.vertices(6); t.cell(iota_(4)); t.cell(t.pick(6, true)); PosOf<M> p(t.m, t.h);
  for (int i = 0; i < 2; ++i) { IS cell = st(t.c[i]); for (std::size_t k = 0; k < viennagrid::vertices(t.m).size(); ++k) CHECK(is_boundary(t[i], viennagrid::vertices(t.m)[k]) == (cell.count((int)k) > 0)); result_of::element_range<M, line_tag>::type l(t.m); for (result_of::iterator<result_of::element_range<M, line_tag>::type>::type it = l.begin(); it != l.end(); ++it) { IS s = p(*it); CHECK(is_boundary(t[i], *it) == std::includes(cell.begin(), cell.end(), s.begin(), s.end())); } result_of::element_range<M, triangle_tag>::type f(t.m); for (result_of::iterator<result_of::element_range<M, triangle_tag>::type>::type it = f.begin(); it != f.end(); ++it) { IS s = p(*it); CHECK(is_boundary(t[i], *it) == std::includes(cell.begin(), cell.end(), s.begin(), s.end())); } }
}
// cells leave a segment again: every element of the mesh, in the segment or not, is judged by the cells the segment has now
template <typename T, typename X, typename C> static void every(TM<X> &t, C const &c, IV const &sel)
{ typedef typename result_of::const_element_range<X, T>::type R; typedef typename result_of::iterator<R>::type I; R r(t.m); PosOf<X> p(t.m, t.h); for (I it = r.begin(); it != r.end(); ++it) CHECKM(is_boundary(c, *it) == t.on_boundary(p(*it), &sel), "boundary of a segment after cells left it"); }
VS_HARNESS(segment_shrinks)
{
  typedef triangular_2d_mesh M; typedef result_of::segmentation<M>::type S; typedef result_of::segment_handle<S>::type H; TM<M> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); S sg(t.m); H s = sg.make_segment(); IV sel(3, 0); for (int i = 0; i < 3; ++i) { add(s, t[i]); sel[i] = 1; }
  for (int k = 0; k < 2; ++k) { if (vs_pick("query", 2)) { every<line_tag>(t, s, sel); every<vertex_tag>(t, s, sel); } int w = vs_pick("leave", 4); if (w == 3) { clear(s); sel = IV(3, 0); } else if (sel[w]) { erase(s, t[w]); sel[w] = 0; } else { add(s, t[w]); sel[w] = 1; } }
  every<vertex_tag>(t, s, sel); every<line_tag>(t, s, sel);
}
// a view of the mesh that is filled handle by handle
template <typename X, typename W> static void add_handles(TM<X> &t, W &w, int i)
{ typedef typename result_of::cell<X>::type C; typedef typename result_of::element_range<C, vertex_tag>::type VR; typedef typename result_of::element_range<C, line_tag>::type LR; VR v(t[i]); for (typename result_of::iterator<VR>::type k = v.begin(); k != v.end(); ++k) add_single_handle(w, k.handle()); LR l(t[i]); for (typename result_of::iterator<LR>::type k = l.begin(); k != l.end(); ++k) add_single_handle(w, k.handle()); add_single_handle(w, t.ch[i]); }
VS_HARNESS(view_grows)
{
  typedef triangular_2d_mesh M; typedef result_of::mesh_view<M>::type W; TM<M> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); W w = make_view(t.m); IV sel(3, 0);
  for (int k = 0; k < 3; ++k) { int i = vs_pick("cell", 3); add_handles(t, w, i); sel[i] = 1; if (k < 2 && vs_pick("query", 2)) { verify(t, w, &sel); verify(t, t.m); } } verify(t, w, &sel); verify(t, t.m);
}
VS_HARNESS(view_grows_by_cell)
{ // all edges and vertices are in the view, the cells follow
  typedef triangular_2d_mesh M; typedef result_of::mesh_view<M>::type W; TM<M> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); W w = make_view(t.m); IV sel(3, 0); typedef result_of::line_range<M>::type LR; LR l(t.m); for (result_of::iterator<LR>::type k = l.begin(); k != l.end(); ++k) add_single_handle(w, k.handle()); for (int i = 0; i < 5; ++i) add_single_handle(w, t.h[i]);
  for (int k = 0; k < 3; ++k) { int i = vs_pick("cell", 3); add_single_handle(w, t.ch[i]); sel[i] = 1; if (k == 2 || vs_pick("query", 2)) { every<line_tag>(t, w, sel); every<vertex_tag>(t, w, sel); } }
}
// cells are erased from a view and come back
VS_HARNESS(view_shrinks)
{
  typedef triangular_2d_mesh M; typedef result_of::mesh_view<M>::type W; TM<M> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); W w = make_view(t.m); IV sel(3, 0); typedef result_of::line_range<M>::type LR; LR l(t.m); for (result_of::iterator<LR>::type k = l.begin(); k != l.end(); ++k) add_single_handle(w, k.handle()); for (int i = 0; i < 5; ++i) add_single_handle(w, t.h[i]); for (int i = 0; i < 3; ++i) { add_single_handle(w, t.ch[i]); sel[i] = 1; }
  for (int k = 0; k < 3; ++k) { if (k == 2 || vs_pick("query", 2)) { every<line_tag>(t, w, sel); every<vertex_tag>(t, w, sel); } if (k == 2) break; int i = vs_pick("cell", 3); if (sel[i]) erase_element(w, t.ch[i]); else add_single_handle(w, t.ch[i]); sel[i] = !sel[i]; } verify(t, t.m);
}
