// Coboundary and neighbour iteration.
// BOUND: conforming meshes of up to 3 triangles on 5 vertices, 2-3 tetrahedra on 5-6 vertices, 3 lines, 2-3 quadrilaterals, 2 polygons, 2 hexahedra, in any combination of vertices; queries interleaved at any point of the construction; every assignment of cells to up to two segments; const and non-const access; meshes with id, iterator and pointer handles in vectors, lists and deques
#include "incid.hpp"
template <typename X> static void grow(int verts, int cells_)
{
  TM<X> t; t.vertices(verts); t.cell(iota_(Ref<typename CT<X>::T>::nv));
  for (int i = 1; i < cells_; ++i) { if (vs_pick("query", 2)) verify(t, t.m); IV b; if (!t.pick_conforming(verts, b)) break; t.cell(b); } verify(t, t.m); verify(t, t.m);
}
VS_HARNESS(triangles_2d) { grow<triangular_2d_mesh>(5, 3); }
VS_HARNESS_THOROUGH(four_triangles_2d) { grow<triangular_2d_mesh>(5, 4); }
VS_HARNESS(tetrahedra_3d) { grow<tetrahedral_3d_mesh>(6, 2); }
VS_HARNESS_THOROUGH(three_tetrahedra_3d) { grow<tetrahedral_3d_mesh>(6, 3); }
VS_HARNESS(lines_1d) { grow<line_1d_mesh>(4, 3); }
VS_HARNESS(lines_3d) { grow<line_3d_mesh>(4, 3); }
static IV iv(int a, int b, int c, int d = -1) { IV v; v.push_back(a); v.push_back(b); v.push_back(c); if (d >= 0) v.push_back(d); return v; }
static const int QE[4][2] = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 2, 3 } };
VS_HARNESS(quadrilaterals_2d)
{ TM<quadrilateral_2d_mesh> t; t.vertices(8); t.cell(iota_(4)); if (vs_pick("query", 2)) verify(t, t.m); int e = vs_pick("e", 4), f = vs_pick("f", 4), d = vs_pick("d", 2); IV b(4, -1); b[QE[f][0]] = QE[e][d]; b[QE[f][1]] = QE[e][1 - d]; int nx = 4; for (int i = 0; i < 4; ++i) if (b[i] < 0) b[i] = nx++; t.cell(b); verify(t, t.m); t.cell(iv(b[2], 6, b[3], 7)); verify(t, t.m); }
VS_HARNESS(polygons_2d)
{ TM<polygonal_2d_mesh> t; t.vertices(8); t.cell(iota_(5)); int s = vs_pick("edge", 5), d = vs_pick("dir", 2), n = vs_pick("extra", 2); int x = s, y = (s + 1) % 5; if (d) std::swap(x, y); IV b; b.push_back(x); b.push_back(y); b.push_back(5); b.push_back(6); if (n) b.push_back(7); if (vs_pick("query", 2)) verify(t, t.m); t.cell(b); verify(t, t.m); }
static IV glue(int fd, int fs, int gd, int gs, int rot, int mir)
{ int q[4], k = 0, g[4], l = 0; IV b(8, -1); for (int i = 0; i < 8; ++i) { if ((i >> fd & 1) == fs) q[k++] = i; if ((i >> gd & 1) == gs) g[l++] = i; } static const int cyc[4] = { 0, 1, 3, 2 }; for (int i = 0; i < 4; ++i) b[g[cyc[i]]] = q[cyc[mir ? (8 - i + rot) % 4 : (i + rot) % 4]]; int nx = 8; for (int i = 0; i < 8; ++i) if (b[i] < 0) b[i] = nx++; return b; }
VS_HARNESS(hexahedra_3d)
{ TM<hexahedral_3d_mesh> t; t.vertices(12); t.cell(iota_(8)); int fd = vs_pick("fdir", 3), fs = vs_pick("fside", 2), gd = vs_tier() ? vs_pick("gdir", 3) : 2, gs = vs_pick("gside", 2), rot = vs_pick("rot", vs_tier() ? 4 : 2), mir = vs_pick("mirror", 2); t.cell(glue(fd, fs, gd, gs, rot, mir)); verify(t, t.m); }
VS_HARNESS(symbolic_ids)
{
  typedef triangular_2d_mesh M; typedef result_of::element<M, vertex_tag>::type::id_type ID; TM<M> t; int id[4] = { 1, 3, 5, 7 }, k = vs_pick("which", 4); id[k] = vs_int("id", 0, 8); for (int i = 0; i < 4; ++i) if (i != k) vs_assume(id[k] != id[i]); for (int i = 0; i < 4; ++i) t.h.push_back(make_vertex_with_id(t.m, ID(id[i]), P2(i, 0)));
  t.cell(iota_(3)); t.cell(iv(3, 2, 1)); verify(t, t.m);
}
VS_HARNESS(segments_triangles) { TM<triangular_2d_mesh> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); segs(t, true); }
VS_HARNESS(segments_tetrahedra) { TM<tetrahedral_3d_mesh> t; t.vertices(6); t.cell(iv(0, 1, 2, 3)); t.cell(iv(4, 1, 2, 3)); t.cell(iv(4, 5, 1, 2)); segs(t, vs_tier() > 0); }
VS_HARNESS(copied_mesh)
{
  typedef triangular_2d_mesh M; TM<M> t; t.vertices(4); t.cell(iv(0, 1, 2)); if (vs_pick("query", 2)) verify(t, t.m); TM<M> u; if (vs_pick("assign", 2)) u.m = t.m; else { M c(t.m); u.m = c; } u.c = t.c; for (int i = 0; i < 4; ++i) u.h.push_back(viennagrid::vertices(u.m).handle_at(i)); u.ch.push_back(cells(u.m).handle_at(0)); if (vs_pick("query2", 2)) verify(u, u.m); u.cell(iv(3, 1, 2)); verify(u, u.m); verify(t, t.m);
}
// cells leave a segment again (their edges stay in it): the ranges follow the cells the segment has now
VS_HARNESS(segment_shrinks)
{
  typedef triangular_2d_mesh M; typedef result_of::segmentation<M>::type S; typedef result_of::segment_handle<S>::type H; TM<M> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); S sg(t.m); H s = sg.make_segment(); IV sel(3, 0); for (int i = 0; i < 3; ++i) { add(s, t[i]); sel[i] = 1; }
  for (int k = 0; k <= 2; ++k) { if (k == 2 || vs_pick("query", 2)) { cob<vertex_tag, triangle_tag>(t, s, &sel); cob<line_tag, triangle_tag>(t, s, &sel); nei<triangle_tag, line_tag>(t, s, &sel); nei<triangle_tag, vertex_tag>(t, s, &sel); } if (k == 2) break; int w = vs_pick("leave", 4); if (w == 3) { clear(s); sel = IV(3, 0); } else if (sel[w]) { erase(s, t[w]); sel[w] = 0; } else { add(s, t[w]); sel[w] = 1; } }
}
// a view of the mesh whose cells are added handle by handle
VS_HARNESS(view_grows)
{
  typedef triangular_2d_mesh M; typedef result_of::mesh_view<M>::type W; TM<M> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); W w = make_view(t.m); IV sel(3, 0); typedef result_of::line_range<M>::type LR; LR l(t.m); for (result_of::iterator<LR>::type k = l.begin(); k != l.end(); ++k) add_single_handle(w, k.handle()); for (int i = 0; i < 5; ++i) add_single_handle(w, t.h[i]);
  for (int k = 0; k < 3; ++k) { int i = vs_pick("cell", 3); add_single_handle(w, t.ch[i]); sel[i] = 1; if (k == 2 || vs_pick("query", 2)) { cob<vertex_tag, triangle_tag>(t, w, &sel); cob<line_tag, triangle_tag>(t, w, &sel); nei<triangle_tag, line_tag>(t, w, &sel); nei<triangle_tag, vertex_tag>(t, w, &sel); } }
}
VS_HARNESS(view_shrinks)
{
  typedef triangular_2d_mesh M; typedef result_of::mesh_view<M>::type W; TM<M> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); W w = make_view(t.m); IV sel(3, 0); typedef result_of::line_range<M>::type LR; LR l(t.m); for (result_of::iterator<LR>::type k = l.begin(); k != l.end(); ++k) add_single_handle(w, k.handle()); for (int i = 0; i < 5; ++i) add_single_handle(w, t.h[i]); for (int i = 0; i < 3; ++i) { add_single_handle(w, t.ch[i]); sel[i] = 1; }
  for (int k = 0; k <= 2; ++k) { if (k == 2 || vs_pick("query", 2)) { cob<vertex_tag, triangle_tag>(t, w, &sel); cob<line_tag, triangle_tag>(t, w, &sel); nei<triangle_tag, line_tag>(t, w, &sel); nei<triangle_tag, vertex_tag>(t, w, &sel); } if (k == 2) break; int i = vs_pick("cell", 3); if (sel[i]) erase_element(w, t.ch[i]); else add_single_handle(w, t.ch[i]); sel[i] = !sel[i]; }
}
// a view need not have the vertices and edges of its cells
VS_HARNESS(view_of_cells)
{
  typedef triangular_2d_mesh M; typedef result_of::mesh_view<M>::type W; TM<M> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(3, 2, 4)); W w = make_view(t.m); IV sel(3, 0); typedef result_of::line_range<M>::type LR; LR l(t.m); PosOf<M> p(t.m, t.h);
  ISS con; for (int k = 0; k < 3; ++k) { int i = vs_pick("cell", 3); add_single_handle(w, t.ch[i]); sel[i] = 1; if (k == 1) { int q = vs_pick("line", 4) * 2, n = 0; for (result_of::iterator<LR>::type j = l.begin(); j != l.end(); ++j, ++n) if (n == q) { add_single_handle(w, j.handle()); con.insert(p(*j)); } } if (k == 1) add_single_handle(w, t.h[vs_pick("vertex", 3) + 1]); if (k == 2 || vs_pick("query", 2)) { cob<vertex_tag, triangle_tag>(t, w, &sel, false); cob<line_tag, triangle_tag>(t, w, &sel, false); nei<triangle_tag, line_tag>(t, w, &sel, &con); } }
}
