// Thin meshes: only cells and vertices are stored.
// BOUND: thin triangular 2d/3d, quadrilateral 2d, tetrahedral and hexahedral meshes of 1-3 cells, symbolic coordinates in [-10,10]; any cell or vertex deleted, any assignment of cells to two segments with one cell erased from a segment or created through it, copies followed by a deletion in either mesh
#include "ranges.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
typedef mesh<config::thin_quadrilateral_2d> thin_quadrilateral_2d_mesh; typedef mesh<config::thin_hexahedral_3d> thin_hexahedral_3d_mesh;
// the mesh has exactly these vertices and cells (vertex lists), and incidence agrees
template <typename X> static IV order(X &m, typename viennagrid::result_of::cell<X>::type &c) { IV v; Obs<X> o(m); for (std::size_t i = 0; i < vertices(c).size(); ++i) v.push_back(o.key(vertices(c)[i])); return v; }
template <typename X> static void thin(X &m, IS const &vs, std::vector<IV> const &cs)
{
  typedef typename CT<X>::T T; typedef typename viennagrid::result_of::cell<X>::type C; finds<vertex_tag>(m, m); finds<T>(m, m); bounds<vertex_tag>(m); ends(m); Obs<X> o(m);
  typedef typename viennagrid::result_of::vertex_range<X>::type VR; typedef typename viennagrid::result_of::cell_range<X>::type CR; VR vr(m); CR cr(m); IS g; for (typename viennagrid::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) g.insert(o.key(*it)); CHECKM(g == vs && vr.size() == vs.size(), "the vertices of the mesh");
  std::vector<IV> l; for (typename viennagrid::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) l.push_back(order(m, *it)); std::vector<IV> a = l, b = cs; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECKM(a == b, "the cells of the mesh with the order of their vertices");
  typedef typename viennagrid::result_of::coboundary_range<X, vertex_tag, T>::type B; typedef typename viennagrid::result_of::neighbor_range<X, T, vertex_tag>::type N;
  for (typename viennagrid::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) { B q(m, it.handle()); ISS e, f; std::size_t n = 0; for (std::size_t i = 0; i < cs.size(); ++i) if (st(cs[i]).count(o.key(*it))) e.insert(st(cs[i])); for (typename viennagrid::result_of::iterator<B>::type k = q.begin(); k != q.end(); ++k, ++n) f.insert(st(order(m, *k))); CHECKM(e == f && n == e.size() && q.size() == n, "the cells at a vertex"); }
  for (typename viennagrid::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) { N q(m, it.handle()); IS me = st(order(m, *it)); ISS e, f; std::size_t n = 0; for (std::size_t i = 0; i < cs.size(); ++i) { IS x = st(cs[i]); if (x == me) continue; bool s = false; for (IS::iterator k = x.begin(); k != x.end(); ++k) if (me.count(*k)) s = true; if (s) e.insert(x); } for (typename viennagrid::result_of::iterator<N>::type k = q.begin(); k != q.end(); ++k, ++n) f.insert(st(order(m, *k))); CHECKM(e == f && n == e.size(), "the cells that share a vertex with a cell"); }
}
static void gone(IS &vs, std::vector<IV> &cs, int v) { vs.erase(v); std::vector<IV> r; for (std::size_t i = 0; i < cs.size(); ++i) if (!st(cs[i]).count(v)) r.push_back(cs[i]); cs = r; }
template <typename X> static void topo(int nv, std::vector<IV> const &cs)
{
  typedef typename CT<X>::T T; TM<X> t; t.vertices(nv); IS vs = st(iota_(nv)); std::vector<IV> c; for (std::size_t i = 0; i < cs.size(); ++i) t.cell(cs[i]); c = cs; int q = vs_pick("queried", 2); if (q) thin(t.m, vs, c);
  X copy0(t.m); X b; b = t.m; IS vb = vs; std::vector<IV> cb = c; int what = vs_pick("what", 4), k = vs_pick("which", what == 1 ? nv : (int)cs.size());
  if (what == 0) { erase_element(t.m, t.ch[k]); c.erase(c.begin() + k); } else if (what == 1) { erase_element(t.m, t.h[k]); gone(vs, c, k); } else if (what == 2) { Obs<X> o(b); erase_element(b, o.template at<T>(st(cs[k]))); cb.erase(cb.begin() + k); } else { typename viennagrid::result_of::mesh_view<X>::type v = make_view(t.m); elements<T>(v).insert_handle(t.ch[k]); elements<vertex_tag>(v).insert_handle(t.h[0]); finds<T>(t.m, v); finds<vertex_tag>(t.m, v); CHECKM(elements<T>(v).size() == 1 && elements<vertex_tag>(v).size() == 1, "size of a view"); elements<T>(v).erase_handle(t.ch[k]); CHECKM(elements<T>(v).size() == 0, "size of a view"); }
  thin(t.m, vs, c); thin(b, vb, cb); thin(copy0, st(iota_(nv)), cs);
}
static std::vector<IV> quad2() { std::vector<IV> c; c.push_back(iv(0, 1, 2, 3)); c.push_back(iv(4, 2, 5, 3)); return c; }
static std::vector<IV> hex1() { return std::vector<IV>(1, iota_(8)); }
VS_HARNESS(triangles_2d) { topo<thin_triangular_2d_mesh>(6, tris(3)); }
VS_HARNESS(triangles_3d) { topo<thin_triangular_3d_mesh>(5, tris(2)); }
VS_HARNESS(quads) { topo<thin_quadrilateral_2d_mesh>(6, quad2()); }
VS_HARNESS(tetrahedra) { topo<thin_tetrahedral_3d_mesh>(6, tet2()); }
VS_HARNESS(hexahedra) { topo<thin_hexahedral_3d_mesh>(8, hex1()); }
// segments
template <typename X> static void seg_is(X &m, typename viennagrid::result_of::segment_handle<typename viennagrid::result_of::segmentation<X>::type>::type &s, std::vector<IV> const &cs)
{ typedef typename viennagrid::result_of::segment_handle<typename viennagrid::result_of::segmentation<X>::type>::type H; typedef typename CT<X>::T T; finds<T>(m, s); finds<vertex_tag>(m, s); Obs<H> o(s); ISS e, v; std::size_t n; for (std::size_t i = 0; i < cs.size(); ++i) { e.insert(st(cs[i])); v = join(v, subsets(cs[i], 1)); } CHECKM(o.template get<T>(&n) == e && n == e.size(), "cells of the segment"); ISS g = o.template get<vertex_tag>(&n); CHECKM(std::includes(g.begin(), g.end(), v.begin(), v.end()) && n == g.size(), "the vertices of the cells of a segment are in the segment");
  typedef typename viennagrid::result_of::cell_range<X>::type CR; CR cr(m); for (typename viennagrid::result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) CHECKM(is_in_segment(s, *it) == (e.count(st(order(m, *it))) > 0), "membership of a cell"); typedef typename viennagrid::result_of::vertex_range<X>::type VR; VR vr(m); Obs<X> om(m); for (typename viennagrid::result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) CHECKM(is_in_segment(s, *it) == (g.count(om.of(*it, vertex_tag())) > 0), "membership of a vertex"); }
template <typename X> static void segs(int nv, std::vector<IV> const &cs, IV const &extra)
{
  typedef typename viennagrid::result_of::segmentation<X>::type S; typedef typename viennagrid::result_of::segment_handle<S>::type H; TM<X> t; t.vertices(nv); for (std::size_t i = 0; i < cs.size(); ++i) t.cell(cs[i]); S s(t.m); H h[2] = {s.make_segment(), s.make_segment()}; std::vector<IV> in[2], all = cs;
  for (std::size_t i = 0; i < cs.size(); ++i) { int k = vs_pick("segments", 4); for (int j = 0; j < 2; ++j) if (k >> j & 1) { add(h[j], t[(int)i]); in[j].push_back(cs[i]); } } for (int j = 0; j < 2; ++j) { seg_is(t.m, h[j], in[j]); std::set<int> used; IS g; Obs<H> o(h[j]); ISS v; for (std::size_t i = 0; i < in[j].size(); ++i) v = join(v, subsets(in[j][i], 1)); CHECKM(o.template get<vertex_tag>() == v, "vertices of the segment"); }
  int what = vs_pick("what", 3); if (what == 1) { addc(h[1], t.h, &extra[0], (int)extra.size()); in[1].push_back(extra); all.push_back(extra); } else if (what == 2 && !in[0].empty()) { int i = 0; while (cs[i] != in[0][0]) ++i; erase(h[0], t[i]); in[0].erase(in[0].begin()); }
  for (int j = 0; j < 2; ++j) seg_is(t.m, h[j], in[j]); thin(t.m, st(iota_(nv)), all);
  for (std::size_t i = 0; i < cs.size(); ++i) { std::set<int> want, got; for (int j = 0; j < 2; ++j) if (std::find(in[j].begin(), in[j].end(), cs[i]) != in[j].end()) want.insert(h[j].id()); typedef typename viennagrid::result_of::segment_id_range<S, typename viennagrid::result_of::cell<X>::type>::type SR; SR a = segment_ids(s, t[(int)i]); for (typename SR::const_iterator k = a.begin(); k != a.end(); ++k) got.insert(*k); CHECKM(got == want, "segment ids of a cell"); }
}
VS_HARNESS(segments_triangles) { segs<thin_triangular_2d_mesh>(6, tris(3), iv(0, 4, 5)); }
VS_HARNESS(segments_tetrahedra) { segs<thin_tetrahedral_3d_mesh>(6, tet2(), iv(0, 1, 4, 5)); }
// the geometry is that of the same mesh with all elements
template <typename X, typename Y> static void geo(int nv, std::vector<IV> const &cs)
{
  X a; Y b; typedef typename viennagrid::result_of::point<X>::type P; typename VH<X>::V ha; typename VH<Y>::V hb; std::vector<P> p; for (int i = 0; i < nv; ++i) { P q; for (std::size_t k = 0; k < q.size(); ++k) q[k] = vs_real("p", -10, 10); p.push_back(q); ha.push_back(make_vertex(a, q)); hb.push_back(make_vertex(b, q)); }
  for (std::size_t i = 0; i < cs.size(); ++i) { addc(a, ha, &cs[i][0], (int)cs[i].size()); addc(b, hb, &cs[i][0], (int)cs[i].size()); }
  EQ(volume(a), volume(b)); for (std::size_t i = 0; i < cs.size(); ++i) { EQ(volume(cells(a)[i]), volume(cells(b)[i])); P c = centroid(cells(a)[i]), d = centroid(cells(b)[i]); for (std::size_t k = 0; k < c.size(); ++k) EQ(c[k], d[k]); }
  double f = vs_real("f", 1, 3); scale(a, f); for (int i = 0; i < nv; ++i) for (std::size_t k = 0; k < p[i].size(); ++k) EQ(point(a, ha[i])[k], f * p[i][k]);
}
VS_HARNESS(geometry_triangles) { geo<thin_triangular_2d_mesh, triangular_2d_mesh>(4, tris(2)); }
VS_HARNESS(geometry_tetrahedra) { geo<thin_tetrahedral_3d_mesh, tetrahedral_3d_mesh>(5, tet2()); }
VS_HARNESS(geometry_quads) { geo<thin_quadrilateral_2d_mesh, quadrilateral_2d_mesh>(4, std::vector<IV>(1, iv(0, 1, 2, 3))); }
