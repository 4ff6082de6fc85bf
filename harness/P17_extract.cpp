// Extraction of the boundary of a mesh as a mesh of its own, and of seed points (one per connected part).
// BOUND: conforming meshes of up to 3 triangles, quadrilaterals, tetrahedra (4 triangles, thorough), every way the last cells can meet the first; every assignment of the cells to two segments, both or none; target meshes and segmentations that were used before; symbolic coordinates
#include "obs.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/extract_boundary.hpp"
#include "viennagrid/algorithm/extract_seed_points.hpp"
using namespace viennagrid;
template <typename M> struct Hull;
template <> struct Hull<triangular_2d_mesh> { typedef line_2d_mesh type; };
template <> struct Hull<triangular_3d_mesh> { typedef line_3d_mesh type; };
template <> struct Hull<quadrilateral_2d_mesh> { typedef line_2d_mesh type; };
template <> struct Hull<tetrahedral_3d_mesh> { typedef triangular_3d_mesh type; };
template <> struct Hull<hexahedral_3d_mesh> { typedef quadrilateral_3d_mesh type; };
template <typename M> static void move(TM<M> &t) { for (std::size_t i = 0; i < t.h.size(); ++i) for (std::size_t k = 1; k < point(t.m, t.h[i]).size(); ++k) point(t.m, t.h[i])[k] = vs_real("y", -100, 100); }
// the hull mesh consists of exactly these facets, their vertices (in place) and nothing else
template <typename M, typename HM> static void is_hull(TM<M> &t, HM &hm, ISS const &f)
{
  typedef typename CT<M>::F F; Obs<HM> o(hm); std::size_t n; CHECKM(o.template get<F>(&n) == f, "the hull mesh has exactly the boundary facets"); CHECKM(n == f.size(), "every facet once");
  ISS v; for (ISS::const_iterator i = f.begin(); i != f.end(); ++i) for (IS::const_iterator k = i->begin(); k != i->end(); ++k) { IS q; q.insert(*k); v.insert(q); } CHECKM(o.template get<vertex_tag>(&n) == v, "the hull mesh has exactly the vertices of the boundary"); CHECKM(n == v.size(), "every vertex once");
  typedef typename result_of::vertex_range<HM>::type R; R r(hm); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { int i = o.key(*it); for (std::size_t k = 0; k < point(hm, *it).size(); ++k) EQ(point(hm, *it)[k], point(t.m, t.h[i])[k]); }
  // a facet keeps the cyclic order of its vertices
  typedef typename result_of::element_range<M, F>::type FR; FR fr(t.m); Obs<M> om(t.m); for (typename result_of::iterator<FR>::type it = fr.begin(); it != fr.end(); ++it) { IS q = om.of(*it, F()); if (!f.count(q)) continue; typename result_of::element<HM, F>::type &e = dereference_handle(hm, o.template at<F>(q)); for (std::size_t k = 0; k < q.size(); ++k) CHECKM(o.key(vertices(e)[k]) == om.key(vertices(*it)[k]), "a facet keeps the order of its vertices"); }
}
template <typename M> static ISS facets_of(TM<M> &t, std::vector<int> const *sel = 0) { std::map<IS, int> n = t.facet_count(sel); ISS f; for (std::map<IS, int>::iterator i = n.begin(); i != n.end(); ++i) if (i->second == 1) f.insert(i->first); return f; }
static void dirty(line_2d_mesh &m) { VH<line_2d_mesh>::V h; h.push_back(addv(m, P2(0, 0))); h.push_back(addv(m, P2(1, 7))); h.push_back(addv(m, P2(77, 7))); int a[2] = {0, 1}, b[2] = {2, 1}; addc(m, h, a, 2); addc(m, h, b, 2); }
static void dirty(triangular_3d_mesh &m) { VH<triangular_3d_mesh>::V h; h.push_back(addv(m, P3(0, 0, 0))); h.push_back(addv(m, P3(1, 7, 0))); h.push_back(addv(m, P3(77, 7, 0))); int a[3] = {0, 1, 2}; addc(m, h, a, 3); }
template <typename X> static void dirty(X &) {}
template <typename M> static void plain(TM<M> &t) { typename Hull<M>::type hm; if (vs_pick("used", 2)) dirty(hm); int n = (int)t.c.size(); extract_boundary(t.m, hm); is_hull(t, hm, facets_of(t)); CHECKM(cells(t.m).size() == (std::size_t)n, "the mesh is not changed"); }
// with a segmentation: the boundary of every segment, facets between segments once but in both segments
template <typename M> static void segmented(TM<M> &t, bool again)
{
  typedef typename Hull<M>::type HM; typedef typename result_of::segmentation<M>::type S; typedef typename result_of::segmentation<HM>::type HS; S sg(t.m); HM hm; HS hs(hm); std::vector<int> in[2]; int id[2] = {3, 1}; for (int k = 0; k < 2; ++k) { sg.get_make_segment(id[k]); in[k].resize(t.c.size()); }
  if (again) { dirty(hm); typename result_of::cell_range<HM>::type r(hm); add(hs.get_make_segment(1), r[0]); add(hs.get_make_segment(5), r[0]); }
  for (std::size_t i = 0; i < t.c.size(); ++i) { int g = vs_pick("segments", 4); for (int k = 0; k < 2; ++k) if (g >> k & 1) { add(sg.get_make_segment(id[k]), t[(int)i]); in[k][i] = 1; } }
  extract_boundary(t.m, sg, hm, hs); ISS all; for (int k = 0; k < 2; ++k) { ISS f = facets_of(t, &in[k]); all = join(all, f); CHECKM(hs.find(id[k]) != hs.end(), "every segment has its counterpart"); typename result_of::segment_handle<HS>::type h = hs.at(id[k]); Obs<typename result_of::segment_handle<HS>::type> o(h); std::size_t n; CHECKM(o.template get<typename CT<M>::F>(&n) == f, "a hull segment has exactly the boundary facets of the segment"); CHECKM(n == f.size(), "every facet once in the segment"); }
  is_hull(t, hm, all); for (typename HS::iterator it = hs.begin(); it != hs.end(); ++it) if (it->id() != 3 && it->id() != 1) CHECKM(elements<vertex_tag>(*it).empty(), "other segments of the hull mesh are empty");
}
VS_HARNESS(triangles) { TM<triangular_2d_mesh> t; t.vertices(6); t.cell(iota_(3)); for (int i = 0; i < 1 + vs_tier(); ++i) { IV b; if (!t.pick_conforming(6, b)) return; t.cell(b); } move(t); plain(t); }
VS_HARNESS(triangle_strip) { TM<triangular_2d_mesh> t; t.vertices(6); t.cell(iv(1, 0, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(4, 2, 3)); if (vs_tier()) t.cell(iv(4, 5, 0)); move(t); if (vs_pick("kind", 2)) segmented(t, vs_pick("used", 2)); else plain(t); }
VS_HARNESS(triangles_3d) { TM<triangular_3d_mesh> t; t.vertices(5); t.cell(iota_(3)); IV b; if (!t.pick_conforming(5, b)) return; t.cell(b); move(t); if (vs_pick("kind", 2)) segmented(t, false); else plain(t); }
VS_HARNESS(quads) { TM<quadrilateral_2d_mesh> t; t.vertices(8); t.cell(iv(0, 1, 2, 3)); t.cell(iv(1, 4, 3, 5)); t.cell(iv(2, 3, 6, 7)); move(t); if (vs_pick("kind", 2)) segmented(t, false); else plain(t); }
VS_HARNESS(tetrahedra) { TM<tetrahedral_3d_mesh> t; t.vertices(7); t.cell(iv(1, 0, 2, 3)); IV b; if (!t.pick_conforming(vs_tier() ? 7 : 6, b)) return; t.cell(b); move(t); plain(t); }
VS_HARNESS(tetrahedra_segments) { TM<tetrahedral_3d_mesh> t; t.vertices(6); t.cell(iv(1, 0, 2, 3)); t.cell(iv(4, 3, 1, 2)); if (vs_tier()) t.cell(iv(4, 5, 1, 2)); segmented(t, vs_pick("used", 2)); }
VS_HARNESS(hexahedron) { TM<hexahedral_3d_mesh> t; t.vertices(8); t.cell(iota_(8)); move(t); plain(t); }
// an element type other than the facets
VS_HARNESS(edges_of_tetrahedra)
{ TM<tetrahedral_3d_mesh> t; t.vertices(5); t.cell(iota_(4)); t.cell(iv(4, 2, 3, 1)); line_3d_mesh hm; extract_boundary<line_tag>(t.m, hm); Obs<line_3d_mesh> o(hm); ISS e = t.all(1), w; for (ISS::iterator i = e.begin(); i != e.end(); ++i) if (t.on_boundary(*i)) w.insert(*i); CHECKM(o.get<line_tag>() == w, "edges on the boundary"); }
// without segments in the segmentation the whole boundary is extracted
VS_HARNESS(no_segments) { TM<triangular_2d_mesh> t; t.vertices(4); t.cell(iv(0, 1, 2)); if (vs_pick("cells", 2)) t.cell(iv(3, 2, 1)); result_of::segmentation<triangular_2d_mesh>::type sg(t.m); line_2d_mesh hm; result_of::segmentation<line_2d_mesh>::type hs(hm); if (vs_pick("used", 2)) { dirty(hm); result_of::cell_range<line_2d_mesh>::type r(hm); add(hs.get_make_segment(1), r[0]); } extract_boundary(t.m, sg, hm, hs); is_hull(t, hm, facets_of(t)); }
// the boundary follows later changes of the mesh
VS_HARNESS(after_change) { TM<triangular_2d_mesh> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(3, 2, 1)); line_2d_mesh hm; if (vs_pick("before", 2)) extract_boundary(t.m, hm); IV b; if (!t.pick_conforming(5, b)) return; t.cell(b); extract_boundary(t.m, hm); is_hull(t, hm, facets_of(t)); }
// seed points: one in each part of the mesh connected through facets
template <typename M> static std::vector<IS> parts(TM<M> &t, std::vector<int> const &sel)
{ std::vector<IS> p; for (std::size_t i = 0; i < t.c.size(); ++i) if (sel[i]) { IS s; s.insert((int)i); std::vector<IS> q; ISS fi = Ref<typename CT<M>::T>::faces(t.c[i], Ref<typename CT<M>::T>::dim - 1); for (std::size_t k = 0; k < p.size(); ++k) { bool touch = false; for (IS::iterator c = p[k].begin(); c != p[k].end(); ++c) { ISS fc = Ref<typename CT<M>::T>::faces(t.c[*c], Ref<typename CT<M>::T>::dim - 1); for (ISS::iterator f = fi.begin(); f != fi.end(); ++f) if (fc.count(*f)) touch = true; } if (touch) s.insert(p[k].begin(), p[k].end()); else q.push_back(p[k]); } q.push_back(s); p = q; } return p; }
template <typename M, typename P> static int cell_at(TM<M> &t, P const &p) { for (std::size_t i = 0; i < t.c.size(); ++i) { double x = 0; for (std::size_t k = 0; k < t.c[i].size(); ++k) x += t.c[i][k]; x /= t.c[i].size(); if (p[0] > x - 1e-6 && p[0] < x + 1e-6) { P c = centroid(t[(int)i]); bool y = true; for (std::size_t k = 1; k < p.size(); ++k) y = y && p[k] > c[k] - 1e-6 && p[k] < c[k] + 1e-6; if (y) return (int)i; } } return -1; }
template <typename M, typename V> static void seeds_are(TM<M> &t, V const &pts, std::vector<int> const &sel) { std::vector<IS> p = parts(t, sel); std::vector<int> n(p.size(), 0); CHECKM(pts.size() == p.size(), "one seed point per connected part"); for (std::size_t i = 0; i < pts.size(); ++i) { int c = cell_at(t, pts[i]); CHECKM(c >= 0, "a seed point is the centroid of a cell"); for (std::size_t k = 0; k < p.size(); ++k) if (p[k].count(c)) ++n[k]; } for (std::size_t k = 0; k < p.size(); ++k) CHECKM(n[k] == 1, "a seed point in every connected part"); }
template <typename M> static void seeds(TM<M> &t)
{
  typedef typename result_of::point<M>::type P; std::vector<int> all(t.c.size(), 1); { std::vector<P> s; extract_seed_points(t.m, s); seeds_are(t, s, all); }
  typedef typename result_of::segmentation<M>::type S; S sg(t.m); std::vector<std::pair<P, int> > q; if (vs_pick("segmented", 2)) { std::vector<int> in[2]; int id[2] = {4, 2}; for (int k = 0; k < 2; ++k) { sg.get_make_segment(id[k]); in[k].resize(t.c.size()); } for (std::size_t i = 0; i < t.c.size(); ++i) { int g = vs_pick("in", 3); if (g < 2) { add(sg.get_make_segment(id[g]), t[(int)i]); in[g][i] = 1; } }
    extract_seed_points(t.m, sg, q); std::size_t n = 0; for (int k = 0; k < 2; ++k) { std::vector<P> s; for (std::size_t i = 0; i < q.size(); ++i) if (q[i].second == id[k]) s.push_back(q[i].first); n += s.size(); seeds_are(t, s, in[k]); } CHECKM(n == q.size(), "seed points belong to a segment"); }
  else { extract_seed_points(t.m, sg, q); std::vector<P> s; for (std::size_t i = 0; i < q.size(); ++i) { CHECKM(q[i].second == 0, "segment 0 without segments"); s.push_back(q[i].first); } seeds_are(t, s, all); }
}
VS_HARNESS(seeds_triangles) { TM<triangular_2d_mesh> t; t.vertices(8); t.cell(iv(0, 1, 2)); int n = vs_pick("cells", 3); static const int C[5][3] = {{2, 1, 3}, {4, 5, 6}, {3, 2, 4}, {6, 5, 7}, {0, 5, 7}}; for (int i = 0; i < n + 1; ++i) { int *c = const_cast<int *>(C[(vs_pick("first", 2) + 2 * i) % 5]); IV v(c, c + 3); t.cell(v); if (!t.manifold()) { vs_assume(false); } } seeds(t); }
VS_HARNESS(seeds_tetrahedra) { TM<tetrahedral_3d_mesh> t; t.vertices(6); t.cell(iota_(4)); IV b; if (!t.pick_conforming(6, b)) return; t.cell(b); seeds(t); }
VS_HARNESS(seeds_any_triangles) { TM<triangular_2d_mesh> t; t.vertices(5); t.cell(iota_(3)); for (int i = 0; i < 2; ++i) { IV b; if (!t.pick_conforming(5, b)) return; t.cell(b); } std::vector<P2> s; extract_seed_points(t.m, s); seeds_are(t, s, std::vector<int>(t.c.size(), 1)); }
VS_HARNESS(seeds_of_nothing) { TM<triangular_2d_mesh> t; std::vector<P2> s; extract_seed_points(t.m, s); CHECKM(s.empty(), "no seed point without cells"); line_2d_mesh hm; extract_boundary(t.m, hm); CHECKM(vertices(hm).empty() && cells(hm).empty(), "no hull without cells"); }
// arbitrary ids of the vertices of the mesh
VS_HARNESS(symbolic_ids)
{
  typedef triangular_2d_mesh M; typedef result_of::element<M, vertex_tag>::type::id_type ID; TM<M> t; int id[4]; for (int i = 0; i < 4; ++i) { id[i] = vs_int("id", 0, vs_tier() ? 5 : 4); for (int j = 0; j < i; ++j) vs_assume(id[i] != id[j]); } for (int i = 0; i < 4; ++i) t.h.push_back(make_vertex_with_id(t.m, ID(id[i]), P2(i, 0)));
  t.cell(iota_(3)); t.cell(iv(3, 2, 1)); if (vs_tier()) { if (vs_pick("kind", 2)) segmented(t, false); else plain(t); } else { line_2d_mesh hm; extract_boundary(t.m, hm); is_hull(t, hm, facets_of(t)); }
}
