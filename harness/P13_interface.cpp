// Interface between two segments: which facets, edges and vertices are on it, at any time.
// BOUND: conforming meshes of 3 triangles, 2-3 tetrahedra, 4 lines, 3 quadrilaterals; every assignment of the cells to one of two segments or none; queries with the segments in either order, interleaved with any 2 (thorough 3) later moves of cells between the segments; vertex ids arbitrary in one instance
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/algorithm/interface.hpp"
using namespace viennagrid;
template <typename X> struct World {
  typedef typename result_of::segmentation<X>::type S; typedef typename result_of::segment_handle<S>::type H; TM<X> t; S sg; std::vector<H> s; IV of; // of: segment of each cell, 2 = none
  World() : sg(t.m) { s.push_back(sg.make_segment()); s.push_back(sg.make_segment()); s.push_back(sg.make_segment()); }
  void put(int i, int w) { if ((int)of.size() <= i) of.resize(i + 1, 2); if (of[i] == w) return; if (of[i] != 2) erase(s[of[i]], t[i]); if (w != 2) add(s[w], t[i]); of[i] = w; }
  bool facet_on(IS const &f) const { int a = 0, b = 0; for (std::size_t i = 0; i < of.size(); ++i) if (Ref<typename CT<X>::T>::faces(t.c[i], Ref<typename CT<X>::T>::dim - 1).count(f)) { a += of[i] == 0; b += of[i] == 1; } return a && b; }
  bool on(IS const &q) const { ISS f = t.all(Ref<typename CT<X>::T>::dim - 1); for (ISS::iterator i = f.begin(); i != f.end(); ++i) if (std::includes(i->begin(), i->end(), q.begin(), q.end()) && facet_on(*i)) return true; return false; }
  template <typename T> void one(int order) { typedef typename result_of::element_range<X, T>::type R; typedef typename result_of::iterator<R>::type I; R r(t.m); PosOf<X> p(t.m, t.h); for (I it = r.begin(); it != r.end(); ++it) { IS q = p(*it); bool e = on(q); CHECKM((order ? is_interface(s[1], s[0], *it) : is_interface(s[0], s[1], *it)) == e, "an element is on the interface exactly if it lies on a facet between a cell of each segment"); } }
  void low(int o, line_tag) { one<vertex_tag>(o); }
  template <typename T> void low(int o, T) { one<vertex_tag>(o); one<line_tag>(o); }
  void low(int o, tetrahedron_tag) { one<triangle_tag>(o); one<line_tag>(o); one<vertex_tag>(o); }
  void check(int o) { low(o, typename CT<X>::T()); }
  void moves(int n) { int k = (int)t.c.size(); if (vs_pick("query", 2)) check(vs_pick("order", 2)); for (int j = 0; j < n; ++j) { int i = vs_pick("cell", k); put(i, (of[i] + 1 + vs_pick("to", 2)) % 3); if (j + 1 < n && vs_pick("query", 2)) check(j & 1); } check(0); check(1); }
};
static IV iv(int a, int b, int c = -1, int d = -1) { IV v; v.push_back(a); v.push_back(b); if (c >= 0) v.push_back(c); if (d >= 0) v.push_back(d); return v; }
template <typename X> static void assign(World<X> &w) { for (std::size_t i = 0; i < w.t.c.size(); ++i) w.put((int)i, vs_pick("assign", 3)); w.of.resize(w.t.c.size(), 2); }
static int K(int q, int t) { return vs_tier() ? t : q; }
VS_HARNESS(triangles) { World<triangular_2d_mesh> w; w.t.vertices(5); w.t.cell(iv(0, 1, 2)); w.t.cell(iv(1, 2, 3)); w.t.cell(iv(3, 2, 4)); assign(w); w.moves(K(1, 2)); }
VS_HARNESS(triangles_two_moves) { World<triangular_2d_mesh> w; w.t.vertices(5); w.t.cell(iv(0, 1, 2)); w.t.cell(iv(1, 2, 3)); w.t.cell(iv(3, 2, 4)); w.put(0, 0); w.put(1, 1); w.put(2, 0); w.moves(K(2, 3)); }
VS_HARNESS(triangles_3d) { World<triangular_3d_mesh> w; w.t.vertices(5); w.t.cell(iv(0, 1, 2)); w.t.cell(iv(1, 2, 3)); w.t.cell(iv(3, 2, 4)); assign(w); w.check(vs_pick("order", 2)); }
VS_HARNESS(lines) { World<line_1d_mesh> w; w.t.vertices(5); for (int i = 0; i < 4; ++i) w.t.cell(i & 1 ? iv(i, i + 1) : iv(i + 1, i)); assign(w); w.moves(1); }
VS_HARNESS(quads) { World<quadrilateral_2d_mesh> w; w.t.vertices(8); w.t.cell(iv(0, 1, 2, 3)); w.t.cell(iv(1, 4, 3, 5)); w.t.cell(iv(2, 3, 6, 7)); assign(w); w.moves(1); }
VS_HARNESS(tetrahedra) { World<tetrahedral_3d_mesh> w; w.t.vertices(6); w.t.cell(iv(0, 1, 2, 3)); w.t.cell(iv(4, 1, 2, 3)); if (vs_tier()) w.t.cell(iv(4, 5, 1, 2)); assign(w); w.moves(1); }
// every way in which a second triangle / tetrahedron can meet the first
VS_HARNESS(any_two_triangles) { World<triangular_2d_mesh> w; w.t.vertices(6); w.t.cell(iota_(3)); IV b; if (!w.t.pick_conforming(6, b)) return; if (vs_pick("reversed", 2)) std::reverse(b.begin(), b.end()); w.t.cell(b); w.put(0, 0); w.put(1, 1); w.check(vs_pick("order", 2)); }
VS_HARNESS(any_two_tetrahedra) { World<tetrahedral_3d_mesh> w; w.t.vertices(7); w.t.cell(iota_(4)); IV b; if (!w.t.pick_conforming(7, b)) return; if (vs_pick("reversed", 2)) std::reverse(b.begin(), b.end()); w.t.cell(b); w.put(0, 1); w.put(1, 0); w.check(vs_pick("order", 2)); }
// clearing a segment
VS_HARNESS(cleared) { World<triangular_2d_mesh> w; w.t.vertices(4); w.t.cell(iv(0, 1, 2)); w.t.cell(iv(1, 2, 3)); w.put(0, 0); w.put(1, 1); if (vs_pick("query", 2)) w.check(0); int k = vs_pick("which", 2); clear(w.s[k]); for (int i = 0; i < 2; ++i) if (w.of[i] == k) w.of[i] = 2; w.check(vs_pick("order", 2)); w.put(k, k); w.check(1); }
// arbitrary vertex ids: whether the cells share the facet depends on id comparisons
VS_HARNESS(symbolic_ids)
{
  typedef triangular_2d_mesh M; typedef result_of::element<M, vertex_tag>::type::id_type ID; World<M> w; int id[4]; for (int i = 0; i < 4; ++i) { id[i] = vs_int("id", 0, vs_tier() ? 5 : 4); for (int j = 0; j < i; ++j) vs_assume(id[i] != id[j]); } for (int i = 0; i < 4; ++i) w.t.h.push_back(make_vertex_with_id(w.t.m, ID(id[i]), P2(i, 0)));
  w.t.cell(iota_(3)); w.t.cell(iv(3, 2, 1)); w.put(0, 0); w.put(1, 1); w.check(0); w.check(1);
}
// three segments: each pair has its own interface
VS_HARNESS(pairs)
{
  World<triangular_2d_mesh> w; w.t.vertices(5); w.t.cell(iv(0, 1, 2)); w.t.cell(iv(1, 2, 3)); w.t.cell(iv(3, 2, 4)); IV of(3); for (int i = 0; i < 3; ++i) { of[i] = vs_pick("seg", 3); add(w.s[of[i]], w.t[i]); }
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) { for (int i = 0; i < 3; ++i) w.of.resize(3), w.of[i] = of[i] == a ? 0 : of[i] == b ? 1 : 2; typedef result_of::element_range<triangular_2d_mesh, line_tag>::type R; R r(w.t.m); PosOf<triangular_2d_mesh> p(w.t.m, w.t.h); for (result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) CHECKM(is_interface(w.s[a], w.s[b], *it) == w.on(p(*it)), "interface of every pair of segments"); }
}
