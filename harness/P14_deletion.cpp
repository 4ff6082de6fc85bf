// Deleting elements from meshes and views.
// BOUND: meshes of 2-3 triangles, 2 tetrahedra, 3 lines or 2-3 quadrilaterals; deletion of any one element of any dimension, then of any second element or of a cell created afterwards; deletion of any subset of the vertices or cells in one call; re-creation of any deleted or surviving cell afterwards
#include "obs.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
using namespace viennagrid;
template <typename T, typename X> static void keep_ids(X &m, std::map<IS, int> const &before) { std::map<IS, int> now = Obs<X>(m).template ids<T>(); for (std::map<IS, int>::iterator i = now.begin(); i != now.end(); ++i) CHECKM(before.count(i->first) && before.find(i->first)->second == i->second, "remaining elements keep their id"); }
template <typename T, typename X> static void kill(X &m, Model &mo) { Obs<X> o(m); if (mo.e[T::dim].empty()) return; int k = vs_pick("victim", (int)mo.e[T::dim].size()); ISS::iterator i = mo.e[T::dim].begin(); while (k--) ++i; IS q = *i; std::map<IS, int> a = o.template ids<vertex_tag>(), b = o.template ids<line_tag>(), c = o.template ids<typename CT<X>::T>(); if (vs_pick("queried", 2)) same(m, mo); erase_element(m, o.template at<T>(q)); drop(mo, q); keep_ids<vertex_tag>(m, a); keep_ids<line_tag>(m, b); keep_ids<typename CT<X>::T>(m, c); }
// re-create any cell of the original mesh whose vertices are still there (once more if it was deleted)
template <typename X> static void again(X &m, Model &mo, std::vector<IV> const &cs) { std::vector<IV> ok; for (std::size_t i = 0; i < cs.size(); ++i) { bool all = true; for (std::size_t k = 0; k < cs[i].size(); ++k) { IS q; q.insert(cs[i][k]); all &= mo.e[0].count(q) > 0; } if (all && std::find(mo.c.begin(), mo.c.end(), cs[i]) == mo.c.end()) ok.push_back(cs[i]); } if (ok.empty()) return; make(m, mo, ok[vs_pick("again", (int)ok.size())]); }
template <typename F, typename X> static void any(X &m, Model &mo, int what) { if (what == 0) kill<vertex_tag>(m, mo); else if (what == 1) kill<F>(m, mo); else kill<typename CT<X>::T>(m, mo); }
template <typename F, typename X> static void run(int nv, std::vector<IV> const &cs, std::vector<IV> const &extra, int second)
{ X m; Model mo; base(m, mo, nv, cs); any<F>(m, mo, vs_pick("kind", 3)); same(m, mo); if (second && vs_pick("then", 2)) any<F>(m, mo, vs_pick("kind2", 3)); else { std::vector<IV> all(cs); all.insert(all.end(), extra.begin(), extra.end()); again(m, mo, all); } same(m, mo); }
VS_HARNESS(triangles) { std::vector<IV> x; x.push_back(iv(0, 2, 4)); x.push_back(iv(0, 1, 4)); run<line_tag, triangular_2d_mesh>(5, tris(3), x, 1); }
VS_HARNESS(triangles_3d) { std::vector<IV> x; x.push_back(iv(0, 2, 4)); run<line_tag, triangular_3d_mesh>(5, tris(2), x, vs_tier()); }
VS_HARNESS(lines) { std::vector<IV> c, x; c.push_back(iv(0, 1)); c.push_back(iv(2, 1)); c.push_back(iv(2, 3)); x.push_back(iv(3, 0)); run<vertex_tag, line_2d_mesh>(4, c, x, 1); }
VS_HARNESS(quads) { std::vector<IV> c, x; c.push_back(iv(0, 1, 2, 3)); c.push_back(iv(1, 4, 3, 5)); x.push_back(iv(0, 4, 2, 5)); run<line_tag, quadrilateral_2d_mesh>(6, c, x, vs_tier()); }
VS_HARNESS(tetrahedra) { std::vector<IV> c, x; c.push_back(iv(0, 1, 2, 3)); c.push_back(iv(4, 1, 2, 3)); x.push_back(iv(0, 1, 2, 4)); int k = vs_pick("facets", 2); if (k) run<triangle_tag, tetrahedral_3d_mesh>(5, c, x, vs_tier()); else run<line_tag, tetrahedral_3d_mesh>(5, c, x, vs_tier()); }
// several elements at once
template <typename T, typename X> static void batch(X &m, Model &mo, unsigned mask)
{ typedef typename result_of::mesh_view<X>::type W; W w = make_view(m); Obs<X> o(m); std::vector<IS> q; unsigned k = 0; for (ISS::iterator i = mo.e[T::dim].begin(); i != mo.e[T::dim].end(); ++i, ++k) if (mask >> k & 1) { mark_erase_elements(m, w, o.template at<T>(*i)); q.push_back(*i); } erase_elements(m, w); for (std::size_t i = 0; i < q.size(); ++i) drop(mo, q[i]); same(m, mo); again(m, mo, tris(3)); same(m, mo); }
VS_HARNESS(batch_vertices) { triangular_2d_mesh m; Model mo; base(m, mo, 5, tris(3)); batch<vertex_tag>(m, mo, vs_pick("mask", 32)); }
VS_HARNESS(batch_cells) { triangular_2d_mesh m; Model mo; base(m, mo, 5, tris(3)); batch<triangle_tag>(m, mo, vs_pick("mask", 8)); }
VS_HARNESS(batch_lines) { triangular_2d_mesh m; Model mo; base(m, mo, 5, tris(vs_tier() ? 3 : 2)); batch<line_tag>(m, mo, vs_pick("mask", vs_tier() ? 128 : 32)); }
// deletion from a view leaves the mesh alone
VS_HARNESS(from_view)
{
  typedef triangular_2d_mesh M; typedef result_of::mesh_view<M>::type W; M m; Model mo; base(m, mo, 5, tris(3)); W w = make_view(m); Model mw = mo; Obs<M> o(m);
  typedef result_of::vertex_range<M>::type VR; typedef result_of::line_range<M>::type LR; typedef result_of::triangle_range<M>::type TR; { VR r(m); for (result_of::iterator<VR>::type it = r.begin(); it != r.end(); ++it) add_single_handle(w, it.handle()); } { LR r(m); for (result_of::iterator<LR>::type it = r.begin(); it != r.end(); ++it) add_single_handle(w, it.handle()); } { TR r(m); for (result_of::iterator<TR>::type it = r.begin(); it != r.end(); ++it) add_single_handle(w, it.handle()); }
  int kind = vs_pick("kind", 3); ISS::iterator i = mo.e[kind].begin(); int k = vs_pick("victim", (int)mo.e[kind].size()); while (k--) ++i; IS q = *i;
  if (kind == 0) erase_element(w, o.at<vertex_tag>(q)); else if (kind == 1) erase_element(w, o.at<line_tag>(q)); else erase_element(w, o.at<triangle_tag>(q));
  drop(mw, q); Obs<W> ow(w); std::size_t n; CHECKM(ow.get<vertex_tag>(&n) == mw.e[0] && n == mw.e[0].size(), "vertices left in the view"); CHECKM(ow.get<line_tag>(&n) == mw.e[1] && n == mw.e[1].size(), "lines left in the view"); CHECKM(ow.get<triangle_tag>(&n) == mw.e[2] && n == mw.e[2].size(), "cells left in the view"); same(m, mo);
}
