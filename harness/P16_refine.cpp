// Refinement of triangular and tetrahedral meshes.
// BOUND: one or two cells (three for triangles, thorough), all sets of marked edges or cells, symbolic coordinates (the x coordinates identify the vertices), all vertex orders of the second cell, all assignments of cells to segments 0..1
#include "obs.hpp"
#include "viennagrid/algorithm/refine.hpp"
using namespace viennagrid;
// A node of the refined mesh is a vertex {i} or the midpoint {i,j} of an edge of the original mesh, recognised by its x coordinate.
static const int X0[6] = {0, 2, 6, 16, 40, 90};
static IS node(double x) { IS s; for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) if (2 * x == X0[i] + X0[j]) { CHECKM(s.empty(), "node is unique"); s.insert(i); s.insert(j); } CHECKM(!s.empty(), "every vertex of the refined mesh is a vertex or the midpoint of an edge of the original mesh"); return s; }
typedef std::vector<IS> NV; // a refined cell
template <typename M> struct In {
  typedef typename CT<M>::T T; typedef typename result_of::point<M>::type P; enum { d = Ref<typename CT<M>::T>::dim };
  M m; typename VH<M>::V h; std::vector<IV> c; std::vector<P> p;
  void vertices(int n, int sym, double r = 60) { for (int i = 0; i < n; ++i) { P q; for (std::size_t k = 0; k < q.size(); ++k) q[k] = k == 0 ? X0[i] : i < sym && (d == 2 || (k == 1 && i > 0)) ? vs_real("y", -r, r) : (k == 1 ? (i % 2 ? 5 * i : -7) : (i % 3 ? -4 : 11 * i)); p.push_back(q); h.push_back(make_vertex(m, q)); } }
  void cell(IV const &v) { c.push_back(v); addc(m, h, &v[0], (int)v.size()); }
  IS edge(typename result_of::line<M>::type const &e) { IS s; for (int k = 0; k < 2; ++k) { IS q = node(point(m, viennagrid::vertices(e)[k])[0]); s.insert(*q.begin()); } return s; }
  template <typename A> ISS mark(A &a, ISS const &s) { typedef typename result_of::line_range<M>::type R; R r(m); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) a(*it) = s.count(edge(*it)) > 0; return s; }
  template <typename A> ISS mark(A &a, unsigned mask) { ISS s; typedef typename result_of::line_range<M>::type R; R r(m); int k = 0; for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++k) { bool b = mask >> k & 1; a(*it) = b; if (b) s.insert(edge(*it)); } return s; }
};
// determinant of the barycentric coordinates of the nodes of a child with respect to its parent, times 2^(number of nodes)
static int det(std::vector<IV> a) { int n = (int)a.size(); if (n == 1) return a[0][0]; int s = 0; for (int i = 0; i < n; ++i) if (a[i][0]) { std::vector<IV> b; for (int j = 0; j < n; ++j) if (j != i) b.push_back(IV(a[j].begin() + 1, a[j].end())); s += (i % 2 ? -1 : 1) * a[i][0] * det(b); } return s; }
static bool inside(NV const &ch, IV const &par) { IS q = st(par); for (std::size_t i = 0; i < ch.size(); ++i) if (!std::includes(q.begin(), q.end(), ch[i].begin(), ch[i].end())) return false; return true; }
static int vol(NV const &ch, IV const &par) { std::vector<IV> a; for (std::size_t i = 0; i < ch.size(); ++i) { IV r; for (std::size_t k = 0; k < par.size(); ++k) r.push_back(ch[i].count(par[k]) ? (ch[i].size() == 1 ? 2 : 1) : 0); a.push_back(r); } return det(a); }
template <typename C, typename M> static std::vector<NV> children(C &c, M &m) { std::vector<NV> r; typedef typename result_of::cell_range<C>::type R; R q(c); for (typename result_of::iterator<R>::type it = q.begin(); it != q.end(); ++it) { NV n; for (std::size_t k = 0; k < vertices(*it).size(); ++k) n.push_back(node(point(m, vertices(*it)[k])[0])); r.push_back(n); } return r; }
template <typename M> static std::vector<std::vector<NV> > check(In<M> &in, ISS const &marked, M &out)
{
  enum { d = In<M>::d }; std::vector<NV> ch = children(out, out); std::vector<std::vector<NV> > of(in.c.size());
  // vertices: those of the cells and one for each marked edge, at the right place
  ISS e0, e1, got; for (std::size_t i = 0; i < in.c.size(); ++i) e0 = join(e0, subsets(in.c[i], 1)), e1 = join(e1, subsets(in.c[i], 2)); ISS want = join(e0, marked);
  typedef typename result_of::vertex_range<M>::type VR; VR vr(out); std::size_t n = 0; for (typename result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it, ++n) { IS q = node(point(out, *it)[0]); got.insert(q); int a = *q.begin(), b = *q.rbegin(); for (std::size_t k = 0; k < in.p[0].size(); ++k) EQ(point(out, *it)[k], 0.5 * (in.p[a][k] + in.p[b][k])); }
  CHECKM(got == want, "the vertices of the refined mesh are the original ones and one per marked edge"); CHECKM(n == want.size(), "every vertex once");
  // edges: a marked edge is split, an unmarked edge is kept
  ISS whole; typedef typename result_of::line_range<M>::type LR; LR lr(out); for (typename result_of::iterator<LR>::type it = lr.begin(); it != lr.end(); ++it) { IS a = node(point(out, vertices(*it)[0])[0]), b = node(point(out, vertices(*it)[1])[0]); if (a.size() == 1 && b.size() == 1) { IS s = a; s.insert(*b.begin()); whole.insert(s); } }
  for (ISS::iterator e = e1.begin(); e != e1.end(); ++e) CHECKM(whole.count(*e) == !marked.count(*e), "exactly the marked edges are split"); for (ISS::iterator e = whole.begin(); e != whole.end(); ++e) CHECKM(e1.count(*e), "no new edge between original vertices");
  // cells: every parent is filled by its children, with its orientation
  std::vector<int> sum(in.c.size(), 0); int full = 1; for (int k = 0; k <= d; ++k) full *= 2;
  for (std::size_t i = 0; i < ch.size(); ++i) { int par = -1; for (std::size_t k = 0; k < in.c.size(); ++k) if (inside(ch[i], in.c[k])) { CHECKM(par < 0, "a refined cell lies in one cell"); par = (int)k; } CHECKM(par >= 0, "a refined cell lies in a cell of the mesh"); int v = vol(ch[i], in.c[par]); CHECKM(v > 0, "a refined cell is not degenerate and keeps the orientation"); sum[par] += v; of[par].push_back(ch[i]); }
  for (std::size_t k = 0; k < in.c.size(); ++k) CHECKM(sum[k] == full, "the refined cells fill the cell");
  // facets: shared by two cells or on the boundary of the original mesh
  typedef std::set<IS> FS; std::map<FS, int> f; for (std::size_t i = 0; i < ch.size(); ++i) for (int o = 0; o <= d; ++o) { FS s; for (int k = 0; k <= d; ++k) if (k != o) s.insert(ch[i][k]); ++f[s]; }
  std::map<IS, int> of0; for (std::size_t i = 0; i < in.c.size(); ++i) { ISS q = subsets(in.c[i], d); for (ISS::iterator k = q.begin(); k != q.end(); ++k) ++of0[*k]; }
  for (std::map<FS, int>::iterator i = f.begin(); i != f.end(); ++i) { CHECKM(i->second <= 2, "a facet belongs to at most two refined cells"); IS u; for (FS::const_iterator k = i->first.begin(); k != i->first.end(); ++k) u.insert(k->begin(), k->end()); bool bnd = of0.count(u) && of0[u] == 1; if (u.size() > d || (of0.count(u) && of0[u] == 2)) CHECKM(i->second == 2, "the refined mesh is conforming"); else CHECKM(bnd && i->second == 1, "facets on the boundary"); }
  CHECKM(elements<typename CT<M>::F>(out).size() == f.size(), "facets are shared"); return of;
}
// all public ways of refining marked edges give such a mesh
template <typename M> static void edges(In<M> &in, unsigned mask, int how, ISS const *set = 0)
{
  typedef typename result_of::line<M>::type L; typedef typename In<M>::T T; std::deque<bool> fc; fc.resize(elements<line_tag>(in.m).size()); typename result_of::accessor<std::deque<bool>, L>::type fa(fc); ISS marked = set ? in.mark(fa, *set) : in.mark(fa, mask); M out;
  if (how == 0) refine<T>(in.m, out, fa);
  else if (how == 1) { typedef typename result_of::segmentation<M>::type S; S si(in.m), so(out); typedef typename result_of::cell_range<M>::type R; R r(in.m); std::vector<unsigned> g; for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { g.push_back(vs_pick("segments", 4)); for (int k = 0; k < 2; ++k) if (g.back() >> k & 1) add(si.get_make_segment(k + 3), *it); }
    refine<T>(in.m, si, out, so, fa); std::vector<std::vector<NV> > of = check(in, marked, out);
    for (int k = 0; k < 2; ++k) { std::set<NV> want, got; for (std::size_t i = 0; i < of.size(); ++i) if (g[i] >> k & 1) want.insert(of[i].begin(), of[i].end()); if (so.find(k + 3) != so.end()) { typename result_of::segment_handle<S>::type sh = so.at(k + 3); std::vector<NV> q = children(sh, out); got.insert(q.begin(), q.end()); CHECKM(q.size() == got.size(), "every refined cell once in its segment"); } CHECKM(got == want, "refined cells belong to the segments of their cell"); } }
  else { vertex_copy_map<M, M> cm(out); typedef typename result_of::vertex_handle<M>::type H; std::deque<H> hc; typename result_of::accessor<std::deque<H>, L>::type ha(hc); refine<T>(in.m, out, default_point_accessor(in.m), cm, fa, ha);
    typedef typename result_of::line_range<M>::type R; R r(in.m); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) if (fa(*it)) CHECKM(node(point(out, ha(*it))[0]) == in.edge(*it), "vertex reported for a refined edge"); for (std::size_t i = 0; i < in.c.size(); ++i) for (std::size_t k = 0; k < in.c[i].size(); ++k) { IS q; q.insert(in.c[i][k]); CHECKM(node(point(out, cm(dereference_handle(in.m, in.h[in.c[i][k]])))[0]) == q, "copy reported for a vertex"); } }
  check(in, marked, out);
}
VS_HARNESS(triangle) { In<triangular_2d_mesh> in; in.vertices(3, 3); IV v = iv(0, 1, 2); int o = vs_pick("order", 6); while (o--) std::next_permutation(v.begin(), v.end()); in.cell(v); edges(in, vs_pick("mask", 8), vs_pick("how", 3)); }
VS_HARNESS(two_triangles) { In<triangular_2d_mesh> in; in.vertices(4, vs_tier() ? 4 : 2); in.cell(iv(1, 0, 2)); IV v = iv(0, 1, 3); int o = vs_pick("order", 6); while (o--) std::next_permutation(v.begin(), v.end()); in.cell(v); edges(in, vs_pick("mask", 32), 0); }
VS_HARNESS(triangles_3d) { In<triangular_3d_mesh> in; in.vertices(4, 4); in.cell(iv(1, 0, 2)); in.cell(iv(0, 1, 3)); edges(in, vs_pick("mask", 32), vs_pick("how", 2)); }
VS_HARNESS(tetrahedron) { In<tetrahedral_3d_mesh> in; in.vertices(4, 4); in.cell(iv(0, 1, 2, 3)); edges(in, vs_pick("mask", 64), 0); }
// two tetrahedra sharing a facet: the facet is divided the same way on both sides, also when its edges have equal lengths
static void pair_of_tets(unsigned mask, int order, int shape)
{
  In<tetrahedral_3d_mesh> in; typedef In<tetrahedral_3d_mesh>::P P;
  // shape 0: the edges at vertex 0 have equal lengths for values of y that are exact in floating point
  static const double Y[5] = {0, 0, 2, 4, -30}, Z[5] = {0, 0, 0, 2, 12};
  for (int i = 0; i < 5; ++i) { P q(X0[i], 0, 0); if (shape == 0) { q[1] = i == 0 ? (vs_tier() ? vs_real("y", -60, 60) : vs_real("y", -10, 10)) : Y[i]; q[2] = Z[i]; } else { q[1] = i == 0 ? vs_real("y", -60, 60) : i == 1 ? 3 : 7 - 5 * i; q[2] = i == 2 ? vs_real("z", -60, 60) : i == 3 ? -17 : i; } in.p.push_back(q); in.h.push_back(make_vertex(in.m, q)); }
  IV w = iv(0, 1, 2, 4); while (order--) std::next_permutation(w.begin(), w.end()); in.cell(iv(2, 0, 1, 3)); in.cell(w); edges(in, mask, 0);
}
VS_HARNESS(two_tetrahedra) { int m = vs_pick("mask", 512), o = vs_pick("order", vs_tier() ? 24 : 2); pair_of_tets(m, vs_tier() ? o : o * 13, 0); }
VS_HARNESS_THOROUGH(two_tetrahedra_2) { int m = vs_pick("mask", 512), o = vs_pick("order", 6); pair_of_tets(m, o * 4 + 1, 1); }
// a shared facet with two marked edges is divided the same way by a tetrahedron with any other marked edges, in any vertex order, as by one with none
VS_HARNESS(shared_facet)
{
  In<tetrahedral_3d_mesh> in; typedef In<tetrahedral_3d_mesh>::P P; static const double Y[5] = {0, 0, 2, 4, -30}, Z[5] = {0, 0, 0, 2, 12}; double r = vs_tier() ? 100 : 60;
  for (int i = 0; i < 5; ++i) { P q(X0[i], i == 0 || i == 3 ? vs_real("y", -r, r) : Y[i], Z[i]); in.p.push_back(q); in.h.push_back(make_vertex(in.m, q)); }
  IV w = iv(0, 1, 2, 3); int o = vs_pick("order", 24); while (o--) std::next_permutation(w.begin(), w.end()); in.cell(iv(1, 2, 0, 4)); in.cell(w);
  int skip = vs_pick("unmarked", 3), apex = vs_pick("apex", 8); ISS s; for (int i = 0; i < 3; ++i) { IS e; e.insert(i); e.insert((i + 1) % 3); if (i != skip) s.insert(e); IS f; f.insert(i); f.insert(3); if (apex >> i & 1) s.insert(f); } edges(in, 0, 0, &s);
}
VS_HARNESS(tetrahedron_segments) { In<tetrahedral_3d_mesh> in; in.vertices(5, 0); in.cell(iv(0, 1, 2, 3)); in.cell(iv(4, 1, 2, 3)); edges(in, (1 << vs_pick("edge", 9)) | (1 << vs_pick("edge2", 9)), 1 + vs_pick("how", 2)); }
// refinement of cells and uniform refinement
template <typename M> static void by_cell(In<M> &in)
{
  typedef typename result_of::cell<M>::type C; typedef typename In<M>::T T; typedef typename result_of::segmentation<M>::type S; M out; S si(in.m), so(out); std::deque<bool> fc; typename result_of::accessor<std::deque<bool>, C>::type fa(fc); unsigned mask = vs_pick("cells", 1 << in.c.size()), all = (1u << in.c.size()) - 1; int how = vs_pick("how", 5); if (how >= 3) mask = all;
  ISS marked; typedef typename result_of::cell_range<M>::type R; R r(in.m); int k = 0; for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++k) { fa(*it) = (mask >> k & 1) != 0; add(si.get_make_segment(k), *it); if (mask >> k & 1) marked = join(marked, subsets(in.c[k], 2)); }
  if (how == 0) cell_refine(in.m, out, fa); else if (how == 1) cell_refine(in.m, si, out, so, fa); else if (how == 2) element_refine<T>(in.m, out, fa); else if (how == 3) cell_refine_uniformly(in.m, out); else cell_refine_uniformly(in.m, si, out, so);
  std::vector<std::vector<NV> > of = check(in, marked, out); if (how == 1 || how == 4) for (std::size_t i = 0; i < of.size(); ++i) { typename result_of::segment_handle<S>::type sh = so.at((int)i); std::vector<NV> q = children(sh, out); CHECKM(std::set<NV>(q.begin(), q.end()) == std::set<NV>(of[i].begin(), of[i].end()) && q.size() == of[i].size(), "refined cells belong to the segment of their cell"); }
}
VS_HARNESS(cells_triangles) { In<triangular_2d_mesh> in; in.vertices(5, 2); in.cell(iv(1, 0, 2)); in.cell(iv(2, 3, 0)); in.cell(iv(3, 2, 4)); by_cell(in); }
VS_HARNESS(cells_tetrahedra) { In<tetrahedral_3d_mesh> in; in.vertices(5, 2); in.cell(iv(0, 1, 2, 3)); in.cell(iv(4, 1, 2, 3)); by_cell(in); }
// longest-edge closure of a set of marked edges
template <typename M> static void longest(In<M> &in, unsigned mask)
{
  typedef typename result_of::line<M>::type L; std::deque<bool> fc; typename result_of::accessor<std::deque<bool>, L>::type fa(fc); ISS before = in.mark(fa, mask), after; ensure_longest_edge_refinement<typename In<M>::T>(in.m, fa); typedef typename result_of::line_range<M>::type R; R r(in.m); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) if (fa(*it)) after.insert(in.edge(*it));
  CHECKM(std::includes(after.begin(), after.end(), before.begin(), before.end()), "marked edges stay marked"); struct L2 { static double of(In<M> &in, IS const &e) { double s = 0; for (std::size_t k = 0; k < in.p[0].size(); ++k) { double t = in.p[*e.begin()][k] - in.p[*e.rbegin()][k]; s += t * t; } return s; } };
  ISS longest_of; for (std::size_t i = 0; i < in.c.size(); ++i) { ISS e = subsets(in.c[i], 2); bool any = false; for (ISS::iterator k = e.begin(); k != e.end(); ++k) any |= after.count(*k) > 0; for (ISS::iterator k = e.begin(); k != e.end(); ++k) { bool is = true; for (ISS::iterator o = e.begin(); o != e.end(); ++o) if (o != k && L2::of(in, *o) > L2::of(in, *k) + 1e-6) is = false; if (is) longest_of.insert(*k); }
    if (any) { double best = 0; for (ISS::iterator k = e.begin(); k != e.end(); ++k) if (after.count(*k)) { double l = L2::of(in, *k); if (l > best) best = l; } for (ISS::iterator k = e.begin(); k != e.end(); ++k) vs_le(L2::of(in, *k), best, 1e-6, "the longest edge of a cell with a marked edge is marked"); } }
  for (ISS::iterator k = after.begin(); k != after.end(); ++k) CHECKM(before.count(*k) || longest_of.count(*k), "only longest edges are added"); if (before.empty()) CHECKM(after.empty(), "nothing is added to an empty set");
}
VS_HARNESS(longest_edges) { In<triangular_2d_mesh> in; in.vertices(4, 0); for (int i = 0; i < (vs_tier() ? 3 : 2); ++i) { in.p[i][1] = point(in.m, in.h[i])[1] = vs_real("y", vs_tier() || i ? -60 : -8, vs_tier() || i ? 60 : -6); } in.cell(iv(1, 0, 2)); in.cell(iv(2, 3, 0)); longest(in, vs_pick("mask", 32)); }
// a fan whose longest edges lead from cell to cell, created in any order, one marked edge
VS_HARNESS(longest_edges_fan) { In<triangular_2d_mesh> in; in.vertices(6, 0); for (int i = 0; i < 6; ++i) in.p[i][1] = point(in.m, in.h[i])[1] = i % 2 ? 1 : i ? -1 : 0; in.p[5][1] = point(in.m, in.h[5])[1] = vs_real("y", -2, 2); int n = 4; IV o = iota_(n); for (int k = vs_pick("order", n == 4 ? 24 : 6); k > 0; --k) std::next_permutation(o.begin(), o.end()); for (int i = 0; i < n; ++i) in.cell(iv(0, o[i] + 5 - n, o[i] + 6 - n)); longest(in, 1u << vs_pick("marked", 2 * n + 1)); }
// refinement along a hyperplane
template <typename P> static double side(P const &n, P const &o, P const &p) { double s = 0; for (std::size_t k = 0; k < p.size(); ++k) s += n[k] * (p[k] - o[k]); return s; }
template <typename M, typename P> static void plane(M &in, P const &o, P const &n, double measure)
{
  typedef typename result_of::vertex_range<M>::type VR; typedef typename result_of::line_range<M>::type LR; typedef typename result_of::cell_range<M>::type CR; { VR r(in); for (typename result_of::iterator<VR>::type it = r.begin(); it != r.end(); ++it) { double s = side(n, o, point(in, *it)); vs_assume(s == 0 || s > 0.0625 || s < -0.0625); } }
  M out; int how = vs_pick("segmented", 2); if (how) { typedef typename result_of::segmentation<M>::type S; S si(in), so(out); CR r(in); for (typename result_of::iterator<CR>::type it = r.begin(); it != r.end(); ++it) add(si.get_make_segment(4), *it); hyperplane_refine(in, si, out, so, o, n, 1e-8); typename result_of::segment_handle<S>::type sh = so.at(4); CHECKM(cells(sh).size() == cells(out).size(), "refined cells are in the segment"); } else hyperplane_refine(in, out, o, n, 1e-8);
  double total = 0; std::map<std::set<void const *>, int> f; CR r(out); for (typename result_of::iterator<CR>::type it = r.begin(); it != r.end(); ++it) { bool up = false, down = false; std::size_t nv = vertices(*it).size(); for (std::size_t k = 0; k < nv; ++k) { double s = side(n, o, point(vertices(*it)[k])); if (s > 1e-6) up = true; if (s < -1e-6) down = true; std::set<void const *> q; for (std::size_t j = 0; j < nv; ++j) if (j != k) q.insert(&vertices(*it)[j]); ++f[q]; } CHECKM(!(up && down), "no refined cell crosses the plane"); total += volume(*it); }
  vs_eq(total, measure, 1e-6, "the refined cells have the volume of the mesh"); for (std::map<std::set<void const *>, int>::iterator i = f.begin(); i != f.end(); ++i) CHECKM(i->second <= 2, "a facet belongs to at most two cells");
  // vertices are the original ones and the intersections of edges with the plane
  std::size_t cut = 0; LR l(in); for (typename result_of::iterator<LR>::type it = l.begin(); it != l.end(); ++it) { P a = point(vertices(*it)[0]), b = point(vertices(*it)[1]); double sa = side(n, o, a), sb = side(n, o, b); if ((sa > 0 && sb < 0) || (sa < 0 && sb > 0)) { ++cut; bool found = false; P x = a; for (std::size_t k = 0; k < x.size(); ++k) x[k] = a[k] + (b[k] - a[k]) * (sa / (sa - sb)); VR v(out); for (typename result_of::iterator<VR>::type q = v.begin(); q != v.end(); ++q) { double d = 0; for (std::size_t k = 0; k < x.size(); ++k) { double t = point(out, *q)[k] - x[k]; d += t * t; } if (d < 1e-12) found = true; } CHECKM(found, "an edge crossing the plane is divided there"); } }
  CHECKM(vertices(out).size() == vertices(in).size() + cut, "one new vertex per divided edge");
}
VS_HARNESS(plane_triangles)
{ triangular_2d_mesh m; VH<triangular_2d_mesh>::V h; h.push_back(addv(m, P2(0, 0))); h.push_back(addv(m, P2(4, 0))); h.push_back(addv(m, P2(0, 3))); h.push_back(addv(m, P2(5, 4))); int a[3] = {0, 1, 2}, b[3] = {3, 2, 1}; addc(m, h, a, 3); addc(m, h, b, 3); static const double N[4][2] = {{1, 0}, {0, 2}, {1, 1}, {-2, 1}}; int k = vs_pick("normal", 4); plane(m, P2(vs_real("o", -1, 6), 1), P2(N[k][0], N[k][1]), 15.5); }
VS_HARNESS(plane_tetrahedra)
{ tetrahedral_3d_mesh m; VH<tetrahedral_3d_mesh>::V h; h.push_back(addv(m, P3(0, 0, 0))); h.push_back(addv(m, P3(3, 0, 0))); h.push_back(addv(m, P3(0, 3, 1))); h.push_back(addv(m, P3(0, 1, 4))); h.push_back(addv(m, P3(4, 4, 4))); int a[4] = {0, 1, 2, 3}, b[4] = {4, 1, 2, 3}; addc(m, h, a, 4); addc(m, h, b, 4); static const double N[3][3] = {{1, 0, 0}, {0, 1, 1}, {1, 1, 1}}; int k = vs_pick("normal", vs_tier() ? 3 : 2); plane(m, P3(vs_real("o", -1, 5), 1, 1), P3(N[k][0], N[k][1], N[k][2]), volume(m)); }
