// Copying meshes, views, segmented meshes and single elements.
// BOUND: meshes of up to 3 triangles / 2 tetrahedra / 2 quadrilaterals / 3 lines (plus isolated vertices and lines for copy construction), symbolic coordinates, all subsets of cells copied, all assignments of cells to segments 0..2, one modification (new cell, moved vertex, deletion) after the copy in either mesh, copies of views containing any subset of the elements
#include "obs.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/segmented_mesh.hpp"
using namespace viennagrid;
// positions: x identifies the vertex, the other coordinates are symbolic
template <typename X> static std::vector<typename result_of::point<X>::type> blur(X &m) { typedef typename result_of::vertex_range<X>::type R; R r(m); std::vector<typename result_of::point<X>::type> p(8); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { for (std::size_t k = 1; k < point(m, *it).size(); ++k) point(m, *it)[k] = vs_real("y", -10, 10); p[(int)point(m, *it)[0]] = point(m, *it); } return p; }
template <typename X, typename P> static void at_places(X &m, P const &p) { typedef typename result_of::vertex_range<X>::type R; R r(m); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) for (std::size_t k = 0; k < point(m, *it).size(); ++k) EQ(point(m, *it)[k], p[(int)point(m, *it)[0]][k]); }
// local order of the boundary elements of each cell and of their vertices
template <typename X> static std::map<IS, std::vector<IV> > local_(X &, vertex_tag) { return std::map<IS, std::vector<IV> >(); }
template <typename X, typename F> static std::map<IS, std::vector<IV> > local_(X &m, F)
{ typedef typename CT<X>::T T; typedef typename result_of::cell<X>::type C; typedef typename result_of::cell_range<X>::type R; typedef typename result_of::element_range<C, F>::type B; R r(m); Obs<X> o(m); std::map<IS, std::vector<IV> > l;
  for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { std::vector<IV> &x = l[o.of(*it, T())]; B b(*it); for (typename result_of::iterator<B>::type k = b.begin(); k != b.end(); ++k) { IV v; for (std::size_t j = 0; j < vertices(*k).size(); ++j) v.push_back(o.key(dereference_handle(m, local_vertex(*it, k.handle(), (unsigned)j)))); x.push_back(v); } } return l; }
template <typename X> static std::map<IS, std::vector<IV> > local(X &m) { return local_(m, typename CT<X>::F()); }
template <typename X> struct Ids { std::map<IS, int> v, l, c; Ids(X &m) { Obs<X> o(m); v = o.template ids<vertex_tag>(); l = o.template ids<line_tag>(); c = o.template ids<typename CT<X>::T>(); } bool operator==(Ids const &o) const { return v == o.v && l == o.l && c == o.c; } };
template <typename X> static void unique_ids(X &m, Model const &mo) { Ids<X> i(m); std::set<int> s; for (std::map<IS, int>::iterator k = i.v.begin(); k != i.v.end(); ++k) s.insert(k->second); CHECKM(s.size() == mo.e[0].size(), "unique vertex ids"); s.clear(); for (std::map<IS, int>::iterator k = i.l.begin(); k != i.l.end(); ++k) s.insert(k->second); CHECKM(s.size() == mo.e[1].size(), "unique line ids"); s.clear(); for (std::map<IS, int>::iterator k = i.c.begin(); k != i.c.end(); ++k) s.insert(k->second); CHECKM(s.size() == mo.c.size(), "unique cell ids"); }
// later changes of one of the two meshes are not seen in the other
template <typename X, typename P> static void change(X &m, Model &mo, P &p, IV const &extra)
{
  int what = vs_pick("change", 3); Obs<X> o(m);
  if (what == 0) { make(m, mo, extra); unique_ids(m, mo); } else if (what == 1) { int k = vs_pick("moved", 2); IS q; q.insert(k); typename result_of::point<X>::type &t = point(m, dereference_handle(m, o.template at<vertex_tag>(q))); double z = vs_real("z", -10, 10); t[t.size() - 1] = t.size() > 1 ? z : t[0]; p[k][t.size() - 1] = t[t.size() - 1]; } else { IS q = st(mo.c[0]); erase_element(m, o.template at<typename CT<X>::T>(q)); drop(mo, q); }
}
template <typename X> static void run(int nv, std::vector<IV> const &cs, IV const &extra)
{
  X a; Model ma; base(a, ma, nv, cs); typedef std::vector<typename result_of::point<X>::type> P; P pa = blur(a); bool queried = vs_pick("queried", 2); if (queried) same(a, ma);
  int how = vs_pick("how", 4); X b; Model mb = ma; P pb = pa; if (how == 1) { Model x; IV o; for (std::size_t i = 0; i < cs[0].size(); ++i) o.push_back(cs[0][cs[0].size() - 1 - i]); std::vector<IV> oc(1, o); base(b, x, nv, oc); if (queried) same(b, x); }
  X c0(a); X *b_ = how == 2 ? &c0 : &b; if (how < 2) b = a; if (how == 3) { a = a; b = a; }
  Ids<X> ia(a); CHECKM(Ids<X>(*b_) == ia, "ids of the copy"); CHECKM(local(*b_) == local(a), "local order in the copy"); same(*b_, mb); at_places(*b_, pb); same(a, ma); at_places(a, pa);
  if (vs_pick("side", 2)) change(*b_, mb, pb, extra); else change(a, ma, pa, extra);
  same(*b_, mb); at_places(*b_, pb); same(a, ma); at_places(a, pa);
  if (vs_pick("clear", 2)) { clear(a); Model z; same(a, z); CHECKM(vertices(a).size() == 0 && cells(a).size() == 0 && lines(a).size() == 0, "empty after clear"); same(*b_, mb); at_places(*b_, pb); std::vector<IV> one(1, cs[0]); base(a, z, nv, one); same(a, z); unique_ids(a, z); }
}
VS_HARNESS(triangles) { run<triangular_2d_mesh>(6, tris(vs_tier() ? 3 : 2), iv(0, 2, 4)); }
VS_HARNESS(tetrahedra) { std::vector<IV> c; c.push_back(iv(3, 1, 2, 0)); c.push_back(iv(4, 1, 3, 2)); run<tetrahedral_3d_mesh>(5, c, iv(0, 1, 2, 4)); }
VS_HARNESS(quads) { std::vector<IV> c; c.push_back(iv(0, 1, 2, 3)); c.push_back(iv(1, 4, 3, 5)); run<quadrilateral_2d_mesh>(6, c, iv(0, 4, 2, 5)); }
VS_HARNESS(line_meshes) { std::vector<IV> c; c.push_back(iv(0, 1)); c.push_back(iv(2, 1)); c.push_back(iv(2, 3)); run<line_2d_mesh>(5, c, iv(3, 0)); }
// copy() with a selection of cells
template <typename C> struct Sel { unsigned mask; std::vector<C const *> *all; bool operator()(C const &c) const { for (unsigned i = 0; i < all->size(); ++i) if ((*all)[i] == &c) return mask >> i & 1; return false; } };
template <typename X, typename Y> static void selected(int nv, std::vector<IV> const &cs)
{
  X a; Model ma, mb; base(a, ma, nv, cs); std::vector<typename result_of::point<X>::type> pa = blur(a); typedef typename result_of::cell<X>::type C; std::vector<C const *> all; typedef typename result_of::cell_range<X>::type R; R r(a); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) all.push_back(&*it);
  Sel<C> s; s.mask = vs_pick("mask", 1 << cs.size()); s.all = &all; for (std::size_t i = 0; i < cs.size(); ++i) if (s.mask >> i & 1) { grow<Y>(mb, cs[i]); }
  Y b; if (vs_pick("dirty", 2)) { Model x; base(b, x, nv, std::vector<IV>(1, cs[0])); same(b, x); }
  copy(a, b, s); same(b, mb); at_places(b, pa); same(a, ma); at_places(a, pa); unique_ids(b, mb); if (s.mask == (1u << cs.size()) - 1) CHECKM(local(a) == local(b), "local order in the copy");
}
VS_HARNESS(copy_triangles) { selected<triangular_2d_mesh, triangular_2d_mesh>(6, tris(3)); }
VS_HARNESS(copy_tetrahedra) { std::vector<IV> c; c.push_back(iv(3, 1, 2, 0)); c.push_back(iv(4, 1, 3, 2)); selected<tetrahedral_3d_mesh, tetrahedral_3d_mesh>(5, c); }
VS_HARNESS(copy_quads) { std::vector<IV> c; c.push_back(iv(0, 1, 2, 3)); c.push_back(iv(1, 4, 3, 5)); selected<quadrilateral_2d_mesh, quadrilateral_2d_mesh>(6, c); }
// segmented meshes
typedef segmented_mesh<triangular_2d_mesh, triangular_2d_segmentation> SM;
static void seg_check(SM &s, std::vector<IV> const &cs, std::vector<unsigned> const &g, Model const &mo)
{
  same(s.mesh, mo); Obs<triangular_2d_mesh> o(s.mesh);
  for (int k = 0; k < 3; ++k) { ISS e, l, v; for (std::size_t i = 0; i < cs.size(); ++i) if (g[i] >> k & 1) { e.insert(st(cs[i])); l = join(l, ring(cs[i])); v = join(v, subsets(cs[i], 1)); }
    if (e.empty()) { triangular_2d_segmentation::iterator f = s.segmentation.find(k); if (f != s.segmentation.end()) CHECKM(cells(*f).size() == 0 && vertices(*f).size() == 0, "segment without cells"); }
    else { triangular_2d_segment_handle sh = s.segmentation.at(k); std::size_t n; Obs<triangular_2d_segment_handle> os(sh); CHECKM(os.get<triangle_tag>(&n) == e && n == e.size(), "cells of the segment"); CHECKM(os.get<line_tag>(&n) == l && n == l.size(), "lines of the segment"); CHECKM(os.get<vertex_tag>(&n) == v && n == v.size(), "vertices of the segment"); }
    for (std::size_t i = 0; i < cs.size(); ++i) if (!e.empty()) CHECKM(is_in_segment(s.segmentation.at(k), dereference_handle(s.mesh, o.at<triangle_tag>(st(cs[i])))) == bool(g[i] >> k & 1), "membership of a cell"); }
}
static void fill_sm(SM &s, Model &mo, std::vector<IV> const &cs, std::vector<unsigned> const &g) { base(s.mesh, mo, 5, cs); Obs<triangular_2d_mesh> o(s.mesh); for (std::size_t i = 0; i < cs.size(); ++i) for (int k = 0; k < 3; ++k) if (g[i] >> k & 1) add(s.segmentation.get_make_segment(k), dereference_handle(s.mesh, o.at<triangle_tag>(st(cs[i])))); }
VS_HARNESS(segmented)
{
  std::vector<IV> cs = tris(vs_tier() ? 3 : 2); std::vector<unsigned> g, g1(1, 5u); for (std::size_t i = 0; i < cs.size(); ++i) g.push_back(vs_pick("segments", 8)); std::vector<IV> used; for (std::size_t i = 0; i < cs.size(); ++i) used.push_back(cs[i]);
  SM a; Model ma; fill_sm(a, ma, cs, g); std::vector<P2> pa = blur(a.mesh); int how = vs_pick("how", 4); Model mb; for (std::size_t i = 0; i < cs.size(); ++i) grow<triangular_2d_mesh>(mb, cs[i]);
  if (how == 0) { SM b(a); seg_check(b, cs, g, mb); at_places(b.mesh, pa); }
  else if (how == 1) { SM b; Model x; fill_sm(b, x, std::vector<IV>(1, iv(2, 3, 4)), g1); b = a; seg_check(b, cs, g, mb); at_places(b.mesh, pa); }
  else if (how == 2) { a = a; }
  else { SM b(a); SM c; c = b; b.clear(); CHECKM(vertices(b.mesh).size() == 0 && b.segmentation.size() == 0, "cleared"); seg_check(c, cs, g, mb); Model x; fill_sm(b, x, std::vector<IV>(1, iv(2, 3, 4)), g1); seg_check(b, std::vector<IV>(1, iv(2, 3, 4)), g1, x); seg_check(c, cs, g, mb); at_places(c.mesh, pa); }
  seg_check(a, cs, g, ma); at_places(a.mesh, pa);
}
VS_HARNESS(segmentation_of_copied_mesh)
{
  std::vector<IV> cs = tris(2); std::vector<unsigned> g; for (std::size_t i = 0; i < cs.size(); ++i) g.push_back(vs_pick("segments", 8)); SM a; Model ma; fill_sm(a, ma, cs, g); SM b; b.mesh = a.mesh; copy_segmentation(a.mesh, a.segmentation, b.mesh, b.segmentation); seg_check(b, cs, g, ma); seg_check(a, cs, g, ma);
}
// copies of views: the mesh stays as it is, the copy has the same elements and is independent of the original
VS_HARNESS(views)
{
  typedef triangular_2d_mesh M; typedef triangular_2d_view W; M m; Model mo; base(m, mo, 5, tris(2)); std::vector<P2> p = blur(m); W v = make_view(m); Obs<M> o(m); Model mv;
  int tm = vs_pick("cells", 4), full = vs_pick("with_boundary", 3), i = 0; for (ISS::iterator k = mo.e[2].begin(); k != mo.e[2].end(); ++k, ++i) if (tm >> i & 1) { add_single_handle(v, o.at<triangle_tag>(*k)); mv.e[2].insert(*k); }
  if (full) { i = 0; for (ISS::iterator k = mo.e[1].begin(); k != mo.e[1].end(); ++k, ++i) if (full == 2 || i % 2) { add_single_handle(v, o.at<line_tag>(*k)); mv.e[1].insert(*k); } i = 0; for (ISS::iterator k = mo.e[0].begin(); k != mo.e[0].end(); ++k, ++i) if (full == 2 || i % 2) { add_single_handle(v, o.at<vertex_tag>(*k)); mv.e[0].insert(*k); } }
  W c(v), d = make_view(m); d = v; Model mc = mv; same(m, mo); at_places(m, p); if (vs_pick("extend", 2)) { IS q = st(tris(2)[1]); if (!mc.e[2].count(q)) { add_single_handle(c, o.at<triangle_tag>(q)); mc.e[2].insert(q); } }
  Obs<W> ov(v), oc(c), od(d); CHECKM(ov.get<triangle_tag>() == mv.e[2] && ov.get<line_tag>() == mv.e[1] && ov.get<vertex_tag>() == mv.e[0], "the original view"); CHECKM(oc.get<triangle_tag>() == mc.e[2] && oc.get<line_tag>() == mc.e[1] && oc.get<vertex_tag>() == mc.e[0], "the copied view"); CHECKM(od.get<triangle_tag>() == mv.e[2] && od.get<line_tag>() == mv.e[1] && od.get<vertex_tag>() == mv.e[0], "the assigned view"); same(m, mo); at_places(m, p);
}
// copying single elements into another mesh; vertices closer than the tolerance to an existing one are identified with it
VS_HARNESS(elements_into)
{
  typedef triangular_2d_mesh M; M a; Model ma; base(a, ma, 5, tris(2)); std::vector<P2> pa = blur(a); M b; Model mb; int how = vs_pick("how", 5), first = vs_pick("first", 2); typedef result_of::cell_range<M>::type R; R r(a); result_of::iterator<R>::type f = r.begin(); if (first) ++f;
  std::vector<IV> cs = tris(2);
  if (how == 0) { result_of::cell_handle<M>::type h = copy_element(*f, b); CHECKM(Obs<M>(b).of(dereference_handle(b, h), triangle_tag()) == st(cs[first]), "handle of the copied element"); grow<M>(mb, cs[first]); }
  else if (how == 1) { result_of::cell_handle<M>::type h = copy_element(*r.begin(), b, 0.25); result_of::iterator<R>::type s = r.begin(); ++s; copy_element(*s, b, 0.25); (void)h; grow<M>(mb, cs[0]); grow<M>(mb, cs[1]); }
  else if (how == 2) { copy_elements(f, r.end(), b); grow<M>(mb, cs[first]); if (!first) grow<M>(mb, cs[1]); }
  else if (how == 3) { std::vector<result_of::cell_handle<M>::type> hs; for (result_of::iterator<R>::type k = f; k != r.end(); ++k) hs.push_back(k.handle()); copy_elements_by_handle(a, hs.begin(), hs.end(), b); grow<M>(mb, cs[first]); if (!first) grow<M>(mb, cs[1]); }
  else { vertex_copy_map<M, M> cm(b); result_of::iterator<R>::type s = r.begin(); ++s; if (first) { cm.copy_element(*s); cm.copy_element(*r.begin()); } else { cm.copy_element(*r.begin()); cm.copy_element(*s); } grow<M>(mb, cs[0]); grow<M>(mb, cs[1]); }
  same(b, mb); at_places(b, pa); same(a, ma); at_places(a, pa);
}
VS_HARNESS(tolerance)
{ // a vertex is reused exactly if it is closer than the tolerance
  typedef triangular_2d_mesh M; M a, b; VH<M>::V h; int t[3] = {0, 1, 2}; h.push_back(addv(a, P2(0.0, 0.0))); h.push_back(addv(a, P2(1.0, 0.0))); h.push_back(addv(a, P2(0.0, 1.0))); addc(a, h, t, 3); double x = vs_real("x", -10, 10), y = vs_real("y", -10, 10), tol = 0.25; addv(b, P2(x, y));
  double d0 = x * x + y * y, d1 = (x - 1) * (x - 1) + y * y, d2 = x * x + (y - 1) * (y - 1); copy_elements(cells(a).begin(), cells(a).end(), b, tol); bool n0 = false, n1 = false, n2 = false; if (d0 < tol * tol) n0 = true; if (d1 < tol * tol) n1 = true; if (d2 < tol * tol) n2 = true; CHECKM(vertices(b).size() == 3 || vertices(b).size() == 4, "number of vertices after copying with tolerance"); CHECKM((vertices(b).size() == 3) == (n0 || n1 || n2), "vertices are reused exactly within the tolerance"); CHECKM(cells(b).size() == 1, "one cell"); EQ(point(b, vertices(b)[0])[0], x); EQ(point(b, vertices(b)[0])[1], y);
  for (int i = 0; i < 3; ++i) { P2 q = point(vertices(cells(b)[0])[i]); bool n = i == 0 ? n0 : i == 1 ? n1 : n2; P2 e = n ? P2(x, y) : point(a, vertices(a)[i]); EQ(q[0], e[0]); EQ(q[1], e[1]); CHECKM((&vertices(cells(b)[0])[i] == &vertices(b)[0]) == n, "the close vertex is reused"); }
}
