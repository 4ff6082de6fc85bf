// Oracle of the incidence checks: coboundary and neighbour ranges against the model of the mesh.
#ifndef VS_INCID_HPP
#define VS_INCID_HPP
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
using namespace viennagrid;
// is s a face of the T-element with vertex set q (q belongs to some cell of the model)?
template <typename X> static bool face_of(TM<X> const &t, IS const &s, int sd, IS const &q, int qd)
{ if (!std::includes(q.begin(), q.end(), s.begin(), s.end())) return false; if (qd != (int)CT<X>::T::dim) return true; for (std::size_t i = 0; i < t.c.size(); ++i) if (st(t.c[i]) == q && Ref<typename CT<X>::T>::faces(t.c[i], sd).count(s)) return true; return false; }
template <typename R, typename X> static ISS collect(R r, TM<X> &t, std::size_t &n)
{ typedef typename result_of::iterator<R>::type I; PosOf<X> p(t.m, t.h); ISS s; n = 0; for (I it = r.begin(); it != r.end(); ++it, ++n) s.insert(p(*it)); return s; }
// segments and views give the handle of an element only where handles are pointers
template <typename CR, typename X, typename C, typename E> static void by_element(TM<X> &t, C &c, E &x, ISS const &e, E *) { std::size_t n; CR d(c, x); ISS g = collect(d, t, n); CHECKM(g == e && n == e.size(), "coboundary range by element"); }
template <typename CR, typename X, typename C, typename E, typename H> static void by_element(TM<X> &, C &, E &, ISS const &, H) {}
template <typename A, typename B, typename X, typename C> static void cob(TM<X> &t, C &c, IV const *sel, bool all = true)
{
  typedef typename result_of::element_range<C, A>::type R; typedef typename result_of::iterator<R>::type I; typedef typename result_of::coboundary_range<C, A, B>::type CR; typedef typename result_of::const_coboundary_range<C, A, B>::type CCR; PosOf<X> p(t.m, t.h); R r(c); ISS hi = t.all(B::dim, sel), lo = t.all(A::dim, sel); std::size_t seen = 0;
  for (I it = r.begin(); it != r.end(); ++it)
  {
    IS s = p(*it); ISS e; for (ISS::iterator k = hi.begin(); k != hi.end(); ++k) if (face_of(t, s, A::dim, *k, B::dim)) e.insert(*k); if (lo.count(s)) ++seen;
    std::size_t n; CR a(c, it.handle()); ISS g = collect(a, t, n); CHECKM(g == e, "coboundary elements are the elements containing it"); CHECKM(n == e.size(), "every coboundary element once"); CHECKM(a.size() == e.size(), "size of the coboundary range");
    C const &k = c; CCR b(k, it.handle()); g = collect(b, t, n); CHECKM(g == e && n == e.size(), "const coboundary range");
    by_element<CR>(t, c, *it, e, it.handle());
  }
  if (all) CHECKM(seen == lo.size(), "all elements visited");
}
template <typename A, typename K, typename X, typename C> static void nei(TM<X> &t, C &c, IV const *sel, ISS const *have = 0)
{
  typedef typename result_of::element_range<C, A>::type R; typedef typename result_of::iterator<R>::type I; typedef typename result_of::neighbor_range<C, A, K>::type NR; typedef typename result_of::const_neighbor_range<C, A, K>::type CNR; PosOf<X> p(t.m, t.h); R r(c); ISS all = t.all(A::dim, sel), con = have ? *have : t.all(K::dim, sel);
  for (I it = r.begin(); it != r.end(); ++it)
  {
    IS s = p(*it); ISS e; for (ISS::iterator q = all.begin(); q != all.end(); ++q) if (*q != s) for (ISS::iterator k = con.begin(); k != con.end(); ++k) if (face_of(t, *k, K::dim, s, A::dim) && face_of(t, *k, K::dim, *q, A::dim)) e.insert(*q);
    std::size_t n; NR a(c, it.handle()); ISS g = collect(a, t, n); CHECKM(g == e, "neighbours are the other elements sharing a connector"); CHECKM(n == e.size(), "every neighbour once");
    C const &k = c; CNR b(k, it.handle()); g = collect(b, t, n); CHECKM(g == e && n == e.size(), "const neighbour range");
  }
}
template <typename X, typename C> static void low(TM<X> &t, C &c, IV const *sel, simplex_tag<1>) { cob<vertex_tag, line_tag>(t, c, sel); nei<line_tag, vertex_tag>(t, c, sel); }
template <typename X, typename C, typename T> static void low(TM<X> &t, C &c, IV const *sel, T) { cob<vertex_tag, line_tag>(t, c, sel); cob<vertex_tag, T>(t, c, sel); cob<line_tag, T>(t, c, sel); nei<line_tag, vertex_tag>(t, c, sel); nei<T, vertex_tag>(t, c, sel); nei<T, line_tag>(t, c, sel); }
template <typename F, typename T, typename X, typename C> static void low3(TM<X> &t, C &c, IV const *sel) { cob<vertex_tag, line_tag>(t, c, sel); cob<vertex_tag, F>(t, c, sel); cob<vertex_tag, T>(t, c, sel); cob<line_tag, F>(t, c, sel); cob<line_tag, T>(t, c, sel); cob<F, T>(t, c, sel); nei<T, vertex_tag>(t, c, sel); nei<T, line_tag>(t, c, sel); nei<T, F>(t, c, sel); nei<F, line_tag>(t, c, sel); nei<line_tag, vertex_tag>(t, c, sel); }
template <typename X, typename C> static void low(TM<X> &t, C &c, IV const *sel, tetrahedron_tag) { low3<triangle_tag, tetrahedron_tag>(t, c, sel); }
template <typename X, typename C> static void low(TM<X> &t, C &c, IV const *sel, hexahedron_tag) { low3<quadrilateral_tag, hexahedron_tag>(t, c, sel); }
template <typename X, typename C> static void verify(TM<X> &t, C &c, IV const *sel = 0) { low(t, c, sel, typename CT<X>::T()); }
template <typename X> static void segs(TM<X> &t, bool between)
{
  typedef typename result_of::segmentation<X>::type S; typedef typename result_of::segment_handle<S>::type H; S sg(t.m); H s[2] = { sg.make_segment(), sg.make_segment() }; int n = (int)t.c.size(); IV sel[2] = { IV(n, 0), IV(n, 0) };
  for (int i = 0; i < n; ++i) { int w = vs_pick("assign", 4); for (int k = 0; k < 2; ++k) if (w >> k & 1) { add(s[k], t[i]); sel[k][i] = 1; } if (between && i + 1 < n && vs_pick("query", 2)) for (int k = 0; k < 2; ++k) verify(t, s[k], &sel[k]); }
  for (int k = 0; k < 2; ++k) verify(t, s[k], &sel[k]); verify(t, t.m);
}
#endif
