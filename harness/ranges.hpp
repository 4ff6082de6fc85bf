// Checks of ranges, iterators, handles and find functions shared by the P24 harnesses.
#include "obs.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
using namespace viennagrid;
template <typename T, typename H, typename VC, typename CC, typename P> struct Cfg { typedef typename config::result_of::full_mesh_config<T, P, H, VC, CC>::type type; };
typedef mesh<Cfg<triangle_tag, id_handle_tag, std_deque_tag, std_deque_tag, config::point_type_2d> > IdMesh;
typedef mesh<Cfg<triangle_tag, id_handle_tag, std_vector_tag, std_vector_tag, config::point_type_2d> > IdVecMesh;
typedef mesh<Cfg<tetrahedron_tag, iterator_handle_tag, std_list_tag, std_list_tag, config::point_type_3d> > ItListMesh;
typedef mesh<Cfg<triangle_tag, pointer_handle_tag, std_list_tag, std_deque_tag, config::point_type_2d> > PtrListMesh;
typedef mesh<Cfg<tetrahedron_tag, id_handle_tag, std_list_tag, std_vector_tag, config::point_type_3d> > IdListMesh;
// the elements a range visits, by address; every way to walk through it gives the same sequence
template <typename A, typename E> static void put(std::vector<A> &v, E &e) { v.push_back((A)&e); }
template <typename M, typename R> static std::vector<void const *> seq(M const &m, R &r)
{
  typedef typename viennagrid::result_of::iterator<R>::type I; typedef typename viennagrid::result_of::const_iterator<R>::type CI; typedef std::vector<void const *> V; V a, b, c, d, e, f, g; std::size_t n = 0;
  for (I it = r.begin(); it != r.end(); ++it, ++n) { put(a, *it); put(b, *it.operator->()); CHECKM(&dereference_handle(m, it.handle()) == &*it, "the handle of an iterator refers to its element"); }
  CHECKM(n == r.size() && r.empty() == (n == 0), "size of a range"); CHECKM(a == b, "operator-> of an iterator");
  V s = a; std::sort(s.begin(), s.end()); CHECKM(std::unique(s.begin(), s.end()) == s.end(), "every element once");
  for (I it = r.begin(); it != r.end();) put(c, *it++); CHECKM(c == a, "post-increment visits the elements in order");
  for (I it = r.end(); it != r.begin();) { I k = it--; CHECKM(k != it, "post-decrement returns the old position"); put(d, *it); I u = it; ++u; CHECKM(u == k, "++ undoes --"); } std::reverse(d.begin(), d.end()); CHECKM(d == a, "backward iteration");
  for (I it = r.end(); it != r.begin();) { --it; put(e, *it); } std::reverse(e.begin(), e.end()); CHECKM(e == a, "backward iteration");
  R const &k = r; for (CI it = k.begin(); it != k.end(); ++it) put(f, *it); CHECKM(f == a, "iteration of a const range"); f.clear(); for (CI it = k.begin(); it != k.end();) put(f, *it++); CHECKM(f == a, "post-increment of a const iterator"); f.clear(); for (CI it = k.end(); it != k.begin();) { CI o = it--; CHECKM(o != it, "post-decrement returns the old position"); put(f, *it); } std::reverse(f.begin(), f.end()); CHECKM(f == a, "backward iteration of a const range");
  for (std::size_t i = 0; i < n; ++i) { CHECKM((void const *)&r[i] == a[i] && (void const *)&k[i] == a[i], "operator[] of a range"); CHECKM((void const *)&dereference_handle(m, r.handle_at(i)) == a[i] && (void const *)&dereference_handle(m, k.handle_at(i)) == a[i], "handle_at"); }
  if (n) { I w = r.begin(); I x(w); x++; CHECKM((void const *)&*w == a[0], "copies of an iterator are independent"); w = x; CHECKM(w == x, "assignment of an iterator"); if (n > 1) CHECKM((void const *)&*w == a[1], "assignment of an iterator"); }
  return a;
}
// finding elements: all elements of `all` which are in `in`
template <typename T, typename M, typename X> static void finds(M &m, X &x)
{
  typedef typename viennagrid::result_of::element_range<M, T>::type R; typedef typename viennagrid::result_of::element_range<X, T>::type Q; typedef typename viennagrid::result_of::const_element_range<X, T>::type CQ; typedef typename viennagrid::result_of::iterator<R>::type I; typedef typename viennagrid::result_of::iterator<Q>::type QI; typedef typename viennagrid::result_of::const_iterator<CQ>::type CI;
  R r(m); Q q(x); X const &cx = x; CQ cq(cx); std::vector<void const *> in = seq(m, q); CHECKM(seq(m, cq) == in, "const and mutable ranges"); CHECKM(elements<T>(x).size() == in.size() && elements<T>(cx).size() == in.size(), "element count");
  for (I it = r.begin(); it != r.end(); ++it)
  {
    CHECKM(handle(m, *it) == it.handle() && &dereference_handle(m, handle(m, *it)) == &*it, "the handle of an element refers to it");
    bool is = std::find(in.begin(), in.end(), (void const *)&*it) != in.end();
    QI a = find(x, (*it).id()); CHECKM((a != q.end()) == is, "find by id succeeds exactly for the elements of the range"); if (is) CHECKM((void const *)&*a == (void const *)&*it, "find by id");
    CI b = find(cx, (*it).id()); CHECKM((b != cq.end()) == is, "find by id (const)"); if (is) CHECKM((void const *)&*b == (void const *)&*it, "find by id (const)");
    QI c = find_by_handle(x, it.handle()); CHECKM((c != q.end()) == is, "find by handle succeeds exactly for the elements of the range"); if (is) CHECKM((void const *)&*c == (void const *)&*it, "find by handle");
    CI d = find_by_handle(cx, it.handle()); CHECKM((d != cq.end()) == is, "find by handle (const)"); if (is) CHECKM((void const *)&*d == (void const *)&*it, "find by handle (const)");
    QI e = q.find((*it).id()); CHECKM((e != q.end()) == is, "find in a range"); if (is) CHECKM((void const *)&*e == (void const *)&*it, "find in a range");
    CI f = cq.find((*it).id()); CHECKM((f != cq.end()) == is, "find in a const range"); if (is) CHECKM((void const *)&*f == (void const *)&*it, "find in a const range");
  }
}
template <typename M, typename X> static void all_finds(M &m, X &x, line_tag) { finds<vertex_tag>(m, x); finds<line_tag>(m, x); }
template <typename M, typename X> static void all_finds(M &m, X &x, triangle_tag) { finds<vertex_tag>(m, x); finds<line_tag>(m, x); finds<triangle_tag>(m, x); }
template <typename M, typename X> static void all_finds(M &m, X &x, quadrilateral_tag) { finds<vertex_tag>(m, x); finds<line_tag>(m, x); finds<quadrilateral_tag>(m, x); }
template <typename M, typename X> static void all_finds(M &m, X &x, tetrahedron_tag) { finds<vertex_tag>(m, x); finds<line_tag>(m, x); finds<triangle_tag>(m, x); finds<tetrahedron_tag>(m, x); }
// ranges of elements of a cell
template <typename B, typename M> static void bounds(M &m)
{ typedef typename viennagrid::result_of::cell<M>::type C; typedef typename viennagrid::result_of::cell_range<M>::type R; typedef typename viennagrid::result_of::element_range<C, B>::type BR; typedef typename viennagrid::result_of::const_element_range<C, B>::type CR; R r(m);
  for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { BR b(*it); C const &c = *it; CR k(c); std::vector<void const *> s = seq(m, b); CHECKM(seq(m, k) == s, "const and mutable ranges"); CHECKM(!s.empty() && (void const *)&b.front() == s[0] && (void const *)&b.back() == s.back() && (void const *)&k.front() == s[0] && (void const *)&k.back() == s.back(), "first and last boundary element"); } }
template <typename M> static void ends(M &m)
{ // sequences stored in creation order
  typedef typename viennagrid::result_of::vertex_range<M>::type R; typedef typename viennagrid::result_of::cell_range<M>::type C; typedef typename viennagrid::result_of::const_vertex_range<M>::type CR; M const &cm = m; R r(m); C c(m); CR k(cm); std::vector<void const *> s = seq(m, r), t = seq(m, c), b;
  if (!s.empty()) CHECKM((void const *)&r.front() == s[0] && (void const *)&r.back() == s.back() && (void const *)&k.front() == s[0] && (void const *)&k.back() == s.back(), "first and last vertex"); if (!t.empty()) CHECKM((void const *)&c.front() == t[0] && (void const *)&c.back() == t.back(), "first and last cell");
  for (typename R::reverse_iterator it = r.rbegin(); it != r.rend(); ++it) put(b, *it); std::reverse(b.begin(), b.end()); CHECKM(b == s, "reverse iteration"); b.clear(); for (typename C::reverse_iterator it = c.rbegin(); it != c.rend(); ++it) put(b, *it); std::reverse(b.begin(), b.end()); CHECKM(b == t, "reverse iteration");
}
template <typename X> static void mesh_checks(X &m, Model const &mo) { typedef typename CT<X>::T T; same(m, mo); all_finds(m, m, T()); bounds<vertex_tag>(m); bounds<typename CT<X>::F>(m); ends(m); }
template <typename X> static void build(TM<X> &t, Model &mo, int nv, std::vector<IV> const &cs)
{ t.vertices(nv); for (int i = 0; i < nv; ++i) { IS s; s.insert(i); mo.e[0].insert(s); } for (std::size_t i = 0; i < cs.size(); ++i) { t.cell(cs[i]); grow<X>(mo, cs[i]); } }
template <typename X> static void plain(int nv, std::vector<IV> const &cs, int pool)
{ TM<X> t; Model mo; build(t, mo, nv, cs); if (vs_pick("more", 2)) { IV r; if (t.pick_conforming(pool, r)) { t.cell(r); grow<X>(mo, r); } } mesh_checks(t.m, mo); }
static std::vector<IV> tri1() { return std::vector<IV>(1, iv(0, 1, 2)); }
static std::vector<IV> tet1() { return std::vector<IV>(1, iv(0, 1, 2, 3)); }
// segments and views
template <typename T, typename M, typename X> static void by_element(M &m, X &x)
{ // search for an element in the range of a segment or view
  typedef typename viennagrid::result_of::element_range<M, T>::type R; typedef typename viennagrid::result_of::element_range<X, T>::type Q; typedef typename viennagrid::result_of::const_element_range<X, T>::type CQ; typedef typename viennagrid::result_of::iterator<Q>::type QI; typedef typename viennagrid::result_of::const_iterator<CQ>::type CI; R r(m); Q q(x); X const &cx = x; CQ cq(cx); std::vector<void const *> in = seq(m, q);
  for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { bool is = std::find(in.begin(), in.end(), (void const *)&*it) != in.end(); QI a = q.find(*it); CHECKM((a != q.end()) == is, "find of an element succeeds exactly if it is in the range"); if (is) CHECKM(&*a == &*it, "find of an element"); CI b = cq.find(*it); CHECKM((b != cq.end()) == is, "find of an element (const)"); if (is) CHECKM((void const *)&*b == (void const *)&*it, "find of an element (const)"); }
}
template <typename X, typename Y> static void elems(X &m, Y &y) { by_element<vertex_tag>(m, y); by_element<line_tag>(m, y); by_element<typename CT<X>::T>(m, y); }
template <typename X> static void seg(int nv, std::vector<IV> const &cs)
{
  typedef typename viennagrid::result_of::segmentation<X>::type S; typedef typename viennagrid::result_of::segment_handle<S>::type H; TM<X> t; Model mo; build(t, mo, nv, cs); S s(t.m); H a = s.make_segment(), b = s.make_segment();
  unsigned mask = vs_pick("mask", 1 << cs.size()); Model ma; for (std::size_t i = 0; i < cs.size(); ++i) if (mask >> i & 1) { add(a, t[(int)i]); grow<X>(ma, cs[i]); } if (vs_pick("other", 2)) add(b, t[0]);
  all_finds(t.m, a, typename CT<X>::T()); all_finds(t.m, b, typename CT<X>::T()); mesh_checks(t.m, mo); Obs<H> o(a); std::size_t n; CHECKM(o.template get<typename CT<X>::T>(&n) == ma.e[CT<X>::T::dim] && n == ma.c.size(), "cells of the segment"); CHECKM(o.template get<vertex_tag>(&n) == ma.e[0] && n == ma.e[0].size(), "vertices of the segment");
}
template <typename X> static void vw(int nv, std::vector<IV> const &cs)
{
  typedef typename CT<X>::T T; typedef typename viennagrid::result_of::mesh_view<X>::type V; TM<X> t; Model mo; build(t, mo, nv, cs); V v = make_view(t.m); unsigned mask = vs_pick("mask", 1 << cs.size()); unsigned vm = vs_pick("vertices", 4); bool ln = vs_pick("line", 2);
  for (std::size_t i = 0; i < cs.size(); ++i) if (mask >> i & 1) elements<T>(v).insert_handle(t.ch[i]); for (int i = 0; i < 2; ++i) if (vm >> i & 1) elements<vertex_tag>(v).insert_unique_handle(t.h[i]); if (ln) { elements<line_tag>(v).insert_unique_handle(elements<line_tag>(t.m).handle_at(1)); elements<line_tag>(v).insert_unique_handle(elements<line_tag>(t.m).handle_at(1)); }
  all_finds(t.m, v, T()); CHECKM(elements<vertex_tag>(v).size() == (vm & 1) + (vm >> 1) && elements<line_tag>(v).size() == (ln ? 1 : 0) && (int)elements<T>(v).size() == __builtin_popcount(mask), "size of a view");
  if (mask & 1) { elements<T>(v).erase_handle(t.ch[0]); all_finds(t.m, v, T()); CHECKM((int)elements<T>(v).size() == __builtin_popcount(mask) - 1, "size of a view after removal"); } mesh_checks(t.m, mo);
}
// after a deletion
template <typename X> static void del(int nv, std::vector<IV> const &cs)
{ TM<X> t; Model mo; build(t, mo, nv, cs); int i = vs_pick("cell", (int)cs.size()); int v = vs_pick("what", 2); IS q; if (v) { q.insert(cs[i][0]); erase_element(t.m, t.h[cs[i][0]]); } else { q = st(cs[i]); erase_element(t.m, t.ch[i]); } drop(mo, q); mesh_checks(t.m, mo); }

// copies
template <typename X> static void cpy(int nv, std::vector<IV> const &cs)
{
  TM<X> t; Model mo, mb; build(t, mo, nv, cs); X b; int how = vs_pick("how", 3); if (how == 1) { TM<X> u; Model x; build(u, x, nv, std::vector<IV>(1, cs[0])); b = u.m; } X c(t.m); X &k = how == 2 ? c : b; if (how != 2) b = t.m; mb = mo; mesh_checks(k, mb); mesh_checks(t.m, mo);
  int i = vs_pick("cell", (int)cs.size()); Obs<X> o(k); IS q = st(cs[i]); if (vs_pick("side", 2)) { erase_element(k, o.template at<typename CT<X>::T>(q)); drop(mb, q); } else { erase_element(t.m, t.ch[i]); drop(mo, q); } mesh_checks(k, mb); mesh_checks(t.m, mo);
}
static std::vector<IV> tet2() { std::vector<IV> c; c.push_back(iv(3, 1, 2, 0)); c.push_back(iv(4, 1, 3, 2)); return c; }
