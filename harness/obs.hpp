// Observing a mesh through its public interface and comparing it with a combinatorial model.
#ifndef VS_OBS_HPP
#define VS_OBS_HPP
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
using namespace viennagrid;
// the state of a mesh as a user sees it, vertices identified by their (unique) coordinates
template <typename X> struct Obs {
  typedef typename result_of::vertex<X>::type VT; X &m; Obs(X &m_) : m(m_) {}
  int key(VT const &v) { return (int)viennagrid::point(m, v)[0]; }
  template <typename E> IS of(E const &e, vertex_tag) { IS s; s.insert(key(e)); return s; }
  template <typename E, typename T> IS of(E const &e, T) { IS s; typedef typename result_of::const_vertex_range<E>::type R; R r(e); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) s.insert(key(*it)); return s; }
  template <typename T> ISS get(std::size_t *n = 0) { ISS s; typedef typename result_of::element_range<X, T>::type R; R r(m); std::size_t k = 0; for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++k) s.insert(of(*it, T())); if (n) *n = k; return s; }
  template <typename T> std::map<IS, int> ids() { std::map<IS, int> s; typedef typename result_of::element_range<X, T>::type R; R r(m); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) s[of(*it, T())] = (*it).id().get(); return s; }
  template <typename T> typename result_of::handle<X, T>::type at(IS const &q) { typedef typename result_of::element_range<X, T>::type R; R r(m); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) if (of(*it, T()) == q) return it.handle(); CHECKM(false, "element exists"); return typename result_of::handle<X, T>::type(); }
};
struct Model { ISS e[4]; std::vector<IV> c; };
template <typename X> static void grow(Model &mo, IV const &c) { typedef typename CT<X>::T T; mo.c.push_back(c); for (int k = 0; k <= Ref<T>::dim; ++k) mo.e[k] = join(mo.e[k], Ref<T>::faces(c, k)); }
static void drop(Model &mo, IS const &s) { for (int k = 0; k < 4; ++k) { ISS o; for (ISS::iterator q = mo.e[k].begin(); q != mo.e[k].end(); ++q) if (!std::includes(q->begin(), q->end(), s.begin(), s.end())) o.insert(*q); mo.e[k] = o; } std::vector<IV> n; for (std::size_t i = 0; i < mo.c.size(); ++i) { IS q = st(mo.c[i]); if (!std::includes(q.begin(), q.end(), s.begin(), s.end())) n.push_back(mo.c[i]); } mo.c = n; }
template <typename T, typename X> static void sub(X &m, Model const &mo, vertex_tag) { Obs<X> o(m); std::size_t n; CHECKM(o.template get<vertex_tag>(&n) == mo.e[0], "the vertices of the mesh"); CHECKM(n == mo.e[0].size(), "every vertex once"); }
template <typename T, typename B, typename X> static void faces(X &m, Model const &mo)
{ // the faces an element refers to are the mesh's own elements
  Obs<X> o(m); typedef typename result_of::element_range<X, T>::type R; R r(m); typedef typename result_of::element<X, T>::type E; typedef typename result_of::element_range<E, B>::type BR;
  for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { IS q = o.of(*it, T()); ISS g, e; for (ISS::const_iterator f = mo.e[B::dim].begin(); f != mo.e[B::dim].end(); ++f) if (std::includes(q.begin(), q.end(), f->begin(), f->end())) e.insert(*f); BR b(*it); for (typename result_of::iterator<BR>::type k = b.begin(); k != b.end(); ++k) { IS w = o.of(*k, B()); g.insert(w); CHECKM(&*k == &dereference_handle(m, o.template at<B>(w)), "an element refers to the stored boundary element"); } if (T::dim != Ref<typename CT<X>::T>::dim || Ref<typename CT<X>::T>::nv == T::dim + 1) CHECKM(g == e, "boundary elements of a remaining element"); }
}
template <typename T, typename X> static void sub(X &m, Model const &mo, T) { Obs<X> o(m); std::size_t n; CHECKM(o.template get<T>(&n) == mo.e[T::dim], "the elements of the mesh"); CHECKM(n == mo.e[T::dim].size(), "every element once"); }
template <typename X> static void refs(X &m, Model const &mo, line_tag) { sub<line_tag>(m, mo, line_tag()); }
template <typename X, typename T> static void refs(X &m, Model const &mo, T) { sub<line_tag>(m, mo, line_tag()); sub<T>(m, mo, T()); faces<T, line_tag>(m, mo); }
template <typename X> static void refs(X &m, Model const &mo, tetrahedron_tag) { sub<line_tag>(m, mo, line_tag()); sub<triangle_tag>(m, mo, triangle_tag()); sub<tetrahedron_tag>(m, mo, tetrahedron_tag()); faces<tetrahedron_tag, triangle_tag>(m, mo); faces<tetrahedron_tag, line_tag>(m, mo); faces<triangle_tag, line_tag>(m, mo); }
// incidence information refers to the current, own elements
template <typename X> static void incident(X &m, Model const &mo)
{
  typedef typename CT<X>::T T; typedef typename CT<X>::F F; Obs<X> o(m); typedef typename result_of::vertex_range<X>::type VR; typedef typename result_of::coboundary_range<X, vertex_tag, T>::type CR; VR vr(m);
  for (typename result_of::iterator<VR>::type it = vr.begin(); it != vr.end(); ++it) { IS q = o.of(*it, vertex_tag()); ISS g, e; std::size_t n = 0; for (std::size_t i = 0; i < mo.c.size(); ++i) if (st(mo.c[i]).count(*q.begin())) e.insert(st(mo.c[i])); CR c(m, it.handle()); for (typename result_of::iterator<CR>::type k = c.begin(); k != c.end(); ++k, ++n) { IS w = o.of(*k, T()); g.insert(w); CHECKM(&*k == &dereference_handle(m, o.template at<T>(w)), "the coboundary consists of elements of the mesh"); } CHECKM(g == e && n == e.size(), "coboundary of a vertex"); }
  typedef typename result_of::cell_range<X>::type ER; typedef typename result_of::neighbor_range<X, T, F>::type NR; ER er(m);
  for (typename result_of::iterator<ER>::type it = er.begin(); it != er.end(); ++it) { IS q = o.of(*it, T()); ISS g, e, mine; std::size_t n = 0; for (std::size_t i = 0; i < mo.c.size(); ++i) if (st(mo.c[i]) == q) mine = Ref<T>::faces(mo.c[i], T::dim - 1); for (std::size_t i = 0; i < mo.c.size(); ++i) if (st(mo.c[i]) != q) { ISS f = Ref<T>::faces(mo.c[i], T::dim - 1); for (ISS::iterator k = f.begin(); k != f.end(); ++k) if (mine.count(*k)) e.insert(st(mo.c[i])); } NR c(m, it.handle()); for (typename result_of::iterator<NR>::type k = c.begin(); k != c.end(); ++k, ++n) { IS w = o.of(*k, T()); g.insert(w); CHECKM(&*k == &dereference_handle(m, o.template at<T>(w)), "the neighbours are elements of the mesh"); } CHECKM(g == e && n == e.size(), "neighbours of a cell"); }
}
template <typename X> static void same(X &m, Model const &mo)
{
  incident(m, mo);
  typedef typename CT<X>::T T; typedef typename CT<X>::F F; Obs<X> o(m); sub<vertex_tag>(m, mo, vertex_tag()); refs(m, mo, T());
  // boundary detection sees the current cells
  std::map<IS, int> n; for (std::size_t i = 0; i < mo.c.size(); ++i) { ISS f = Ref<T>::faces(mo.c[i], T::dim - 1); for (ISS::iterator k = f.begin(); k != f.end(); ++k) ++n[*k]; }
  typedef typename result_of::element_range<X, F>::type R; R r(m); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) CHECKM(is_boundary(m, *it) == (n[o.of(*it, F())] == 1), "boundary of the current cells");
  // cells keep the order of their vertices
  typedef typename result_of::cell<X>::type C; typedef typename result_of::cell_range<X>::type CR; CR cr(m); for (typename result_of::iterator<CR>::type it = cr.begin(); it != cr.end(); ++it) { IV v; for (std::size_t k = 0; k < vertices(*it).size(); ++k) v.push_back(o.key(vertices(*it)[k])); CHECKM(std::find(mo.c.begin(), mo.c.end(), v) != mo.c.end(), "vertex order of a remaining cell"); }
}
template <typename X> static void make(X &m, Model &mo, IV const &c) { typename VH<X>::V h; Obs<X> o(m); IV loc; for (std::size_t i = 0; i < c.size(); ++i) { IS q; q.insert(c[i]); h.push_back(o.template at<vertex_tag>(q)); loc.push_back((int)i); } std::size_t had = elements<typename CT<X>::T>(m).size(); addc(m, h, &loc[0], (int)loc.size()); (void)had; grow<X>(mo, c); }
template <typename X> static void base(X &m, Model &mo, int nv, std::vector<IV> const &cs) { for (int i = 0; i < nv; ++i) { typename result_of::point<X>::type p; for (std::size_t k = 0; k < p.size(); ++k) p[k] = k == 0 ? i : 0; make_vertex(m, p); IS q; q.insert(i); mo.e[0].insert(q); } for (std::size_t i = 0; i < cs.size(); ++i) make(m, mo, cs[i]); }
static IV iv(int a, int b, int c = -1, int d = -1) { IV v; v.push_back(a); v.push_back(b); if (c >= 0) v.push_back(c); if (d >= 0) v.push_back(d); return v; }
static std::vector<IV> tris(int n) { std::vector<IV> c; c.push_back(iv(0, 1, 2)); c.push_back(iv(3, 2, 1)); c.push_back(iv(3, 2, 4)); c.resize(n); return c; }
#endif
