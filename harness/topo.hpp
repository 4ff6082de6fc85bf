// Combinatorial model of meshes used as the oracle by the topological harnesses: a cell is the list of
// positions of its vertices in creation order, a boundary element the set of its vertex positions.
#ifndef VS_TOPO_HPP
#define VS_TOPO_HPP
#include "common.hpp"
typedef std::set<int> IS; typedef std::set<IS> ISS; typedef std::vector<int> IV;
static inline IS st(IV const &v) { return IS(v.begin(), v.end()); }
static inline IV iota_(int n) { IV v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
static inline ISS subsets(IV const &v, unsigned k) { ISS r; for (unsigned b = 0; b < (1u << v.size()); ++b) { IS s; for (unsigned i = 0; i < v.size(); ++i) if (b >> i & 1) s.insert(v[i]); if (s.size() == k) r.insert(s); } return r; }
// faces with k free directions of the d-cube in lexicographic vertex order
static inline ISS cube(IV const &v, int d, int k)
{ ISS r; for (int dirs = 0; dirs < (1 << d); ++dirs) if (__builtin_popcount(dirs) == k) for (int base = 0; base < (1 << d); ++base) if (!(base & dirs)) { IS s; for (int x = 0; x < (1 << d); ++x) if ((x & ~dirs) == base) s.insert(v[x]); r.insert(s); } return r; }
static inline ISS ring(IV const &v) { ISS r; for (std::size_t i = 0; i < v.size(); ++i) { IS s; s.insert(v[i]); s.insert(v[(i + 1) % v.size()]); r.insert(s); } return r; }
static inline ISS join(ISS a, ISS const &b) { a.insert(b.begin(), b.end()); return a; }
// faces of dimension k of a cell with tag T
template <typename T> struct Ref;
template <int d> struct Ref<viennagrid::simplex_tag<d> > { static ISS faces(IV const &v, int k) { return subsets(v, k + 1); } enum { dim = d, nv = d + 1 }; };
template <int d> struct Ref<viennagrid::hypercube_tag<d> > { static ISS faces(IV const &v, int k) { return k == d ? join(ISS(), subsets(v, v.size())) : cube(v, d, k); } enum { dim = d, nv = 1 << d }; };
template <> struct Ref<viennagrid::polygon_tag> { static ISS faces(IV const &v, int k) { return k == 0 ? subsets(v, 1) : k == 1 ? ring(v) : subsets(v, v.size()); } enum { dim = 2, nv = 4 }; };
template <typename M> struct CT { typedef typename viennagrid::result_of::cell_tag<M>::type T; typedef typename viennagrid::result_of::cell_handle<M>::type H; typedef typename viennagrid::result_of::facet_tag<M>::type F; };
// position set of any element, vertices included
template <typename M> struct PosOf {
  M &m; typename VH<M>::V const &h; PosOf(M &m_, typename VH<M>::V const &h_) : m(m_), h(h_) {}
  template <typename E> IS operator()(E const &e) const { return get(e, typename E::tag()); }
  template <typename E> IS get(E const &e, viennagrid::vertex_tag) const { IS s; int k = -1; for (std::size_t i = 0; i < h.size(); ++i) if (&e == &viennagrid::dereference_handle(m, h[i])) k = (int)i; s.insert(k); return s; }
  template <typename E, typename T> IS get(E const &e, T) const
  {
    typedef typename viennagrid::result_of::const_vertex_range<E>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(e); IS s;
    for (I it = r.begin(); it != r.end(); ++it) { IS q = get(*it, viennagrid::vertex_tag()); s.insert(*q.begin()); } return s;
  }
};
template <typename T, typename C, typename M> static ISS sets_in(C &c, M &m, typename VH<M>::V const &h, std::size_t *count = 0)
{ typedef typename viennagrid::result_of::element_range<C, T>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(c); PosOf<M> p(m, h); ISS s; if (count) *count = 0; for (I it = r.begin(); it != r.end(); ++it) { s.insert(p(*it)); if (count) ++*count; } return s; }
// a mesh together with its model
template <typename M_> struct TM {
  typedef M_ M; typedef typename CT<M>::T T; typedef typename VH<M>::V V; M m; V h; std::vector<IV> c; std::vector<typename CT<M>::H> ch;
  void vertices(int n) { for (int i = 0; i < n; ++i) { typename viennagrid::result_of::point<M>::type p; for (int k = 0; k < (int)p.size(); ++k) p[k] = k == 0 ? i : k == 1 ? i * i : i * i * i; h.push_back(viennagrid::make_vertex(m, p)); } }
  void cell(IV const &v) { c.push_back(v); ch.push_back(addc(m, h, &v[0], (int)v.size())); }
  // an arbitrary cell on the first `pool` vertices: any increasing vertex list, or (ordered = false) any arrangement
  static void gen(int pool, bool inc, IV &b, std::vector<IV> &o) { if ((int)b.size() == (int)Ref<T>::nv) { o.push_back(b); return; } for (int x = inc && !b.empty() ? b.back() + 1 : 0; x < pool; ++x) if (!st(b).count(x)) { b.push_back(x); gen(pool, inc, b, o); b.pop_back(); } }
  IV pick(int pool, bool inc = false) { std::vector<IV> o; IV b; gen(pool, inc, b, o); return o[vs_pick("cell", (int)o.size())]; }
  // an arbitrary further cell that keeps the mesh conforming; false if there is none
  bool pick_conforming(int pool, IV &r) { std::vector<IV> o, g; IV b; gen(pool, true, b, o); for (std::size_t i = 0; i < o.size(); ++i) { c.push_back(o[i]); if (manifold()) g.push_back(o[i]); c.pop_back(); } if (g.empty()) return false; r = g[vs_pick("cell", (int)g.size())]; return true; }
  std::map<IS, int> facet_count(std::vector<int> const *sel = 0) const { std::map<IS, int> n; for (std::size_t i = 0; i < c.size(); ++i) if (!sel || (*sel)[i]) { ISS f = Ref<T>::faces(c[i], Ref<T>::dim - 1); for (ISS::iterator k = f.begin(); k != f.end(); ++k) ++n[*k]; } return n; }
  bool manifold() const { std::map<IS, int> n = facet_count(); for (std::map<IS, int>::iterator i = n.begin(); i != n.end(); ++i) if (i->second > 2) return false; ISS s; for (std::size_t i = 0; i < c.size(); ++i) if (!s.insert(st(c[i])).second) return false; return true; }
  // is the element with vertex set s (a face of dimension k) part of the boundary?
  bool on_boundary(IS const &s, std::vector<int> const *sel = 0) const { std::map<IS, int> n = facet_count(sel); for (std::map<IS, int>::iterator i = n.begin(); i != n.end(); ++i) if (i->second == 1 && std::includes(i->first.begin(), i->first.end(), s.begin(), s.end())) return true; return false; }
  ISS all(int k, std::vector<int> const *sel = 0) const { ISS r; for (std::size_t i = 0; i < c.size(); ++i) if (!sel || (*sel)[i]) r = join(r, Ref<T>::faces(c[i], k)); return r; }
  typename viennagrid::result_of::cell<M>::type &operator[](int i) { return viennagrid::dereference_handle(m, ch[i]); }
};
#endif
