// Transfer of quantities between elements of different dimension.
// BOUND: conforming meshes of up to 3 lines, 2 triangles, 2 quadrilaterals, 2 tetrahedra and one-cell segments of them; symbolic source values; filters that pass all, none, one or all but one element
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/functors.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/quantity_transfer.hpp"
using namespace viennagrid;
struct Acc { int n; double s, q; Acc() : n(0), s(0), q(0) {} void add(double v) { ++n; s += v; q += v * v; } };
struct Avg { Acc operator()(std::vector<double> const &v) const { Acc a; for (std::size_t i = 0; i < v.size(); ++i) a.add(v[i]); return a; } };
template <typename M> struct Src { typedef double value_type; PosOf<M> p; std::map<IS, double> const &v; Src(PosOf<M> const &p_, std::map<IS, double> const &v_) : p(p_), v(v_) {} template <typename E> double operator()(E const &e) const { std::map<IS, double>::const_iterator i = v.find(p(e)); CHECKM(i != v.end(), "values are read from source elements"); return i->second; } };
template <typename M> struct Dst { PosOf<M> p; std::map<IS, std::vector<Acc> > got; Dst(PosOf<M> const &p_) : p(p_) {} template <typename E> void operator()(E const &e, Acc const &a) { got[p(e)].push_back(a); } };
template <typename M> struct Fil { PosOf<M> p; ISS const &pass; int dim; Fil(PosOf<M> const &p_, ISS const &s, int d) : p(p_), pass(s), dim(d) {} template <typename E> bool operator()(E const &e) const { CHECKM((int)E::tag::dim == dim, "a filter sees elements of its kind"); return pass.count(p(e)) != 0; } };
static ISS some(ISS const &a, const char *n) { int k = vs_pick(n, 2 + 2 * (int)(vs_tier() ? a.size() : (a.size() < 3 ? a.size() : 3))); if (k == 0) return a; if (k == 1) return ISS(); ISS r; int j = (k - 2) / 2, i = 0; for (ISS::const_iterator q = a.begin(); q != a.end(); ++q, ++i) if ((i == j) == (k % 2 == 0)) r.insert(*q); return r; }
template <typename S, typename D, typename M, typename X> static void run(TM<M> &t, X const &x, std::vector<int> const *sel)
{
  PosOf<M> p(t.m, t.h); ISS src = t.all(S::dim, sel), dst = t.all(D::dim, sel), fs = some(src, "source filter"), fd = some(dst, "destination filter"); std::map<IS, double> v; for (ISS::iterator i = src.begin(); i != src.end(); ++i) v[*i] = vs_real("value", -9, 9);
  Dst<M> d(p); quantity_transfer<S, D>(x, Src<M>(p, v), d, Avg(), Fil<M>(p, fs, S::dim), Fil<M>(p, fd, D::dim));
  for (ISS::iterator i = dst.begin(); i != dst.end(); ++i) { Acc e; for (ISS::iterator k = fs.begin(); k != fs.end(); ++k) { IS const &a = S::dim < D::dim ? *k : *i, &b = S::dim < D::dim ? *i : *k; bool inc = std::includes(b.begin(), b.end(), a.begin(), a.end()); if (inc) e.add(v[*k]); }
    std::vector<Acc> const &g = d.got[*i]; if (!fd.count(*i)) { CHECKM(g.empty(), "elements that the filter rejects are not written"); continue; } if (e.n == 0) continue; CHECKM(g.size() == 1, "a destination element is written once"); CHECKM(g[0].n == e.n, "number of averaged values"); vs_eq(g[0].s, e.s, 1e-12, "values of the adjacent source elements"); vs_eq(g[0].q, e.q, 1e-12, "every adjacent source element contributes once"); }
  for (std::map<IS, std::vector<Acc> >::iterator i = d.got.begin(); i != d.got.end(); ++i) CHECKM(dst.count(i->first) == 1, "only elements of the mesh or segment are written");
}
template <typename M> static void build(TM<M> &t, int n, int pool) { t.vertices(pool); t.cell(iota_((int)Ref<typename CT<M>::T>::nv)); IV c; for (int i = 1; i < n; ++i) if (t.pick_conforming(pool, c)) t.cell(c); }
template <typename S, typename D, typename M> static void on_mesh(int n, int pool) { TM<M> t; build(t, n, pool); run<S, D>(t, t.m, 0); }
template <typename S, typename D, typename M> static void on_segment(int n, int pool) { TM<M> t; build(t, n, pool); typedef typename result_of::segmentation<M>::type SG; SG s(t.m); typename result_of::segment_handle<SG>::type a = s.make_segment(); std::vector<int> sel(t.c.size(), 0); int k = vs_pick("in segment", (int)t.c.size()); sel[k] = 1; add(a, t[k]); run<S, D>(t, a, &sel); }
VS_HARNESS(triangle_to_vertex) { on_mesh<triangle_tag, vertex_tag, triangular_2d_mesh>(2, 4); }
VS_HARNESS(triangle_to_edge) { on_mesh<triangle_tag, line_tag, triangular_2d_mesh>(2, 4); }
VS_HARNESS(edge_to_vertex) { on_mesh<line_tag, vertex_tag, triangular_2d_mesh>(2, 4); }
VS_HARNESS(vertex_to_triangle) { on_mesh<vertex_tag, triangle_tag, triangular_2d_mesh>(2, 4); }
VS_HARNESS(vertex_to_edge) { on_mesh<vertex_tag, line_tag, triangular_2d_mesh>(2, 4); }
VS_HARNESS(edge_to_triangle) { on_mesh<line_tag, triangle_tag, triangular_2d_mesh>(2, 4); }
VS_HARNESS(lines) { if (vs_pick("up", 2)) on_mesh<vertex_tag, line_tag, line_2d_mesh>(3, 4); else on_mesh<line_tag, vertex_tag, line_2d_mesh>(3, 4); }
VS_HARNESS(tetrahedra_down) { if (vs_pick("to", 2)) on_mesh<tetrahedron_tag, vertex_tag, tetrahedral_3d_mesh>(2, 5); else on_mesh<tetrahedron_tag, triangle_tag, tetrahedral_3d_mesh>(2, 5); }
VS_HARNESS(tetrahedra_up) { if (vs_pick("from", 2)) on_mesh<vertex_tag, tetrahedron_tag, tetrahedral_3d_mesh>(2, 5); else on_mesh<triangle_tag, tetrahedron_tag, tetrahedral_3d_mesh>(2, 5); }
VS_HARNESS(segment_down) { on_segment<triangle_tag, vertex_tag, triangular_2d_mesh>(2, 4); }
VS_HARNESS(segment_up) { on_segment<vertex_tag, triangle_tag, triangular_2d_mesh>(2, 4); }
VS_HARNESS(segment_edges) { if (vs_pick("up", 2)) on_segment<line_tag, triangle_tag, triangular_2d_mesh>(2, 4); else on_segment<line_tag, vertex_tag, triangular_2d_mesh>(2, 4); }
VS_HARNESS(quadrilaterals) { TM<quadrilateral_2d_mesh> t; t.vertices(6); int a[4] = {0, 1, 2, 3}, b[4] = {2, 3, 4, 5}; t.cell(IV(a, a + 4)); t.cell(IV(b, b + 4)); switch (vs_pick("kind", 4)) { case 0: run<vertex_tag, quadrilateral_tag>(t, t.m, 0); break; case 1: run<quadrilateral_tag, vertex_tag>(t, t.m, 0); break; case 2: run<line_tag, quadrilateral_tag>(t, t.m, 0); break; default: run<quadrilateral_tag, line_tag>(t, t.m, 0); } }
// the library's own accessors, element types instead of tags and no filters
struct Mean { double operator()(std::vector<double> const &v) const { double s = 0; for (std::size_t i = 0; i < v.size(); ++i) s += v[i]; return s / (double)v.size(); } };
template <typename A> struct Put { A a; Put(A a_) : a(a_) {} template <typename E> void operator()(E const &e, double v) { a(e) = v; } };
VS_HARNESS(accessors)
{
  typedef triangular_2d_mesh M; TM<M> t; build(t, 2, 4); typedef result_of::vertex<M>::type V; typedef result_of::cell<M>::type C; double v[4]; std::vector<double> vd, cd; for (int i = 0; i < 4; ++i) make_accessor<V>(vd)(dereference_handle(t.m, t.h[i])) = v[i] = vs_real("v", -9, 9); typedef result_of::accessor<std::vector<double>, C>::type CA; typedef result_of::accessor<std::vector<double>, V>::type VA; Put<CA> put(make_accessor<C>(cd)); quantity_transfer<V, C>(t.m, make_accessor<V>(vd), put, Mean(), true_functor(), true_functor()); CHECKM(cd.size() == t.c.size(), "one value per cell");
  double m[4] = {0, 0, 0, 0}; int n[4] = {0, 0, 0, 0}; for (std::size_t i = 0; i < t.c.size(); ++i) { double s = 0; for (int k = 0; k < 3; ++k) s += v[t.c[i][k]]; vs_eq(make_accessor<C>(cd)(t[i]), s / 3, 1e-12, "mean of the vertices of a triangle"); for (int k = 0; k < 3; ++k) m[t.c[i][k]] += s / 3, ++n[t.c[i][k]]; }
  std::vector<double> bd; Put<VA> back(make_accessor<V>(bd)); quantity_transfer<C, V>(t.m, make_field<C>(cd), back, Mean(), true_functor(), true_functor()); for (int i = 0; i < 4; ++i) if (n[i]) vs_eq(make_accessor<V>(bd)(dereference_handle(t.m, t.h[i])), m[i] / n[i], 1e-12, "mean of the triangles at a vertex");
}
