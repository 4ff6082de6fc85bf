// Accessors and fields: data attached to elements.
// BOUND: 3 vertices (cells, edges) with 5 choices of distinct ids up to 300 (thorough: all 60), all sequences of 2 operations (thorough: 3) on any of them, symbolic values and default values; std::vector, std::deque and std::map, accessors and fields, their const and dynamic variants
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/accessor.hpp"
using namespace viennagrid;
typedef triangular_2d_mesh M; typedef result_of::vertex<M>::type V;
struct Els { M m; std::vector<V *> v; IV id; Els() { static const int q[5][3] = {{0, 1, 2}, {2, 0, 4}, {4, 3, 1}, {1, 4, 0}, {70, 3, 300}}; if (vs_tier()) for (int i = 0; i < 3; ++i) { IV o; for (int x = 0; x < 5; ++x) if (std::find(id.begin(), id.end(), x) == id.end()) o.push_back(x); id.push_back(o[vs_pick("id", (int)o.size())]); } else { int k = vs_pick("ids", 5); for (int i = 0; i < 3; ++i) id.push_back(q[k][i]); } std::vector<VH<M>::H> h; for (int i = 0; i < 3; ++i) h.push_back(make_vertex_with_id(m, V::id_type(id[i]), P2(i, 2 * i))); for (int i = 0; i < 3; ++i) v.push_back(&dereference_handle(m, h[i])); } };
// the model: what was stored for an element; gap = a dense container may have created an empty entry for it
struct Mod { bool has[3]; double x[3]; bool dense; Mod(bool d) : dense(d) { for (int i = 0; i < 3; ++i) has[i] = false, x[i] = 0; } bool gap(Els &e, int i) { if (!dense || has[i]) return false; for (int k = 0; k < 3; ++k) if (has[k] && e.id[k] > e.id[i]) return true; return false; } };
template <typename A> static void look(A &a, V &v, bool has, bool gap, double x, bool field, double d)
{
  A const &c = a; const double *p = a.find(v), *q = c.find(v); CHECKM(p == q, "find does not depend on constness"); bool thrown = false; try { const double &r = c.at(v); CHECKM(&r == q, "at returns the stored value"); } catch (std::out_of_range &) { thrown = true; } CHECKM(thrown == (q == 0), "at throws out_of_range exactly if there is no data");
  thrown = false; try { const double &r = a.at(v); CHECKM(&r == p, "at returns the stored value"); } catch (std::out_of_range &) { thrown = true; } CHECKM(thrown == (p == 0), "at throws out_of_range exactly if there is no data"); CHECKM(c.find(v) == q, "reading does not create data");
  if (has) { CHECKM(q != 0, "stored data is found"); EQ(*q, x); EQ(c(v), x); } else if (q) { CHECKM(gap, "no data without a write"); EQ(*q, 0); } else { if (!gap) CHECKM(q == 0, "no data without a write"); if (field) { EQ(c(v), d); CHECKM(c.find(v) == 0, "reading does not create data"); } }
}
template <typename A, typename K> static void look_all(Els &e, A &a, K &k, Mod &mo, bool field, double d) { for (int i = 0; i < 3; ++i) { look(a, *e.v[i], mo.has[i], mo.gap(e, i), mo.x[i], field, d); look(k, *e.v[i], mo.has[i], mo.gap(e, i), mo.x[i], field, d); } }
template <typename A, typename B, typename K> static void seq(Els &e, A &a, B &b, K &k, Mod &mo, bool field, double d)
{
  look_all(e, a, k, mo, field, d); int n = vs_tier() ? 3 : 2; for (int s = 0; s < n; ++s) { int i = vs_pick("element", 3); V &v = *e.v[i]; double x = vs_real("x", -9, 9);
    switch (vs_pick("op", 4)) { case 0: a(v) = x; mo.has[i] = true; mo.x[i] = x; break; case 1: { double y = b(v); EQ(y, mo.has[i] ? mo.x[i] : 0); b(v) += x; mo.has[i] = true; mo.x[i] += x; break; }
      case 2: { bool t = false, g = mo.gap(e, i); try { a.at(v) = x; } catch (std::out_of_range &) { t = true; } if (mo.has[i]) CHECKM(!t, "at gives access to the data"); else if (!g) CHECKM(t, "at throws out_of_range if there is no data"); if (!t) { mo.has[i] = true; mo.x[i] = x; } break; }
      default: { double *p = b.find(v); if (mo.has[i]) CHECKM(p != 0, "stored data is found"); if (p) { *p = x; mo.has[i] = true; mo.x[i] = x; } } }
    look_all(e, a, k, mo, field, d); look_all(e, b, k, mo, field, d); }
}
template <typename C> static void accessors(bool dense) { Els e; C c; typename result_of::accessor<C, V>::type a(c), b; CHECKM(!b.is_valid(), "an accessor without container is not valid"); b = make_accessor<V>(c); CHECKM(a.is_valid() && b.is_valid(), "an accessor of a container is valid"); C const &cc = c; typename result_of::accessor<const C, V>::type k = make_accessor<V>(cc), z; CHECKM(k.is_valid() && !z.is_valid(), "validity of a const accessor"); Mod mo(dense); seq(e, a, b, k, mo, false, 0); }
VS_HARNESS(vector_accessor) { accessors<std::vector<double> >(true); }
VS_HARNESS(deque_accessor) { accessors<std::deque<double> >(true); }
VS_HARNESS(map_accessor) { accessors<result_of::accessor_container<V, double, std_map_tag>::type>(false); }
template <typename F> static bool valid_in(unsigned char fill) { union { double al; unsigned char raw[sizeof(F) + 16]; } u; for (std::size_t i = 0; i < sizeof(u.raw); ++i) u.raw[i] = fill; F *f = new (u.raw) F(); bool r = f->is_valid(); f->~F(); return r; }
template <typename C> static void fields(bool dense) { Els e; C c; double d = vs_real("default", 10, 20); bool own = vs_pick("own default", 2); typedef typename result_of::field<C, V>::type F; typedef typename result_of::field<const C, V>::type KF; F a = own ? F(c, d) : F(c), b = a; C const &cc = c; KF k = own ? KF(cc, d) : make_field<V>(cc); CHECKM(a.is_valid() && b.is_valid() && k.is_valid(), "a field of a container is valid"); CHECKM(!valid_in<F>(1) && !valid_in<KF>(1) && !valid_in<F>(0), "a field without container is not valid"); Mod mo(dense); seq(e, a, b, k, mo, true, own ? d : 0); }
VS_HARNESS(vector_field) { fields<std::vector<double> >(true); }
VS_HARNESS(deque_field) { fields<std::deque<double> >(true); }
VS_HARNESS(map_field) { fields<result_of::accessor_container<V, double, std_map_tag>::type>(false); }
template <typename C> static void dynamic_accessors(bool dense) { Els e; C c; typedef typename result_of::accessor<C, V>::type A; typedef typename result_of::accessor<const C, V>::type KA; dynamic_accessor_wrapper<A> w(make_accessor<V>(c)); base_dynamic_accessor<double, V> &a = w; A b = make_accessor<V>(c); C const &cc = c; dynamic_accessor_wrapper<const KA> kw(make_accessor<V>(cc)); base_dynamic_accessor<const double, V> &k = kw; Mod mo(dense); seq(e, a, b, k, mo, false, 0); }
VS_HARNESS(dynamic_vector_accessor) { dynamic_accessors<std::vector<double> >(true); }
VS_HARNESS(dynamic_map_accessor) { dynamic_accessors<result_of::accessor_container<V, double, std_map_tag>::type>(false); }
template <typename C> static void dynamic_fields(bool dense) { Els e; C c; double d = vs_real("default", 10, 20); typedef typename result_of::field<C, V>::type F; typedef typename result_of::field<const C, V>::type KF; F b(c, d); dynamic_field_wrapper<F> w(b); base_dynamic_field<double, V> &a = w; C const &cc = c; dynamic_field_wrapper<const KF> kw(KF(cc, d)); base_dynamic_field<const double, V> &k = kw; Mod mo(dense); seq(e, a, b, k, mo, true, d); }
VS_HARNESS(dynamic_vector_field) { dynamic_fields<std::vector<double> >(true); }
VS_HARNESS(dynamic_map_field) { dynamic_fields<result_of::accessor_container<V, double, std_map_tag>::type>(false); }
// flags (std::vector<bool>) on cells, data of different element types, and the default accessor of the points
VS_HARNESS(flags_and_points)
{
  TM<M> t; t.vertices(4); t.cell(iota_(3)); IV c2; c2.push_back(1); c2.push_back(2); c2.push_back(3); t.cell(c2); typedef result_of::cell<M>::type C; typedef result_of::line<M>::type L; std::vector<bool> f; result_of::accessor<std::vector<bool>, C>::type a(f); result_of::field<std::vector<bool>, C>::type fl(f, true); result_of::field<std::vector<bool>, C>::type const &cf = fl;
  int i = vs_pick("cell", 2); CHECKM(cf(t[0]) && cf(t[1]), "default value of a flag"); bool x = vs_pick("x", 2); a(t[i]) = x; CHECKM(cf(t[i]) == x, "flag of a cell"); if (i == 0) CHECKM(cf(t[1]), "default value of a flag");
  std::vector<double> on_v, on_e; result_of::accessor<std::vector<double>, V>::type av(on_v); result_of::accessor<std::vector<double>, L>::type ae(on_e); double xv = vs_real("v", -9, 9), xe = vs_real("e", -9, 9); V &v = dereference_handle(t.m, t.h[vs_pick("vertex", 4)]); L &e = lines(t.m)[vs_pick("edge", 5)]; ae(e) = xe; av(v) = xv; EQ(av(v), xv); EQ(ae(e), xe);
  double px = vs_real("px", -9, 9); result_of::default_point_accessor<M>::type p; CHECKM(p.is_valid(), "the points are always there"); CHECKM(&p(v) == &point(v) && &p.at(v) == &point(v) && p.find(v) == &point(v), "the default accessor is the point of the vertex"); p(v)[0] = px; EQ(point(v)[0], px); EQ(point(t.m, v)[0], px); M const &cm = t.m; result_of::default_point_accessor<M>::type const q = default_point_accessor(cm); V const &w = v; CHECKM(&q(w) == &point(v) && &q.at(w) == &point(v) && q.find(w) == &point(v), "the default accessor is the point of the vertex");
}
// points through a user accessor
VS_HARNESS(user_points)
{
  Els e; std::vector<P2> pts; result_of::accessor<std::vector<P2>, V>::type a(pts); double x[3]; for (int i = 0; i < 3; ++i) { x[i] = vs_real("x", -9, 9); a(*e.v[i]) = P2(x[i], 1); } for (int i = 0; i < 3; ++i) { EQ(a.at(*e.v[i])[0], x[i]); EQ(point(e.m, *e.v[i])[0], i); }
}
