// Segment membership, segment ids and names.
// BOUND: triangular 2d, tetrahedral 3d and line meshes with 2-3 cells; every history of up to 3 operations (4 in the thorough tier) out of adding/erasing any element of any dimension, creating a cell through a segment and clearing, on 2 segments; every history of 4 identity operations (5 thorough) on up to 4 segments with ids -1..3 and colliding names
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
using namespace viennagrid;
template <typename M> struct SegT { typedef typename result_of::segmentation<M>::type S; typedef typename result_of::segment_handle<S>::type H; };
static int K(int q, int t) { return vs_tier() ? t : q; }

// model: per segment, the element sets per dimension
struct Mod { ISS e[2][4]; };
template <typename T, typename X, typename S, typename H> static void agree_dim(TM<X> &t, S &s, H *sg, Mod const &mo)
{
  typedef typename result_of::element_range<X, T>::type R; typedef typename result_of::iterator<R>::type I; PosOf<X> p(t.m, t.h); int d = T::dim; std::size_t n;
  for (int i = 0; i < 2; ++i) { CHECKM((sets_in<T>(sg[i], t.m, t.h, &n)) == mo.e[i][d], "elements of the segment"); CHECKM(n == mo.e[i][d].size(), "every element of the segment once"); H const &c = sg[i]; CHECKM(elements<T>(c).size() == n, "element count of the segment"); }
  CHECKM((sets_in<T>(s, t.m, t.h, &n)) == join(mo.e[0][d], mo.e[1][d]), "elements of the segmentation"); CHECKM(n == join(mo.e[0][d], mo.e[1][d]).size(), "every element of the segmentation once");
  R r(t.m);
  for (I it = r.begin(); it != r.end(); ++it)
  {
    IS q = p(*it); std::set<int> ids; for (int i = 0; i < 2; ++i) { bool in = mo.e[i][d].count(q) > 0; H const &c = sg[i]; CHECKM(is_in_segment(sg[i], *it) == in, "is_in_segment"); CHECKM(is_in_segment(c, *it) == in, "is_in_segment (const)"); CHECKM((segment_element_info(c, *it) != 0) == in, "segment element information exists for members"); if (in) ids.insert(sg[i].id()); }
    typedef typename result_of::segment_id_range<S, typename I::value_type>::type SR; SR a = segment_ids(s, *it); std::set<int> g; for (typename SR::const_iterator k = a.begin(); k != a.end(); ++k) g.insert(*k);
    CHECKM(g == ids && a.size() == ids.size() && a.empty() == ids.empty(), "segment ids of an element");
    R r2(t.m); for (I jt = r2.begin(); jt != r2.end(); ++jt) { IS w = p(*jt); bool same = true; for (int i = 0; i < 2; ++i) if ((mo.e[i][d].count(w) > 0) != (mo.e[i][d].count(q) > 0)) same = false; CHECKM((segment_ids(s, *jt).is_equal(a) != 0) == same, "equality of segment id ranges"); }
  }
}
template <typename X, typename S, typename H> static void agree(TM<X> &t, S &s, H *sg, Mod const &mo, line_tag) { agree_dim<vertex_tag>(t, s, sg, mo); agree_dim<line_tag>(t, s, sg, mo); }
template <typename X, typename S, typename H> static void agree(TM<X> &t, S &s, H *sg, Mod const &mo, triangle_tag) { agree_dim<vertex_tag>(t, s, sg, mo); agree_dim<line_tag>(t, s, sg, mo); agree_dim<triangle_tag>(t, s, sg, mo); }
template <typename X, typename S, typename H> static void agree(TM<X> &t, S &s, H *sg, Mod const &mo, tetrahedron_tag) { agree_dim<vertex_tag>(t, s, sg, mo); agree_dim<line_tag>(t, s, sg, mo); agree_dim<triangle_tag>(t, s, sg, mo); agree_dim<tetrahedron_tag>(t, s, sg, mo); }
// apply f to the k-th element with tag T; returns its vertex set
template <typename T, typename X> static typename result_of::element<X, T>::type &nth(TM<X> &t, int k) { return elements<T>(t.m)[k]; }
static void m_add(Mod &mo, int i, IS const &s, int d) { mo.e[i][d].insert(s); IV v(s.begin(), s.end()); for (int k = 0; k < d; ++k) mo.e[i][k] = join(mo.e[i][k], subsets(v, k + 1)); }
static void m_erase(Mod &mo, int i, IS const &s, int d)
{ if (!mo.e[i][d].count(s)) return; for (int k = d; k < 4; ++k) { ISS o; for (ISS::iterator q = mo.e[i][k].begin(); q != mo.e[i][k].end(); ++q) if (!std::includes(q->begin(), q->end(), s.begin(), s.end())) o.insert(*q); mo.e[i][k] = o; } }
template <typename T, typename X, typename H> static void op_add(TM<X> &t, H *sg, Mod &mo, int i) { int k = vs_pick("el", (int)elements<T>(t.m).size()); typename result_of::element<X, T>::type &e = nth<T>(t, k); IS s = PosOf<X>(t.m, t.h)(e); if (k & 1) add(sg[i], e); else add(sg[i], handle(t.m, e)); m_add(mo, i, s, T::dim); }
template <typename T, typename X, typename H> static void op_erase(TM<X> &t, H *sg, Mod &mo, int i) { PosOf<X> p(t.m, t.h); std::vector<int> in; for (std::size_t k = 0; k < elements<T>(t.m).size(); ++k) if (mo.e[i][T::dim].count(p(nth<T>(t, (int)k)))) in.push_back((int)k); if (in.empty()) return; typename result_of::element<X, T>::type &e = nth<T>(t, in[vs_pick("el", (int)in.size())]); IS s = p(e); erase(sg[i], e); m_erase(mo, i, s, T::dim); }
template <typename X> struct Seg {
  typedef typename SegT<X>::S S; typedef typename SegT<X>::H H; TM<X> t; typedef typename CT<X>::T T; S s; std::vector<H> sg; Mod mo;
  Seg() : s(t.m) { sg.push_back(s.make_segment()); sg.push_back(s.get_make_segment(7)); }
  void check() { agree(t, s, &sg[0], mo, T()); }
  void make(int i, IV const &v) { t.c.push_back(v); t.ch.push_back(addc(sg[i], t.h, &v[0], (int)v.size())); m_add(mo, i, st(v), T::dim); }
};
template <typename F, typename X> static void step(Seg<X> &g, std::vector<IV> &fresh)
{
  typedef typename Seg<X>::T T; bool v = F::dim == 0; int op = vs_pick("op", v ? 7 : 8), i = vs_pick("seg", 2);
  if (v && op > 3) ++op;
  switch (op)
  {
    case 0: op_add<T>(g.t, &g.sg[0], g.mo, i); break;
    case 1: op_add<F>(g.t, &g.sg[0], g.mo, i); break;
    case 2: op_erase<T>(g.t, &g.sg[0], g.mo, i); break;
    case 3: op_erase<F>(g.t, &g.sg[0], g.mo, i); break;
    case 4: op_erase<vertex_tag>(g.t, &g.sg[0], g.mo, i); break;
    case 5: clear(g.sg[i]); for (int d = 0; d < 4; ++d) g.mo.e[i][d].clear(); break;
    case 6: if (fresh.empty()) { op_add<vertex_tag>(g.t, &g.sg[0], g.mo, i); break; } g.make(i, fresh.back()); fresh.pop_back(); break;
    case 7: clear(g.s); for (int k = 0; k < 2; ++k) for (int d = 0; d < 4; ++d) g.mo.e[k][d].clear(); CHECKM(g.s.size() == 0, "clearing a segmentation removes the segments"); g.sg.clear(); g.sg.push_back(g.s.make_segment()); g.sg.push_back(g.s.get_make_segment(7)); break;
  }
}
static IV iv(int a, int b) { IV v; v.push_back(a); v.push_back(b); return v; }
static IV iv(int a, int b, int c) { IV v = iv(a, b); v.push_back(c); return v; }
static IV iv(int a, int b, int c, int d) { IV v = iv(a, b, c); v.push_back(d); return v; }
template <typename F, typename X> static void hist(Seg<X> &g, std::vector<IV> fresh, int n) { g.check(); for (int k = 0; k < n; ++k) step<F>(g, fresh); g.check(); }
VS_HARNESS(history_triangles) { Seg<triangular_2d_mesh> g; g.t.vertices(5); g.t.cell(iv(0, 1, 2)); g.t.cell(iv(1, 2, 3)); std::vector<IV> f; f.push_back(iv(2, 3, 4)); add(g.sg[0], g.t[0]); m_add(g.mo, 0, st(g.t.c[0]), 2); add(g.sg[0], g.t[1]); m_add(g.mo, 0, st(g.t.c[1]), 2); add(g.sg[1], g.t[1]); m_add(g.mo, 1, st(g.t.c[1]), 2); hist<line_tag>(g, f, K(2, 3)); }
VS_HARNESS(history_lines) { Seg<line_1d_mesh> g; g.t.vertices(4); g.t.cell(iv(0, 1)); g.t.cell(iv(1, 2)); std::vector<IV> f; f.push_back(iv(2, 3)); f.push_back(iv(3, 0)); hist<vertex_tag>(g, f, K(3, 4)); }
VS_HARNESS(history_tetrahedra) { Seg<tetrahedral_3d_mesh> g; g.t.vertices(6); g.t.cell(iv(0, 1, 2, 3)); g.t.cell(iv(1, 2, 3, 4)); std::vector<IV> f; f.push_back(iv(2, 3, 4, 5)); int a = vs_pick("init", 2); add(g.sg[a], g.t[0]); m_add(g.mo, a, st(g.t.c[0]), 3); hist<triangle_tag>(g, f, K(1, 2)); }

// every cell in any subset of three segments, added by id range and by element, and by creation through the segment
template <typename X> static void by_ranges(TM<X> &t, std::vector<IV> const &cells)
{
  typedef typename SegT<X>::S S; typedef typename SegT<X>::H H; S s(t.m); std::vector<int> ids; for (int i = 0; i < 3; ++i) { ids.push_back(i == 2 ? 5 : i); s.get_make_segment(ids[i]); }
  std::vector<unsigned> in;
  for (std::size_t k = 0; k < cells.size(); ++k) { unsigned b = vs_pick("member", 8); in.push_back(b); t.cell(cells[k]); std::vector<int> w; for (int i = 2; i >= 0; --i) if (b >> i & 1) w.push_back(ids[i]); if (k & 1) add(s, w.begin(), w.end(), t[(int)k]); else add(s, w.begin(), w.end(), t.ch[k]); }
  for (int i = 0; i < 3; ++i) { IV sel; for (std::size_t k = 0; k < cells.size(); ++k) sel.push_back(in[k] >> i & 1); H &h = s.get_segment(ids[i]); std::size_t n; CHECKM((sets_in<typename CT<X>::T>(h, t.m, t.h, &n)) == t.all(CT<X>::T::dim, &sel), "cells added by id range"); CHECKM((sets_in<vertex_tag>(h, t.m, t.h, &n)) == t.all(0, &sel) && n == t.all(0, &sel).size(), "vertices added with the cells"); CHECKM((sets_in<typename CT<X>::F>(h, t.m, t.h, &n)) == t.all(CT<X>::T::dim - 1, &sel), "facets added with the cells"); }
}
VS_HARNESS(id_ranges_triangles) { TM<triangular_2d_mesh> t; t.vertices(5); std::vector<IV> c; c.push_back(iv(0, 1, 2)); c.push_back(iv(1, 2, 3)); by_ranges(t, c); }
VS_HARNESS(id_ranges_tetrahedra) { TM<tetrahedral_3d_mesh> t; t.vertices(5); std::vector<IV> c; c.push_back(iv(0, 1, 2, 3)); c.push_back(iv(1, 2, 3, 4)); by_ranges(t, c); }

// identities: ids and names
typedef SegT<line_1d_mesh>::S LS; typedef SegT<line_1d_mesh>::H LH;
static const char *NAME[] = { "0", "1", "2", "bulk", "oxide" };
static std::string num(int i) { std::string r; if (i < 0) { r = "-"; i = -i; } r += (char)('0' + i); return r; }
struct Ids { std::map<int, std::string> m; int hi; Ids() : hi(-1) {} bool named(std::string const &n) const { for (std::map<int, std::string>::const_iterator i = m.begin(); i != m.end(); ++i) if (i->second == n) return true; return false; } int id(std::string const &n) const { for (std::map<int, std::string>::const_iterator i = m.begin(); i != m.end(); ++i) if (i->second == n) return i->first; return -99; } };
static void same(LS &s, Ids const &r)
{
  LS const &c = s; CHECKM(c.size() == r.m.size(), "number of segments");
  std::map<int, std::string>::const_iterator q = r.m.begin();
  for (LS::iterator it = s.begin(); it != s.end(); ++it, ++q) { CHECKM(q != r.m.end() && it->id() == q->first, "segments are iterated by increasing id"); CHECKM(it->name() == q->second, "name of a segment"); }
  for (int i = -1; i < 5; ++i)
  {
    bool in = r.m.count(i) > 0; CHECKM(c.segment_present(i) == in, "segment_present"); CHECKM((c.find(i) != c.end()) == in, "find by id");
    bool thrown = false; try { CHECKM(c.at(i).id() == i && &c.at(i) == &s.get_segment(i), "at(id)"); } catch (segment_id_not_found_exception const &) { thrown = true; } CHECKM(thrown == !in, "at(id) throws iff there is no such segment");
    if (in) { CHECKM(c[i].id() == i && c(i).id() == i && s[i].id() == i && c.find(i)->id() == i, "access by id"); }
  }
  for (int k = 0; k < 5; ++k)
  {
    bool in = r.named(NAME[k]); bool thrown = false; try { CHECKM(c.at(std::string(NAME[k])).id() == r.id(NAME[k]), "at(name)"); } catch (segment_name_not_found_exception const &) { thrown = true; } CHECKM(thrown == !in, "at(name) throws iff there is no such segment");
    if (in) { CHECKM(c[std::string(NAME[k])].id() == r.id(NAME[k]) && s.get_segment(std::string(NAME[k])).id() == r.id(NAME[k]), "access by name"); CHECKM(&c.at(std::string(NAME[k])) == &s.get_segment(r.id(NAME[k])), "id and name denote the same segment"); }
  }
}
static void make(LS &s, Ids &r, int id, bool automatic) // the default name is the id; a taken name is refused
{
  bool fails = !r.m.count(id) && r.named(num(id)), thrown = false; std::size_t before = s.size();
  try { LH &h = automatic ? s.make_segment() : s.get_make_segment(id); if (automatic) CHECKM(s.size() == before + 1 && !r.m.count(h.id()), "make_segment creates a segment with an unused id"); else CHECKM(h.id() == id, "get_make_segment(id) yields that segment"); if (automatic) id = h.id(); if (!r.m.count(id)) { CHECKM(h.name() == num(id), "default name"); r.m[id] = num(id); if (id > r.hi) r.hi = id; } }
  catch (segment_name_collision_exception const &e) { thrown = true; CHECKM(std::string(e.what()).size() > 0, "exception text"); }
  CHECKM(thrown == fails, "creating a segment fails iff its name is taken"); if (automatic && thrown) r.hi = id;
}
VS_HARNESS(identity_history)
{
  line_1d_mesh m; LS s(m); Ids r; int n = K(3, 4);
  for (int k = 0; k < n; ++k)
  {
    switch (vs_pick("op", 5))
    {
      case 0: make(s, r, r.hi + 1, true); break;
      case 1: make(s, r, vs_pick("id", 3), false); break;
      case 2: { std::string nm = NAME[1 + vs_pick("name", 3)]; bool had = r.named(nm); int id = had ? r.id(nm) : -99; std::size_t b = s.size(); LH &h = s.get_make_segment(nm); CHECKM(h.name() == nm, "get_make_segment(name) yields a segment of that name"); if (had) CHECKM(h.id() == id && s.size() == b, "existing segment found by name"); else { CHECKM(!r.m.count(h.id()) && s.size() == b + 1, "a named segment gets an unused id"); r.m[h.id()] = nm; if (h.id() > r.hi) r.hi = h.id(); } break; }
      case 3: { if (r.m.empty()) break; std::map<int, std::string>::iterator q = r.m.begin(); int j = vs_pick("which", (int)r.m.size()); while (j--) ++q; std::string nm = NAME[1 + vs_pick("newname", 3)]; if (nm == q->second) break; bool thrown = false; try { s.get_segment(q->first).set_name(nm); } catch (segment_name_collision_exception const &) { thrown = true; } CHECKM(thrown == r.named(nm), "renaming fails iff the name is taken"); if (!thrown) q->second = nm; break; }
      case 4: s.clear(); r = Ids(); break;
    }
    if (vs_tier() || k == n - 1) same(s, r);
  }
}
// symbolic ids: two segments with arbitrary distinct ids are kept apart, equal ids are the same segment
VS_HARNESS(symbolic_ids)
{
  line_1d_mesh m; LS s(m); VH<line_1d_mesh>::V h; for (int i = 0; i < 3; ++i) h.push_back(make_vertex(m, P1(i))); IV a = iv(0, 1), b = iv(1, 2); CT<line_1d_mesh>::H x = addc(m, h, &a[0], 2), y = addc(m, h, &b[0], 2);
  int i = (int)vs_int("i", -12, 12), j = (int)vs_int("j", -100, 100); (void)i; (void)j;
  LH p = s.get_make_segment(3), q = s.get_make_segment(8); add(p, x); add(q, y);
  CHECKM(s.segment_present(i) == (i == 3 || i == 8), "segment_present for any id"); CHECKM((s.find(j) != s.end()) == (j == 3 || j == 8), "find for any id");
  bool thrown = false; try { LH const &g = const_cast<LS const &>(s).at(i); CHECKM(g.id() == i, "at(id) for any id"); CHECKM(is_in_segment(g, dereference_handle(m, x)) == (i == 3) && is_in_segment(g, dereference_handle(m, y)) == (i == 8), "membership seen through at(id)"); } catch (segment_id_not_found_exception const &) { thrown = true; } CHECKM(thrown == !(i == 3 || i == 8), "at(id) throws for every other id");
}
// per segment information of an element: written for one pair of segment and element, read back for exactly this pair
VS_HARNESS(element_information)
{
  typedef triangular_3d_mesh M; typedef result_of::oriented_3d_hull_segmentation<M>::type S; typedef result_of::segment_handle<S>::type H; TM<M> t; t.vertices(4); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); S s(t.m); H h[2] = { s.make_segment(), s.get_make_segment(4) }; int val[2][2] = { { -1, -1 }, { -1, -1 } };
  for (int k = 0; k < 3; ++k) { int i = vs_pick("seg", 2), c = vs_pick("cell", 2), v = vs_pick("value", 2); if (val[i][c] < 0) add(h[i], t[c]); bool *p = segment_element_info(h[i], t[c]); CHECKM(p != 0, "information exists for members"); *p = v != 0; val[i][c] = v; }
  for (int i = 0; i < 2; ++i) for (int c = 0; c < 2; ++c) { H const &g = h[i]; bool const *p = segment_element_info(g, t[c]); bool *q = segment_element_info(h[i], t[c]); CHECKM((p != 0) == (val[i][c] >= 0) && (q != 0) == (val[i][c] >= 0), "information exists exactly for members"); if (val[i][c] >= 0) CHECKM(*p == (val[i][c] == 1) && *q == (val[i][c] == 1), "the value written for this segment and element"); }
}
// cells added to an empty segment without the check for presence
VS_HARNESS(unchecked)
{ Seg<triangular_2d_mesh> g; g.t.vertices(6); g.t.cell(iv(0, 1, 2)); g.t.cell(iv(3, 4, 5)); int i = vs_pick("seg", 2), c = vs_pick("cell", 2); if (vs_pick("by_handle", 2)) unchecked_add(g.sg[i], g.t.ch[c]); else unchecked_add(g.sg[i], g.t[c]); m_add(g.mo, i, st(g.t.c[c]), 2); g.check(); int j = vs_pick("seg2", 2); unchecked_add(g.sg[j], g.t[1 - c]); m_add(g.mo, j, st(g.t.c[1 - c]), 2); g.check(); }
// single handles added to a view: present once, found by id, nothing else appears
VS_HARNESS(single_handles)
{
  typedef triangular_2d_mesh M; typedef result_of::mesh_view<M>::type W; TM<M> t; t.vertices(4); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); W w = make_view(t.m); ISS e[3]; PosOf<M> p(t.m, t.h);
  for (int k = 0; k < 3; ++k) { int d = vs_pick("dim", 3), n = vs_pick("which", d == 0 ? 4 : d == 1 ? 5 : 2); if (d == 0) { add_single_handle(w, t.h[n]); IS q; q.insert(n); e[0].insert(q); } else if (d == 1) { add_single_handle(w, elements<line_tag>(t.m).handle_at(n)); e[1].insert(p(elements<line_tag>(t.m)[n])); } else { add_single_handle(w, t.ch[n]); e[2].insert(st(t.c[n])); } }
  std::size_t n; CHECKM(sets_in<vertex_tag>(w, t.m, t.h, &n) == e[0] && n == e[0].size(), "vertices of the view, each once"); CHECKM(sets_in<line_tag>(w, t.m, t.h, &n) == e[1] && n == e[1].size(), "lines of the view, each once"); CHECKM(sets_in<triangle_tag>(w, t.m, t.h, &n) == e[2] && n == e[2].size(), "cells of the view, each once");
}
// a segmentation that holds cells only
VS_HARNESS(cells_only)
{
  typedef triangular_2d_mesh M; typedef result_of::cell_only_segmentation<M>::type S; typedef result_of::segment_handle<S>::type H; TM<M> t; t.vertices(5); t.cell(iv(0, 1, 2)); t.cell(iv(1, 2, 3)); t.cell(iv(2, 3, 4)); M other; S s(other); s.init(t.m); CHECKM(&s.mesh() == &t.m, "mesh of the segmentation"); H h[2] = { s.make_segment(), s.get_make_segment(3) }; IS in[2];
  for (int k = 0; k < 3; ++k) { int i = vs_pick("seg", 2), c = vs_pick("cell", 3); if (in[i].count(c) && vs_pick("erase", 2)) { erase(h[i], t[c]); in[i].erase(c); } else { add(h[i], t[c]); in[i].insert(c); } }
  for (int i = 0; i < 2; ++i) { ISS e; for (IS::iterator k = in[i].begin(); k != in[i].end(); ++k) e.insert(st(t.c[*k])); std::size_t n; CHECKM(sets_in<triangle_tag>(h[i], t.m, t.h, &n) == e && n == e.size(), "cells of the segment"); for (int c = 0; c < 3; ++c) CHECKM(is_in_segment(h[i], t[c]) == (in[i].count(c) > 0), "membership"); }
  for (int c = 0; c < 3; ++c) CHECKM(segment_ids(s, t[c]).size() == in[0].count(c) + in[1].count(c), "number of segments of a cell");
}
