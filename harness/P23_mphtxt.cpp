// Comsol .mphtxt files
#include "io.hpp"
#include <cmath>
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/mphtxt_writer.hpp"
using namespace viennagrid;
typedef tetrahedral_3d_mesh M; typedef result_of::segmentation<M>::type SG;
struct Tok { SV t; std::size_t at; Tok(std::string const &s) : at(0) { std::istringstream is(s); std::string l; while (std::getline(is, l)) { std::size_t k = l.find('#'); std::istringstream ls(k == std::string::npos ? l : l.substr(0, k)); std::string w; while (ls >> w) t.push_back(w); } } std::string next() { CHECKM(at < t.size(), "contents"); return t[at++]; } int i() { return toint(next()); } double d() { DV v = numbers(next()); CHECKM(v.size() == 1, "a number"); return v[0]; } void is(const char *s) { SV w; std::istringstream x(s); std::string q; while (x >> q) CHECKM(next() == q, "layout of the file"); } };
__attribute__((optnone, noinline)) static int sgn(double x) { if (x > 0) return 1; if (x < 0) return -1; return 0; }
static double vol(P3 const &a, P3 const &b, P3 const &c, P3 const &d) { return inner_prod(cross_prod(P3(b - a), P3(c - a)), P3(d - a)); }
static void write(bool full)
{
  double a = vs_real("a", 1, 2), b = vs_real("b", 1, 2), c = vs_real("c", 1, 2), d = vs_real("d", 1, 2); P3 p[7] = {P3(0, 0, 0), P3(a, 0, 0), P3(0, b, 0), P3(a, b, 0), P3(0, 0, c), P3(0, 0, -d), P3(5, 5, d)}; static const int tv[3][4] = {{0, 1, 2, 4}, {1, 3, 2, 4}, {0, 1, 2, 5}}; int nt = 2 + vs_pick("tetrahedra", 2), n = nt == 2 ? 5 : 6; M m; VH<M>::V h(7); int order = vs_pick("order", 2); IV rank; if (full ? vs_pick("isolated", 2) : order) { h[6] = make_vertex(m, p[6]); rank.push_back(6); } for (int j = 0; j < n; ++j) { int i = order ? n - 1 - j : j; h[i] = make_vertex(m, p[i]); rank.push_back(i); }
  std::vector<IV> tet; SG s(m); static const int sid[2] = {0, 3}; s.get_make_segment(sid[0]); s.get_make_segment(sid[1]); IV seg; int turn = vs_pick("turned", 3); for (int i = 0; i < nt; ++i) { IV v(tv[i], tv[i] + 4); if (turn == 1) std::swap(v[0], v[1]); if (turn == 2) std::reverse(v.begin(), v.end()); tet.push_back(v); CT<M>::H q = addc(m, h, &v[0], 4); int k = vs_pick("segment", 3); seg.push_back(k); if (k) add(s(sid[k - 1]), dereference_handle(m, q)); }
  std::string fn = std::string(vs_tmpdir()) + "/c"; io::mphtxt_writer w; w(m, s, (full ? vs_pick("extension", 2) : order) ? fn + ".mphtxt" : fn); Tok f(slurp(fn + ".mphtxt")); f.is("0 1 1 15 viennagrid_mesh 1 3 obj 0 0 1 4 Mesh 2 3"); CHECKM(f.i() == (int)rank.size(), "number of points"); f.is("0"); for (std::size_t i = 0; i < rank.size(); ++i) for (int k = 0; k < 3; ++k) EQ(f.d(), p[rank[i]][k]);
  f.is("2 3 tri 3"); // exactly the triangles between different segments (or a segment and none)
  std::map<IS, IV> at; for (int i = 0; i < nt; ++i) for (int k = 0; k < 4; ++k) { IS q = st(tet[i]); q.erase(tet[i][k]); at[q].push_back(i); } ISS ex; for (std::map<IS, IV>::iterator i = at.begin(); i != at.end(); ++i) { IV g; for (std::size_t k = 0; k < i->second.size(); ++k) g.push_back(seg[i->second[k]]); if (g.size() == 1) g.push_back(0); if (g[0] != g[1]) ex.insert(i->first); }
  int k = f.i(); CHECKM(k == (int)ex.size(), "number of triangles"); std::vector<IV> tri; ISS got; for (int i = 0; i < k; ++i) { IV v; for (int j = 0; j < 3; ++j) { int x = f.i(); CHECKM(x >= 0 && x < (int)rank.size(), "vertex of a triangle"); v.push_back(rank[x]); } tri.push_back(v); got.insert(st(v)); } CHECKM(got == ex, "the boundary and interface triangles"); f.is("3 0"); CHECKM(f.i() == k, "number of triangles"); IV con; for (int i = 0; i < k; ++i) con.push_back(f.i()); CHECKM(f.i() == k, "number of triangles");
  for (int i = 0; i < k; ++i) { int up = 0, dn = 0, u = f.i(), v = f.i(); IV &o = at[st(tri[i])]; for (std::size_t j = 0; j < o.size(); ++j) if (seg[o[j]]) { int op = -1; for (int q = 0; q < 4; ++q) if (!st(tri[i]).count(tet[o[j]][q])) op = tet[o[j]][q]; if (sgn(vol(p[tri[i][0]], p[tri[i][1]], p[tri[i][2]], p[op])) < 0) up = sid[seg[o[j]] - 1] + 1; else dn = sid[seg[o[j]] - 1] + 1; } CHECKM(u == up && v == dn, "the segments on both sides of a triangle"); }
  // contacts: connected coplanar triangles between the same segments
  IV cls = iota_(k); for (int r = 0; r < k; ++r) for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { IS x; for (int q = 0; q < 3; ++q) { x.insert(tri[i][q]); x.insert(tri[j][q]); } if ((int)x.size() == 6) continue; bool touch = false; for (int q = 0; q < 3; ++q) if (st(tri[i]).count(tri[j][q])) touch = true; static const int plane[3][5] = {{0, 1, 2, 3, -1}, {0, 1, 4, 5, -1}, {0, 2, 4, 5, -1}}; bool flat = st(tri[i]) == st(tri[j]); for (int q = 0; q < 3; ++q) { bool all = true; for (IS::iterator y = x.begin(); y != x.end(); ++y) if (std::find(plane[q], plane[q] + 4, *y) == plane[q] + 4) all = false; if (all) flat = true; } IS si, sj; for (std::size_t q = 0; q < at[st(tri[i])].size(); ++q) if (seg[at[st(tri[i])][q]]) si.insert(seg[at[st(tri[i])][q]]); for (std::size_t q = 0; q < at[st(tri[j])].size(); ++q) if (seg[at[st(tri[j])][q]]) sj.insert(seg[at[st(tri[j])][q]]); if (touch && flat && si == sj) cls[i] = cls[j] = std::min(cls[i], cls[j]); }
  for (int i = 0; i < k; ++i) { CHECKM(con[i] >= 0 && con[i] < (int)st(cls).size(), "contacts are numbered from zero"); for (int j = 0; j < k; ++j) CHECKM((con[i] == con[j]) == (cls[i] == cls[j]), "the contact of a triangle"); }
  f.is("3 tet 4"); CHECKM(f.i() == nt, "number of tetrahedra"); IV seq; for (int i = 0; i < nt; ++i) { IV v; for (int j = 0; j < 4; ++j) { int x = f.i(); CHECKM(x >= 0 && x < (int)rank.size(), "vertex of a tetrahedron"); v.push_back(rank[x]); } int q = -1; for (int j = 0; j < nt; ++j) if (tet[j] == v) q = j; CHECKM(q >= 0, "a tetrahedron of the mesh"); seq.push_back(q); } CHECKM((int)st(seq).size() == nt, "every tetrahedron once"); f.is("4 0"); CHECKM(f.i() == nt, "number of tetrahedra"); for (int i = 0; i < nt; ++i) CHECKM(f.i() == (seg[seq[i]] ? sid[seg[seq[i]] - 1] + 1 : 0), "the segment of a tetrahedron"); f.is("0"); CHECKM(f.at == f.t.size(), "end of the file");
}
VS_HARNESS(mphtxt) { write(false); }
VS_HARNESS_THOROUGH(mphtxt_all) { write(true); }
VS_HARNESS(mphtxt_not_writable) { M m; SG s(m); bool t = false; try { io::mphtxt_writer w; w(m, s, std::string(vs_tmpdir()) + "/no/such/dir"); } catch (std::runtime_error &) { t = true; } CHECKM(t, "a file that cannot be created is reported"); }
// a long plane side: all its triangles have the same contact, whatever the order of the tetrahedra
VS_HARNESS(mphtxt_long_side)
{
  double a = vs_real("a", 1, 2), b = vs_real("b", 1, 2), c = vs_real("c", 1, 2); M m; VH<M>::V h; for (int i = 0; i < 7; ++i) h.push_back(make_vertex(m, i == 6 ? P3(a, b / 2, c) : P3(i / 2 * a, i % 2 ? b : 0, 0)));
  SG s(m); s.make_segment(); s.make_segment(); int start = vs_pick("start", 4), dir = vs_pick("direction", 2), other = vs_pick("other", 5); IV seg(4, 0); for (int j = 0; j < 4; ++j) { int i = (start + (dir ? 4 - j : j)) % 4; int v[4] = {i, i + 1, i + 2, 6}; seg[i] = i == other; add(s(seg[i]), dereference_handle(m, addc(m, h, v, 4))); }
  std::string fn = std::string(vs_tmpdir()) + "/c"; io::mphtxt_writer w; w(m, s, fn); Tok f(slurp(fn + ".mphtxt")); f.is("0 1 1 15 viennagrid_mesh 1 3 obj 0 0 1 4 Mesh 2 3 7 0"); for (int i = 0; i < 21; ++i) f.d(); f.is("2 3 tri 3"); int k = f.i(); std::vector<IS> t(k); for (int i = 0; i < k; ++i) for (int j = 0; j < 3; ++j) t[i].insert(f.i()); f.is("3 0"); CHECKM(f.i() == k, "number of triangles"); IV con(4, -1); for (int i = 0; i < k; ++i) { int x = f.i(); for (int q = 0; q < 4; ++q) { IS e; e.insert(q); e.insert(q + 1); e.insert(q + 2); if (t[i] == e) con[q] = x; } }
  // triangles of the side touch each other in a vertex unless they are three apart
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { bool joined = seg[i] == seg[j]; if (i - j == 3 && other != 4 && other != 1 && other != 2) joined = false; CHECKM(con[i] >= 0 && (con[i] == con[j]) == joined, "the contact of a long side"); }
}
