// Tetgen .poly and Neper .tess files: piecewise linear complexes
#include "io.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/io/tetgen_poly_reader.hpp"
#include "viennagrid/io/neper_tess_reader.hpp"
using namespace viennagrid;
typedef plc_3d_mesh M; typedef std::vector<std::pair<P3, int> > Seeds; typedef result_of::cell<M>::type C;
static std::string xyz(P3 const &p) { return num(p[0]) + " " + num(p[1]) + " " + num(p[2]); }
static void same(P3 const &a, P3 const &b) { for (int d = 0; d < 3; ++d) EQ(a[d], b[d]); }
static ISS rings(std::vector<IV> const &p) { ISS r; for (std::size_t i = 0; i < p.size(); ++i) { if (p[i].size() == 2) r.insert(st(p[i])); if (p[i].size() > 2) r = join(r, ring(p[i])); } return r; }
template <typename T, typename X> static ISS lines_of(X &x, std::map<int, int> &pos, std::size_t &n) { typedef typename result_of::element_range<X, T>::type R; R r(x); ISS s; n = 0; for (typename result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i, ++n) { IS e; for (std::size_t k = 0; k < vertices(*i).size(); ++k) { int id = vertices(*i)[k].id().get(); CHECKM(pos.count(id) == 1, "vertices of the file"); e.insert(pos[id]); } s.insert(e); } return s; }
// facets: the lines and vertices of the polygons of each facet, hole points in facets
struct Facet { std::vector<IV> p; std::vector<P3> holes; };
static void check_plc(M &m, std::vector<P3> const &x, std::map<int, int> &pos, std::vector<Facet> const &f)
{
  CHECKM(vertices(m).size() == x.size() && cells(m).size() == f.size(), "the vertices and facets of the file"); typedef result_of::vertex_range<M>::type VR; VR vr(m); for (result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i) { CHECKM(pos.count(i->id().get()) == 1, "vertices of the file"); same(point(*i), x[pos[i->id().get()]]); }
  ISS all; std::size_t n; typedef result_of::cell_range<M>::type CR; CR cr(m); std::size_t k = 0; for (result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i, ++k) { ISS ex = rings(f[k].p); CHECKM(lines_of<line_tag>(*i, pos, n) == ex && n == ex.size(), "the lines of a facet, each once"); all = join(all, ex); IS v, w; for (std::size_t q = 0; q < f[k].p.size(); ++q) v.insert(f[k].p[q].begin(), f[k].p[q].end()); for (std::size_t q = 0; q < vertices(*i).size(); ++q) w.insert(pos[vertices(*i)[q].id().get()]); CHECKM(v == w && vertices(*i).size() == v.size(), "the vertices of a facet, each once"); CHECKM(hole_points(*i).size() == f[k].holes.size(), "the hole points of a facet"); for (std::size_t q = 0; q < f[k].holes.size(); ++q) same(hole_points(*i)[q], f[k].holes[q]); }
  CHECKM(lines_of<line_tag>(m, pos, n) == all && n == all.size(), "lines of several facets are shared");
}
static IV iv(int a, int b = -1, int c = -1, int d = -1) { IV v; v.push_back(a); if (b >= 0) v.push_back(b); if (c >= 0) v.push_back(c); if (d >= 0) v.push_back(d); return v; }
struct Poly {
  std::vector<P3> x, holes; std::map<int, int> pos; IV id; std::vector<Facet> f; Seeds seeds; std::vector<SV> l; bool comments; // lines of tokens
  SV tok(std::string const &s) { std::istringstream is(s); SV v; std::string w; while (is >> w) v.push_back(w); return v; }
  void add(std::string const &s) { l.push_back(tok(s)); }
  Poly(int ids, int shape, bool markers, bool holes_part, bool regions_part) : comments(false)
  {
    static const int start[3] = {0, 1, 5}; int n = 6; for (int i = 0; i < n; ++i) { x.push_back(in3("x")); id.push_back(ids == 2 ? 5 + (i * 5) % 6 * 2 : start[ids] + i); pos[id[i]] = i; }
    Facet a, b; a.p.push_back(iv(0, 1, 2, 3)); if (shape == 1) a.p.push_back(iv(4)); if (shape == 2) { a.p.push_back(iv(0, 2)); a.p.push_back(iv(4, 5)); } b.p.push_back(shape == 3 ? iv(1, 0, 4) : iv(3, 2, 5)); if (shape == 3) { b.p.push_back(iv(3, 5, 2)); b.holes.push_back(in3("hole")); b.holes.push_back(in3("hole")); } f.push_back(a); f.push_back(b);
    add(inum(n) + " 3 0 " + (markers ? "1" : "0")); for (int i = 0; i < n; ++i) add(inum(id[i]) + " " + xyz(x[i]) + (markers ? " 3" : "")); add("2 " + std::string(markers ? "1" : "0")); for (int i = 0; i < 2; ++i) { std::string h; if (f[i].holes.size() || markers) h = " " + inum((int)f[i].holes.size()); if (markers) h += " 7"; add(inum((int)f[i].p.size()) + h); for (std::size_t k = 0; k < f[i].p.size(); ++k) { std::string s = inum((int)f[i].p[k].size()); for (std::size_t q = 0; q < f[i].p[k].size(); ++q) s += " " + inum(id[f[i].p[k][q]]); add(s); } for (std::size_t k = 0; k < f[i].holes.size(); ++k) add(inum((int)k + 1) + " " + xyz(f[i].holes[k])); }
    if (holes_part) { int nh = shape == 1 ? 0 : 2; for (int i = 0; i < nh; ++i) holes.push_back(in3("h")); add(inum(nh)); for (int i = 0; i < nh; ++i) add(inum(i) + " " + xyz(holes[i])); if (regions_part) { add("2"); for (int i = 0; i < 2; ++i) { seeds.push_back(std::make_pair(in3("seed"), i ? 9 : 4)); add(inum(i) + " " + xyz(seeds[i].first) + (i ? " 9 0.5" : " 4")); } } }
  }
  std::string str(std::size_t n = 9999) const { std::string s; if (comments) s = "# a comment\n\n   \n"; for (std::size_t i = 0; i < n && i < l.size(); ++i) { if (comments) s += "  "; for (std::size_t k = 0; k < l[i].size(); ++k) s += l[i][k] + (k + 1 < l[i].size() ? comments ? "   " : " " : ""); if (comments) s += i % 2 ? " # 1 2 3" : "\n  # 4 5 6\n"; s += "\n"; } return s; }
};
VS_HARNESS(poly_files)
{
  int part = vs_pick("parts", 3), shape = vs_pick("shape", 4); Poly f(vs_pick("ids", 3), shape, vs_pick("markers", 2), part > 0, part > 1); f.comments = vs_pick("comments", 2); std::string fn = std::string(vs_tmpdir()) + "/p.poly"; spill(fn, f.str()); M m; io::tetgen_poly_reader r; std::vector<P3> h; Seeds s; int call = vs_pick("call", 4); if (call & 1) h.push_back(P3(1, 2, 3)); if (call & 2) s.push_back(std::make_pair(P3(1, 2, 3), 1)); if (call == 0) r(m, fn); else if (call == 1) r(m, fn, h); else if (call == 2) r(m, fn, s); else r(m, fn, h, s); check_plc(m, f.x, f.pos, f.f);
  if (call & 1) { CHECKM(h.size() == f.holes.size(), "the holes of the file"); for (std::size_t i = 0; i < h.size(); ++i) same(h[i], f.holes[i]); } if (call & 2) { CHECKM(s.size() == f.seeds.size(), "the regions of the file"); for (std::size_t i = 0; i < s.size(); ++i) { same(s[i].first, f.seeds[i].first); CHECKM(s[i].second == f.seeds[i].second, "the regions of the file"); } }
}
static bool poly_refused(std::string const &fn) { M m; io::tetgen_poly_reader r; try { r(m, fn); } catch (std::runtime_error &) { return true; } return false; }
// cut after any line, cut within any line, unknown vertices, other dimensions
VS_HARNESS(poly_bad)
{
  Poly f(vs_pick("ids", 2) * 2, 3, false, true, true); std::string fn = std::string(vs_tmpdir()) + "/p.poly"; std::size_t n = f.l.size(); int kind = vs_pick("kind", 4);
  if (kind == 0) { n = vs_pick("lines", (int)n); if (n == 15 || n == 18) n = 2; } // the parts for holes and regions are optional
  else if (kind == 1) { std::vector<IV> o; for (std::size_t i = 0; i < n; ++i) { std::size_t keep = i == 0 ? 2 : f.l[i].size(); if (i == 7 || i == 8 || i == 10) keep = 1; if (i == n - 1) keep = 5; for (std::size_t k = 1; k < keep; ++k) o.push_back(iv((int)i, (int)k)); } IV c = o[vs_pick("cut", (int)o.size())]; f.l[c[0]].resize(c[1]); }
  else if (kind == 2) { static const int ln[3] = {9, 11, 12}; int i = ln[vs_pick("line", 3)]; int k = 1 + vs_pick("vertex", (int)f.l[i].size() - 1); f.l[i][k] = vs_pick("unknown", 2) ? "99" : "-1"; }
  else { int w = vs_pick("what", 5); if (w == 0) f.l[0][1] = "2"; if (w == 1) f.l[0][0] = "-1"; if (w == 2) f.l[7][0] = "-1"; if (w == 3) f.l[9][0] = "0"; if (w == 4) fn += "x"; if (w == 4) { CHECKM(poly_refused(fn), "a missing file is refused"); return; } }
  spill(fn, f.str(n)); CHECKM(poly_refused(fn), "an incomplete or inconsistent file is refused");
}
struct Tess {
  std::vector<P3> x; Seeds seeds; std::vector<Facet> f; SV l; IV id;
  Tess(int ids) { for (int i = 0; i < 5; ++i) { x.push_back(in3("x")); id.push_back(ids ? 9 - 2 * i : i + 1); } Facet a, b; a.p.push_back(iv(0, 1, 2, 3)); b.p.push_back(iv(2, 1, 4)); f.push_back(a); f.push_back(b); l.push_back("***tess\n"); l.push_back(" **format\n"); l.push_back("   1.10\n"); l.push_back(" **vertex\n"); l.push_back("  5\n"); for (int i = 0; i < 5; ++i) { l.push_back("  " + inum(id[i]) + " 3 1 2 3\n"); l.push_back("   1 0\n"); l.push_back("   " + xyz(x[i]) + " 0\n"); }
    l.push_back(" **edge\n"); l.push_back("  0\n"); l.push_back(" **face\n"); l.push_back("  2\n"); for (int i = 0; i < 2; ++i) { l.push_back("  " + inum(i + 1) + " 1 2\n"); l.push_back("   4 1 2 3 4\n"); l.push_back("   0 1\n"); std::string s = "   " + inum((int)f[i].p[0].size()); for (std::size_t k = 0; k < f[i].p[0].size(); ++k) s += " " + inum(id[f[i].p[0][k]]); l.push_back(s + "\n"); l.push_back("   1 0 0 1\n"); l.push_back("   0\n"); l.push_back("   0 1 2\n"); }
    l.push_back(" **polyhedron\n"); l.push_back("  2\n"); for (int i = 0; i < 2; ++i) { seeds.push_back(std::make_pair(in3("seed"), i ? 8 : 3)); l.push_back("  " + inum(seeds[i].second) + " " + xyz(seeds[i].first) + " 0\n"); l.push_back("   1\n"); l.push_back("   2 1 2\n"); } l.push_back("***end\n"); }
  std::string str(std::size_t n = 9999) const { std::string s; for (std::size_t i = 0; i < n && i < l.size(); ++i) s += l[i]; return s; }
};
VS_HARNESS(tess_files)
{
  Tess f(vs_pick("ids", 2)); std::string fn = std::string(vs_tmpdir()) + "/t.tess"; spill(fn, f.str()); M m; io::neper_tess_reader r; Seeds s; bool call = vs_pick("seeds", 2); if (call) { s.push_back(std::make_pair(P3(1, 2, 3), 1)); r(m, fn, s); } else r(m, fn); std::map<int, int> pos; for (int i = 0; i < 5; ++i) pos[i] = i; check_plc(m, f.x, pos, f.f); if (call) { CHECKM(s.size() == 2, "the polyhedra of the file"); for (int i = 0; i < 2; ++i) { same(s[i].first, f.seeds[i].first); CHECKM(s[i].second == f.seeds[i].second, "the polyhedra of the file"); } }
}
VS_HARNESS(tess_bad)
{
  Tess f(0); std::string fn = std::string(vs_tmpdir()) + "/t.tess"; int kind = vs_pick("kind", 3); std::size_t n = f.l.size(); if (kind == 0) { std::vector<int> cut; for (int i = 4; i < 44; ++i) if (i < 20 || (i > 22 && i < 35) || i > 38) cut.push_back(i); n = cut[vs_pick("lines", (int)cut.size())]; } else if (kind == 1) f.l[vs_pick("face", 2) ? 34 : 27] = vs_pick("unknown", 2) ? "   3 1 2 7\n" : "   3 1 2\n"; else fn += "x";
  M m; io::neper_tess_reader r; Seeds s; if (kind < 2) spill(fn, f.str(n)); bool thrown = false; try { r(m, fn, s); } catch (std::runtime_error &) { thrown = true; } CHECKM(thrown, "an incomplete or inconsistent file is refused");
}
