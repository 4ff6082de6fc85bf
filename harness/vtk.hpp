// VTK files: what is written is what the mesh and the data are, and reading gives it back.
#ifndef VS_VTK_HPP
#define VS_VTK_HPP
#include "io.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/vtk_writer.hpp"
#include "viennagrid/io/vtk_reader.hpp"
using namespace viennagrid;
template <typename M> struct W {
  typedef typename result_of::segmentation<M>::type SG; typedef typename result_of::segment_handle<SG>::type SH; typedef typename result_of::vertex<M>::type V; typedef typename result_of::cell<M>::type C; typedef typename result_of::point<M>::type P; enum { D = result_of::static_size<P>::value };
  M m; typename VH<M>::V h; std::vector<IV> c; std::vector<typename CT<M>::H> ch; std::vector<P> p; DV vs, cs; std::vector<DV> vv, cv; std::vector<double> a, b; std::vector<DV> av, bv;
  // vertex i has its first coordinate in [4 i, 4 i + 1]; order is the order of creation
  W(int n, std::vector<IV> const &cells, bool turned) : c(cells)
  { for (int i = 0; i < n; ++i) { P q; for (int k = 0; k < D; ++k) q[k] = k ? vs_real("y", -9, 9) : vs_real("x", 4 * i, 4 * i + 1); p.push_back(q); } h.resize(n); for (int i = 0; i < n; ++i) { int k = turned ? n - 1 - i : i; h[k] = make_vertex(m, p[k]); }
    for (std::size_t i = 0; i < c.size(); ++i) { std::size_t k = turned ? c.size() - 1 - i : i; ch.resize(c.size()); ch[k] = addc(m, h, &c[k][0], (int)c[k].size()); }
    for (int i = 0; i < n; ++i) { vs.push_back(vs_real("vs", -9, 9)); DV q; for (int k = 0; k < 3; ++k) q.push_back(vs_real("vv", -9, 9)); vv.push_back(q); make_accessor<V>(a)(dereference_handle(m, h[i])) = vs[i]; make_accessor<V>(av)(dereference_handle(m, h[i])) = q; }
    for (std::size_t i = 0; i < c.size(); ++i) { cs.push_back(vs_real("cs", -9, 9)); DV q; for (int k = 0; k < 3; ++k) q.push_back(vs_real("cv", -9, 9)); cv.push_back(q); make_accessor<C>(b)(dereference_handle(m, ch[i])) = cs[i]; make_accessor<C>(bv)(dereference_handle(m, ch[i])) = q; } }
  IS used(IV const &sel) const { IS r; for (std::size_t i = 0; i < sel.size(); ++i) r.insert(c[sel[i]].begin(), c[sel[i]].end()); return r; }
};
static IV vtk_order(line_tag, IV const &v) { return v; }
static IV vtk_order(triangle_tag, IV const &v) { return v; }
static IV vtk_order(tetrahedron_tag, IV const &v) { return v; }
static IV vtk_order(quadrilateral_tag, IV v) { std::swap(v[2], v[3]); return v; }
static IV vtk_order(hexahedron_tag, IV v) { std::swap(v[2], v[3]); std::swap(v[6], v[7]); return v; }
static int vtk_type(line_tag) { return 3; }
static int vtk_type(triangle_tag) { return 5; }
static int vtk_type(quadrilateral_tag) { return 9; }
static int vtk_type(tetrahedron_tag) { return 10; }
static int vtk_type(hexahedron_tag) { return 12; }
struct Names { SV vs, vv, cs, cv; };
// the file shows exactly the selected cells; off[i] is the expected offset of data set i from the values of the mesh
template <typename M> static void check_file(W<M> &w, std::string const &fn, IV const &sel, std::map<std::string, double> const &vs, std::map<std::string, double> const &vv, std::map<std::string, double> const &cs, std::map<std::string, double> const &cv)
{
  std::vector<Tag> t = xml(slurp(fn)); int np = -1, nc = -1; std::string sec; IV pts, con, off, typ; std::vector<IV> cells; std::set<std::string> seen; IV cellof;
  for (std::size_t i = 0; i < t.size(); ++i) { Tag &g = t[i]; if (g.name == "VTKFile") CHECKM(g.a["type"] == "UnstructuredGrid", "type of the file"); if (g.name == "Piece") { np = toint(g.a["NumberOfPoints"]); nc = toint(g.a["NumberOfCells"]); } if (g.name == "Points" || g.name == "Cells" || g.name == "PointData" || g.name == "CellData") sec = g.name; if (g.name != "DataArray") continue; CHECKM(g.a["format"] == "ascii", "format of the data");
    if (sec == "Points") { CHECKM(g.a["NumberOfComponents"] == "3", "VTK points have three coordinates"); DV x = numbers(g.text); CHECKM((int)x.size() == 3 * np, "number of coordinates"); for (int k = 0; k < np; ++k) { int v = which(x[3 * k]); CHECKM(v >= 0 && v < (int)w.p.size(), "the points are vertices of the mesh"); pts.push_back(v); for (int d = 0; d < 3; ++d) EQ(x[3 * k + d], d < (int)W<M>::D ? w.p[v][d < (int)W<M>::D ? d : 0] : 0.0); } }
    else if (sec == "Cells") { IV q = ints(g.text); if (g.a["Name"] == "connectivity") con = q; else if (g.a["Name"] == "offsets") off = q; else { CHECKM(g.a["Name"] == "types", "the arrays of the cells"); typ = q; } } }
  IS us = w.used(sel); CHECKM((int)us.size() == np && st(pts) == us, "every vertex of the cells is written once"); CHECKM(nc == (int)sel.size() && (int)off.size() == nc && (int)typ.size() == nc, "number of cells"); int at = 0;
  for (int i = 0; i < nc; ++i) { CHECKM(typ[i] == vtk_type(typename CT<M>::T()), "type of a cell"); CHECKM(off[i] > at && off[i] <= (int)con.size(), "offset of a cell"); IV v; for (; at < off[i]; ++at) { CHECKM(con[at] >= 0 && con[at] < np, "cells refer to the points of the file"); v.push_back(pts[con[at]]); } int f = -1; for (std::size_t k = 0; k < sel.size(); ++k) if (vtk_order(typename CT<M>::T(), w.c[sel[k]]) == v) f = sel[k]; CHECKM(f >= 0, "a cell of the mesh in VTK order"); cellof.push_back(f); }
  CHECKM(at == (int)con.size(), "nothing but the cells"); CHECKM(st(cellof) == st(sel), "every cell is written once"); std::size_t n = 0;
  for (std::size_t i = 0; i < t.size(); ++i) { Tag &g = t[i]; if (g.name == "Points" || g.name == "Cells" || g.name == "PointData" || g.name == "CellData") sec = g.name; if (g.name != "DataArray" || (sec != "PointData" && sec != "CellData")) continue; bool pd = sec == "PointData"; int k = g.a.count("NumberOfComponents") ? toint(g.a["NumberOfComponents"]) : 1; std::map<std::string, double> const &ex = pd ? k == 1 ? vs : vv : k == 1 ? cs : cv; std::map<std::string, double>::const_iterator o = ex.find(g.a["Name"]); CHECKM(o != ex.end() && seen.insert(sec + (k == 1 ? "s" : "v") + o->first).second, "every data set is written once"); ++n; DV x = numbers(g.text); CHECKM(x.size() == (pd ? pts.size() : cellof.size()) * k, "number of values");
    for (std::size_t j = 0; j < x.size(); ++j) { int e = pd ? pts[j / k] : cellof[j / k]; double r = pd ? k == 1 ? w.vs[e] : w.vv[e][j % 3] : k == 1 ? w.cs[e] : w.cv[e][j % 3]; EQ(x[j], r + o->second); } }
  CHECKM(n == vs.size() + vv.size() + cs.size() + cv.size(), "all data sets are written");
}
// the position of every vertex of a mesh that was read
template <typename M, typename V> static int ident(M const &m, W<M> const &w, V const &v) { typename result_of::point<M>::type const &q = viennagrid::point(m, v); int k = which(q[0]); CHECKM(k >= 0 && k < (int)w.p.size(), "the vertices are those of the mesh"); for (int d = 0; d < (int)W<M>::D; ++d) EQ(q[d], w.p[k][d]); return k; }
template <typename M, typename C> static int identc(M const &m, W<M> const &w, C const &c) { IV v; for (std::size_t i = 0; i < vertices(c).size(); ++i) v.push_back(ident(m, w, vertices(c)[i])); for (std::size_t i = 0; i < w.c.size(); ++i) if (w.c[i] == v) return (int)i; return -1; }
template <typename X, typename M> static void check_cells(X const &x, M const &m, W<M> const &w, IV const &sel) { IV a, b; typedef typename result_of::const_cell_range<X>::type CR; CR cr(x); for (typename result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i) a.push_back(identc(m, w, *i)); CHECKM(a.size() == sel.size() && st(a) == st(sel), "exactly the cells, vertices in their order"); typedef typename result_of::const_vertex_range<X>::type VR; VR vr(x); for (typename result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i) b.push_back(ident(m, w, *i)); IS us = w.used(sel); CHECKM(b.size() == us.size() && st(b) == us, "exactly the vertices of the cells, each once"); }
template <typename X, typename M, typename F, typename G> static void check_v(X const &x, M const &m, W<M> const &w, F const &s, G const &v, double off, double voff) { typedef typename result_of::const_vertex_range<X>::type R; R r(x); for (typename result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) { int k = ident(m, w, *i); EQ(s.at(*i), w.vs[k] + off); CHECKM(v.at(*i).size() == 3, "vectors have three components"); for (int d = 0; d < 3; ++d) EQ(v.at(*i)[d], w.vv[k][d] + voff); } }
template <typename X, typename M, typename F, typename G> static void check_c(X const &x, M const &m, W<M> const &w, F const &s, G const &v, double off, double voff) { typedef typename result_of::const_cell_range<X>::type R; R r(x); for (typename result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) { int k = identc(m, w, *i); EQ(s.at(*i), w.cs[k] + off); CHECKM(v.at(*i).size() == 3, "vectors have three components"); for (int d = 0; d < 3; ++d) EQ(v.at(*i)[d], w.cv[k][d] + voff); } }
typedef std::map<std::string, double> SD; static SD one(const char *n, double o = 0) { SD s; s[n] = o; return s; }
static std::vector<IV> cells_of(line_tag) { std::vector<IV> c; int a[2] = {0, 1}, b[2] = {2, 1}; c.push_back(IV(a, a + 2)); c.push_back(IV(b, b + 2)); return c; }
static std::vector<IV> cells_of(triangle_tag) { std::vector<IV> c; int a[3] = {0, 1, 2}, b[3] = {3, 2, 1}, d[3] = {2, 4, 3}; c.push_back(IV(a, a + 3)); c.push_back(IV(b, b + 3)); c.push_back(IV(d, d + 3)); return c; }
static std::vector<IV> cells_of(quadrilateral_tag) { std::vector<IV> c; int a[4] = {0, 1, 2, 3}, b[4] = {4, 2, 5, 3}; c.push_back(IV(a, a + 4)); c.push_back(IV(b, b + 4)); return c; }
static std::vector<IV> cells_of(tetrahedron_tag) { std::vector<IV> c; int a[4] = {0, 1, 2, 3}, b[4] = {4, 2, 1, 3}; c.push_back(IV(a, a + 4)); c.push_back(IV(b, b + 4)); return c; }
static std::vector<IV> cells_of(hexahedron_tag) { std::vector<IV> c; int a[8] = {0, 1, 2, 3, 4, 5, 6, 7}, b[8] = {4, 5, 6, 7, 8, 9, 10, 11}; c.push_back(IV(a, a + 8)); c.push_back(IV(b, b + 8)); return c; }
template <typename M> static int nv(std::vector<IV> const &c) { int n = 0; for (std::size_t i = 0; i < c.size(); ++i) n = std::max(n, 1 + *std::max_element(c[i].begin(), c[i].end())); return n; }
// a mesh without segments, with one isolated vertex more than the cells need
template <typename M> static void mesh_trip(int ncells = 9)
{
  typedef W<M> X; std::vector<IV> c = cells_of(typename CT<M>::T()); if ((int)c.size() > ncells) c.resize(ncells); X w(std::min(nv<M>(c) + 1, 12), c, vs_pick("order", 2)); IV all = iota_((int)c.size()); std::string fn = std::string(vs_tmpdir()) + "/m"; io::vtk_writer<M> wr; int data = vs_pick("data", 3); SD a, b, d, e;
  for (int rep = 0; rep < 1 + (data == 1); ++rep) { // a writer can be used again; it forgets its data after a write
    if (data && !rep) { wr.add_scalar_data_on_vertices(make_accessor<typename X::V>(w.a), "Vertex data"); a = one("Vertex data"); io::add_vector_data_on_vertices(wr, make_field<typename X::V>(w.av), "vv"); b = one("vv"); if (data == 2) { io::add_scalar_data_on_cells(wr, make_field<typename X::C>(w.b), "cs"); d = one("cs"); wr.add_vector_data_on_cells(make_accessor<typename X::C>(w.bv), "cv"); e = one("cv"); } } else { a = b = d = e = SD(); }
    if (rep) wr(w.m, fn + "2"); else wr(w.m, fn); check_file(w, fn + (rep ? "2.vtu" : ".vtu"), all, a, b, d, e); }
  M r; typename X::SG s(r); io::vtk_reader<M> rd; DV vsv, csv; std::vector<DV> vvv, cvv; bool reg = vs_pick("registered", 2); if (reg) { rd.register_vertex_scalar(make_field<typename X::V>(vsv), "Vertex data"); io::add_vector_data_on_vertices(rd, make_field<typename X::V>(vvv), "vv"); rd.register_cell_vector(make_field<typename X::C>(cvv), "cv"); io::add_scalar_data_on_cells(rd, make_field<typename X::C>(csv), "cs"); }
  rd(r, s, fn + ".vtu"); check_cells(r, r, w, all); CHECKM(s.size() == 1 && s.segment_present(0), "a single file is read into the first segment"); check_cells(s(0), r, w, all);
  if (data && reg) { check_v(r, r, w, make_field<typename X::V>(vsv), make_field<typename X::V>(vvv), 0, 0); CHECKM(!rd.vertex_scalar_field("Vertex data", 0).is_valid(), "registered data is not kept in the reader"); } else if (data) check_v(r, r, w, rd.vertex_scalar_field("Vertex data", 0), rd.vertex_vector_field("vv", 0), 0, 0);
  if (data == 2) { if (reg) check_c(r, r, w, make_field<typename X::C>(csv), make_field<typename X::C>(cvv), 0, 0); else check_c(r, r, w, rd.cell_scalar_field("cs", 0), rd.cell_vector_field("cv", 0), 0, 0); }
  CHECKM(rd.scalar_vertex_data_names(0).size() == (data ? 1u : 0u) && rd.vector_cell_data_names(0).size() == (data == 2 ? 1u : 0u) && io::get_vector_data_on_vertices(rd).size() == (data ? 1u : 0u) && io::get_scalar_data_on_cells(rd).size() == (data == 2 ? 1u : 0u), "names of the data read"); CHECKM(!rd.vertex_scalar_field("nothing", 0).is_valid() && !rd.cell_vector_field("cv", 3).is_valid(), "no data without a file");
  if (data) CHECKM(rd.scalar_vertex_data_names(0)[0] == "Vertex data" && io::get_vector_data_on_vertices(rd)[0].second == "vv" && io::get_vector_data_on_vertices(rd)[0].first == 0, "names of the data read");
}
// several segments
template <typename M> static void segments_trip(int n)
{
  typedef W<M> X; std::vector<IV> c = cells_of(typename CT<M>::T()); if ((int)c.size() > n) c.resize(n); X w(nv<M>(c), c, vs_pick("order", 2)); typename X::SG s(w.m); int id[2] = {vs_pick("ids", 2) ? 3 : 0, 1}; typename X::SH sh[2] = {s.get_make_segment(id[0]), s.get_make_segment(id[1])}; IV sel[2], any; for (std::size_t i = 0; i < c.size(); ++i) { int k = vs_pick("segments", 4); for (int j = 0; j < 2; ++j) if (k >> j & 1) { add(sh[j], dereference_handle(w.m, w.ch[i])); sel[j].push_back((int)i); } if (k) any.push_back((int)i); }
  // data of the segments differs from the data of the mesh by 100 (1000) and 200 (2000)
  DV a[2], b[2]; std::vector<DV> av[2], bv[2]; for (int j = 0; j < 2; ++j) { double o = 100 * (j + 1), vo = 1000 * (j + 1); for (std::size_t i = 0; i < w.p.size(); ++i) { typename X::V &v = dereference_handle(w.m, w.h[i]); make_accessor<typename X::V>(a[j])(v) = w.vs[i] + o; DV q = w.vv[i]; for (int d = 0; d < 3; ++d) q[d] += vo; make_accessor<typename X::V>(av[j])(v) = q; } for (std::size_t i = 0; i < c.size(); ++i) { typename X::C &v = dereference_handle(w.m, w.ch[i]); make_accessor<typename X::C>(b[j])(v) = w.cs[i] + o; DV q = w.cv[i]; for (int d = 0; d < 3; ++d) q[d] += vo; make_accessor<typename X::C>(bv[j])(v) = q; } }
  io::vtk_writer<M> wr; wr.add_scalar_data_on_vertices(make_field<typename X::V>(w.a), "all"); wr.add_vector_data_on_cells(make_field<typename X::C>(w.bv), "all"); io::add_scalar_data_on_cells(wr, make_field<typename X::C>(w.b), "all c"); io::add_vector_data_on_vertices(wr, make_field<typename X::V>(w.av), "all v");
  for (int j = 0; j < 2; ++j) { if (j) { wr.add_scalar_data_on_vertices(id[j], make_field<typename X::V>(a[j]), "own"); wr.add_vector_data_on_vertices(id[j], make_field<typename X::V>(av[j]), "own"); } else { io::add_scalar_data_on_vertices(wr, sh[j], make_field<typename X::V>(a[j]), "own"); io::add_vector_data_on_vertices(wr, sh[j], make_field<typename X::V>(av[j]), "own"); } io::add_scalar_data_on_cells(wr, sh[j], make_field<typename X::C>(b[j]), "own"); io::add_vector_data_on_cells(wr, sh[j], make_field<typename X::C>(bv[j]), "own"); }
  std::string fn = std::string(vs_tmpdir()) + "/s"; wr(w.m, s, fn); std::vector<Tag> t = xml(slurp(fn + "_main.pvd")); std::map<int, std::string> parts; for (std::size_t i = 0; i < t.size(); ++i) if (t[i].name == "DataSet") { int p = toint(t[i].a["part"]); CHECKM(parts.count(p) == 0, "every segment is listed once"); parts[p] = t[i].a["file"]; } CHECKM(parts.size() == 2, "every segment is listed");
  for (int j = 0; j < 2; ++j) { std::string f = std::string(vs_tmpdir()) + "/" + parts[id[j]]; double o = 100 * (j + 1), vo = 1000 * (j + 1); SD e[4]; e[0] = one("own", o); e[0]["all"] = 0; e[1] = one("own", vo); e[1]["all v"] = 0; e[2] = one("own", o); e[2]["all c"] = 0; e[3] = one("own", vo); e[3]["all"] = 0; check_file(w, f, sel[j], e[0], e[1], e[2], e[3]); }
  M r; typename X::SG q(r); io::vtk_reader<M> rd; int reg = vs_pick("registered", 3); DV gv, rv[2], rc[2]; std::vector<DV> gc, rvv[2], rcv[2];
  if (reg) { io::add_scalar_data_on_vertices(rd, make_field<typename X::V>(gv), "all"); io::add_vector_data_on_cells(rd, make_field<typename X::C>(gc), "all"); if (reg == 2) for (int j = 0; j < 2; ++j) { rd.register_vertex_scalar(id[j], make_field<typename X::V>(rv[j]), "own"); rd.register_vertex_vector(id[j], make_field<typename X::V>(rvv[j]), "own"); rd.register_cell_scalar(id[j], make_field<typename X::C>(rc[j]), "own"); rd.register_cell_vector(id[j], make_field<typename X::C>(rcv[j]), "own"); } }
  rd(r, q, fn + "_main.pvd"); check_cells(r, r, w, any); CHECKM(q.size() == 2 && q.segment_present(id[0]) && q.segment_present(id[1]), "the segments and their ids");
  for (int j = 0; j < 2; ++j) { typename X::SH y = q(id[j]); check_cells(y, r, w, sel[j]); double o = 100 * (j + 1), vo = 1000 * (j + 1); if (sel[j].empty()) continue; if (reg) { CHECKM(!rd.vertex_scalar_field("all", y).is_valid(), "registered data is not kept in the reader"); check_v(y, r, w, make_field<typename X::V>(gv), rd.vertex_vector_field("all v", y), 0, 0); check_c(y, r, w, rd.cell_scalar_field("all c", y), make_field<typename X::C>(gc), 0, 0); } else { check_v(y, r, w, rd.vertex_scalar_field("all", y), rd.vertex_vector_field("all v", id[j]), 0, 0); check_c(y, r, w, rd.cell_scalar_field("all c", id[j]), rd.cell_vector_field("all", y), 0, 0); }
    if (reg == 2) { check_v(y, r, w, make_field<typename X::V>(rv[j]), make_field<typename X::V>(rvv[j]), o, vo); check_c(y, r, w, make_field<typename X::C>(rc[j]), make_field<typename X::C>(rcv[j]), o, vo); } else { check_v(y, r, w, rd.vertex_scalar_field("own", y), rd.vertex_vector_field("own", y), o, vo); check_c(y, r, w, rd.cell_scalar_field("own", y), rd.cell_vector_field("own", y), o, vo); } SV nm = rd.scalar_cell_data_names(id[j]); std::sort(nm.begin(), nm.end()); CHECKM(nm.size() == 2 && nm[0] == "all c" && nm[1] == "own" && rd.vector_vertex_data_names(id[j]).size() == 2, "names of the data read"); }
}
#endif
