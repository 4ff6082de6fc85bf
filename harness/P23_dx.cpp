// Writers for other programs: the files describe the mesh, its segments and its data. OpenDX and ViennaMesh files.
// BOUND: OpenDX: meshes of 2 lines (1d), 3 triangles (2d), 2 tetrahedra (3d), 3 patterns of vertex ids; mphtxt: 3 tetrahedra on 6 vertices with 4 symbolic lengths, all assignments to 2 segments or none, all turned vertex orders; vmesh: 3 triangles in up to 2 segments; symbolic coordinates and data
#include "io.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/opendx_writer.hpp"
#include "viennagrid/io/vmesh_writer.hpp"
using namespace viennagrid;
static SV text_lines(std::string const &s) { SV v; std::istringstream is(s); std::string l; while (std::getline(is, l)) if (l.find_first_not_of(" \t") != std::string::npos) v.push_back(l); return v; }
static SV words(std::string const &s) { SV v; std::istringstream is(s); std::string l; while (is >> l) v.push_back(l); return v; }
static std::vector<IV> dx_cells(line_tag) { std::vector<IV> c; int a[2] = {0, 1}, b[2] = {2, 1}; c.push_back(IV(a, a + 2)); c.push_back(IV(b, b + 2)); return c; }
static std::vector<IV> dx_cells(triangle_tag) { std::vector<IV> c; int a[3] = {0, 1, 2}, b[3] = {3, 2, 1}, d[3] = {2, 4, 3}; c.push_back(IV(a, a + 3)); c.push_back(IV(b, b + 3)); c.push_back(IV(d, d + 3)); return c; }
static std::vector<IV> dx_cells(tetrahedron_tag) { std::vector<IV> c; int a[4] = {0, 1, 2, 3}, b[4] = {4, 2, 1, 3}; c.push_back(IV(a, a + 4)); c.push_back(IV(b, b + 4)); return c; }
static int value(SV const &w, const char *key) { for (std::size_t i = 0; i + 1 < w.size(); ++i) if (w[i] == key) return toint(w[i + 1]); CHECKM(false, "the header of an array"); return 0; }
// values around multiples of 1e-4 are split by the writer: two of them may be on either side
static double dxv(int i) { return i % 20 < 2 ? vs_real("v", i - 0.00005, i + 0.00005) : i % 2 ? vs_real("v", -i + 0.00001, -i + 0.00009) : vs_real("v", i + 0.00001, i + 0.00009); }
template <typename M> static void dx(const char *type)
{
  typedef typename result_of::vertex<M>::type V; typedef typename result_of::cell<M>::type C; typedef typename result_of::point<M>::type P; enum { D = result_of::static_size<P>::value }; std::vector<IV> c = dx_cells(typename CT<M>::T()); int n = 0; for (std::size_t i = 0; i < c.size(); ++i) n = std::max(n, 1 + *std::max_element(c[i].begin(), c[i].end())); M m; typename VH<M>::V h(n); std::vector<P> p(n); int ids = vs_pick("ids", 3);
  for (int j = 0; j < n; ++j) { int i = ids == 1 ? n - 1 - j : j; for (int k = 0; k < D; ++k) p[i][k] = k ? vs_real("y", -9, 9) : vs_real("x", 4 * i, 4 * i + 1); h[i] = ids == 2 ? make_vertex_with_id(m, typename V::id_type(2 * n + 1 - 2 * i), p[i]) : make_vertex(m, p[i]); }
  std::vector<typename CT<M>::H> ch; for (std::size_t i = 0; i < c.size(); ++i) ch.push_back(addc(m, h, &c[i][0], (int)c[i].size())); std::map<V const *, double> dummy; DV a, a2, b, b2; DV va, va2, vb, vb2; for (int i = 0; i < n; ++i) { va.push_back(dxv(i)); va2.push_back(dxv(40 + i)); make_accessor<V>(a)(dereference_handle(m, h[i])) = va[i]; make_accessor<V>(a2)(dereference_handle(m, h[i])) = va2[i]; } for (std::size_t i = 0; i < c.size(); ++i) { vb.push_back(dxv(20 + (int)i)); vb2.push_back(dxv(60 + (int)i)); make_accessor<C>(b)(dereference_handle(m, ch[i])) = vb[i]; make_accessor<C>(b2)(dereference_handle(m, ch[i])) = vb2[i]; }
  io::opendx_writer<M> w; int data = vs_pick("data", 6); bool on_v = data == 1 || data >= 3, on_c = data == 2; // further data is ignored, vertex data comes first
  if (data == 1) w.add_scalar_data_on_vertices(make_field<V>(a), "x"); if (data == 2) io::add_scalar_data_on_cells(w, make_field<C>(b), "x"); if (data == 3) { io::add_scalar_data_on_vertices(w, make_field<V>(a), "x"); w.add_scalar_data_on_vertices(make_field<V>(a2), "b"); w.add_scalar_data_on_cells(make_field<C>(b), "a"); } if (data == 4) { w.add_scalar_data_on_cells(make_field<C>(b), "m"); w.add_scalar_data_on_cells(make_field<C>(b2), "a"); w.add_scalar_data_on_cells(make_field<C>(b2), "z"); on_v = false; on_c = true; } if (data == 5) { w.add_scalar_data_on_cells(make_field<C>(b), "a"); w.add_scalar_data_on_vertices(make_field<V>(a), "m"); w.add_scalar_data_on_vertices(make_field<V>(a2), "z"); }
  std::string fn = std::string(vs_tmpdir()) + "/d.dx"; w(m, fn); SV l = text_lines(slurp(fn)); std::size_t at = 0; IV pts; CHECKM(l.size() > 1, "contents"); SV q = words(l[at++]); CHECKM(q.size() > 2 && q[0] == "object" && q[1] == "\"points\"" && value(q, "shape") == (int)D && value(q, "rank") == 1 && value(q, "items") == n, "the points"); for (int i = 0; i < n; ++i) { CHECKM(at < l.size(), "contents"); DV x = numbers(l[at++]); CHECKM(x.size() == (std::size_t)D, "coordinates of a point"); int k = which(x[0]); CHECKM(k >= 0 && k < n, "the points are the vertices"); for (int d = 0; d < (int)D; ++d) EQ(x[d], p[k][d]); pts.push_back(k); } CHECKM((int)st(pts).size() == n, "every vertex once");
  CHECKM(at < l.size(), "contents"); q = words(l[at++]); CHECKM(q.size() > 2 && q[1] == "\"grid_Line_One\"" && value(q, "shape") == (int)c[0].size() && value(q, "items") == (int)c.size(), "the cells"); IV seq; for (std::size_t i = 0; i < c.size(); ++i) { CHECKM(at < l.size(), "contents"); IV x = ints(l[at++]), y; for (std::size_t k = 0; k < x.size(); ++k) { CHECKM(x[k] >= 0 && x[k] < n, "cells refer to points of the file"); y.push_back(pts[x[k]]); } int f = -1; for (std::size_t k = 0; k < c.size(); ++k) if (c[k] == y) f = (int)k; CHECKM(f >= 0, "a cell of the mesh"); seq.push_back(f); } CHECKM(st(seq).size() == c.size(), "every cell once"); CHECKM(at + 1 < l.size() && l[at].find(type) != std::string::npos && l[at + 1].find("\"positions\"") != std::string::npos, "type of the cells"); at += 2;
  if (on_v || on_c) { CHECKM(at < l.size(), "contents"); q = words(l[at++]); CHECKM(q.size() > 2 && q[1] == "\"VisData\"" && value(q, "items") == (on_v ? n : (int)c.size()), "the data"); for (int i = 0; i < (on_v ? n : (int)c.size()); ++i) { CHECKM(at < l.size(), "contents"); DV x = numbers(l[at++]); CHECKM(x.size() == 1, "a value"); double ref = on_v ? va[pts[i]] : vb[seq[i]]; CHECKM(x[0] <= ref + 2e-5 && x[0] >= ref - 2e-5, "the values in the order of the points or cells, up to the tolerance of the format"); } CHECKM(at < l.size() && l[at++].find(on_v ? "\"positions\"" : "\"connections\"") != std::string::npos, "what the data belongs to"); }
  CHECKM(at + 4 == l.size() && l[at].find("class field") != std::string::npos && l[at + 1].find("\"data\" \"VisData\"") != std::string::npos && l[at + 2].find("\"positions\" \"points\"") != std::string::npos && l[at + 3].find("\"connections\" \"grid_Line_One\"") != std::string::npos, "the field");
}
VS_HARNESS(dx_lines) { dx<line_1d_mesh>("\"line\""); }
VS_HARNESS(dx_triangles) { dx<triangular_2d_mesh>("\"triangles\""); }
VS_HARNESS(dx_tetrahedra) { dx<tetrahedral_3d_mesh>("\"tetrahedra\""); }
VS_HARNESS(vmesh)
{
  typedef triangular_2d_mesh M; typedef result_of::segmentation<M>::type SG; std::vector<IV> c = dx_cells(triangle_tag()); c.resize(vs_pick("cells", 4)); M m; VH<M>::V h; for (int i = 0; i < 6; ++i) h.push_back(make_vertex(m, in2("p"))); SG s(m); int ns = vs_pick("segments", 3); static const int sid[2] = {4, 1}; for (int i = 0; i < ns; ++i) s.get_make_segment(sid[i]); std::map<int, IV> in; for (std::size_t i = 0; i < c.size(); ++i) { CT<M>::H q = addc(m, h, &c[i][0], 3); if (ns) { int k = vs_pick("in", 1 << ns); for (int j = 0; j < ns; ++j) if (k >> j & 1) { add(s(sid[j]), dereference_handle(m, q)); in[sid[j]].push_back((int)i); } } }
  std::string fn = std::string(vs_tmpdir()) + "/v"; bool ext = vs_pick("extension", 2); io::vmesh_writer<M> w; w(m, s, "in.mesh", ext ? fn + ".vmesh" : fn); std::vector<Tag> t = xml(slurp(fn + ".vmesh")); std::map<std::string, std::string> top; std::map<int, std::map<std::string, std::string> > seg; std::map<std::string, std::string> cur; bool inside = false; for (std::size_t i = 0; i < t.size(); ++i) { if (t[i].name == "segment") { inside = true; cur.clear(); } else if (t[i].name == "/segment") { inside = false; int id = toint(cur["id"]); CHECKM(seg.count(id) == 0, "every segment once"); seg[id] = cur; } else if (t[i].name[0] != '/') (inside ? cur : top)[t[i].name] = t[i].text; }
  CHECKM(top["file"] == "in.mesh" && toint(top["geomdim"]) == 2 && top["celltype"] == triangle_tag::name() && toint(top["vertices"]) == 6 && toint(top["cells"]) == (int)c.size() && toint(top["segments"]) == ns, "the mesh"); CHECKM((int)seg.size() == ns, "the segments"); for (int j = 0; j < ns; ++j) { IS us; IV &q = in[sid[j]]; for (std::size_t i = 0; i < q.size(); ++i) us.insert(c[q[i]].begin(), c[q[i]].end()); CHECKM(seg.count(sid[j]) && toint(seg[sid[j]]["cells"]) == (int)q.size() && toint(seg[sid[j]]["vertices"]) == (int)us.size(), "the elements of a segment"); }
}
VS_HARNESS(not_writable) { typedef triangular_2d_mesh M; M m; std::string d = std::string(vs_tmpdir()) + "/no/such/dir"; bool t = false; try { io::opendx_writer<M> w; w(m, d); } catch (std::runtime_error &) { t = true; } CHECKM(t, "a file that cannot be created is reported"); result_of::segmentation<M>::type s(m); t = false; try { io::vmesh_writer<M> w; w(m, s, "x", d); } catch (std::runtime_error &) { t = true; } CHECKM(t, "a file that cannot be created is reported"); }
