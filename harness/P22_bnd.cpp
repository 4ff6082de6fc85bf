// DF-ISE .bnd files
#include "io.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/io/bnd_reader.hpp"
using namespace viennagrid;
// two tetrahedra with a common face, or (quads) faces with four vertices; edges and faces are referred to forwards or backwards
struct B3 {
  std::vector<DV> x; std::vector<IV> edge, face, faces; SV l; int dim, last; std::vector<IV> poly; // poly: vertices of the faces in cyclic order
  int ed(int a, int b) { for (std::size_t i = 0; i < edge.size(); ++i) { if (edge[i][0] == a && edge[i][1] == b) return (int)i; if (edge[i][0] == b && edge[i][1] == a) return -(int)i - 1; } IV e; if (a > b && a != 3) { e.push_back(b); e.push_back(a); edge.push_back(e); return -(int)edge.size(); } e.push_back(a); e.push_back(b); edge.push_back(e); return (int)edge.size() - 1; }
  void fc(int a, int b, int c, int d = -1) { IV p; p.push_back(a); p.push_back(b); p.push_back(c); if (d >= 0) p.push_back(d); IV f; for (std::size_t i = 0; i < p.size(); ++i) f.push_back(ed(p[i], p[(i + 1) % p.size()])); face.push_back(f); poly.push_back(p); }
  std::string j(IV const &v) { std::string s; for (std::size_t i = 0; i < v.size(); ++i) s += " " + inum(v[i]); return s; }
  B3(int n, bool quads, bool swapped, bool contacts, int regions = 2) : dim(3)
  {
    for (int i = 0; i < n; ++i) { DV q; q.push_back(vs_real("x", 4 * i, 4 * i + 1)); for (int k = 0; k < 2; ++k) q.push_back(vs_real("y", -9, 9)); x.push_back(q); } fc(0, 1, 2); fc(0, 3, 1); fc(1, 3, 2); if (quads) fc(0, 2, 4, 3); else fc(2, 3, 0); fc(1, 4, 2); fc(4, 3, 1); fc(3, 4, 2); int e0[4] = {0, 1, 2, 3}, e1[4] = {-3, 4, 5, -7}; faces.push_back(IV(e0, e0 + 4)); faces.push_back(IV(e1, e1 + 4)); if (swapped) std::swap(faces[0], faces[1]);
    head(regions + (contacts ? 2 : 0), 2 + (contacts ? 3 : 0)); l.push_back("  Vertices (" + inum(n) + ") {\n"); for (int i = 0; i < n; ++i) l.push_back(" " + num(x[i][0]) + " " + num(x[i][1]) + " " + num(x[i][2]) + "\n"); l.push_back("  }\n"); l.push_back("\n"); l.push_back("  Edges (" + inum((int)edge.size()) + ") {\n"); for (std::size_t i = 0; i < edge.size(); ++i) l.push_back(j(edge[i]) + "\n"); l.push_back("  }\n"); l.push_back("  Faces (" + inum((int)face.size()) + ") {\n"); for (std::size_t i = 0; i < face.size(); ++i) l.push_back(" " + inum((int)face[i].size()) + j(face[i]) + "\n"); l.push_back("  }\n");
    l.push_back("  Locations (1) {\n"); l.push_back(" e\n"); l.push_back("  }\n"); l.push_back(std::string("  Elements (") + (contacts ? "5" : "2") + ") {\n"); for (int i = 0; i < 2; ++i) l.push_back(" 10 4" + j(faces[i]) + "\n"); if (contacts) { l.push_back(" 2" + j(face[0]) + "\n"); l.push_back(" 2" + j(face[4]) + "\n"); l.push_back(" 2" + j(face[5]) + "\n"); } l.push_back("  }\n"); l.push_back("\n"); tail(contacts, regions);
  }
  void head(int nr, int ne) { l.push_back("DF-ISE text\n"); l.push_back("\n"); l.push_back("Info {\n"); l.push_back("  version = 1.1\n"); l.push_back("  dimension   = " + inum(dim) + "\n"); l.push_back("  nb_elements = " + inum(ne) + "\n"); l.push_back("  nb_regions  = " + inum(nr) + "\n"); l.push_back("}\n"); l.push_back("Data {\n"); }
  void region(const char *n, const char *m, int a, int b = -1) { l.push_back(std::string("  Region (\"") + n + "\") {\n"); l.push_back(std::string("    material = ") + m + "\n"); l.push_back(std::string("    Elements (") + (b < 0 ? "1" : "2") + ") {\n"); l.push_back(" " + inum(a) + (b < 0 ? "" : " " + inum(b)) + "\n"); last = (int)l.size(); l.push_back("    }\n"); l.push_back("  }\n"); l.push_back("\n"); }
  void tail(bool contacts, int regions) { if (regions == 1) region("both", "Silicon", 0, 1); else { region("second", "Oxide", 1); if (contacts) region("gate", "Contact", 3, 4); region("first part", " Silicon ", 0); } if (contacts && regions == 1) region("gate", "Contact", 3, 4); if (contacts) region("source", "Contact", 2); l.push_back("}\n"); }
  B3() : dim(2)
  { for (int i = 0; i < 5; ++i) { DV q; for (int k = 0; k < 2; ++k) q.push_back(vs_real("x", -9, 9)); x.push_back(q); } int p[2][4] = {{0, 1, 2, 3}, {2, 1, 4, -1}}; for (int i = 0; i < 2; ++i) { IV f; int k = i ? 3 : 4; for (int q = 0; q < k; ++q) f.push_back(ed(p[i][q], p[i][(q + 1) % k])); faces.push_back(f); }
    head(4, 4); l.push_back("  Vertices (5) {\n"); for (int i = 0; i < 5; ++i) l.push_back(" " + num(x[i][0]) + " " + num(x[i][1]) + "\n"); l.push_back("  }\n"); l.push_back("  Edges (" + inum((int)edge.size()) + ") {\n"); for (std::size_t i = 0; i < edge.size(); ++i) l.push_back(j(edge[i]) + "\n"); l.push_back("  }\n"); l.push_back("  Elements (5) {\n"); l.push_back(" 4 4" + j(faces[0]) + "\n"); l.push_back(" 4 3" + j(faces[1]) + "\n"); l.push_back(" 1 0 1\n"); l.push_back(" 1 1 4\n"); l.push_back(" 1 4 2\n"); l.push_back("  }\n"); tail(true, 2); }
  std::string str(std::size_t n = 9999) const { std::string s; for (std::size_t i = 0; i < n && i < l.size(); ++i) s += l[i]; return s; }
};
static int back(int i) { return i < 0 ? -i - 1 : i; }
static IS sl(std::vector<long> const &v) { return IS(v.begin(), v.end()); }
// w runs around p, in either direction
static bool around(std::vector<long> const &w, IV const &p) { std::size_t n = p.size(); if (w.size() != n) return false; for (std::size_t s = 0; s < n; ++s) for (int d = 0; d < 2; ++d) { bool ok = true; for (std::size_t i = 0; i < n; ++i) if (w[i] != p[(s + (d ? n - i : i)) % n]) ok = false; if (ok) return true; } return false; }
VS_HARNESS(bnd_helper_3d)
{
  bool quads = vs_pick("quads", 2), con = vs_pick("contacts", 2); int regions = 1 + vs_pick("regions", 2); B3 f(5, quads, vs_pick("swapped", 2), con, regions); std::string fn = std::string(vs_tmpdir()) + "/b.bnd"; spill(fn, f.str()); io::bnd_helper h; CHECKM(h(fn) == EXIT_SUCCESS, "a complete file is read"); CHECKM(h.dim_geom() == 3 && h.geometry_size() == 5 && h.segment_size() == 2, "contents of the file"); for (int i = 0; i < 5; ++i) for (int k = 0; k < 3; ++k) EQ(h.point(i)[k], f.x[i][k]);
  for (int s = 0; s < 2; ++s) { CHECKM(h.segment(s).size() == 4, "faces of a polyhedron"); for (int k = 0; k < 4; ++k) CHECKM(around(h.segment(s)[k], f.poly[back(f.faces[s][k])]), "vertices of a face"); if (regions == 1) CHECKM(h.segment_name(s) == "both" && h.segment_material(s) == "Silicon", "region of a polyhedron"); else CHECKM(h.segment_name(s) == (s ? "second" : "first part") && h.segment_material(s) == (s ? "Oxide" : "Silicon"), "region of a polyhedron"); }
  CHECKM(h.contact_size() == (con ? 2u : 0u), "contacts of the file"); if (con) { CHECKM(h.contact_name(0) == "gate" && h.contact_name(1) == "source", "contacts of the file"); CHECKM(h.contact_faces(0).size() == 2 && h.contact_faces(1).size() == 1, "faces of a contact"); CHECKM(around(h.contact_faces(0)[0], f.poly[4]) && around(h.contact_faces(0)[1], f.poly[5]) && around(h.contact_faces(1)[0], f.poly[0]), "faces of a contact"); }
}
VS_HARNESS(bnd_helper_2d)
{
  B3 f; std::string fn = std::string(vs_tmpdir()) + "/b.bnd"; spill(fn, f.str()); io::bnd_helper h; int again = vs_pick("again", 2); if (again) { CHECKM(h(fn) == EXIT_SUCCESS, "a complete file is read"); h.clear(); } CHECKM(h(fn) == EXIT_SUCCESS, "a complete file is read"); CHECKM(h.dim_geom() == 2 && h.geometry_size() == 5 && h.segment_size() == 2, "contents of the file"); for (int i = 0; i < 5; ++i) for (int k = 0; k < 2; ++k) EQ(h.point(i)[k], f.x[i][k]);
  for (int s = 0; s < 2; ++s) { CHECKM(h.segment(s).size() == f.faces[s].size(), "edges of a polygon"); for (std::size_t k = 0; k < f.faces[s].size(); ++k) CHECKM(sl(h.segment(s)[k]) == st(f.edge[back(f.faces[s][k])]), "vertices of an edge"); CHECKM(h.segment_name(s) == (s ? "second" : "first part") && h.segment_material(s) == (s ? "Oxide" : "Silicon"), "region of a polygon"); }
  IV a, b, c; a.push_back(1); a.push_back(4); b.push_back(4); b.push_back(2); c.push_back(0); c.push_back(1); CHECKM(h.contact_size() == 2 && h.contact_name(0) == "gate" && h.contact_name(1) == "source" && h.contact_faces(0).size() == 2 && h.contact_faces(1).size() == 1, "contacts of the file"); CHECKM(sl(h.contact_faces(0)[0]) == st(a) && sl(h.contact_faces(0)[1]) == st(b) && sl(h.contact_faces(1)[0]) == st(c), "edges of a contact");
}
typedef triangular_3d_mesh M; typedef result_of::segmentation<M>::type SG;
VS_HARNESS(bnd_mesh)
{
  B3 f(6, false, vs_pick("swapped", 2), vs_pick("contacts", 2), 1 + vs_pick("regions", 2)); std::string fn = std::string(vs_tmpdir()) + "/b.bnd"; spill(fn, f.str()); M m; SG s(m); io::bnd_reader r; r(m, s, fn); CHECKM(cells(m).size() == 7 && vertices(m).size() == 5 && s.size() == 2 && s.segment_present(0) && s.segment_present(1), "every face and every vertex of the faces once"); typedef result_of::cell_range<M>::type CR; CR cr(m); IS seen;
  for (result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i) { int f0 = -1; IS in[2], a; for (int q = 0; q < 2; ++q) if (is_in_segment(s(q), *i)) in[q].insert(1); for (int v = 0; v < 3; ++v) { P3 p = point(vertices(*i)[v]); int w = which(p[0]); CHECKM(w >= 0 && w < 6, "vertices of the file"); for (int d = 0; d < 3; ++d) EQ(p[d], f.x[w][d]); a.insert(w); } for (int k = 0; k < 7; ++k) if (a == st(f.poly[k])) f0 = k; CHECKM(f0 >= 0 && seen.insert(f0).second, "the cells are the faces of the file"); for (int q = 0; q < 2; ++q) { bool ex = false; for (int k = 0; k < 4; ++k) if (back(f.faces[q][k]) == f0) ex = true; CHECKM(ex == !in[q].empty(), "a face is in the segments of its polyhedra"); } }
}
static bool refused(std::string const &fn) { M m; SG s(m); io::bnd_reader r; try { r(m, s, fn); } catch (std::runtime_error &) { return true; } return false; }
VS_HARNESS(bnd_cut) { B3 f(5, false, false, vs_pick("contacts", 2)); std::string fn = std::string(vs_tmpdir()) + "/b.bnd"; int n = vs_pick("lines", f.last); std::string t = f.str(n); if (n) switch (vs_pick("end", 3)) { case 1: t.erase(t.size() - 1); break; case 2: if (f.l[n - 1].find('(') == std::string::npos && t.find_last_of(" ") != std::string::npos && n > 8) t.erase(t.find_last_of(" ")); break; } spill(fn, t); CHECKM(refused(fn), "an incomplete file is refused"); }
VS_HARNESS(bnd_bad)
{
  int kind = vs_pick("kind", 6); B3 f(5, kind == 3, false, false); std::string fn = std::string(vs_tmpdir()) + "/b.bnd"; std::string from, to; if (kind == 1) f.l[4] = "  dimension = 2\n"; for (std::size_t i = 0; i < f.l.size(); ++i) { if (kind == 2 && f.l[i].substr(0, 5) == " 10 4") f.l[i] = " 7 4" + f.l[i].substr(5); if (kind == 4 && f.l[i].substr(0, 5) == " 10 4") f.l[i] = vs_pick("reference", 2) ? " 10 4 0 1 2 7\n" : " 10 4 0 1 2 -9\n"; if (kind == 5 && f.l[i] == f.j(f.edge[2]) + "\n") f.l[i] = " 3 9\n"; } if (kind == 5) CHECK(f.str().find(" 3 9\n") != std::string::npos); if (kind) spill(fn, f.str()); CHECKM(refused(fn), "a missing or inconsistent file is refused");
}
