// VTK files (see vtk.hpp)
#include "vtk.hpp"
// zero or one segment: a single file, with the data registered for the mesh and for the segment
VS_HARNESS(one_segment)
{
  typedef triangular_2d_mesh M; typedef W<M> X; std::vector<IV> c = cells_of(triangle_tag()); c.resize(2); X v(4, c, false); X::SG s(v.m); bool seg = vs_pick("segment", 2); int id = 0; io::vtk_writer<M> wr; SD a, b, d, e; if (seg) { id = vs_pick("id", 2) * 3; X::SH y = s.get_make_segment(id); for (int i = 0; i < 2; ++i) add(y, dereference_handle(v.m, v.ch[i])); wr.add_vector_data_on_vertices(y, make_field<X::V>(v.av), "own"); wr.add_scalar_data_on_cells(y, make_field<X::C>(v.b), "own"); b = one("own"); d = one("own"); wr.add_scalar_data_on_vertices(y, make_field<X::V>(v.a), "own"); a["own"] = 0; wr.add_vector_data_on_cells(y, make_field<X::C>(v.bv), "own"); e = one("own"); }
  wr.add_scalar_data_on_vertices(make_field<X::V>(v.a), "all"); a["all"] = 0; std::string fn = std::string(vs_tmpdir()) + "/o"; wr(v.m, s, fn); CHECKM(!exists(fn + "_main.pvd"), "a single file"); check_file(v, fn + ".vtu", iota_(2), a, b, d, e);
}
// files that other programs wrote: layout, attribute order, arrays in any order, data without a number of components
struct Hand { double x[4], y[4], s[4], v[12], c[2], d[6]; Hand() { for (int i = 0; i < 4; ++i) { x[i] = vs_real("x", 4 * i, 4 * i + 1); y[i] = vs_real("y", -9, 9); s[i] = vs_real("s", -9, 9); } for (int i = 0; i < 12; ++i) v[i] = vs_real("v", -9, 9); for (int i = 0; i < 2; ++i) c[i] = vs_real("c", -9, 9); for (int i = 0; i < 6; ++i) d[i] = vs_real("d", -9, 9); } };
static std::string list(const double *p, int n, const char *sep) { std::string r; for (int i = 0; i < n; ++i) r += num(p[i]) + sep; return r; }
static SV hand(Hand const &h, int style)
{
  const char *sep = style == 1 ? "\n" : " "; SV t; t.push_back(style == 1 ? "<?xml version=\"1.0\"?>\n<VTKFile byte_order=\"LittleEndian\" type=\"UnstructuredGrid\" version=\"0.1\">\n" : "<?xml version=\"1.0\"?> <VTKFile type=\"UnstructuredGrid\">"); t.push_back("<UnstructuredGrid>\n"); t.push_back(style == 1 ? "<Piece NumberOfCells=\"2\" NumberOfPoints=\"4\">\n" : "<Piece NumberOfPoints=\"4\" NumberOfCells=\"2\">"); t.push_back("<Points>\n"); std::string p; for (int i = 0; i < 4; ++i) p += num(h.x[i]) + sep + num(h.y[i]) + sep + "0" + sep; t.push_back("<DataArray format=\"ascii\" NumberOfComponents=\"3\" type=\"Float32\"> " + p + "</DataArray>\n"); t.push_back("</Points>\n"); t.push_back("<PointData>\n");
  std::string v = "<DataArray type=\"Float32\" Name=\"v\" NumberOfComponents=\"3\" format=\"ascii\"> " + list(h.v, 12, sep) + " </DataArray>\n", s = std::string("<DataArray type=\"Float32\" Name=\"s\"") + (style == 2 ? " NumberOfComponents=\"1\"" : "") + " format=\"ascii\">\n" + list(h.s, 4, sep) + "\n</DataArray>\n"; if (style == 1) std::swap(v, s); t.push_back(v); t.push_back(s); t.push_back("</PointData>\n"); t.push_back("<Cells>\n");
  SV a; a.push_back("<DataArray type=\"Int32\" Name=\"connectivity\" format=\"ascii\"> 0 1 2 3 2 1 </DataArray>\n"); a.push_back("<DataArray type=\"Int32\" Name=\"offsets\" format=\"ascii\">\n3 6\n</DataArray>\n"); a.push_back("<DataArray type=\"UInt8\" Name=\"types\" format=\"ascii\"> 5 5 </DataArray>\n"); if (style == 1) std::reverse(a.begin(), a.end()); t.insert(t.end(), a.begin(), a.end()); t.push_back("</Cells>\n"); t.push_back("<CellData>\n"); t.push_back("<DataArray type=\"Float32\" NumberOfComponents=\"3\" Name=\"d\" format=\"ascii\"> " + list(h.d, 6, sep) + " </DataArray>\n"); t.push_back("<DataArray type=\"Float32\" Name=\"c\" format=\"ascii\"> " + list(h.c, 2, sep) + " </DataArray>\n"); t.push_back("</CellData>\n"); t.push_back("</Piece>\n"); t.push_back("</UnstructuredGrid>\n"); t.push_back("</VTKFile>\n"); return t;
}
typedef triangular_2d_mesh TM2; typedef result_of::segmentation<TM2>::type TS2;
static void check_hand(Hand const &h, TM2 &r, TS2 &s, io::vtk_reader<TM2> &rd)
{
  CHECKM(vertices(r).size() == 4 && cells(r).size() == 2 && cells(s(0)).size() == 2, "elements of the file"); static const int cc[2][3] = {{0, 1, 2}, {3, 2, 1}};
  for (int i = 0; i < 4; ++i) { result_of::vertex<TM2>::type &v = vertices(r)[i]; int k = which(point(v)[0]); CHECKM(k >= 0 && k < 4, "points of the file"); EQ(point(v)[0], h.x[k]); EQ(point(v)[1], h.y[k]); EQ(rd.vertex_scalar_field("s", 0).at(v), h.s[k]); for (int d = 0; d < 3; ++d) EQ(rd.vertex_vector_field("v", 0).at(v)[d], h.v[3 * k + d]); }
  int seen = 0; for (int i = 0; i < 2; ++i) { result_of::cell<TM2>::type &c = cells(r)[i]; int f = -1; for (int k = 0; k < 2; ++k) { bool e = true; for (int j = 0; j < 3; ++j) if (which(point(vertices(c)[j])[0]) != cc[k][j]) e = false; if (e) f = k; } CHECKM(f >= 0, "cells of the file"); seen |= 1 << f; EQ(rd.cell_scalar_field("c", 0).at(c), h.c[f]); for (int d = 0; d < 3; ++d) EQ(rd.cell_vector_field("d", 0).at(c)[d], h.d[3 * f + d]); } CHECKM(seen == 3, "cells of the file");
}
VS_HARNESS(foreign_files) { Hand h; int style = vs_pick("style", 3); SV t = hand(h, style); std::string s; for (std::size_t i = 0; i < t.size(); ++i) s += t[i]; std::string fn = std::string(vs_tmpdir()) + "/f.vtu"; spill(fn, s); TM2 r; TS2 g(r); io::vtk_reader<TM2> rd; rd(r, g, fn); check_hand(h, r, g, rd); }
// files that are missing, cut off or malformed are refused, and the reader can be used again afterwards
VS_HARNESS(bad_files)
{
  Hand h; SV t = hand(h, vs_pick("style", 2)); std::string fn = std::string(vs_tmpdir()) + "/b.vtu", good; for (std::size_t i = 0; i < t.size(); ++i) good += t[i]; spill(std::string(vs_tmpdir()) + "/g.vtu", good); int kind = vs_pick("kind", 3); std::string s; bool pvd = false;
  if (kind == 0) { int n = vs_pick("tags", (int)t.size()); for (int i = 0; i < n; ++i) s += t[i]; if (vs_pick("inside", 2)) s += t[n].substr(0, t[n].size() - 14 > t[n].size() ? t[n].size() / 2 : t[n].size() - 14); spill(fn, s); } else if (kind == 1) { int n = vs_pick("left out", (int)t.size()); if (n == 6 || n == 9 || n == 14 || n == 17) n = 0; if (n == 7 || n == 8 || n == 15 || n == 16) n = 1; for (int i = 0; i < (int)t.size(); ++i) if (i != n) s += t[i]; spill(fn, s); } else { pvd = vs_pick("collection", 2); fn = std::string(vs_tmpdir()) + "/none." + (pvd ? "pvd" : "vtu"); }
  TM2 r; TS2 g(r); io::vtk_reader<TM2> rd; bool thrown = false; try { rd(r, g, fn); } catch (std::exception &) { thrown = true; } CHECKM(thrown, "a missing or incomplete file is refused"); CHECKM(vertices(r).size() == 0 && cells(r).size() == 0, "a refused file leaves the mesh as it was");
  rd(r, g, std::string(vs_tmpdir()) + "/g.vtu"); check_hand(h, r, g, rd);
}
VS_HARNESS(names) { TM2 r; TS2 g(r); io::vtk_reader<TM2> rd; bool thrown = false; try { rd(r, g, std::string(vs_tmpdir()) + "/mesh.txt"); } catch (std::exception &) { thrown = true; } CHECKM(thrown, "unknown formats are refused"); io::vtk_writer<TM2> wr; thrown = false; try { wr(r, std::string(vs_tmpdir()) + "/no/such/dir"); } catch (std::exception &) { thrown = true; } CHECKM(thrown, "a file that cannot be created is reported"); TS2 two(r); two.make_segment(); two.make_segment(); thrown = false; try { wr(r, two, std::string(vs_tmpdir()) + "/no/such/dir"); } catch (std::exception &) { thrown = true; } CHECKM(thrown, "a file that cannot be created is reported"); }
VS_HARNESS(one_line_functions) { Hand h; SV t = hand(h, 0); std::string s; for (std::size_t i = 0; i < t.size(); ++i) s += t[i]; std::string d = vs_tmpdir(); spill(d + "/l.vtu", s); TM2 r; TS2 g(r); if (vs_pick("segmentation", 2)) { io::import_vtk(r, g, d + "/l.vtu"); io::export_vtk(r, g, d + "/k"); } else { io::import_vtk(r, d + "/l.vtu"); io::export_vtk(r, d + "/k"); } TM2 q; TS2 gq(q); io::vtk_reader<TM2> rd; rd(q, gq, d + "/k.vtu"); CHECKM(vertices(q).size() == 4 && cells(q).size() == 2 && cells(gq(0)).size() == 2, "elements of the file"); for (int i = 0; i < 4; ++i) { int k = which(point(vertices(q)[i])[0]); CHECKM(k >= 0, "points of the file"); EQ(point(vertices(q)[i])[1], h.y[k]); } }
