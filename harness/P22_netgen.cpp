// Mesh files of other programs: the mesh read is the mesh of the file; unreadable files are refused. Netgen .mesh files.
// BOUND: netgen files of 5 vertices and 1-3 tetrahedra or triangles in up to 3 segments, bnd files of 5 vertices, 7-9 edges, 7 faces, 2 polyhedra and 2 contacts (2 polygons and 2 contact lines in 2d), poly files of 6 vertices, 2 facets, 2 holes and 2 regions with arbitrary ids, tess files of 5 vertices, 2 faces and 2 polyhedra; symbolic coordinates; files cut after every token or line, with every reference replaced by an unknown one
#include "io.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/io/netgen_reader.hpp"
using namespace viennagrid;
template <typename M> struct N {
  typedef typename result_of::segmentation<M>::type SG; typedef typename result_of::segment_handle<SG>::type SH; typedef typename result_of::point<M>::type P; enum { D = result_of::static_size<P>::value, K = Ref<typename CT<M>::T>::nv };
  std::vector<DV> x; std::vector<IV> c; IV seg; SV t; IV refs;
  N(int n, std::vector<IV> const &cc, IV const &s) : c(cc), seg(s) { t.push_back(inum(n)); t.push_back("\n"); for (int i = 0; i < n; ++i) { DV q; for (int k = 0; k < D; ++k) { q.push_back(vs_real("x", -9, 9)); t.push_back(num(q[k])); } t.push_back("\n"); x.push_back(q); } t.push_back(inum((int)c.size())); t.push_back("\n"); for (std::size_t i = 0; i < c.size(); ++i) { t.push_back(inum(seg[i])); for (int k = 0; k < K; ++k) { refs.push_back((int)t.size()); t.push_back(inum(c[i][k] + 1)); } t.push_back("\n"); } }
  void check(M &m, SG *s)
  {
    CHECKM(vertices(m).size() == x.size() && cells(m).size() == c.size(), "the vertices and cells of the file"); typedef typename result_of::const_vertex_range<M>::type VR; VR vr(m); int n = 0; for (typename result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i, ++n) { CHECKM(i->id().get() == n, "vertices are numbered in the order of the file"); for (int k = 0; k < D; ++k) EQ(point(*i)[k], x[n][k]); }
    typedef typename result_of::cell_range<M>::type CR; CR cr(m); n = 0; for (typename result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i, ++n) { CHECKM(i->id().get() == n, "cells are numbered in the order of the file"); for (int k = 0; k < K; ++k) CHECKM(vertices(*i)[k].id().get() == c[n][k], "the vertices of a cell in the order of the file"); if (s) for (typename SG::iterator j = s->begin(); j != s->end(); ++j) CHECKM(is_in_segment(*j, *i) == (j->id() == seg[n]), "a cell is in the segment of the file and in no other"); }
    if (s) { CHECKM(s->size() == st(seg).size(), "the segments of the file"); for (std::size_t i = 0; i < seg.size(); ++i) { CHECKM(s->segment_present(seg[i]), "the segments of the file"); CHECKM((long)cells((*s)(seg[i])).size() == std::count(seg.begin(), seg.end(), seg[i]), "the cells of a segment"); } }
  }
};
static std::vector<IV> net_cells(tetrahedron_tag) { std::vector<IV> c; int a[4] = {0, 1, 2, 3}, b[4] = {4, 2, 1, 3}, d[4] = {2, 4, 0, 3}; c.push_back(IV(a, a + 4)); c.push_back(IV(b, b + 4)); c.push_back(IV(d, d + 4)); return c; }
static std::vector<IV> net_cells(triangle_tag) { std::vector<IV> c; int a[3] = {0, 1, 2}, b[3] = {3, 2, 1}, d[3] = {2, 4, 3}; c.push_back(IV(a, a + 3)); c.push_back(IV(b, b + 3)); c.push_back(IV(d, d + 3)); return c; }
template <typename M> static void net_good()
{
  std::vector<IV> c = net_cells(typename CT<M>::T()); c.resize(1 + vs_pick("cells", 3)); IV s; static const int sid[3] = {1, 2, 7}; for (std::size_t i = 0; i < c.size(); ++i) s.push_back(sid[vs_pick("segment", 3)]); N<M> f(5, c, s); std::string fn = std::string(vs_tmpdir()) + "/n.mesh", t = text(f.t, f.t.size(), vs_pick("layout", 3)); if (vs_pick("cut", 2)) t.erase(t.find_last_not_of(" \n") + 1); spill(fn, t);
  M m; io::netgen_reader r; if (vs_pick("segmentation", 2)) { typename N<M>::SG g(m); r(m, g, fn); f.check(m, &g); } else { r(m, fn); f.check(m, 0); }
}
template <typename M> static void net_bad()
{
  std::vector<IV> c = net_cells(typename CT<M>::T()); c.resize(2); IV s(2, 1); N<M> f(5, c, s); std::string fn = std::string(vs_tmpdir()) + "/n.mesh"; int kind = vs_pick("kind", 4); std::size_t n = f.t.size(); if (kind == 0) { n = vs_pick("tokens", (int)n - 1); } else if (kind == 1) { static const char *w[4] = {"0", "6", "-1", "x"}; f.t[f.refs[vs_pick("reference", (int)f.refs.size())]] = w[vs_pick("unknown", 4)]; } else if (kind == 2) { int k = vs_pick("word", (int)n - 1); if (f.t[k] == "\n") --k; f.t[k] = "word"; }
  std::string t = text(f.t, n, 1 + vs_pick("layout", 2)); if (vs_pick("cut", 2)) t.erase(t.find_last_not_of(" \n") + 1); if (kind < 3) spill(fn, t); M m; typename N<M>::SG g(m); io::netgen_reader r; bool thrown = false; try { r(m, g, fn); } catch (std::runtime_error &) { thrown = true; } CHECKM(thrown, "an unreadable file is refused");
}
VS_HARNESS(netgen_tetrahedra) { net_good<tetrahedral_3d_mesh>(); }
VS_HARNESS(netgen_triangles) { net_good<triangular_2d_mesh>(); }
VS_HARNESS(netgen_bad_tetrahedra) { net_bad<tetrahedral_3d_mesh>(); }
VS_HARNESS(netgen_bad_triangles) { net_bad<triangular_2d_mesh>(); }
