// Normal vectors, determinants, bounding boxes, mesh size, orthogonalisation.
// BOUND: arbitrary coordinates in [-10,10]; up to 4 points / mesh vertices; up to 3 vectors for the orthogonalisation (linear dependence exactly or with a margin)
#include "common.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/geometry.hpp"
using namespace viennagrid;
template <typename M, typename P> static typename result_of::cell_handle<M>::type mk(M &m, const P *p, int n)
{ typename VH<M>::V v; std::vector<int> ix; for (int i = 0; i < n; ++i) { v.push_back(addv(m, p[i])); ix.push_back(i); } return addc(m, v, &ix[0], n); }
static double det3(P3 const &a, P3 const &b, P3 const &c) { return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }

VS_HARNESS(normal_line)
{ P2 p[2] = { in2("p"), in2("p") }; line_2d_mesh m; P2 n = normal_vector(dereference_handle(m, mk(m, p, 2))); P2 d = p[1] - p[0]; EQ(dot_(n, d), 0.0); EQ(dot_(n, n), dot_(d, d)); EQ(crs_(d, n), dot_(d, d)); }
VS_HARNESS(normal_tri)
{ P3 p[3] = { in3("p"), in3("p"), in3("p") }; triangular_3d_mesh m; P3 n = normal_vector(dereference_handle(m, mk(m, p, 3))), e = crs_(P3(p[1] - p[0]), P3(p[2] - p[0])); for (int k = 0; k < 3; ++k) EQ(n[k], e[k]); }
VS_HARNESS(normal_quad)
{ // parallelogram, reference order
  P3 o = in3("o"), a = in3("a"), b = in3("b"); P3 p[4] = { o, P3(o + a), P3(o + b), P3(o + a + b) }; quadrilateral_3d_mesh m; P3 n = normal_vector(dereference_handle(m, mk(m, p, 4))), e = crs_(a, b); for (int k = 0; k < 3; ++k) EQ(n[k], e[k]);
  // with a user supplied accessor the stored points are irrelevant
  typedef quadrilateral_3d_mesh M; std::vector<P3> st; result_of::accessor<std::vector<P3>, result_of::element<M, vertex_tag>::type>::type acc(st); M m2; P3 z[4] = { P3(0,0,0), P3(1,0,0), P3(0,1,0), P3(1,1,0) }; result_of::cell_handle<M>::type c = mk(m2, z, 4);
  for (int i = 0; i < 4; ++i) acc(vertices(m2)[i]) = p[i]; P3 n2 = normal_vector(acc, dereference_handle(m2, c)); for (int k = 0; k < 3; ++k) EQ(n2[k], e[k]);
}
VS_HARNESS(determinants)
{
  P1 a(vs_real("a", -9, 9)); EQ(determinant(a), a[0]); P2 b = in2("b"), c = in2("c"); EQ(determinant(b, c), b[0] * c[1] - b[1] * c[0]); P3 d = in3("d"), e = in3("e"), f = in3("f"); EQ(determinant(d, e, f), det3(d, e, f)); EQ(determinant(d, f, e), -det3(d, e, f));
}
template <typename P> static void bbox_ok(std::pair<P, P> const &bb, const P *p, int n)
{
  for (int k = 0; k < P::dim; ++k) { bool lo = false, hi = false; double l = bb.first[k], h = bb.second[k]; for (int i = 0; i < n; ++i) { CHECKM(l <= p[i][k], "box contains every point"); CHECKM(h >= p[i][k], "box contains every point"); lo |= (l == p[i][k]); hi |= (h == p[i][k]); } CHECKM(lo, "box is tight"); CHECKM(hi, "box is tight"); }
}
VS_HARNESS(bbox_points_2d) { int n = 1 + vs_pick("n", 4); std::vector<P2> p; for (int i = 0; i < n; ++i) p.push_back(in2("p")); bbox_ok(bounding_box(p.begin(), p.end()), &p[0], n); }
VS_HARNESS(bbox_points_3d) { int n = 1 + vs_pick("n", vs_tier() ? 3 : 2); std::vector<P3> p; for (int i = 0; i < n; ++i) p.push_back(in3("p")); bbox_ok(bounding_box(p.begin(), p.end()), &p[0], n); }
VS_HARNESS(bbox_mesh_2d) { P2 p[4]; triangular_2d_mesh m; int n = 1 + vs_pick("n", 4); for (int i = 0; i < n; ++i) addv(m, p[i] = in2("p")); std::pair<P2, P2> b = bounding_box(m); bbox_ok(b, p, n); P2 d = b.second - b.first; double s = mesh_size(m); CHECK(s >= 0); EQ(s * s, dot_(d, d)); }
VS_HARNESS(bbox_mesh_3d) { P3 p[3]; tetrahedral_3d_mesh m; int n = 2; for (int i = 0; i < n; ++i) addv(m, p[i] = in3("p")); std::pair<P3, P3> b = bounding_box(m); bbox_ok(b, p, n); P3 d = b.second - b.first; double s = mesh_size(m); CHECK(s >= 0); EQ(s * s, dot_(d, d)); }
VS_HARNESS(bbox_mesh_1d) { line_1d_mesh m; double p[3], l = 100, h = -100; for (int i = 0; i < 3; ++i) { addv(m, P1(p[i] = vs_real("p", -9, 9))); l = std::min(l, p[i]); h = std::max(h, p[i]); } EQ(bounding_box(m).first[0], l); EQ(bounding_box(m).second[0], h); EQ(mesh_size(m), h - l); }
VS_HARNESS(bbox_segment)
{ // the box of a segment covers the vertices of that segment only
  typedef triangular_2d_mesh M; M m; VH<M>::V v; P2 p[4]; for (int i = 0; i < 3; ++i) v.push_back(addv(m, p[i] = in2("p"))); v.push_back(addv(m, P2(50, 50))); result_of::segmentation<M>::type sg(m); result_of::segment_handle<result_of::segmentation<M>::type>::type s = sg.make_segment(); int t[3] = { 0, 1, 2 };
  viennagrid::add(s, dereference_handle(m, addc(m, v, t, 3))); bbox_ok(bounding_box(s), p, 3);
}
// component orthogonal to a list of orthogonal vectors
VS_HARNESS(orthogonalize_vector_2d) { P2 a = in2("a", 4), x = in2("x", 4); vs_assume(dot_(a, a) > 0.25); P2 r = orthogonalize_vector(&a, &a + 1, x); EQ(dot_(r, a), 0.0); P2 d = x - r; EQ(crs_(d, a), 0.0); }
VS_HARNESS(orthogonalize_vector_3d) { P3 a[2] = { P3(0, 0, 0), P3(0, 0, 0) }; a[0][0] = vs_real("s", 0.5, 4); a[0][1] = vs_real("u", -4, 4); a[1][2] = vs_real("t", 0.5, 4); P3 x = in3("x", 4), r = orthogonalize_vector(a, a + 2, x); EQ(dot_(r, a[0]), 0.0); EQ(dot_(r, a[1]), 0.0); EQ(det_(P3(x - r), a[0], a[1]), 0.0); }
// Gram-Schmidt: result orthogonal, number of vectors = rank, dependent vectors moved behind
VS_HARNESS(orthogonalize_2)
{
  double a = vs_real("a", 0.5, 4), b = vs_real("b", -4, 4), c = vs_real("c", -4, 4); int rank2 = vs_pick("independent", 2); P3 x(a, b, 0), y = rank2 ? P3(vs_real("d", -4, 4), c, vs_real("e", 1, 4)) : P3(x * c); P3 v[2] = { x, y };
  std::size_t n = orthogonalize(v, v + 2, 1e-8); CHECK(n == (std::size_t)(rank2 ? 2 : 1)); for (int k = 0; k < 3; ++k) EQ(v[0][k], x[k]);
  if (rank2) { EQ(dot_(v[0], v[1]), 0.0); EQ(dot_(P3(y - v[1]), v[1]), 0.0); EQ(det_(y, v[0], v[1]), 0.0); }
}
VS_HARNESS(orthogonalize_3)
{
  double a = vs_real("a", 0.5, 4), c = vs_real("c", 0.5, 4), f = vs_real("f", 1, 4); int kind = vs_pick("kind", 3);
  P3 x(a, 0, 0), y(1, c, 0), z = kind == 0 ? P3(1, 1, f) : kind == 1 ? P3(x + y * f) : P3(0, 0, f); P3 v[3] = { x, y, z }; if (kind == 2) { v[1] = x * f; }
  std::size_t n = orthogonalize(v, v + 3, 1e-8); CHECK(n == (std::size_t)(kind == 0 ? 3 : 2)); for (std::size_t i = 0; i < 2; ++i) for (std::size_t j = 0; j < i; ++j) EQ(dot_(v[i], v[j]), 0.0);
  if (n == 3) { EQ(dot_(v[2], v[0]), 0.0); EQ(dot_(v[2], v[1]), 0.0); } CHECKM(dot_(v[1], v[1]) > 0.01, "kept vectors are nonzero");
}
