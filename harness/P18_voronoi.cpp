// Voronoi quantities (box volumes of vertices and edges, interface areas, their cell contributions).
// BOUND: chains of 3 lines, grids of 2x2 rectangles and 2 cuboids with symbolic spacings, 1-2 triangles with symbolic apices (circumcentre inside, outside towards a neighbour, outside towards the boundary; Delaunay), 1-2 tetrahedra that contain their circumcentres
#include "topo.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/voronoi.hpp"
using namespace viennagrid;
template <typename M> struct Vor {
  typedef typename result_of::const_cell_handle<M>::type CH; typedef typename result_of::voronoi_cell_contribution<CH>::type CC; typedef typename result_of::line<M>::type E; typedef typename result_of::vertex<M>::type V;
  std::vector<double> ia, vb, eb; std::vector<CC> iac, vbc, ebc;
  void run(M const &m) { apply_voronoi<typename CT<M>::T>(m, make_accessor<E>(ia), make_accessor<E>(iac), make_accessor<V>(vb), make_accessor<V>(vbc), make_accessor<E>(eb), make_accessor<E>(ebc)); }
  static double sum(CC const &c) { double s = 0; for (std::size_t i = 0; i < c.size(); ++i) s += c[i].second; return s; }
  static double in(CC const &c, CH h) { double s = 0; for (std::size_t i = 0; i < c.size(); ++i) if (c[i].first == h) s += c[i].second; return s; }
  template <typename X> static double get(std::vector<double> const &v, X const &x) { std::size_t i = (std::size_t)x.id().get(); return i < v.size() ? v[i] : 0; }
  template <typename X> static CC get(std::vector<CC> const &v, X const &x) { std::size_t i = (std::size_t)x.id().get(); return i < v.size() ? v[i] : CC(); }
  // every total is the sum of its cell contributions, and the boxes fill the mesh
  void consistent(M &m)
  {
    typedef typename result_of::line_range<M>::type LR; LR l(m); double te = 0, tv = 0; for (typename result_of::iterator<LR>::type it = l.begin(); it != l.end(); ++it) { vs_eq(sum(get(iac, *it)), get(ia, *it), 1e-9, "interface area is the sum of its cell contributions"); vs_eq(sum(get(ebc, *it)), get(eb, *it), 1e-9, "edge box volume is the sum of its cell contributions"); te += get(eb, *it); }
    typedef typename result_of::vertex_range<M>::type VR; VR v(m); for (typename result_of::iterator<VR>::type it = v.begin(); it != v.end(); ++it) { vs_eq(sum(get(vbc, *it)), get(vb, *it), 1e-9, "vertex box volume is the sum of its cell contributions"); tv += get(vb, *it); }
    double vol = volume(m); vs_eq(tv, vol, 1e-7, "the vertex boxes fill the mesh"); vs_eq(te, vol, 1e-7, "the edge boxes fill the mesh");
  }
};
template <typename M> static typename result_of::line<M>::type &edge(M &m, typename VH<M>::V const &h, int a, int b) { PosOf<M> p(m, h); IS q; q.insert(a); q.insert(b); typedef typename result_of::line_range<M>::type R; R r(m); for (typename result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) if (p(*it) == q) return *it; CHECKM(false, "edge exists"); return *r.begin(); }
// chains of lines
template <typename M> static void chain(bool rev)
{
  M m; typedef typename result_of::point<M>::type P; typename VH<M>::V h; double len[3], x = 0; P p; for (std::size_t k = 0; k < p.size(); ++k) p[k] = vs_real("o", -5, 5); h.push_back(addv(m, p)); for (int i = 0; i < 3; ++i) { len[i] = vs_real("len", 0.125, 9); p[i % p.size()] += len[i]; h.push_back(addv(m, p)); x += len[i]; }
  for (int i = 0; i < 3; ++i) { int a[2] = {i, i + 1}; if (rev && i == 1) std::swap(a[0], a[1]); addc(m, h, a, 2); } Vor<M> v; v.run(m); v.consistent(m);
  for (int i = 0; i < 4; ++i) vs_eq(v.get(v.vb, dereference_handle(m, h[i])), ((i ? len[i - 1] : 0) + (i < 3 ? len[i] : 0)) / 2, 1e-9, "box of a vertex in a chain of lines"); for (int i = 0; i < 3; ++i) { vs_eq(v.get(v.ia, edge(m, h, i, i + 1)), 1, 1e-9, "interface in a chain of lines"); vs_eq(v.get(v.eb, edge(m, h, i, i + 1)), len[i], 1e-9, "edge box in a chain of lines"); }
}
VS_HARNESS(lines_1d) { chain<line_1d_mesh>(vs_pick("rev", 2)); }
VS_HARNESS(lines_2d) { chain<line_2d_mesh>(vs_pick("rev", 2)); }
VS_HARNESS(lines_3d) { chain<line_3d_mesh>(vs_pick("rev", 2)); }
// grids of rectangles and cuboids
VS_HARNESS(rectangles)
{
  typedef quadrilateral_2d_mesh M; M m; VH<M>::V h; double x[3], y[3]; x[0] = vs_real("x", -5, 5); y[0] = vs_real("y", -5, 5); double dx[2], dy[2]; for (int i = 0; i < 2; ++i) { dx[i] = vs_real("dx", 0.25, 4); dy[i] = vs_real("dy", 0.25, 4); x[i + 1] = x[i] + dx[i]; y[i + 1] = y[i] + dy[i]; } for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) h.push_back(addv(m, P2(x[i], y[j])));
  int skip = vs_pick("skip", 5); bool has[2][2]; for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { has[i][j] = skip != i + 2 * j; if (has[i][j]) { int b = i + 3 * j, c[4] = {b, b + 1, b + 3, b + 4}; addc(m, h, c, 4); } } Vor<M> v; v.run(m); v.consistent(m);
  struct Q { static double w(bool (*has)[2], double *d, int i, int j) { return i >= 0 && i < 2 && j >= 0 && j < 2 && has[i][j] ? d[0] : 0; } };
  for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) { double b = 0; for (int a = -1; a < 1; ++a) for (int c = -1; c < 1; ++c) { int I = i + a, J = j + c; if (I >= 0 && I < 2 && J >= 0 && J < 2 && has[I][J]) b += dx[I] * dy[J] / 4; } vs_eq(v.get(v.vb, dereference_handle(m, h[i + 3 * j])), b, 1e-9, "box of a vertex in a grid"); }
  for (int j = 0; j < 3; ++j) for (int i = 0; i < 2; ++i) { double l = 0; for (int J = j - 1; J <= j; ++J) if (J >= 0 && J < 2 && has[i][J]) l += dy[J] / 2; if (l == 0) continue; vs_eq(v.get(v.ia, edge(m, h, i + 3 * j, i + 1 + 3 * j)), l, 1e-9, "interface in a grid"); vs_eq(v.get(v.eb, edge(m, h, i + 3 * j, i + 1 + 3 * j)), l * dx[i] / 2, 1e-9, "edge box in a grid"); }
  for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) { double l = 0; for (int I = i - 1; I <= i; ++I) if (I >= 0 && I < 2 && has[I][j]) l += dx[I] / 2; if (l == 0) continue; vs_eq(v.get(v.ia, edge(m, h, i + 3 * j, i + 3 * j + 3)), l, 1e-9, "interface in a grid"); vs_eq(v.get(v.eb, edge(m, h, i + 3 * j, i + 3 * j + 3)), l * dy[j] / 2, 1e-9, "edge box in a grid"); }
}
VS_HARNESS(cuboids)
{
  typedef hexahedral_3d_mesh M; M m; VH<M>::V h; double d[2], e, f, x[3]; x[0] = vs_real("x", -3, 3); for (int i = 0; i < 2; ++i) d[i] = vs_real("d", 0.25, 4), x[i + 1] = x[i] + d[i]; e = vs_real("e", 0.25, 4); f = vs_real("f", 0.25, 4); int two = vs_pick("two", 2), n = two ? 3 : 2; for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) h.push_back(addv(m, P3(x[i], k & 1 ? e : 0, k & 2 ? f : 0)));
  for (int i = 0; i < n - 1; ++i) { int c[8] = {4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3, 4 * i + 4, 4 * i + 5, 4 * i + 6, 4 * i + 7}; addc(m, h, c, 8); } Vor<M> v; v.run(m); v.consistent(m);
  for (int i = 0; i < n; ++i) { double w = (i ? d[i - 1] : 0) + (i < n - 1 ? d[i] : 0); for (int k = 0; k < 4; ++k) vs_eq(v.get(v.vb, dereference_handle(m, h[4 * i + k])), w * e * f / 8, 1e-9, "box of a vertex of cuboids"); for (int k = 0; k < 4; ++k) { int o = k ^ 1; if (o > k) { vs_eq(v.get(v.ia, edge(m, h, 4 * i + k, 4 * i + o)), w * f / 4, 1e-9, "interface of cuboids"); vs_eq(v.get(v.eb, edge(m, h, 4 * i + k, 4 * i + o)), w * f * e / 12, 1e-9, "edge box of cuboids"); } if (i < n - 1) vs_eq(v.get(v.ia, edge(m, h, 4 * i + k, 4 * i + k + 4)), e * f / 4, 1e-9, "interface of cuboids"); } }
}
// triangles; half the cotangent of the angle at c in the triangle abc is the (signed) distance of the circumcentre from ab, divided by |ab|
static double hc(P2 const &a, P2 const &b, P2 const &c) { double x = area2_(c, a, b); return dot_(P2(a - c), P2(b - c)) / (2 * (x < 0 ? -x : x)); }
static double sq(P2 const &a, P2 const &b) { return dot_(P2(a - b), P2(a - b)); }
typedef triangular_2d_mesh T2;
// an edge e has the interface k |e| and the box k |e|^2 / 2
static double edge_is(Vor<T2> &v, T2 &m, VH<T2>::V const &h, std::vector<P2> const &p, int a, int b, double k) { T2 &mm = m; double l2 = sq(p[a], p[b]), box = k * l2 / 2, i = v.get(v.ia, edge(mm, h, a, b)); vs_eq(v.get(v.eb, edge(mm, h, a, b)), box, 1e-7, "edge box volume"); vs_eq(i, k * norm(P2(p[a] - p[b])), 1e-7, "interface area"); return box / 2; }
static void triangles(std::vector<P2> const &p, int rot1, int rot2, bool two)
{
  T2 m; VH<T2>::V h; for (std::size_t i = 0; i < p.size(); ++i) h.push_back(addv(m, p[i])); IV a, b; a.push_back(0); a.push_back(1); a.push_back(2); b.push_back(3); b.push_back(1); b.push_back(0); while (rot1--) std::next_permutation(a.begin(), a.end()); std::sort(b.begin(), b.end()); while (rot2--) std::next_permutation(b.begin(), b.end()); addc(m, h, &a[0], 3); if (two) addc(m, h, &b[0], 3);
  Vor<T2> v; v.run(m); v.consistent(m); double box[4] = {0, 0, 0, 0}; // the pairs of vertices and the opposite vertices
  int n = two ? 2 : 1; double k[4][4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) k[i][j] = 0; for (int t = 0; t < n; ++t) { int w[3] = {0, 1, t ? 3 : 2}; for (int i = 0; i < 3; ++i) { int A = w[i], B = w[(i + 1) % 3], C = w[(i + 2) % 3]; double q = hc(p[A], p[B], p[C]); k[A][B] += q; k[B][A] += q; } }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { if (i == 3 && (!two || j == 2)) continue; double q = edge_is(v, m, h, p, i, j, k[i][j]); box[i] += q; box[j] += q; } for (int i = 0; i < (two ? 4 : 3); ++i) vs_eq(v.get(v.vb, dereference_handle(m, h[i])), box[i], 1e-7, "vertex box volume");
}
VS_HARNESS(acute_triangle) { std::vector<P2> p; double x = vs_real("x", -4, 8), y = vs_real("y", 0.25, 8); p.push_back(P2(0, 0)); p.push_back(P2(4, 0)); p.push_back(P2(x, y)); for (int i = 0; i < 3; ++i) vs_assume(hc(p[(i + 1) % 3], p[(i + 2) % 3], p[i]) > 0.0625); triangles(p, vs_pick("order", 6), 0, false); }
VS_HARNESS(two_acute_triangles) { std::vector<P2> p; double x = vs_real("x", -1, 5), y = vs_real("y", 1, 8); p.push_back(P2(0, 0)); p.push_back(P2(4, 0)); p.push_back(P2(x, y)); p.push_back(P2(1, -3)); for (int i = 0; i < 3; ++i) vs_assume(hc(p[(i + 1) % 3], p[(i + 2) % 3], p[i]) > 0.0625); triangles(p, vs_pick("order", 6), 2, true); }
// turned, scaled by 5 and shifted
static double turn(std::vector<P2> &p, int k) { if (k == 0) return 1; for (std::size_t i = 0; i < p.size(); ++i) { double x = p[i][0], y = p[i][1]; p[i] = k == 1 ? P2(3 * x - 4 * y + 7, 4 * x + 3 * y - 2) : P2(-4 * x + 3 * y - 3, -3 * x - 4 * y + 5); } return 5; }
// the circumcentre of the first triangle lies beyond the common edge, in the second one (Delaunay)
VS_HARNESS(obtuse_towards_neighbour) { std::vector<P2> p; double x = vs_real("x", 1, 3), y = vs_real("y", 1, 2); p.push_back(P2(0, 0)); p.push_back(P2(4, 0)); p.push_back(P2(x, y)); p.push_back(P2(2.5, -6)); vs_assume(hc(p[0], p[1], p[2]) < -0.03125); turn(p, vs_pick("turn", 3)); triangles(p, vs_pick("order", 6), vs_pick("order2", vs_tier() ? 6 : 2) * (vs_tier() ? 1 : 3), true); }
// beyond the boundary: boxes and interfaces end there
VS_HARNESS(obtuse_towards_boundary)
{
  std::vector<P2> p; double x = vs_real("x", 0.5, 3.5), y = vs_real("y", 0.25, 2); p.push_back(P2(0, 0)); p.push_back(P2(4, 0)); p.push_back(P2(x, y)); vs_assume(hc(p[0], p[1], p[2]) < -0.03125); double f = turn(p, vs_pick("turn", 3)); T2 m; VH<T2>::V h; for (int i = 0; i < 3; ++i) h.push_back(addv(m, p[i])); IV a = iota_(3); int o = vs_pick("order", 6); while (o--) std::next_permutation(a.begin(), a.end()); addc(m, h, &a[0], 3); Vor<T2> v; v.run(m); v.consistent(m); double s = 0;
  for (int i = 0; i < 2; ++i) { double l2 = sq(p[i], p[2]), t = (i ? 4 - x : x), tn = y / t, b = l2 * tn / 8; s += b; vs_eq(v.get(v.vb, dereference_handle(m, h[i])), b, 1e-7, "box of a vertex at the boundary"); vs_eq(v.get(v.ia, edge(m, h, i, 2)), norm(P2(p[i] - p[2])) * tn / 2, 1e-7, "interface ends at the boundary"); } vs_eq(v.get(v.vb, dereference_handle(m, h[2])), 2 * y * f * f - s, 1e-7, "box of the opposite vertex"); vs_eq(v.get(v.ia, edge(m, h, 0, 1)), 0, 1e-9, "no interface across the boundary edge");
}
// tetrahedra
static P3 comb(P3 const &a, double s, P3 const &b, double t, P3 const &c) { P3 r = a; for (int k = 0; k < 3; ++k) r[k] = a[k] + s * (b[k] - a[k]) + t * (c[k] - a[k]); return r; }
static P3 cc3(P3 const &a, P3 const &b, P3 const &c) { P3 u = b - a, w = c - a; double uu = dot_(u, u), ww = dot_(w, w), uw = dot_(u, w), d = 2 * (uu * ww - uw * uw); return comb(a, ww * (uu - uw) / d, b, uu * (ww - uw) / d, c); }
static P3 cc4(P3 const &a, P3 const &b, P3 const &c, P3 const &e) { P3 u = b - a, w = c - a, z = e - a, r = a; double d = 2 * det_(u, w, z); P3 q = crs_(w, z), s = crs_(z, u), t = crs_(u, w); for (int k = 0; k < 3; ++k) r[k] += (dot_(u, u) * q[k] + dot_(w, w) * s[k] + dot_(z, z) * t[k]) / d; return r; }
static double ab(double x) { return x < 0 ? -x : x; }
static void tetrahedra(std::vector<P3> const &p, std::vector<IV> const &c)
{
  typedef tetrahedral_3d_mesh M; M m; VH<M>::V h; for (std::size_t i = 0; i < p.size(); ++i) h.push_back(addv(m, p[i])); int n = c.size(); for (int i = 0; i < n; ++i) addc(m, h, &c[i][0], 4);
  std::map<IS, double> eb; std::vector<double> vb(p.size(), 0.0); for (int t = 0; t < n; ++t) { P3 cc = cc4(p[c[t][0]], p[c[t][1]], p[c[t][2]], p[c[t][3]]); for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < 4; ++k) if (k != i && k != j) { int l = 6 - i - j - k; P3 A = p[c[t][i]], B = p[c[t][j]], C = p[c[t][k]], L = p[c[t][l]], f = cc3(A, B, C), mid = comb(A, 0.5, B, 0, B); double s = det_(P3(mid - A), P3(f - A), P3(cc - A)), o = det_(P3(B - A), P3(C - A), P3(L - A)); vs_assume(o > 0 ? s > 0.001 : s < -0.001); IS q; q.insert(c[t][i]); q.insert(c[t][j]); double b = ab(s) / 6; eb[q] += 2 * b; vb[c[t][i]] += b; vb[c[t][j]] += b; } }
  Vor<M> v; v.run(m); v.consistent(m); for (std::size_t i = 0; i < p.size(); ++i) vs_eq(v.get(v.vb, dereference_handle(m, h[i])), vb[i], 1e-6, "box of a vertex of tetrahedra"); for (std::map<IS, double>::iterator i = eb.begin(); i != eb.end(); ++i) { int x = *i->first.begin(), y = *i->first.rbegin(); vs_eq(v.get(v.eb, edge(m, h, x, y)), i->second, 1e-6, "edge box of tetrahedra"); vs_eq(v.get(v.ia, edge(m, h, x, y)) * norm(P3(p[x] - p[y])) / 3, i->second, 1e-6, "interface of tetrahedra"); }
}
static void disphenoids(int n, double a, int order)
{
  double b = 2, c = 1.5, k = 8 / (1 / (a * a) + 1 / (b * b) + 1 / (c * c)); std::vector<P3> p; p.push_back(P3(a, b, c)); p.push_back(P3(a, -b, -c)); p.push_back(P3(-a, b, -c)); p.push_back(P3(-a, -b, c)); std::vector<IV> C; IV q = iota_(4); while (order--) std::next_permutation(q.begin(), q.end()); C.push_back(q);
  if (n > 1) { p.push_back(P3(a - k / a, b - k / b, c - k / c)); q[0] = 4; q[1] = 1; q[2] = 2; q[3] = 3; C.push_back(q); } tetrahedra(p, C);
}
VS_HARNESS(disphenoid) { disphenoids(1, vs_real("a", 1, 3), 7 * vs_pick("order", 4)); }
// a disphenoid and its mirror image at a face
VS_HARNESS(two_tetrahedra) { disphenoids(2, vs_real("a", 1.5, 2.5), 5 * vs_pick("order", 4)); }
// six tetrahedra around an edge: its interface is a closed polygon
VS_HARNESS(ring_of_tetrahedra)
{
  double h = vs_real("h", 1, 1.25); int xy[6][2] = {{2, 0}, {1, 2}, {-1, 2}, {-2, 0}, {-1, -2}, {1, -2}}; std::vector<P3> p; p.push_back(P3(0, 0, h)); p.push_back(P3(0, 0, -h)); for (int i = 0; i < 6; ++i) p.push_back(P3(xy[i][0], xy[i][1], 0)); int n = 6, miss = vs_pick("missing", 2); std::vector<IV> C; for (int i = 0; i < n - miss; ++i) { IV q; q.push_back(2 + i); q.push_back(0); q.push_back(2 + (i + 1) % 6); q.push_back(1); C.push_back(q); } tetrahedra(p, C);
}
