// Distance and closest points.
// BOUND: query points with arbitrary coordinates in [-6,6]; lines of arbitrary shape; triangles (rectangular, acute, obtuse), rectangles, corner tetrahedra, boxes: shapes picked from small families with arbitrary query point and, for triangles, arbitrary offset (thorough tier: the shape parameters are arbitrary reals too); line pairs with sin^2(angle) >= 1e-5 or exactly parallel; triangle strips of 2 cells for boundary distances
#include "common.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/distance.hpp"
using namespace viennagrid;
template <typename M, typename P> static typename result_of::cell_handle<M>::type mk(M &m, const P *p, int n)
{ typename VH<M>::V v; std::vector<int> ix; for (int i = 0; i < n; ++i) { v.push_back(addv(m, p[i])); ix.push_back(i); } return addc(m, v, &ix[0], n); }
// q is the point of conv(v_0..v_{n-1}) closest to p  <=>  q in the set and (p-q).(v_i-q) <= 0 for every i
template <typename P> static void nearest(P const &p, P const &q, const P *v, int n)
{ P d = p - q; for (int i = 0; i < n; ++i) vs_le(dot_(d, P(v[i] - q)), 0, 1e-5, "no point of the element is closer"); }
template <typename P> static void dist_ok(double d, P const &p, P const &q) { CHECK(d >= 0); EQT(d * d, dot_(P(p - q), P(p - q)), 1e-5); }

// shape parameter: arbitrary real in the thorough tier, one of three values (solver-friendly) in the quick tier
static double shape(const char *n, double lo, double hi, double a, double b, double c) { if (vs_tier()) return vs_real(n, lo, hi); if (a == b && b == c) return a; int k = vs_pick(n, 3); return k == 0 ? a : k == 1 ? b : c; }
VS_HARNESS(point_point)
{ P3 a = in3("a"), b = in3("b"); dist_ok(distance(a, b), a, b); P2 c = in2("c"), d = in2("d"); dist_ok(distance(c, d), c, d); double x = vs_real("x", -9, 9), y = vs_real("y", -9, 9); EQ(distance(P1(x), P1(y)), std::fabs(x - y)); }
VS_HARNESS(point_vertex)
{ P2 a = in2("a"), b = in2("b"); line_2d_mesh m; VH<line_2d_mesh>::H h = addv(m, b); dist_ok(distance(a, dereference_handle(m, h)), a, b); dist_ok(distance(dereference_handle(m, h), a), a, b); }
VS_HARNESS(point_line_1d)
{
  double a = vs_real("a", -5, 5), l = vs_real("l", 0.25, 4), x = vs_real("x", -12, 12); P1 p[2] = { P1(a), P1(a + l) }; if (vs_pick("rev", 2)) std::swap(p[0], p[1]);
  line_1d_mesh m; double d = distance(P1(x), dereference_handle(m, mk(m, p, 2))); EQ(d, x < a ? a - x : x > a + l ? x - a - l : 0.0);
}
template <typename M, typename P> static void point_line(P x, P a, P b)
{
  P p[2] = { a, b }; M m; typename result_of::cell<M>::type &c = dereference_handle(m, mk(m, p, 2));
  std::pair<P, P> r = closest_points(default_point_accessor(c), x, c); P q = r.second; double d = distance(x, c);
  for (int i = 0; i < P::dim; ++i) EQ(r.first[i], x[i]);
  dist_ok(d, x, q); EQ(distance(c, x), d); nearest(x, q, p, 2);
  P u = b - a, w = q - a; double t = dot_(w, u); CHECKM(t >= -1e-6, "closest point on the line segment"); CHECKM(t <= dot_(u, u) + 1e-6, "closest point on the line segment");
  double cc = dot_(u, u) * dot_(w, w) - t * t; CHECKM(cc <= 1e-5, "closest point on the line segment"); 
}
VS_HARNESS(point_line_2d) { P2 x = in2("x", 6), a = in2("a", 4), b = in2("b", 4); P2 u = b - a; vs_assume(dot_(u, u) > 0.0625); point_line<line_2d_mesh>(x, a, b); }
VS_HARNESS(point_line_3d) { P3 x = in3("x", 6), a = in3("a", 4), b = in3("b", 4); P3 u = b - a; vs_assume(dot_(u, u) > 0.0625); point_line<line_3d_mesh>(x, a, b); }

// q is in the triangle (0,0),(s,0),(u,h)
static void in_tri(double x, double y, double s, double u, double h)
{ vs_le(-y, 0, 1e-6, "closest point in the triangle"); vs_le(-(x * h - u * y), 0, 1e-6, "closest point in the triangle"); vs_le(x * h - u * y + s * y, s * h, 1e-6, "closest point in the triangle"); }
template <typename M, typename P> static P point_tri(P x, P a, P b, P c)
{
  P p[3] = { a, b, c }; int rot = vs_pick("rot", 3); std::rotate(p, p + rot, p + 3); if (vs_pick("mirror", 2)) std::swap(p[1], p[2]);
  M m; typename result_of::cell<M>::type &cl = dereference_handle(m, mk(m, p, 3));
  std::pair<P, P> r = closest_points(default_point_accessor(cl), x, cl); P q = r.second; double d = distance(x, cl);
  dist_ok(d, x, q); nearest(x, q, p, 3); return q;
}
VS_HARNESS(point_tri_2d)
{ // triangle (0,0),(s,0),(u,h) translated
  double s = shape("s", 0.25, 4, 1, 3, 1), u = shape("u", -4, 4, 0, 2, -2), h = 1; P2 o(vs_real("ox", -2, 2), 1), x = in2("x", 6); P2 a = o, b = o + P2(s, 0), c = o + P2(u, h);
  P2 q = point_tri<triangular_2d_mesh>(P2(o + x), a, b, c) - o; in_tri(q[0], q[1], s, u, h);
}
VS_HARNESS(point_tri_2d_inside)
{ // a point of the triangle has distance 0
  double s = vs_real("s", 0.25, 4), u = vs_real("u", -4, 4), h = vs_real("h", 0.25, 4); P2 o = in2("o", 4); P2 p[3] = { o, P2(o + P2(s, 0)), P2(o + P2(u, h)) }; double l = vs_real("l", 0, 1), k = vs_real("k", 0, 1); vs_assume(l + k <= 1);
  triangular_2d_mesh m; P2 x = p[0] * (1 - l - k) + p[1] * l + p[2] * k; std::pair<P2, P2> r = closest_points(default_point_accessor(m), x, dereference_handle(m, mk(m, p, 3))); EQT(r.second[0], x[0], 1e-5); EQT(r.second[1], x[1], 1e-5);
}
VS_HARNESS(point_tri_3d)
{
  double s = shape("s", 0.25, 4, 1, 3, 1), u = shape("u", -4, 4, 0, 2, -2), h = 1; int ax = vs_pick("axis", 3); P3 x = in3("x", 6); P3 e[4] = { P3(0, 0, 0), P3(s, 0, 0), P3(u, h, 0), x };
  for (int i = 0; i < 4; ++i) e[i] = P3(e[i][ax], e[i][(ax + 1) % 3], e[i][(ax + 2) % 3]);
  P3 q = point_tri<triangular_3d_mesh>(e[3], e[0], e[1], e[2]); double f[3]; for (int i = 0; i < 3; ++i) f[(ax + i) % 3] = q[i]; in_tri(f[0], f[1], s, u, h); EQ(f[2], 0.0);
}
VS_HARNESS(point_rectangle)
{
  double s = shape("s", 0.25, 4, 1, 2, 0.5), h = 1; P2 o = in2("o", 2), x = in2("x", 8); P2 p[4] = { o, o + P2(s, 0), o + P2(0, h), o + P2(s, h) };
  quadrilateral_2d_mesh m; double d = distance(P2(o + x), dereference_handle(m, mk(m, p, 4)));
  double dx = x[0] < 0 ? -x[0] : x[0] > s ? x[0] - s : 0, dy = x[1] < 0 ? -x[1] : x[1] > h ? x[1] - h : 0; EQT(d * d, dx * dx + dy * dy, 1e-5);
}
VS_HARNESS(point_tet)
{ // corner tetrahedron with arbitrary leg lengths, all orders of the vertices up to rotation
  double a = shape("a", 0.5, 2, 1, 1, 1), b = 1, c = 1; P3 x(vs_real("x", -4, 4), vs_real("y", -4, 4), shape("z", -4, 4, -0.5, 0.25, 2)); P3 p[4] = { P3(0, 0, 0), P3(a, 0, 0), P3(0, b, 0), P3(0, 0, c) }; int rot = vs_pick("rot", 4); std::rotate(p, p + rot, p + 4);
  tetrahedral_3d_mesh m; result_of::cell<tetrahedral_3d_mesh>::type &cl = dereference_handle(m, mk(m, p, 4));
  std::pair<P3, P3> r = closest_points(default_point_accessor(cl), x, cl); P3 q = r.second; dist_ok(distance(x, cl), x, q); nearest(x, q, p, 4);
  for (int i = 0; i < 3; ++i) vs_le(-q[i], 0, 1e-6, "closest point in the tetrahedron"); vs_le(q[0] / a + q[1] / b + q[2] / c, 1, 1e-6, "closest point in the tetrahedron");
}
VS_HARNESS(point_box)
{
  double a = shape("a", 0.5, 2, 1, 1, 1); P3 x(vs_real("x", -3, 5), vs_real("y", -3, 5), shape("z", -3, 5, -1, 0.75, 3)); hexahedral_3d_mesh m; P3 p[8]; for (int i = 0; i < 8; ++i) p[i] = P3(i & 1 ? a : 0, i & 2 ? 1 : 0, i & 4 ? 2 : 0);
  double d = distance(x, dereference_handle(m, mk(m, p, 8))), L[3] = { a, 1, 2 }, s = 0; for (int k = 0; k < 3; ++k) { double e = x[k] < 0 ? -x[k] : x[k] > L[k] ? x[k] - L[k] : 0; s += e * e; } EQT(d * d, s, 1e-5);
}
template <typename P> static void on_seg(P const &q, P const &a, P const &b)
{ P u = b - a, w = q - a; double t = dot_(w, u) / dot_(u, u); vs_le(-t, 0, 1e-6, "closest point on the line segment"); vs_le(t, 1, 1e-6, "closest point on the line segment"); for (int i = 0; i < P::dim; ++i) vs_eq(w[i], t * u[i], 1e-6, "closest point on the line segment"); }
// two line segments: optimality on the product set
template <typename M, typename P> static void line_line(const P *v, const P *w)
{
  M m; typename VH<M>::V h; for (int i = 0; i < 2; ++i) h.push_back(addv(m, v[i])); for (int i = 0; i < 2; ++i) h.push_back(addv(m, w[i])); int a[2] = { 0, 1 }, b[2] = { 2, 3 };
  typename result_of::cell_handle<M>::type h0 = addc(m, h, a, 2), h1 = addc(m, h, b, 2); typename result_of::cell<M>::type &c0 = dereference_handle(m, h0), &c1 = dereference_handle(m, h1);
  double d = distance(c0, c1); CHECK(d >= 0); std::pair<P, P> r = closest_points(default_point_accessor(m), c0, c1); 
  // the order of the pair is unspecified; the first segment lies on the x axis
  double off = 0; for (int i = 1; i < P::dim; ++i) off += std::fabs(r.first[i]); if (off > 1e-9 || r.first[0] < -1e-9 || r.first[0] > v[1][0] + 1e-9) std::swap(r.first, r.second);
  on_seg(r.first, v[0], v[1]); on_seg(r.second, w[0], w[1]); P g = r.first - r.second; EQT(d * d, dot_(g, g), 1e-5);
  double t = vs_real("t", 0, 1), s = vs_real("s", 0, 1); P y = v[0] * (1 - t) + v[1] * t, z = w[0] * (1 - s) + w[1] * s; P e = y - z;
  vs_le(d * d, dot_(e, e), 1e-5, "no pair of points is closer");
}
VS_HARNESS(line_line_2d)
{ // first segment on the x axis, second arbitrary direction
  double l = vs_real("l", 0.5, 3); int k = vs_pick("dir", 5); static const int D[5][2] = { { 0, 1 }, { 1, 1 }, { 1, 0 }, { -1, 2 }, { -1, 0 } }; double q = shape("q", 0.5, 2, 1, 2, 0.5); P2 o = in2("o", 4);
  P2 v[2] = { P2(0, 0), P2(l, 0) }, w[2] = { o, P2(o + P2(q * D[k][0], q * D[k][1])) }; line_line<line_2d_mesh>(v, w);
}
VS_HARNESS(line_line_3d)
{
  double l = vs_real("l", 0.5, 3); int k = vs_pick("dir", 4); static const int D[4][3] = { { 0, 1, 0 }, { 1, 1, 0 }, { 1, 0, 0 }, { -1, 1, 1 } }; P3 o = in3("o", 4);
  P3 v[2] = { P3(0, 0, 0), P3(l, 0, 0) }, w[2] = { o, P3(o + P3(D[k][0], D[k][1], D[k][2])) }; line_line<line_3d_mesh>(v, w);
}
// distance to the boundary of a mesh: two triangles forming the unit square; the diagonal is not part of the boundary
VS_HARNESS(boundary_mesh)
{
  typedef triangular_2d_mesh M; M m; VH<M>::V v; double l = vs_real("l", 0.5, 3); P2 p[4] = { P2(0, 0), P2(l, 0), P2(0, 1), P2(l, 1) }; for (int i = 0; i < 4; ++i) v.push_back(addv(m, p[i]));
  int t0[3] = { 0, 1, 2 }, t1[3] = { 1, 3, 2 }; result_of::segmentation<M>::type sg(m); typedef result_of::segment_handle<result_of::segmentation<M>::type>::type SH; SH s0 = sg.make_segment(), s1 = sg.make_segment();
  viennagrid::add(s0, dereference_handle(m, addc(m, v, t0, 3))); viennagrid::add(s1, dereference_handle(m, addc(m, v, t1, 3)));
  double x = vs_real("x", -1, 4), y = vs_real("y", -1, 2); vs_assume(x > 0 && x < l && y > 0 && y < 1);
  double d = boundary_distance(P2(x, y), m), e = std::min(std::min(x, l - x), std::min(y, 1 - y)); EQT(d, e, 1e-6);
  double c = (x + y * l - l), dg = c * c / (1 + l * l); // squared distance to the diagonal's line
  double ds = boundary_distance(P2(x, y), s0); if (x + y * l < l) { double f = std::min(x, y); EQT(ds * ds, f * f < dg ? f * f : dg, 1e-5); }
}
