// Angles, solid angles, dihedral angles.
// BOUND: all vectors with arbitrary coordinates in [-10,10] (nonzero), vertex/origin variants with arbitrary origins
#include "common.hpp"
#include "viennagrid/algorithm/angle.hpp"
using namespace viennagrid;
static const double PI = 3.14159265358979323846;
template <typename P> static void plain(P a, P b)
{
  double na = dot_(a, a), nb = dot_(b, b); vs_assume(na > 0.01); vs_assume(nb > 0.01);
  double t = angle(a, b); CHECK(t >= -1e-9); CHECK(t <= PI + 1e-9);
  // cos(t) |a| |b| = a.b   (t in [0,pi] makes it unique)
  EQT(std::cos(t) * std::sqrt(na) * std::sqrt(nb), dot_(a, b), 1e-5);
  EQ(angle(b, a), t);
}
VS_HARNESS(angle_2d) { P2 a = in2("a"), b = in2("b"); plain(a, b); }
VS_HARNESS(angle_3d) { P3 a = in3("a"), b = in3("b"); plain(a, b); }
VS_HARNESS(angle_1d)
{ double x = vs_real("x", -10, 10), y = vs_real("y", -10, 10); vs_assume(x > 0.01 || x < -0.01); vs_assume(y > 0.01 || y < -0.01);
  double t = angle(P1(x), P1(y)); bool same = (x > 0) == (y > 0); EQ(t, same ? 0.0 : PI); }
VS_HARNESS(angle_parallel)
{ // parallel and antiparallel vectors of any length: exactly 0 and pi, never NaN
  vs_option("strict_fp", 1); double x = vs_real("x", 0.25, 4), y = vs_real("y", 0.25, 4), s = vs_real("s", 0.25, 4); P2 a(x, y);
  EQ(angle(a, P2(s * x, s * y)), 0.0); EQ(angle(a, P2(-s * x, -s * y)), PI); EQ(angle(a, P2(-s * y, s * x)), PI / 2);
}
VS_HARNESS(angle_origin) // one leg along an axis, of any length; vertex anywhere
{ P3 o = in3("o"), u = in3("u"); double r = vs_real("r", 0.25, 4); vs_assume(dot_(u, u) > 0.01); int ax = vs_pick("axis", 3); P3 v(0, 0, 0); v[ax] = r;
  double t = angle(P3(o + u), P3(o + v), o); EQT(std::cos(t) * std::sqrt(dot_(u, u)), u[ax], 1e-5); EQ(angle(P3(o + v), P3(o + u), o), t); }
VS_HARNESS(angle_origin_2d)
{ P2 o = in2("o"), u = in2("u"); double r = vs_real("r", 0.25, 4); vs_assume(dot_(u, u) > 0.01); int ax = vs_pick("axis", 2); P2 v(0, 0); v[ax] = r;
  double t = angle(P2(o + u), P2(o + v), o); EQT(std::cos(t) * std::sqrt(dot_(u, u)), u[ax], 1e-5); }
// tan(solid/2) = det / (|a||b||c| + (a.b)|c| + (a.c)|b| + (b.c)|a|)
static void solid_case(P3 a, P3 b, P3 c, int part = 0) // part 1: angle below pi, 2: beyond
{
  double d = det_(a, b, c), al = std::sqrt(dot_(a, a)), bl = std::sqrt(dot_(b, b)), cl = std::sqrt(dot_(c, c));
  double den = al * bl * cl + dot_(a, b) * cl + dot_(a, c) * bl + dot_(b, c) * al;
  if (part == 1) vs_assume(den > 0.01); if (part == 2) vs_assume(den < -0.01);
  double s = solid_angle(a, b, c), r = std::atan2(d, den); EQT(s, 2 * (d < 0 ? -r : r), 1e-6); CHECK(s >= 0); CHECK(s <= 2 * PI + 1e-9);
}
VS_HARNESS(solid)
{ // up to rotation; the roles of the axes and of the arguments are permuted
  double x = vs_real("x", 0.25, 4), y = vs_real("y", 0.25, 4), z = vs_real("z", 0.25, 4), u = vs_real("u", -4, 4), v = vs_real("v", -4, 4), w = vs_real("w", -4, 4);
  int ax = vs_pick("axis", 3), role = vs_pick("role", 6); P3 e[3] = { P3(x, 0, 0), P3(u, y, 0), P3(v, w, z) };
  for (int i = 0; i < 3; ++i) e[i] = P3(e[i][ax], e[i][(ax + 1) % 3], e[i][(ax + 2) % 3]);
  static const int R[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  solid_case(e[R[role][0]], e[R[role][1]], e[R[role][2]]);
}
// a symmetric trihedron that opens downwards: smaller and larger than a hemisphere's half
VS_HARNESS(solid_symmetric)
{ double r = vs_real("r", 0.25, 4), h = vs_real("h", 0.0625, 2); int up = vs_pick("up", 2), wide = vs_pick("wide", 2), role = vs_pick("role", 2); P3 a(r, 0, up ? h : -h), b(0, r, up ? h : -h), c(-r, -r, up ? h : -h); if (role) std::swap(a, c); solid_case(a, b, c, wide + 1); }
VS_HARNESS(solid_wide)
{ double x = vs_real("x", 0.25, 4), z = vs_real("z", 0.0625, 1); int ax = vs_pick("axis", 3), role = vs_pick("role", 3); P3 e[3] = { P3(x, 0, 0), P3(-x, x, 0), P3(-x, -x, z) }; for (int i = 0; i < 3; ++i) e[i] = P3(e[i][ax], e[i][(ax + 1) % 3], e[i][(ax + 2) % 3]); solid_case(e[role], e[(role + 1) % 3], e[(role + 2) % 3], 1 + vs_pick("wide", 2)); }
VS_HARNESS(solid_octants)
{ // axis-aligned trihedra subtend an eighth of the sphere, whatever the edge lengths and the apex
  double x = vs_real("x", 0.25, 4), y = vs_real("y", 0.25, 4), z = vs_real("z", 0.25, 4); P3 o = in3("o"); int sg = vs_pick("octant", 8);
  P3 a(sg & 1 ? -x : x, 0, 0), b(0, sg & 2 ? -y : y, 0), c(0, 0, sg & 4 ? -z : z);
  EQ(solid_angle(a, b, c), PI / 2); EQ(solid_angle(P3(o + a), P3(o + b), P3(o + c), o), PI / 2);
}
VS_HARNESS(solid_origin)
{ P3 u = in3("u", 4), v = in3("v", 4), w(0, 0, 2), o = in3("o"); vs_assume(dot_(u, u) > 0.01); vs_assume(dot_(v, v) > 0.01); vs_assume(det_(u, v, w) > 0.0625);
  EQ(solid_angle(P3(u + o), P3(v + o), P3(w + o), o), solid_angle(u, v, w)); }
VS_HARNESS(dihedral)
{ // hinge along the x axis, two half-planes at arbitrary position; any translation
  P3 o = in3("o", 4), q = in3("q", 4); double a = vs_real("a", 0.25, 4), b = vs_real("b", 0.25, 4), y = vs_real("y", -4, 4), z = vs_real("z", -4, 4), s = vs_real("s", -2, 2), t = vs_real("t", -2, 2);
  vs_assume(y * y + z * z > 0.01);
  // normals: (0,0,a*b) and (0,-a*z,a*y)
  double f = dihedral_angle(o, P3(o + P3(a, 0, 0)), P3(o + P3(s, b, 0)), q, P3(q + P3(a, 0, 0)), P3(q + P3(t, y, z)));
  CHECK(f >= -1e-9); CHECK(f <= PI + 1e-9); EQT(std::cos(f) * std::sqrt(y * y + z * z), y, 1e-5);
}
