// Points are vectors: arithmetic, coordinate systems, norms, inner/cross products, ordering.
// BOUND: all coordinates arbitrary reals in [-10,10] (radii in [0,10], angles arbitrary reals), scale factors in [-4,4]; dimensions 1, 2 and 3
#include "vs.h"
#include <cmath>
#include "viennagrid/forwards.hpp"
#include "viennagrid/point.hpp"
#include "viennagrid/algorithm/norm.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/cross_prod.hpp"
using namespace viennagrid;
typedef spatial_point<double, cartesian_cs<1> > P1;
typedef spatial_point<double, cartesian_cs<2> > P2;
typedef spatial_point<double, cartesian_cs<3> > P3;
typedef spatial_point<double, polar_cs> PP;
typedef spatial_point<double, spherical_cs> PS;
typedef spatial_point<double, cylindrical_cs> PC;

static P2 in2(const char *n) { double x = vs_real(n, -10, 10), y = vs_real(n, -10, 10); return P2(x, y); }
static P3 in3(const char *n) { double x = vs_real(n, -10, 10), y = vs_real(n, -10, 10), z = vs_real(n, -10, 10); return P3(x, y, z); }

template <typename P> static void vector_space(P a, P b, double s)
{
  P sum = a + b, dif = a - b, neg = -a, sc = a * s, sl = s * a;
  P ia = a; ia += b; P id = a; id -= b; P is = a; is *= s;
  for (int i = 0; i < P::dim; ++i)
  {
    EQ(sum[i], a[i] + b[i]); EQ(dif[i], a[i] - b[i]); EQ(neg[i], -a[i]); EQ(sc[i], a[i] * s); EQ(sl[i], a[i] * s);
    EQ(ia[i], a[i] + b[i]); EQ(id[i], a[i] - b[i]); EQ(is[i], a[i] * s);
  }
  if (s > 0.125)
  {
    P q = a / s; P iq = a; iq /= s;
    for (int i = 0; i < P::dim; ++i) { EQ(q[i] * s, a[i]); EQ(iq[i] * s, a[i]); }
  }
  P mn = min(a, b), mx = max(a, b);
  for (int i = 0; i < P::dim; ++i) { CHECK(mn[i] <= a[i]); CHECK(mn[i] <= b[i]); CHECK(mx[i] >= a[i]); CHECK(mx[i] >= b[i]); EQ(mn[i] + mx[i], a[i] + b[i]); }
}
VS_HARNESS(cartesian_1d) { double x = vs_real("a", -10, 10), y = vs_real("b", -10, 10); vector_space(P1(x), P1(y), vs_real("s", -4, 4)); }
VS_HARNESS(cartesian_2d) { P2 a = in2("a"), b = in2("b"); vector_space(a, b, vs_real("s", -4, 4)); }
VS_HARNESS(cartesian_3d) { P3 a = in3("a"), b = in3("b"); vector_space(a, b, vs_real("s", -4, 4)); }

template <typename P> static void products(P a, P b)
{
  double ip = 0, na = 0, n1 = 0;
  for (int i = 0; i < P::dim; ++i) { ip += a[i] * b[i]; na += a[i] * a[i]; n1 += std::fabs(a[i]); }
  EQ(inner_prod(a, b), ip);
  double n2 = norm_2(a);
  CHECK(n2 >= 0); EQ(n2 * n2, na);
  EQ(norm_1(a), n1); EQ(norm(a, two_norm_tag()), n2); EQ(norm(a), n2); EQ(norm(a, one_norm_tag()), n1);
  double ni = norm_inf(a); bool attained = false;
  for (int i = 0; i < P::dim; ++i) { CHECK(std::fabs(a[i]) <= ni); if (std::fabs(a[i]) == ni) attained = true; }
  CHECK(attained);
}
VS_HARNESS(products_2d) { P2 a = in2("a"), b = in2("b"); products(a, b); }
VS_HARNESS(products_3d) { P3 a = in3("a"), b = in3("b"); products(a, b);
  P3 c = cross_prod(a, b); EQ(inner_prod(c, a), 0.0); EQ(inner_prod(c, b), 0.0);
  EQ(c[0], a[1] * b[2] - a[2] * b[1]); EQ(c[1], a[2] * b[0] - a[0] * b[2]); EQ(c[2], a[0] * b[1] - a[1] * b[0]); }

VS_HARNESS(ordering_3d)
{
  P3 a = in3("a"), b = in3("b"), c = in3("c"); point_less lt;
  bool ab = lt(a, b), ba = lt(b, a), bc = lt(b, c), ac = lt(a, c);
  CHECK(!(ab && ba)); CHECK(!lt(a, a)); CHECK(!(ab && bc) || ac);
  CHECK(ab || ba || (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]));
}
VS_HARNESS(polar_roundtrip)
{
  P2 a = in2("a"); PP p = a; P2 r = p; CHECK(p[0] >= 0); EQ(p[0] * p[0], a[0] * a[0] + a[1] * a[1]); EQ(r[0], a[0]); EQ(r[1], a[1]);
}
VS_HARNESS(cylindrical_roundtrip) { P3 a = in3("a"); PC p = a; P3 r = p; for (int i = 0; i < 3; ++i) EQ(r[i], a[i]); EQ(p[0] * p[0], a[0] * a[0] + a[1] * a[1]); EQ(p[2], a[2]); }
VS_HARNESS(spherical_roundtrip) { P3 a = in3("a"); PS p = a; P3 r = p; for (int i = 0; i < 3; ++i) EQ(r[i], a[i]); EQ(p[0] * p[0], a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
VS_HARNESS(sph_cyl_agree)
{ // converting spherical -> cylindrical -> cartesian is the same as spherical -> cartesian
  PS p(vs_real("r", 0, 10), vs_real("theta", 0, 3), vs_real("phi", -3, 3)); PC c = p; P3 x = c, y = p; for (int i = 0; i < 3; ++i) EQ(x[i], y[i]);
  PC d(vs_real("rho", 0, 10), vs_real("phi", -3, 3), vs_real("z", -10, 10)); PS s = d; P3 u = d, v = s; for (int i = 0; i < 3; ++i) EQ(u[i], v[i]);
}
template <typename P, typename C> static void curvi(P p, P q, double s)
{ // arithmetic of curvilinear points is the arithmetic of the positions they denote
  C a = p, b = q;
  switch (vs_pick("op", 5)) // keep the paths of the five operations apart
  {
    case 0: { vs_assume(a[0] + b[0] > 0.125); vs_assume(a[1] + b[1] > 0.125); C sum = P(p + q); for (int i = 0; i < C::dim; ++i) EQ(sum[i], a[i] + b[i]); break; }
    case 1: { vs_assume(a[0] - b[0] > 0.125); vs_assume(a[1] - b[1] > 0.125); C dif = P(p - q); for (int i = 0; i < C::dim; ++i) EQ(dif[i], a[i] - b[i]); break; }
    case 2: { vs_assume(a[0] + b[0] > 0.125); vs_assume(a[1] + b[1] < -0.125); P ip = p; ip += q; C isum = ip; for (int i = 0; i < C::dim; ++i) EQ(isum[i], a[i] + b[i]); break; }
    case 3: { vs_assume(a[0] - b[0] > 0.125); vs_assume(a[1] - b[1] < -0.125); P idp = p; idp -= q; C idif = idp; for (int i = 0; i < C::dim; ++i) EQ(idif[i], a[i] - b[i]); break; }
    default: { EQ(inner_prod(p, q), inner_prod(a, b)); vs_assume(s > 0.125); vs_assume(a[0] > 0.125); vs_assume(a[1] > 0.125); C sc = P(p * s), sd = P(p / s); for (int i = 0; i < C::dim; ++i) { EQ(sc[i], a[i] * s); EQ(sd[i] * s, a[i]); } }
  }
}
// BOUND: curvilinear sums and differences: results at least 0.125 away from the coordinate planes x=0 and y=0; the second operand has a fixed direction
VS_HARNESS(polar_arith) { PP p(vs_real("r", 0, 10), vs_real("phi", -3, 3)), q(vs_real("q", 0, 10), 0.5); curvi<PP, P2>(p, q, vs_real("s", -4, 4)); }
VS_HARNESS(cyl_arith) { PC p(vs_real("r", 0, 10), vs_real("phi", -3, 3), vs_real("z", -10, 10)), q(vs_real("q", 0, 10), 2.5, vs_real("qz", -10, 10)); curvi<PC, P3>(p, q, vs_real("s", -4, 4)); }
// BOUND: spherical sums and differences: one operand arbitrary in the half plane phi=0, the other arbitrary on the y axis
VS_HARNESS(sph_arith)
{
  PS p(vs_real("r", 1, 10), vs_real("th", 0, 3), 0.0), q(vs_real("q", 1, 10), 1.5707963267948966, 1.5707963267948966); double s = vs_real("s", -4, 4);
  P3 a = p, b = q; vs_assume(a[0] > 0.125);
  switch (vs_pick("op", 5))
  {
    case 0: { P3 x = PS(p + q); for (int i = 0; i < 3; ++i) EQ(x[i], a[i] + b[i]); break; }
    case 1: { P3 x = PS(p - q); for (int i = 0; i < 3; ++i) EQ(x[i], a[i] - b[i]); break; }
    case 2: { PS t = p; t += q; P3 x = t; for (int i = 0; i < 3; ++i) EQ(x[i], a[i] + b[i]); break; }
    case 3: { PS t = p; t -= q; P3 x = t; for (int i = 0; i < 3; ++i) EQ(x[i], a[i] - b[i]); break; }
    default: { PS u(vs_real("ur", 1, 10), vs_real("uth", 0, 3), vs_real("uphi", -3, 3)); P3 c = u; EQ(inner_prod(u, p), inner_prod(c, a)); EQ(norm_2(u), norm_2(c)); P3 x = PS(u * s); for (int i = 0; i < 3; ++i) EQ(x[i], c[i] * s); }
  }
}
