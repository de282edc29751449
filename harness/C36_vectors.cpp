//@ reach: intproject algebra compound cross length narrow_length normalized zero projected reflected angle parallel antiparallel orthogonal quaternion level inverted
//@ bounds: algebra over every 16-bit component in 32-bit vectors and every float with two free components; lengths of every combination of 6 components in each of 5 types; normalization, projection, reflection and angles over a grid of float vectors and scales that includes parallel, opposed and orthogonal pairs; orientation over every grid direction; projections of integer vectors of three types over a grid of components
//@ outside: components whose squares overflow a double or vanish in one; vectors that are not finite; length_squared() and the product of narrow types (they have the type of the components)
#include "sx.h"
#include "rt_common.h"
#include <math.h>
#include "Vector3.h"
#include "Quaternion.h"
static bool near(double a, double b, double tol) { double d = a - b; return d <= tol && -d <= tol; }
template <class T> static void lengths(const T* v, int n) { int i = sx_choose(n, "x"), j = sx_choose(n, "y"), k = sx_choose(n, "z"); Vector3<T> a(v[i], v[j], v[k]); double s = (double) v[i] * v[i] + (double) v[j] * v[j] + (double) v[k] * v[k]; float l = a.length(); sx_assert(near((double) l * l, s, s * 1e-6), "the square of the length is the sum of the squares"); sx_reach("length"); if (sizeof(T) < 4 && s > 127 * 127) sx_reach("narrow_length"); }
// The projection of an integer vector is the quotient of exact products, by component. What is mirrored about an axis is twice that, less the vector.
template <class T> static void iproj() { static const int C[] = {0, 3, -4, 7, 1}; int u = sizeof(T) > 0 && T(-1) > T(0) ? 1 : 0; T a[3], n[3]; for (int i = 0; i < 3; i++) { int v = C[sx_choose(i == 2 ? 3 : 4, "a")]; a[i] = (T) (u && v < 0 ? -v : v); } int an[3] = {0, 0, 0}; int ax = sx_choose(3, "axis"), sh = sx_choose(3, "shape"); an[ax] = u ? 2 : -2; if (sh) an[(ax + 1) % 3] = sh; for (int i = 0; i < 3; i++) n[i] = (T) an[i];
  Vector3<T> v(a[0], a[1], a[2]), w(n[0], n[1], n[2]), p = v.projected(w), q(v), r(v); q.project(w); r.reflect(w); long vv = 0, av = 0; for (int i = 0; i < 3; i++) { vv += (long) n[i] * n[i]; av += (long) a[i] * n[i]; }
  const T* P[3] = {&p.x, &p.y, &p.z}; const T* R[3] = {&r.x, &r.y, &r.z}; for (int i = 0; i < 3; i++) { long e = (long) n[i] * av; long d = (long) *P[i] * vv - e; sx_assert(d < vv && -d < vv, "a projection of integers is that of the mathematics, to within rounding"); sx_assert((T) (*P[i] * 2 - a[i]) == *R[i], "a reflection mirrors about its axis"); } sx_assert(p == q, "both ways of projection agree"); sx_reach("intproject"); }
static const float G[5] = {0.0f, 1.0f, -1.0f, 0.1f, -3.5f};
static Vector3f grid(const char* n) { Vector3f v; int i = sx_choose(27, n); static const float S[3] = {0.0f, 0.3f, -1.7f}; v(S[i % 3], S[(i / 3) % 3], S[i / 9]); return v; }
int sx_main() {
  switch (sx_choose(7, "part")) {
    case 6: switch (sx_choose(3, "type")) { case 0: iproj<int32_t>(); break; case 1: iproj<int16_t>(); break; default: iproj<uint32_t>(); break; } break;
    case 0: { int32_t c[6]; for (int i = 0; i < 6; i++) c[i] = (int16_t) sx_u16("c"); int16_t m = (int16_t) sx_u16("m"); Vector3i32 a(c[0], c[1], c[2]), b(c[3], c[4], c[5]), z, cp(&a); a(c[0], c[1], c[2]);
      Vector3i32 s = a + b, d = a - b, n = -a, u = a * (int32_t) m, x = a % b; sx_assert(s.x == c[0] + c[3] && s.y == c[1] + c[4] && s.z == c[2] + c[5], "addition is by component"); sx_assert(d.x == c[0] - c[3] && d.y == c[1] - c[4] && d.z == c[2] - c[5], "subtraction is by component"); sx_assert(n.x == -c[0] && n.y == -c[1] && n.z == -c[2], "negation is by component"); sx_assert(u.x == c[0] * m && u.y == c[1] * m && u.z == c[2] * m, "scaling is by component");
      sx_assert(cp.x == c[0] && cp.y == c[1] && cp.z == c[2] && z.x == 0 && z.y == 0 && z.z == 0, "a vector is as constructed"); sx_assert((a == b) == (c[0] == c[3] && c[1] == c[4] && c[2] == c[5]) && (a != b) == !(a == b), "vectors are equal when their components are"); sx_reach("algebra");
      Vector3i32 t(a); t += b; sx_assert(t == s, "addition in place"); t = a; t -= b; sx_assert(t == d, "subtraction in place"); t = a; t *= m; sx_assert(t == u, "scaling in place"); t.set(&b); sx_assert(t == b, "a vector can be set"); t.set(1, 2, 3); sx_assert(t.x == 1 && t.y == 2 && t.z == 3, "a vector can be set"); sx_reach("compound"); (void) x; 
    } break;
    case 1: { int32_t c[6]; for (int i = 0; i < 6; i++) c[i] = (int8_t) sx_u8("c"); Vector3i32 a(c[0], c[1], c[2]), b(c[3], c[4], c[5]), x = a % b; sx_assert(x.x == c[1] * c[5] - c[2] * c[4] && x.y == c[2] * c[3] - c[0] * c[5] && x.z == c[0] * c[4] - c[1] * c[3], "the cross product follows the right hand"); sx_assert(a * b == c[0] * c[3] + c[1] * c[4] + c[2] * c[5], "the dot product is the sum of the products"); sx_assert(a.length_squared() == c[0] * c[0] + c[1] * c[1] + c[2] * c[2], "the length squared is the dot product with itself"); int q = 1 + sx_choose(5, "by"); Vector3i32 dv = a / q; sx_assert(dv.x == c[0] / q && dv.y == c[1] / q && dv.z == c[2] / q, "division is by component"); sx_reach("cross"); } break;
    case 2: switch (sx_choose(6, "type")) {
      case 0: { static const int8_t v[] = {0, 3, -4, 100, 127, -128}; lengths(v, 6); } break; case 1: { static const int16_t v[] = {0, 3, -4, 300, 32767, -32768}; lengths(v, 6); } break; case 2: { static const int32_t v[] = {0, 3, -4, 46341, 1000000, -2147483647}; lengths(v, 6); } break; case 3: { static const float v[] = {0, 3, -4, 0.5f, 1e-3f, 1e6f}; lengths(v, 6); } break; case 4: { static const double v[] = {0, 3, -4, 0.5, 1e-3, 1e6}; lengths(v, 6); } break; default: { static const uint8_t v[] = {0, 3, 4, 100, 200, 255}; lengths(v, 6); } break; } break;
    case 3: { Vector3f a = grid("a"), o(a); static const float K[3] = {1.0f, 1000.0f, 0.004f}; a *= K[sx_choose(3, "k")]; o = a; float l = a.length(); Vector3f b(a), c(a); a.normalize(); b.normalize(l); if (o.x == 0 && o.y == 0 && o.z == 0) { sx_assert(a == o && b == o, "the null vector stays as it is"); sx_reach("zero"); break; } c = o.normalized(); const Vector3f* w[3] = {&a, &b, &c}; for (int i = 0; i < 3; i++) { sx_assert(near(w[i]->length(), 1.0, 1e-5), "a normalized vector has unit length"); sx_assert(near(w[i]->x * l, o.x, l * 1e-5) && near(w[i]->y * l, o.y, l * 1e-5) && near(w[i]->z * l, o.z, l * 1e-5), "normalization keeps the direction"); } sx_reach("normalized"); } break;
    case 4: { Vector3f a = grid("a"), n = grid("n"); if (n.x == 0 && n.y == 0 && n.z == 0) break; Vector3f p = a.projected(n), r(a), pr(a); pr.project(n); sx_assert(near(p.x, pr.x, 1e-5) && near(p.y, pr.y, 1e-5) && near(p.z, pr.z, 1e-5), "both ways of projection agree"); Vector3f x = p % n; sx_assert(near(x.length(), 0, 1e-4), "a projection is along its axis"); Vector3f rest = a - p; sx_assert(near(rest * n, 0, 1e-4), "what a projection leaves is orthogonal to the axis"); sx_reach("projected"); r.reflect(n); Vector3f sum = r + a; sx_assert(near(sum.x, 2 * p.x, 1e-4) && near(sum.y, 2 * p.y, 1e-4) && near(sum.z, 2 * p.z, 1e-4), "a reflection mirrors about its axis"); sx_reach("reflected");
      double la = sqrt((double) a.x * a.x + (double) a.y * a.y + (double) a.z * a.z), ln = sqrt((double) n.x * n.x + (double) n.y * n.y + (double) n.z * n.z); float ang = Vector3f::angle(a, n); if (la == 0) { sx_assert(ang == 0.0f, "the null vector has no angle"); break; } double cs = ((double) a.x * n.x + (double) a.y * n.y + (double) a.z * n.z) / (la * ln); sx_assert(ang == ang && ang >= 0.0f && ang <= 3.1416f, "an angle lies between none and a half turn"); sx_assert(near(cos((double) ang), cs, 1e-4), "the cosine of the angle is that of the vectors"); sx_reach("angle"); if (cs > 0.99999) sx_reach("parallel"); if (cs < -0.99999) sx_reach("antiparallel"); if (near(cs, 0, 1e-6)) sx_reach("orthogonal");
      a.normalize(); n.normalize(); float an = Vector3f::angle_normalized(a, n); sx_assert(an == an && near(cos((double) an), cs, 1e-4), "the cosine of the angle is that of the vectors"); } break;
    default: { if (sx_choose(2, "set")) { Quaternion q(0, 0, 0, 0), i; sx_assert(i.x == 0 && i.y == 0 && i.z == 0 && i.w == 1, "a quaternion is no rotation until it is set"); static const float S[4] = {0.0f, 0.5f, -2.0f, 30.0f}; float c[4]; double s = 0; for (int k = 0; k < 4; k++) { c[k] = S[sx_choose(4, "c")]; s += (double) c[k] * c[k]; } q.set(c[0], c[1], c[2], c[3]); if (s == 0) break; q.normalize(); double l = sqrt(s); sx_assert(near(q.x * l, c[0], 1e-4) && near(q.y * l, c[1], 1e-4) && near(q.z * l, c[2], 1e-4) && near(q.w * l, c[3], 1e-4), "a normalized quaternion is the same rotation, of unit length"); sx_reach("quaternion"); break; }
      Vector3f n = grid("down"); if (n.x == 0 && n.y == 0 && n.z == 0) break; n.normalize(); Quaternion q; q.setDown(n.x, n.y, n.z); double l2 = (double) q.x * q.x + (double) q.y * q.y + (double) q.z * q.z + (double) q.w * q.w; sx_assert(near(l2, 1.0, 1e-4), "an orientation is a rotation");
      double up[3] = {2 * ((double) q.x * q.z + (double) q.w * q.y), 2 * ((double) q.y * q.z - (double) q.w * q.x), 1 - 2 * ((double) q.x * q.x + (double) q.y * q.y)}; if (n.x == 0 && n.y == 0) sx_reach(n.z > 0 ? "level" : "inverted"); sx_assert(near(up[2], n.z, 1e-4), "an orientation tilts by the angle of the direction"); bool fwd = near(up[0], n.x, 1e-3) && near(up[1], n.y, 1e-3), bwd = near(up[0], -n.x, 1e-3) && near(up[1], -n.y, 1e-3); sx_assert(fwd || bwd, "an orientation turns the vertical into the direction"); } break;
  }
  return 0;
}
