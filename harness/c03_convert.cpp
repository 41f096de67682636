// C03: conversions between native numbers, doubles, text and exact numbers.
#include <cmath>
#include <limits>
#include "big.h"
#include "walnut/convex_polygon.h"
#include "walnut/double.h"
#include "walnut/double_point3.h"
#include "walnut/half_space2.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point3.h"
#include "walnut/plucker_line.h"
#include "walnut/point3.h"
using namespace orc;
using namespace walnut;
using mc::Explorer;
using Q = boost::multiprecision::cpp_rational;

static Q ExactL(long double d) {
  int e;
  long double m = std::frexp(d, &e);
  Z n = 0;
  bool neg = m < 0;
  if (neg) m = -m;
  uint64_t mant = static_cast<uint64_t>(std::ldexp(m, 64));
  n = Z(mant);
  e -= 64;
  if (neg) n = -n;
  return e >= 0 ? Q(Z(n * Pow2(e))) : Q(n, Pow2(-e));
}
// r is q exactly, or one of the two floating point neighbours of q.
template <class F> static bool Faithful(F r, const Q& q) {
  if (r != r) return false;
  const F inf = std::numeric_limits<F>::infinity(), mx = std::numeric_limits<F>::max();
  if (r == inf) return q > ExactL(mx);
  if (r == -inf) return q < ExactL(-mx);
  if (ExactL(r) == q) return true;
  // |r - q| < one unit in the last place of q's binade, and q must not be a
  // representable number itself.
  Q m = q < 0 ? Q(-q) : q, err = ExactL(r) - q;
  if (err < 0) err = -err;
  if (m == 0) return false;
  int e = static_cast<int>(boost::multiprecision::msb(numerator(m) == 0 ? Z(1) : Z(numerator(m)))) - static_cast<int>(boost::multiprecision::msb(Z(denominator(m))));
  auto p2 = [](int k) { return k >= 0 ? Q(Pow2(k)) : Q(Z(1), Pow2(-k)); };
  if (p2(e) > m) --e;
  int ue = e - std::numeric_limits<F>::digits + 1;
  const int min_ue = std::numeric_limits<F>::min_exponent - std::numeric_limits<F>::digits;
  if (ue < min_ue) ue = min_ue;
  Q ulp = p2(ue);
  if (!(err < ulp)) return false;
  if (e <= std::numeric_limits<F>::max_exponent - 1) {
    Q units = m / ulp;
    if (denominator(units) == 1) return false;
  }
  return true;
}
static std::string Dec(const Z& z) { std::ostringstream o; o << z; return o.str(); }
static std::vector<std::string> Numbers(const std::string& s) {
  std::vector<std::string> r;
  std::string cur;
  for (size_t i = 0; i <= s.size(); ++i) {
    char c = i < s.size() ? s[i] : ' ';
    if (isdigit(c) || (c == '-' && i + 1 < s.size() && isdigit(s[i + 1]))) cur += c;
    else { if (!cur.empty()) r.push_back(cur); cur.clear(); }
  }
  return r;
}
template <class T> static std::vector<std::string> Printed(const T& t) { std::ostringstream o; o << t; return Numbers(o.str()); }

static void CheckInt(const Z& z) {
  BigInt v = ToB(z);
  double d = static_cast<double>(v);
  MC_CHECK(Faithful(d, Q(z))) << "double of " << Hex(z) << " is " << std::hexfloat << d;
  long double l = static_cast<long double>(v);
  MC_CHECK(Faithful(l, Q(z))) << "long double of " << Hex(z) << " is " << std::hexfloat << l;
  std::ostringstream o;
  o << v;
  MC_CHECK(o.str() == Dec(z)) << "printed " << o.str();
}

void Explore(Explorer& ex) {
  ex.Section("native_integers");
  for (int s : {-1, 1}) for (int bit = 0; bit < 64; ++bit) for (int k = -2; k <= 2; ++k) {
    Z z = Pow2(bit) * s + k;
    if (z < -Pow2(63) || z >= Pow2(64)) continue;
    ex.Case([&] { return Dec(z); }, [&] {
      ex.Op(6); ex.State(HashZ(z));
      if (z >= INT32_MIN && z <= INT32_MAX) {
        CheckValue(BigInt(static_cast<int32_t>(z)), z, "int"); CheckValue(BigInt(static_cast<int>(z)), z, "int");
        MC_CHECK(BigInt(static_cast<int>(z)).ToInt() == static_cast<int>(z));
      }
      if (z < Pow2(63)) { CheckValue(BigInt(static_cast<int64_t>(z)), z, "int64"); BigInt t = ToB(Pow2(150)); t = static_cast<int64_t>(z); CheckValue(t, z, "= int64");
        Vector3 v(static_cast<int64_t>(z), static_cast<int64_t>(0), static_cast<int64_t>(z)); CheckValue(v.x(), z, "Vector3 x"); CheckValue(v.y(), 0, "Vector3 y"); CheckValue(v.z(), z, "Vector3 z");
        HomoPoint3 h(static_cast<int64_t>(1), static_cast<int64_t>(z), static_cast<int64_t>(2), static_cast<int64_t>(z)); CheckValue(h.y(), z, "HomoPoint3 y"); CheckValue(h.w(), z, "HomoPoint3 w");
      }
      if (z >= 0 && z < Pow2(32)) MC_CHECK(ToZ(BigUInt(static_cast<uint32_t>(z))) == z);
      if (z >= 0) { MC_CHECK(ToZ(BigUInt(static_cast<uint64_t>(z))) == z); CheckValue(BigInt(BigUInt(static_cast<uint64_t>(z))), z, "uint64"); }
      CheckInt(z);
    });
  }
  ex.Section("integer_to_float_and_text");
  const uint64_t pat[] = {0, 1, 0x8000000000000000ULL, 0x7fffffffffffffffULL, 0xffffffffffffffffULL, 0x0000000000000400ULL,
                          0xfffffffffffffc00ULL, 0x8000000000000400ULL, 0x001fffffffffffffULL, 0x0020000000000001ULL, 0x123456789abcdef1ULL};
  for (uint64_t a : pat) for (uint64_t b : pat) for (uint64_t c : pat) for (int n = 1; n <= 3; ++n) for (int s : {-1, 1}) {
    if ((n < 3 && a != pat[0]) || (n < 2 && b != pat[0])) continue;
    Z z = Z(c); if (n >= 2) z += Z(b) << 64; if (n >= 3) z += Z(a) << 128;
    z *= s;
    ex.Case([&] { return Hex(z); }, [&] { ex.Op(3); ex.State(HashZ(z)); CheckInt(z); });
  }
  for (unsigned bit = 0; bit < 320; ++bit) for (unsigned low = 0; low < 70; low += (ex.thorough ? 1 : 3)) for (int s = 0; s < 4; ++s) {
    Z z = (Pow2(bit) + (bit >= low ? Pow2(bit - low) : Z(0))) * ((s & 1) ? -1 : 1) + ((s & 2) ? 1 : 0);
    ex.Case([&] { return Hex(z); }, [&] { ex.Op(3); ex.State(HashZ(z)); CheckInt(z); });
  }
  ex.Section("float_range_limit");
  std::vector<unsigned> bits;
  for (unsigned b = 1000; b <= 1300; ++b) bits.push_back(b);
  for (unsigned b = 16300; b <= 16450; ++b) bits.push_back(b);
  for (unsigned bit : bits) for (unsigned low : {0u, 1u, 24u, 52u, 53u, 64u, 65u, 100u}) for (int s = 0; s < 4; ++s) {
    Z z = (Pow2(bit) + (low ? Pow2(bit - low) : Z(0))) * ((s & 1) ? -1 : 1) + ((s & 2) ? 1 : 0);
    ex.Case([&] { return "+/-(2^" + std::to_string(bit) + " + 2^-" + std::to_string(low) + ") variant " + std::to_string(s); }, [&] {
      ex.Op(1); ex.State(HashZ(z));
      double d = static_cast<double>(ToB(z));
      MC_CHECK(Faithful(d, Q(z))) << "double is " << std::hexfloat << d;
      long double l = static_cast<long double>(ToB(z));
      MC_CHECK(Faithful(l, Q(z))) << "long double is " << std::hexfloat << l;
    });
  }
  // Integers whose bit count does not fit an int any more (a word count above 2^25).
  ex.Section("enormous_integers");
  for (int64_t off : {-130, -66, -65, -64, -2, -1, 0, 1, 62, 63, 64, 127, 191}) for (int s : {1, -1}) {
    if (!ex.thorough && off % 3 == 0) continue;
    ex.Case([&] { return std::to_string(s) + " * 2^(2^31 + " + std::to_string(off) + ")"; }, [&] {
      ex.Op(2);
      BigInt v(1);
      v = v << size_t((int64_t(1) << 31) + off);
      if (s < 0) v.Negate();
      double d = static_cast<double>(v);
      MC_CHECK(std::isinf(d) && (d < 0) == (s < 0)) << "double is " << d;
      long double l = static_cast<long double>(v);
      MC_CHECK(std::isinf(l) && (l < 0) == (s < 0)) << "long double is " << l;
    });
  }
  ex.Section("double_decompose");
  const uint64_t mants[] = {0, 1, 2, 0x8000000000000ULL, 0xfffffffffffffULL, 0x5555555555555ULL, 0xffffffff00000ULL, 0x10ULL};
  auto mkd = [](int s, int be, uint64_t m) { uint64_t u = (uint64_t(s) << 63) | (uint64_t(be) << 52) | m; double d; memcpy(&d, &u, 8); return d; };
  for (int be = 0; be < 2047; ++be) for (uint64_t m : mants) for (int s = 0; s < 2; ++s) {
    double d = mkd(s, be, m);
    ex.Case([&] { std::ostringstream o; o << std::hexfloat << d; return o.str(); }, [&] {
      ex.Op(4); ex.State(mc::HashAdd(be * 2 + s, m));
      int e = 12345;
      int64_t r = Decompose(d, &e);
      Q got = e >= 0 ? Q(Z(Z(r) * Pow2(e))) : Q(Z(r), Pow2(-e));
      MC_CHECK(got == ExactL(d)) << "Decompose gives " << r << " * 2^" << e;
      MC_CHECK(r == 0 ? e == 0 : (r & 1) != 0) << "mantissa not the smallest: " << r;
      HomoPoint3 p = HomoPoint3::FromDoublesExact(d, -d, 1);
      MC_CHECK(ToZ(p.w()) != 0);
      MC_CHECK(Q(ToZ(p.x()), ToZ(p.w())) == ExactL(d) && Q(ToZ(p.y()), ToZ(p.w())) == -ExactL(d) && Q(ToZ(p.z()), ToZ(p.w())) == 1) << "FromDoublesExact";
      DoublePoint3 back = p.GetDoublePoint3();
      MC_CHECK(back == DoublePoint3(d, -d, 1)) << "round trip gives " << std::hexfloat << back.x << "," << back.y << "," << back.z;
      HomoPoint3 p2 = HomoPoint3::FromDoublePoint3Exact(DoublePoint3(1, d, d));
      MC_CHECK(p2.GetDoublePoint3() == DoublePoint3(1, d, d)) << "round trip 2";
      MC_CHECK(Q(ToZ(p2.y()), ToZ(p2.w())) == ExactL(d) && Q(ToZ(p2.z()), ToZ(p2.w())) == ExactL(d)) << "FromDoublePoint3Exact";
    });
  }
  ex.Section("double_triples");
  std::vector<double> ds = {0.0, 1.0, -1.0, 0.5, -0.75, 3.0, 1024.0, 4503599627370497.0, -9007199254740991.0, 0.1, -0.1, 1e17, -1e30, 1e-30,
                            5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 0x1.8p-64, 0x1.fffffffffffffp63};
  for (double x : ds) for (double y : ds) for (double z : ds) {
    ex.Case([&] { std::ostringstream o; o << std::hexfloat << x << " " << y << " " << z; return o.str(); }, [&] {
      ex.Op(2);
      HomoPoint3 p = HomoPoint3::FromDoublesExact(x, y, z);
      ex.State(mc::HashAdd(mc::HashAdd(HashZ(ToZ(p.x())), HashZ(ToZ(p.y()))), HashZ(ToZ(p.z()))));
      Z w = ToZ(p.w());
      MC_CHECK(Q(ToZ(p.x()), w) == ExactL(x)) << "x"; MC_CHECK(Q(ToZ(p.y()), w) == ExactL(y)) << "y"; MC_CHECK(Q(ToZ(p.z()), w) == ExactL(z)) << "z";
      MC_CHECK(p.GetDoublePoint3() == DoublePoint3(x, y, z)) << "round trip";
    });
  }
  ex.Section("rounding_to_grid");
  std::vector<double> rs;
  for (double b : {0.0, 0.125, 0.375, 0.5, 0.75, 1.0, 1.5, 5.0, 1000.0625, 1e10, 0x1.23456789abcdep-3, 0x1.8p-20, 0x1p-70, 0x1.fffffffffffffp-1, 0x1.8p-64, 0x1.8p-65, 0x1.4p-10})
    for (double s : {1.0, -1.0}) rs.push_back(b * s);
  for (int g = 0; g >= -80; g -= (g > -8 || ex.thorough ? 1 : 6)) for (double x : rs) for (double y : rs) for (int zi = 0; zi < (ex.thorough ? 34 : 4); ++zi) {
    double z = rs[ex.thorough ? zi : (zi * 7 + 3) % rs.size()];
    ex.Case([&] { std::ostringstream o; o << "grid 2^" << g << ": " << std::hexfloat << x << " " << y << " " << z; return o.str(); }, [&] {
      ex.Op();
      HomoPoint3 p = HomoPoint3::FromDoubles(g, x, y, z);
      ex.State(mc::HashAdd(HashZ(ToZ(p.x())), HashZ(ToZ(p.w()))));
      Z w = ToZ(p.w());
      MC_CHECK(w > 0) << "w";
      const double in[3] = {x, y, z};
      const BigInt* out[3] = {&p.x(), &p.y(), &p.z()};
      for (int i = 0; i < 3; ++i) {
        Q got(ToZ(*out[i]), w), want = ExactL(in[i]);
        Q cells = got * Q(Pow2(-g));
        MC_CHECK(denominator(cells) == 1) << "component " << i << " is not a multiple of the grid";
        Q err = (got - want) * Q(Pow2(-g));
        if (err < 0) err = -err;
        MC_CHECK(err <= Q(1, 2)) << "component " << i << " is not the nearest grid value: " << got << " for " << want;
      }
    });
  }
  ex.Section("point_to_double");
  std::vector<Z> nums = {0, 1, -1, 3, -7, 1000000007, Pow2(31), -Pow2(31), Pow2(53) + 1, -(Pow2(54) - 1), Pow2(63), Pow2(64) - 1, -Pow2(64), Pow2(64) + 1, Z("123456789012345678901234567890"),
                         -Z("98765432109876543210987654321098765432109876543210"), Pow2(127) - 1, -Pow2(127), Pow2(192) + Pow2(100) + 1, (Pow2(64) - 1) * 3};
  for (const Z& x : nums) for (const Z& y : nums) for (const Z& w : nums) {
    if (w == 0) continue;
    ex.Case([&] { return Hex(x) + "," + Hex(y) + " / " + Hex(w); }, [&] {
      ex.Op(); ex.State(mc::HashAdd(mc::HashAdd(HashZ(x), HashZ(y)), HashZ(w)));
      HomoPoint3 p(ToB(x), ToB(y), ToB(x + y), ToB(w));
      DoublePoint3 d = p.GetDoublePoint3();
      auto q = [&](const Z& n) { return w < 0 ? Q(Z(-n), Z(-w)) : Q(n, w); };
      MC_CHECK(Faithful(d.x, q(x))) << "x " << std::hexfloat << d.x;
      MC_CHECK(Faithful(d.y, q(y))) << "y " << std::hexfloat << d.y;
      MC_CHECK(Faithful(d.z, q(x + y))) << "z " << std::hexfloat << d.z;
    });
  }
  ex.Section("object_text");
  std::vector<Z> tv = {0, 1, -1, 10, -100, Pow2(63), -Pow2(63), Pow2(64), -Z("100000000000000000000000000000000000000000")};
  for (const Z& a : tv) for (const Z& b : tv) for (const Z& c : tv) for (const Z& d : tv) {
    ex.Case([&] { return Dec(a) + " " + Dec(b) + " " + Dec(c) + " " + Dec(d); }, [&] {
      ex.Op(7);
      BigInt x = ToB(a), y = ToB(b), z = ToB(c), w = ToB(d);
      std::vector<std::string> v2{Dec(a), Dec(b)}, v3{Dec(a), Dec(b), Dec(c)}, v4{Dec(a), Dec(b), Dec(c), Dec(d)};
      MC_CHECK(Printed(Vector2(x, y)) == v2) << "Vector2"; MC_CHECK(Printed(Vector3(x, y, z)) == v3) << "Vector3";
      MC_CHECK(Printed(Point3(x, y, z)) == v3) << "Point3"; MC_CHECK(Printed(HomoPoint3(x, y, z, w)) == v4) << "HomoPoint3";
      MC_CHECK(Printed(HomoPoint2(x, y, z)) == v3) << "HomoPoint2";
      MC_CHECK(Printed(HalfSpace2(x, y, z)) == v3) << "HalfSpace2"; MC_CHECK(Printed(HalfSpace3(x, y, z, w)) == v4) << "HalfSpace3";
      std::vector<std::string> v6{Dec(a), Dec(b), Dec(c), Dec(d), Dec(a), Dec(c)};
      MC_CHECK(Printed(PluckerLine(Vector3(x, y, z), Vector3(w, x, z))) == v6) << "PluckerLine";
    });
  }
  // The approximate text lists the coordinates to the precision of the stream.
  ex.Section("approximate_text");
  std::vector<Z> av = {0, 1, -1, 7, -100000, Pow2(63), -Pow2(64) + 1, Z("123456789012345678901234567890")}, wv = {1, -1, 3, -8, Pow2(64), -Pow2(63) - 5};
  for (const Z& a : av) for (const Z& b : av) for (const Z& c : av) for (const Z& d : wv) {
    ex.Case([&] { return Dec(a) + " " + Dec(b) + " " + Dec(c) + " / " + Dec(d); }, [&] {
      ex.Op(4);
      HomoPoint3 p(ToB(a), ToB(b), ToB(c), ToB(d)), o(ToB(a + d), ToB(b), ToB(c), ToB(d)), u(ToB(a), ToB(b + d), ToB(c), ToB(d));
      Z sd = d < 0 ? Z(-d) : d, sc = d < 0 ? Z(-c) : c;
      auto same = [&](const std::string& text, const std::vector<Q>& want) {
        std::vector<double> got;
        std::string t = text;
        for (char& ch : t) if (!(isdigit(ch) || ch == '-' || ch == '+' || ch == '.' || ch == 'e')) ch = ' ';
        std::istringstream in(t);
        std::string w;
        while (in >> w) { char* end; double v = strtod(w.c_str(), &end); if (end != w.c_str()) got.push_back(v); }
        MC_CHECK(got.size() == want.size()) << got.size() << " numbers in " << text;
        for (size_t i = 0; i < got.size(); ++i) {
          Q e = abs(Q(got[i]) - want[i]);
          MC_CHECK(e * 100000 <= abs(want[i])) << "component " << i << " of " << text;
        }
      };
      auto coords = [&](const HomoPoint3& h) { Q w(ToZ(h.w())); return std::vector<Q>{Q(ToZ(h.x())) / w, Q(ToZ(h.y())) / w, Q(ToZ(h.z())) / w}; };
      same(p.Approximate(), coords(p));
      walnut::ConvexPolygon<> tri(HalfSpace3(BigInt(0), BigInt(0), ToB(sd), ToB(sc)), 2, std::vector<HomoPoint3>{p, o, u});
      std::vector<Q> all;
      for (size_t i = 0; i < 3; ++i) for (const Q& q : coords(tri.vertex(i))) all.push_back(q);
      for (size_t i = 0; i < 3; ++i) same(Approximate(tri.const_edge(i)), coords(tri.vertex(i)));
      same(tri.ApproximateNoData(), all);
      std::vector<Q> full{Q(0), Q(0), Q(sd)};
      full.insert(full.end(), all.begin(), all.end());
      same(tri.Approximate(), full);
    });
  }
  ex.Section("rational_rounding");
  std::vector<Z> rd = {1, -1, 2, -3, 5, -7, 12, Pow2(40) + 1, -Pow2(70) + 3};
  for (int n = -40; n <= 40; ++n) for (const Z& od : rd) for (const Z& nd : rd) for (int big = 0; big < 2; ++big) {
    Z num = big ? Z(n) * (Pow2(66) + 1) : Z(n);
    ex.Case([&] { return Hex(num) + "/" + Hex(od) + " over " + Hex(nd); }, [&] {
      ex.Op(2); ex.State(mc::HashAdd(mc::HashAdd(HashZ(num), HashZ(od)), HashZ(nd)));
      auto q = [](const Z& a, const Z& b) { return b < 0 ? Q(Z(-a), Z(-b)) : Q(a, b); };
      Q v = q(num, od), step = q(nd < 0 ? Z(-1) : Z(1), nd);
      Q up = q(ToZ(rational::RoundUp(ToB(num), ToB(od), ToB(nd))), nd), down = q(ToZ(rational::RoundDown(ToB(num), ToB(od), ToB(nd))), nd);
      MC_CHECK(up >= v && up - step < v) << "RoundUp gives " << up;
      MC_CHECK(down <= v && down + step > v) << "RoundDown gives " << down;
    });
  }
}
