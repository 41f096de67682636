// C02: exact division, remainder, gcd and shifts.
#include "big.h"
using namespace orc;
using mc::Explorer;

static Z Abs(const Z& z) { return z < 0 ? Z(-z) : z; }

static void DivU(const Z& a, const Z& b) {  // b > 0, a >= 0
  BigUInt x = ToU(a), y = ToU(b), rem(uint64_t(99));
  BigUInt q = x.DivideRemainder(y, &rem);
  MC_CHECK(ToZ(q) == a / b) << "unsigned quotient " << Hex(ToZ(q)) << " want " << Hex(a / b);
  MC_CHECK(ToZ(rem) == a % b) << "unsigned remainder " << Hex(ToZ(rem)) << " want " << Hex(a % b);
  MC_CHECK(q.used_words() == WordCount(a / b) && rem.used_words() == WordCount(a % b)) << "untrimmed result";
}
static void Div(const Z& a, const Z& b) {
  const BigInt x = ToB(a), y = ToB(b);
  Z q = a / b, r = a - q * b;  // cpp_int truncates
  CheckValue(x / y, q, "/");
  CheckValue(x % y, r, "%");
  BigInt rem(12345);
  CheckValue(x.DivideRemainder(y, &rem), q, "DivideRemainder quotient");
  CheckValue(rem, r, "DivideRemainder remainder");
  { BigInt t = x; BigInt& ref = (t /= y); MC_CHECK(&ref == &t); CheckValue(t, q, "/="); }
  if (b >= INT32_MIN && b <= INT32_MAX) CheckValue(x / static_cast<int>(b), q, "/ int");
  if (a == b) { BigInt t = x; t /= t; CheckValue(t, 1, "a /= a"); }
  { BigInt num = x, out = y; BigInt qq = num.DivideRemainder(out, &out); CheckValue(qq, q, "remainder over divisor: quotient"); CheckValue(out, r, "remainder over divisor"); }
}
static void AllSigns(const Z& a, const Z& b) {
  DivU(a, b);
  Div(a, b); Div(-a, b); Div(a, -b); Div(-a, -b);
}
static void Gcd(const Z& a, const Z& b) {
  BigInt g = ToB(a).GetGreatestCommonDivisor(ToB(b));
  Z want = boost::multiprecision::gcd(Abs(a), Abs(b));
  MC_CHECK(Abs(ToZ(g)) == want) << "gcd " << Hex(ToZ(g)) << " want +/-" << Hex(want);
  CheckValue(g, ToZ(g), "gcd");
}

void Explore(Explorer& ex) {
  const uint64_t W[] = {0, 1, 2, 3, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x3fffffff80000001ULL,
                        0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffff00000000ULL, 0xfffffffeffffffffULL,
                        0xfffffffffffffffeULL, 0xffffffffffffffffULL, 0x123456789abcdef1ULL};
  const uint64_t V[] = {0, 1, 0x80000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL};
  auto mk = [](std::vector<uint64_t> w) { Z r = 0; for (size_t i = w.size(); i-- > 0;) { r <<= 64; r |= Z(w[i]); } return r; };
  std::set<Z> d1, d2, d3, dn;
  for (uint64_t a : W) { d1.insert(mk({a})); for (uint64_t b : W) d2.insert(mk({a, b})); }
  for (uint64_t a : V) for (uint64_t b : V) for (uint64_t c : V) d3.insert(mk({a, b, c}));
  for (uint64_t a : V) for (uint64_t b : V) for (uint64_t c : V) for (uint64_t d : {V[1], V[4], V[5]}) dn.insert(mk({a, b, c, d}));
  std::set<Z> divisors(d1), dividends(d1);
  divisors.insert(d2.begin(), d2.end()); divisors.insert(d3.begin(), d3.end());
  for (unsigned i = 0; i < 140; ++i) for (int k = -2; k <= 2; ++k) divisors.insert(Pow2(i) + k);
  std::vector<Z> dv;
  for (const Z& z : divisors) if (z > 0) dv.push_back(z);
  dividends.insert(d2.begin(), d2.end()); dividends.insert(d3.begin(), d3.end()); dividends.insert(dn.begin(), dn.end());
  std::vector<Z> dd(dividends.begin(), dividends.end());

  ex.Section("small_signed");
  for (int a = -40; a <= 40; ++a) for (int b = -40; b <= 40; ++b) {
    if (b == 0) continue;
    ex.Case([&] { return std::to_string(a) + " / " + std::to_string(b); }, [&] { ex.Op(6); ex.State(mc::HashAdd(a + 1000, b + 1000)); Div(a, b); Gcd(a, b); Gcd(b, a); });
  }
  ex.Section("native_boundaries");
  std::vector<Z> nb;
  for (unsigned bit : {31u, 32u, 62u, 63u, 64u, 65u}) for (int s : {-1, 1}) for (int k = -2; k <= 2; ++k) nb.push_back(Pow2(bit) * s + k);
  for (int k = -3; k <= 3; ++k) nb.push_back(k);
  for (const Z& a : nb) for (const Z& b : nb) {
    if (b == 0) continue;
    ex.Case([&] { return Hex(a) + " / " + Hex(b); }, [&] { ex.Op(6); ex.State(mc::HashAdd(HashZ(a), HashZ(b))); Div(a, b); Gcd(a, b); });
  }
  ex.Section("pairs");
  // Quick tier: every second divisor (alternating with the dividend's index so
  // that every divisor and every dividend occurs).
  for (size_t i = 0; i < dv.size(); ++i) for (size_t k = 0; k < dd.size(); ++k) {
    if (!ex.thorough && ((i ^ k) & 1)) continue;
    const Z& b = dv[i]; const Z& a = dd[k];
    ex.Case([&] { return Hex(a) + " / " + Hex(b); }, [&] { ex.Op(25); ex.State(mc::HashAdd(HashZ(a), HashZ(b))); AllSigns(a, b); });
  }
  ex.Section("quotient_times_divisor_plus_remainder");
  std::vector<Z> qs;
  { std::set<Z> s(d1); for (unsigned i = 0; i < 130; i += (ex.thorough ? 1 : 5)) for (int k = -1; k <= 1; ++k) s.insert(Pow2(i) + k);
    if (ex.thorough) s.insert(d2.begin(), d2.end());
    for (const Z& z : s) if (z >= 0) qs.push_back(z); }
  for (const Z& b : dv) for (const Z& q : qs) {
    ex.Case([&] { return Hex(q) + " * " + Hex(b) + " + {0,1,b/2,b-1}"; }, [&] {
      ex.Op(25 * 4);
      for (const Z& r : {Z(0), Z(1), Z(b / 2), Z(b - 1)}) { if (r >= b) continue; ex.State(mc::HashAdd(HashZ(q * b + r), HashZ(b))); AllSigns(q * b + r, b); }
    });
  }
  ex.Section("every_divisor_bit_pattern");
  // Divisors 2^i + 2^j + e and dividends 2^k * divisor - f: the estimate of
  // the long division is worst next to a power of two.
  for (unsigned i = 0; i < 132; ++i) for (unsigned j = 0; j < i; j += (ex.thorough ? 1 : 7)) for (int e = -1; e <= 1; ++e) {
    Z b = Pow2(i) + Pow2(j) + e;
    if (b <= 0) continue;
    ex.Case([&] { return Hex(b); }, [&] {
      for (unsigned k = 0; k < 200; k += 13) for (int f = -1; f <= 1; ++f) {
        Z a = b * Pow2(k) + f;
        if (a < 0) continue;
        ex.Op(5); ex.State(mc::HashAdd(HashZ(a), HashZ(b)));
        DivU(a, b); Div(-a, b);
      }
    });
  }
  // Every pair of sizes: quotients and remainders of many words.
  ex.Section("sizes");
  const unsigned most = ex.thorough ? 24 : 12;
  for (unsigned n = 1; n <= most; ++n) for (unsigned m = 1; m <= most; ++m)
    ex.Case([&] { return "quotient of " + std::to_string(n) + " words, divisor of " + std::to_string(m); }, [&] {
      for (const Z& q : PatternsOfSize(n, true)) for (const Z& b : PatternsOfSize(m, true)) for (const Z& r : {Z(0), Z(1), Z(b - 1)}) {
        if (r >= b) continue;
        ex.Op(5); ex.State(mc::HashAdd(HashZ(q * b + r), HashZ(b)));
        DivU(q * b + r, b); Div(-(q * b + r), b); if (r == 0) Gcd(q * b, b);
      }
    });
  for (unsigned n = 1; n <= 64; ++n)
    ex.Case([&] { return std::to_string(n) + " words by short ones, shifted"; }, [&] {
      for (const Z& a : PatternsOfSize(n, true)) {
        for (const Z& b : {Z(1), Z(3), Z(Pow2(31)), Z(Pow2(63) + 1), Z(Pow2(64) - 1), Z(Pow2(64)), Z(Pow2(65) - 3)}) { ex.Op(5); DivU(a, b); Div(-a, b); Gcd(a, b); }
        for (size_t k = 0; k <= 4096; k = k * 2 + 1) { ex.Op(); CheckValue(ToB(a) << k, a * Pow2(unsigned(k)), "<<"); CheckValue(ToB(-a) << k, -a * Pow2(unsigned(k)), "<<"); }
      }
    });
  ex.Section("gcd");
  std::vector<Z> gv;
  for (const Z& z : d1) gv.push_back(z);
  for (const Z& z : {Pow2(64) * 6, Pow2(100) * 15, Pow2(64) - 1, Z(Pow2(127) - 1), Z(Pow2(127)), Z(3 * Pow2(130)), Z((Pow2(64) + 13) * 35), Z((Pow2(64) + 13) * 21)}) gv.push_back(z);
  for (const Z& a : gv) for (const Z& b : gv) for (int s = 0; s < 4; ++s) {
    Z x = (s & 1) ? Z(-a) : a, y = (s & 2) ? Z(-b) : b;
    ex.Case([&] { return "gcd " + Hex(x) + " , " + Hex(y); }, [&] { ex.Op(); ex.State(mc::HashAdd(HashZ(x), HashZ(y))); Gcd(x, y); });
  }
  ex.Section("shift");
  std::vector<Z> sv;
  for (const Z& z : d1) { sv.push_back(z); sv.push_back(-z); }
  for (const Z& z : d2) { sv.push_back(z); sv.push_back(-z); }
  if (ex.thorough) for (const Z& z : d3) { sv.push_back(z); sv.push_back(-z); }
  for (const Z& z : sv) {
    ex.Case([&] { return Hex(z) + " << 0..260"; }, [&] {
      BigInt v = ToB(z);
      for (size_t n = 0; n <= 260; ++n) {
        ex.Op(2); ex.State(mc::HashAdd(HashZ(z), n));
        CheckValue(v << n, z * Pow2(n), ("<< " + std::to_string(n)).c_str());
        if (z >= 0) {
          BigUInt u = ToU(z) << n;
          MC_CHECK(ToZ(u) == z * Pow2(n)) << "unsigned << " << n << ": " << Hex(ToZ(u));
        }
      }
    });
  }
  ex.Section("unsigned_ops");
  std::vector<Z> uv;
  for (const Z& z : d1) uv.push_back(z);
  for (const Z& z : d2) uv.push_back(z);
  for (const Z& z : d3) uv.push_back(z);
  for (const Z& a : uv) for (const Z& b : uv) {
    ex.Case([&] { return Hex(a) + " , " + Hex(b); }, [&] {
      ex.Op(3); ex.State(mc::HashAdd(HashZ(a), HashZ(b)));
      BigUInt x = ToU(a), y = ToU(b);
      MC_CHECK((x >= y) == (a >= b)) << ">=";
      if (a >= b) MC_CHECK(ToZ(x.Subtract(y)) == a - b) << "Subtract";
      if (b < Pow2(64)) {
        BigUIntWord w = y.word(0);
        MC_CHECK(ToZ(x.Multiply(w)) == a * b) << "Multiply by word";
        for (size_t n : {0, 1, 31, 32, 63, 64, 65, 100, 127, 128, 129, 191}) {
          BigUInt t = x;
          t.AddLeftShifted(w, n);
          MC_CHECK(ToZ(t) == a + b * Pow2(static_cast<unsigned>(n))) << "AddLeftShifted " << n << " gives " << Hex(ToZ(t));
        }
      }
      for (size_t n : {0, 1, 31, 32, 63, 64, 65, 127, 128}) {
        Z s = b * Pow2(static_cast<unsigned>(n));
        // The shifted operand has to fit into the words of the minuend.
        if (s > a || WordCount(b) + n / 64 > WordCount(a)) continue;
        BigUInt t = x;
        t.SubtractLeftShifted(y, n);
        MC_CHECK(ToZ(t) == a - s) << "SubtractLeftShifted " << n << " gives " << Hex(ToZ(t));
      }
      { BigUInt t = x; t.ShiftRightWord(); MC_CHECK(ToZ(t) == a / Pow2(64)) << "ShiftRightWord"; }
    });
  }
}
