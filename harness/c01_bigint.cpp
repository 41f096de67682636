// C01: exact signed integer arithmetic, canonical values.
#include "big.h"
#include "words.h"
using namespace orc;
using mc::Explorer;
using walnut::BigIntWord;
using walnut::BigIntHalfWord;

// The order in which two equal values were produced must be invisible.
static void CheckSame(const BigInt& got, const Z& want, const char* what) {
  CheckValue(got, want, what);
  BigInt fresh = ToB(want);
  MC_CHECK(got == fresh && fresh == got && !(got != fresh)) << what << ": unequal to a fresh " << Hex(want);
  MC_CHECK(got.GetHash() == fresh.GetHash()) << what << ": hash differs from a fresh " << Hex(want);
  MC_CHECK(got.Compare(fresh) == 0 && fresh.Compare(got) == 0) << what << ": Compare to a fresh " << Hex(want);
}

static std::vector<Z> Values(bool thorough, bool big) {
  const uint64_t W[] = {0, 1, 2, 0x7fffffffULL, 0x80000000ULL, 0x80000001ULL, 0xffffffffULL, 0x100000000ULL,
                        0x7fffffffffffffffULL, 0x8000000000000000ULL, 0x8000000000000001ULL,
                        0xfffffffffffffffeULL, 0xffffffffffffffffULL, 0x123456789abcdef1ULL,
                        0xffffffff00000000ULL, 0xffffffff7fffffffULL, 0xffffffff80000000ULL};
  const uint64_t V3[] = {0, 1, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 0xfedcba9876543210ULL};
  const uint64_t V4[] = {0, 0x8000000000000000ULL, 0xffffffffffffffffULL, 1};
  std::set<Z> s;
  auto add = [&](const std::vector<uint64_t>& w) {
    Z r = 0;
    for (size_t i = w.size(); i-- > 0;) { r <<= 64; r |= Z(w[i]); }
    if (w.back() >> 63) r -= Pow2(64 * w.size());
    s.insert(r);
  };
  for (uint64_t a : W) {
    add({a});
    if (big) for (uint64_t b : W) add({a, b});
  }
  if (!big) { for (uint64_t a : V4) for (uint64_t b : V4) add({a, b}); }
  if (big) {
    for (uint64_t a : V3) for (uint64_t b : V3) for (uint64_t c : V3) add({a, b, c});
    if (thorough) {
      for (uint64_t a : V3) for (uint64_t b : V3) for (uint64_t c : V3) for (uint64_t d : V3) add({a, b, c, d});
    } else {
      for (uint64_t a : V4) for (uint64_t b : V4) for (uint64_t c : V4) for (uint64_t d : V4) add({a, b, c, d});
    }
  }
  return std::vector<Z>(s.begin(), s.end());
}

static void Unary(const Z& z) {
  BigInt v = ToB(z);
  CheckValue(v, z, "construct");
  CheckSame(-v, -z, "negate");
  { BigInt t = v; t.Negate(); CheckSame(t, -z, "Negate"); t.Negate(); CheckSame(t, z, "Negate twice"); }
  CheckSame(v.abs(), z < 0 ? Z(-z) : z, "abs");
  { bool sg = z >= 0; BigInt t = v.GetAbs(sg); CheckSame(t, z < 0 ? Z(-z) : z, "GetAbs"); MC_CHECK(sg == (z < 0)); }
  { bool sg = z >= 0; BigUInt t = v.GetUIntAbs(&sg); MC_CHECK(ToZ(t) == (z < 0 ? Z(-z) : z)) << "GetUIntAbs " << Hex(ToZ(t)); MC_CHECK(sg == (z < 0));
    CheckSame(BigInt(t), z < 0 ? Z(-z) : z, "BigInt(BigUInt)"); BigInt u(7); u = t; CheckSame(u, z < 0 ? Z(-z) : z, "= BigUInt"); }
  MC_CHECK(SgnI(v.GetSign()) == Sgn(z)) << "GetSign";
  MC_CHECK(v.IsZero() == (z == 0)); MC_CHECK(v.IsNegative() == (z < 0));
  MC_CHECK(v.GetAbsMult() == (z < 0 ? -1 : 1)); MC_CHECK(v.SignExtension() == (z < 0 ? -1 : 0));
  bool half = z >= -Pow2(31) && z < Pow2(31);
  MC_CHECK(v.IsHalfWord() == half) << "IsHalfWord";
  if (half) MC_CHECK(Z(v.ToInt()) == z) << "ToInt";
  MC_CHECK(v.low_uint64() == static_cast<uint64_t>(Z((z < 0 ? z + Pow2(64 * 128) : z) & Z(~0ULL))));
  MC_CHECK(v.low_uint32() == static_cast<uint32_t>(v.low_uint64()));
  { BigInt t = v; BigInt& r = ++t; MC_CHECK(&r == &t); CheckSame(t, z + 1, "++"); --t; CheckSame(t, z, "++ --"); }
  { BigInt t = v; BigInt& r = --t; MC_CHECK(&r == &t); CheckSame(t, z - 1, "--"); ++t; CheckSame(t, z, "-- ++"); }
  { BigInt t = v; t += t; CheckSame(t, z + z, "a += a"); }
  { BigInt t = v; t -= t; CheckSame(t, 0, "a -= a"); }
  { BigInt t = v; BigInt& r = t; t = r; CheckSame(t, z, "a = a"); }
  { BigInt t = v; CheckSame(t + t, z + z, "a + a"); CheckSame(t - t, 0, "a - a"); CheckSame(t * t, z * z, "a * a"); }
  { BigInt t = v; t.AddMultiply(t, t); CheckSame(t, z + z * z, "a.AddMultiply(a,a)"); }
  { BigInt t = v; t.SubtractMultiply(t, t); CheckSame(t, z - z * z, "a.SubtractMultiply(a,a)"); }
  { BigInt t = v; t *= t; CheckSame(t, z * z, "a *= a"); }
  { BigInt t = v; BigInt u(std::move(t)); CheckSame(u, z, "move construct"); t = BigInt(3); CheckSame(t, 3, "reassign moved-from"); }
  { BigInt t = v; BigInt u = ToB(Pow2(200)); u = std::move(t); CheckSame(u, z, "move assign"); t = u; CheckSame(t, z, "reassign moved-from"); }
  { BigInt t = ToB(Pow2(200)); t = v; CheckSame(t, z, "assign over larger"); ++t; CheckSame(t, z + 1, "then ++"); }
  { BigInt t; t = v; CheckSame(t, z, "assign over zero"); }
}

static void Ints(const Z& z, int k) {
  BigInt v = ToB(z);
  CheckSame(v + k, z + k, "+ int"); CheckSame(v - k, z - k, "- int");
  CheckSame(v * k, z * k, "* int"); CheckSame(k * v, z * k, "int *");
  { BigInt t = v; t += BigIntHalfWord(k); CheckSame(t, z + k, "+= half"); }
  { BigInt t = v; t -= BigIntHalfWord(k); CheckSame(t, z - k, "-= half"); }
  MC_CHECK((v < k) == (z < k)) << "< int"; MC_CHECK((v <= k) == (z <= k)) << "<= int";
  MC_CHECK((v > k) == (z > k)) << "> int"; MC_CHECK((v >= k) == (z >= k)) << ">= int";
  MC_CHECK((v == k) == (z == k)) << "== int"; MC_CHECK((v != k) == (z != k)) << "!= int";
  { BigInt t = v; t = BigIntWord(k); CheckSame(t, k, "= word"); }
}

static void Pair(const Z& a, const Z& b) {
  const BigInt x = ToB(a), y = ToB(b);
  CheckValue(x + y, a + b, "+"); CheckValue(x - y, a - b, "-"); CheckValue(x * y, a * b, "*");
  CheckValue(x.Add(y), a + b, "Add"); CheckValue(x.Subtract(y), a - b, "Subtract");
  { BigInt t = x; BigInt& r = (t += y); MC_CHECK(&r == &t); CheckSame(t, a + b, "+="); }
  { BigInt t = x; BigInt& r = (t -= y); MC_CHECK(&r == &t); CheckSame(t, a - b, "-="); }
  { BigInt t = x; t *= y; CheckValue(t, a * b, "*="); }
  { BigInt t = x; t.AddMultiply(x, y); CheckValue(t, a + a * b, "AddMultiply"); }
  { BigInt t = y; t.SubtractMultiply(x, y); CheckValue(t, b - a * b, "SubtractMultiply"); }
  CheckValue(BigInt::Determinant(x, y, y, x), a * a - b * b, "Determinant");
  const int c = a < b ? -1 : a > b ? 1 : 0;
  MC_CHECK(x.Compare(y) == c) << "Compare gives " << x.Compare(y);
  MC_CHECK((x < y) == (c < 0)) << "<"; MC_CHECK((x <= y) == (c <= 0)) << "<=";
  MC_CHECK((x > y) == (c > 0)) << ">"; MC_CHECK((x >= y) == (c >= 0)) << ">=";
  MC_CHECK((x == y) == (c == 0)) << "=="; MC_CHECK((x != y) == (c != 0)) << "!=";
  MC_CHECK(x.LessThan(false, y) == (c < 0)) << "LessThan"; MC_CHECK(x.LessThan(true, y) == (c > 0)) << "LessThan flip";
  MC_CHECK(BigInt::FlippableCompare(false)(x, y) == (c < 0)); MC_CHECK(BigInt::FlippableCompare(true)(x, y) == (c > 0));
  MC_CHECK(x.HasSameSign(y) == ((a < 0) == (b < 0))) << "HasSameSign";
  MC_CHECK(x.HasDifferentSign(y) == ((a < 0) != (b < 0))) << "HasDifferentSign";
  MC_CHECK(x.GetAbsMult(y) == (((a < 0) == (b < 0)) ? 1 : -1)) << "GetAbsMult";
  bool hx = a >= -Pow2(31) && a < Pow2(31), hy = b >= -Pow2(31) && b < Pow2(31);
  MC_CHECK(BigInt::AllHalfWords(x, y) == (hx && hy)) << "AllHalfWords";
  CheckValue(x, a, "operand unchanged"); CheckValue(y, b, "operand unchanged");
}

struct Regs { BigInt A, B; Z a, b; };
static const char* kOps[] = {"A+=B", "A-=B", "B+=A", "B=A", "A=move(B),B=1", "++A", "--A", "neg A", "A=A*B",
                             "A+=A", "A-=A", "swap", "A=A<<63", "A.AddMul(A,B)", "A.SubMul(B,B)", "B=abs(A)"};
static const int kNumOps = sizeof(kOps) / sizeof(kOps[0]);
static void Apply(Regs& r, int op) {
  switch (op) {
    case 0: r.A += r.B; r.a += r.b; break;
    case 1: r.A -= r.B; r.a -= r.b; break;
    case 2: r.B += r.A; r.b += r.a; break;
    case 3: r.B = r.A; r.b = r.a; break;
    case 4: r.A = std::move(r.B); r.B = BigInt(1); r.a = r.b; r.b = 1; break;
    case 5: ++r.A; ++r.a; break;
    case 6: --r.A; --r.a; break;
    case 7: r.A.Negate(); r.a = -r.a; break;
    case 8: r.A = r.A * r.B; r.a *= r.b; break;
    case 9: r.A += r.A; r.a += Z(r.a); break;
    case 10: r.A -= r.A; r.a = 0; break;
    case 11: std::swap(r.A, r.B); std::swap(r.a, r.b); break;
    case 12: r.A = r.A << 63; r.a *= Pow2(63); break;
    case 13: r.A.AddMultiply(r.A, r.B); r.a += Z(r.a * r.b); break;
    case 14: r.A.SubtractMultiply(r.B, r.B); r.a -= Z(r.b * r.b); break;
    case 15: r.B = r.A.abs(); r.b = r.a < 0 ? Z(-r.a) : r.a; break;
  }
}

void Explore(Explorer& ex) {
  std::vector<Z> big = Values(ex.thorough, true), small = Values(ex.thorough, false);
  ex.Section("unary");
  for (const Z& z : big) for (int d = -2; d <= 2; ++d) {
    Z v = z + d;
    ex.Case([&] { return Hex(v); }, [&] { ex.Op(30); ex.State(HashZ(v)); Unary(v); });
  }
  for (unsigned bit = 0; bit < 330; ++bit) for (int s = -1; s <= 1; s += 2) for (int d = -1; d <= 1; ++d) {
    Z v = Pow2(bit) * s + d;
    ex.Case([&] { return Hex(v); }, [&] { ex.Op(30); ex.State(HashZ(v)); Unary(v); });
  }
  ex.Section("extreme_values");
  for (unsigned n = 0; n < 330; ++n) {
    ex.Case([&] { return std::to_string(n); }, [&] {
      ex.Op(2);
      CheckSame(BigInt::max_value(n), Pow2(n) - 1, "max_value");
      CheckSame(BigInt::min_value(n), -Pow2(n), "min_value");
      BigInt v = BigInt::max_value(n); ++v; CheckSame(v, Pow2(n), "max_value+1");
      v = BigInt::min_value(n); --v; CheckSame(v, -Pow2(n) - 1, "min_value-1");
    });
  }
  ex.Section("int_operand");
  const int ks[] = {0, 1, -1, 2, -2, 10, INT32_MAX, INT32_MAX - 1, INT32_MIN, INT32_MIN + 1, 65536};
  for (const Z& z : big) for (int k : ks) {
    ex.Case([&] { return Hex(z) + " , " + std::to_string(k); }, [&] { ex.Op(14); ex.State(mc::HashAdd(HashZ(z), k)); Ints(z, k); });
  }
  ex.Section("pairs");
  for (const Z& a : big) {
    for (const Z& b : big) {
      ex.Case([&] { return Hex(a) + " , " + Hex(b); }, [&] { ex.Op(26); ex.State(mc::HashAdd(HashZ(a), HashZ(b))); Pair(a, b); });
    }
  }
  ex.Section("powers");
  for (unsigned i = 0; i < 200; i += 1) for (unsigned j = i; j < 200; j += (ex.thorough ? 1 : 3)) for (int s = 0; s < 16; ++s) {
    Z a = Pow2(i) * ((s & 1) ? -1 : 1) - ((s >> 2) & 1), b = Pow2(j) * ((s & 2) ? -1 : 1) - ((s >> 3) & 1);
    ex.Case([&] { return Hex(a) + " , " + Hex(b); }, [&] { ex.Op(26); ex.State(mc::HashAdd(HashZ(a), HashZ(b))); Pair(a, b); Pair(b, a); });
  }
  ex.Section("triples");
  for (const Z& a : small) for (const Z& b : small) for (const Z& c : small) {
    ex.Case([&] { return Hex(a) + " , " + Hex(b) + " , " + Hex(c); }, [&] {
      ex.Op(6); ex.State(mc::HashAdd(mc::HashAdd(HashZ(a), HashZ(b)), HashZ(c)));
      BigInt x = ToB(a), y = ToB(b), z = ToB(c);
      { BigInt t = x; t.AddMultiply(y, z); CheckSame(t, a + b * c, "AddMultiply"); }
      { BigInt t = x; t.SubtractMultiply(y, z); CheckSame(t, a - b * c, "SubtractMultiply"); }
      CheckValue(BigInt::Determinant(x, y, z, x), a * a - b * c, "Determinant");
      CheckValue((x + y) + z, a + b + c, "sum"); MC_CHECK((x + y) + z == x + (y + z)); MC_CHECK((x - y) * z == x * z - y * z);
      bool h = true;
      for (const Z* q : {&a, &b, &c}) h = h && *q >= -Pow2(31) && *q < Pow2(31);
      MC_CHECK(BigInt::AllHalfWords(x, y, z) == h) << "AllHalfWords3";
    });
  }
  // Every pair of sizes up to 24 (48) words: the operands of deep trees have
  // many words.
  ex.Section("sizes");
  const unsigned most = ex.thorough ? 48 : 24;
  for (unsigned n = 1; n <= 100; ++n)
    ex.Case([&] { return std::to_string(n) + " words"; }, [&] {
      for (const Z& a : PatternsOfSize(n, true)) for (int s = -1; s <= 1; s += 2) for (int d = -1; d <= 1; ++d) { ex.Op(30); ex.State(HashZ(a * s + d)); Unary(a * s + d); }
    });
  for (unsigned n = 1; n <= most; ++n) for (unsigned m = 1; m <= most; ++m)
    ex.Case([&] { return std::to_string(n) + " and " + std::to_string(m) + " words"; }, [&] {
      for (const Z& a : PatternsOfSize(n, true)) for (const Z& b : PatternsOfSize(m, ex.thorough)) for (int s = 0; s < 4; ++s) {
        ex.Op(26); ex.State(mc::HashAdd(HashZ(a), HashZ(b) + s));
        Pair(s & 1 ? Z(-a) : a, s & 2 ? Z(-b) : b);
      }
    });
  // Fused operations onto accumulators of other sizes.
  for (unsigned n = 1; n <= most / 2; ++n) for (unsigned m = 1; m <= most / 2; ++m) for (unsigned k = 1; k <= most; k += 1)
    ex.Case([&] { return std::to_string(k) + " words plus a product of " + std::to_string(n) + " and " + std::to_string(m) + " words"; }, [&] {
      for (const Z& a : PatternsOfSize(n, false)) for (const Z& b : PatternsOfSize(m, false)) for (const Z& c : {Z(Pow2(64 * k) - 1), Z(Pow2(64 * k - 1)), Z(-Pow2(64 * k - 1))}) {
        ex.Op(2);
        const BigInt x = ToB(a), y = ToB(b);
        { BigInt t = ToB(c); t.AddMultiply(x, y); CheckValue(t, c + a * b, "AddMultiply"); }
        { BigInt t = ToB(c); t.SubtractMultiply(x, y); CheckValue(t, c - a * b, "SubtractMultiply"); }
      }
    });
  words::ExploreWords(ex);
  ex.Section("histories");
  const Z starts[][2] = {{0, 1}, {Pow2(63) - 1, 1}, {-Pow2(63), Pow2(32)}, {Pow2(31) - 1, -Pow2(31)}, {Pow2(127) - 1, -1}, {-Pow2(64), Pow2(64) - 1}};
  const int depth = ex.thorough ? 5 : 4;
  for (auto& st : starts) {
    int total = 1;
    for (int i = 0; i < depth; ++i) total *= kNumOps;
    for (int code = 0; code < total; ++code) {
      ex.Case([&] {
        std::string s = "A=" + Hex(st[0]) + " B=" + Hex(st[1]) + ":";
        int c = code;
        for (int i = 0; i < depth; ++i) { s += std::string(" ") + kOps[c % kNumOps] + ";"; c /= kNumOps; }
        return s;
      }, [&] {
        Regs r{ToB(st[0]), ToB(st[1]), st[0], st[1]};
        int c = code;
        for (int i = 0; i < depth; ++i) {
          ex.Op();
          Apply(r, c % kNumOps);
          c /= kNumOps;
          CheckSame(r.A, r.a, "A"); CheckSame(r.B, r.b, "B");
          ex.State(mc::HashAdd(HashZ(r.a), HashZ(r.b)));
        }
      });
    }
  }
}
