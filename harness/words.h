// Exhaustive check of the single word operations that all big integers are
// built from, against the oracle integers. Used with and without the
// compiler's extensions.
#ifndef VERIF_WORDS_H
#define VERIF_WORDS_H
#include "big.h"
namespace words {
using namespace orc;
using walnut::BigIntWord;
typedef BigUIntWord W;
inline Z U(const W& w) { return Z(w.low_uint64()); }
inline Z S(uint64_t v) { Z r = v; if (v >> 63) r -= Pow2(64); return r; }
inline std::vector<uint64_t> Menu(bool big) {
  std::set<uint64_t> s;
  for (int b = 0; b < 64; ++b) for (int d = -1; d <= 1; ++d) { s.insert((uint64_t(1) << b) + d); if (big) s.insert(~((uint64_t(1) << b) + d)); }
  const uint32_t h[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x12345678};
  for (uint32_t a : h) for (uint32_t b : h) s.insert(uint64_t(a) << 32 | b);
  if (!big) {
    std::set<uint64_t> t;
    for (uint32_t a : h) for (uint32_t b : {0u, 1u, 0x80000000u, 0xffffffffu}) t.insert(uint64_t(a) << 32 | b);
    return std::vector<uint64_t>(t.begin(), t.end());
  }
  return std::vector<uint64_t>(s.begin(), s.end());
}
inline void One(uint64_t a) {
  const W x(a);
  unsigned hi = 0, tz = 0;
  for (int b = 0; b < 64; ++b) if (a >> b & 1) hi = b + 1;
  if (a) while (!(a >> tz & 1)) ++tz;
  MC_CHECK(x.GetHighestSetBit() == hi) << "highest set bit " << x.GetHighestSetBit() << " want " << hi;
  MC_CHECK(x.GetHighestSetBitUnaccelerated() == hi) << "plain highest set bit " << x.GetHighestSetBitUnaccelerated() << " want " << hi;
  MC_CHECK(x.GetTrailingZeros() == tz) << "trailing zeros " << x.GetTrailingZeros() << " want " << tz;
  MC_CHECK(x.GetTrailingZerosUnaccelerated() == tz) << "plain trailing zeros " << x.GetTrailingZerosUnaccelerated() << " want " << tz;
  MC_CHECK(x.SignExtension() == W(uint64_t(a >> 63 ? ~uint64_t(0) : 0))) << "sign extension";
  MC_CHECK(BigIntWord(x) == int64_t(a)) << "signed value";
  MC_CHECK(x.low_uint32() == uint32_t(a) && x.low_half_word() == uint32_t(a) && x.high_half_word() == uint32_t(a >> 32) && x.low_uint64() == a) << "halves";
  MC_CHECK((~x).low_uint64() == ~a) << "complement";
  if (a != uint64_t(1) << 63) MC_CHECK(U(x.SignedAbs()) == abs(S(a))) << "absolute value";
  for (int c = 0; c < 2; ++c) {
    bool out = !c;
    Z sum = Z(a) + c, r = U(x.Add(bool(c), &out));
    MC_CHECK(r + (out ? Pow2(64) : Z(0)) == sum) << "plus carry " << c << ": " << Hex(r) << " carry " << out;
    out = !c;
    Z dif = Z(a) - c; r = U(x.Subtract(bool(c), &out));
    MC_CHECK(r - (out ? Pow2(64) : Z(0)) == dif) << "minus borrow " << c << ": " << Hex(r) << " borrow " << out;
  }
  { W t = x; ++t; MC_CHECK(t.low_uint64() == a + 1) << "++"; --t; --t; MC_CHECK(t.low_uint64() == a - 1) << "--"; }
  for (unsigned s = 0; s < 64; ++s) {
    MC_CHECK((x << s).low_uint64() == a << s) << "<< " << s;
    MC_CHECK((x >> s).low_uint64() == a >> s) << ">> " << s;
  }
  for (int s : {-200, -64, -1, 0, 1, 64, 200}) {
    MC_CHECK(x.ToDoubleWithShift(s) == std::ldexp(double(a), s)) << "double scaled by 2^" << s;
    MC_CHECK(x.ToLongDoubleWithShift(s) == std::ldexp((long double)(a), s)) << "long double scaled by 2^" << s;
  }
}
inline void Two(uint64_t a, uint64_t b) {
  const W x(a), y(b);
  bool out;
  Z r;
  const Z M = Pow2(64);
  MC_CHECK(x.Add(y).low_uint64() == a + b && x.Subtract(y).low_uint64() == a - b) << "wrapping sum or difference";
  out = false; r = U(x.Add(y, &out));
  MC_CHECK(r + (out ? M : Z(0)) == Z(a) + b) << "sum " << Hex(r) << " carry " << out;
  out = true; r = U(x.Subtract(y, &out));
  MC_CHECK(r - (out ? M : Z(0)) == Z(a) - b) << "difference " << Hex(r) << " borrow " << out;
  for (int c = 0; c < 2; ++c) {
    out = c; r = U(x.Add(y, bool(c), &out));
    MC_CHECK(r + (out ? M : Z(0)) == Z(a) + b + c) << "sum with carry " << c << ": " << Hex(r) << " carry " << out;
    out = c; r = U(x.Subtract(y, bool(c), &out));
    MC_CHECK(r - (out ? M : Z(0)) == Z(a) - b - c) << "difference with borrow " << c << ": " << Hex(r) << " borrow " << out;
  }
  W high(uint64_t(77));
  r = U(x.Multiply(y, &high));
  MC_CHECK(r + U(high) * M == Z(a) * b) << "product " << Hex(U(high)) << " : " << Hex(r);
  high = W(uint64_t(77)); r = U(x.MultiplySigned(y, &high));
  MC_CHECK(r + S(high.low_uint64()) * M == S(a) * S(b)) << "signed product " << Hex(U(high)) << " : " << Hex(r);
  for (unsigned s = 0; s < 64; ++s) {
    Z want = ((Z(b) << 64) + a) >> s;
    want &= M - 1;
    MC_CHECK(U(x.ShiftRight(y, s)) == want) << "two words >> " << s << ": " << Hex(U(x.ShiftRight(y, s)));
  }
  MC_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b)) << "comparison";
  MC_CHECK(x.Compare(y) == (a < b ? -1 : a > b ? 1 : 0)) << "Compare";
  if (b <= 0xffffffffu) MC_CHECK((x == uint32_t(b)) == (a == b) && (x != uint32_t(b)) == (a != b) && (x < uint32_t(b)) == (a < b) && (x <= uint32_t(b)) == (a <= b)) << "comparison with a half word";
  MC_CHECK((x & y).low_uint64() == (a & b) && (x | y).low_uint64() == (a | b) && (x ^ y).low_uint64() == (a ^ b)) << "bits";
  { W t = x; t += y; MC_CHECK(t.low_uint64() == a + b); t = x; t -= y; MC_CHECK(t.low_uint64() == a - b); t = x; t |= y; MC_CHECK(t.low_uint64() == (a | b));
    t = x; t &= y; MC_CHECK(t.low_uint64() == (a & b)); t = x; t ^= y; MC_CHECK(t.low_uint64() == (a ^ b)); }
  if (b) MC_CHECK((x / y).low_uint64() == a / b && (x % y).low_uint64() == a % b) << "quotient or remainder";
  if (a <= 0xffffffffu && b <= 0xffffffffu) MC_CHECK(x.MultiplyAsHalfWord(y).low_uint64() == a * b && x.MultiplyAsHalfWord(uint32_t(b)).low_uint64() == a * b) << "half word product";
}
inline void Three(uint64_t a, uint64_t b, uint64_t c) {
  for (int k = 0; k < 2; ++k) {
    W high(uint64_t(77));
    Z r = U(W(a).MultiplyAdd(W(b), W(c), bool(k), &high));
    MC_CHECK(r + U(high) * Pow2(64) == Z(a) * b + c + k) << "product plus " << Hex(Z(c)) << " plus " << k << ": " << Hex(U(high)) << " : " << Hex(r);
  }
}
inline void ExploreWords(mc::Explorer& ex) {
  ex.Section("words");
  const std::vector<uint64_t> m = Menu(true), t = Menu(false);
  for (uint64_t a : m)
    ex.Case([a] { return "word " + Hex(Z(a)) + " with every other word"; }, [&, a] {
      One(a);
      for (uint64_t b : m) { Two(a, b); ex.Op(90); ex.State(mc::HashAdd(a, b)); }
    });
  for (uint64_t a : t)
    ex.Case([a] { return "products of " + Hex(Z(a)) + " plus a word"; }, [&, a] {
      for (uint64_t b : t) for (uint64_t c : t) { Three(a, b, c); ex.Op(2); }
    });
}
}  // namespace words
#endif
