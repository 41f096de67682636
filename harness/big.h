// Exact conversions between walnut integers and the independent oracle type
// (boost::multiprecision::cpp_int), going only through the word accessors.
#ifndef VERIF_BIG_H
#define VERIF_BIG_H
#include <boost/multiprecision/cpp_int.hpp>
#include <sstream>
#include <string>
#include <vector>
#include "mc.h"
#include "walnut/big_int.h"
#include "walnut/big_uint.h"

namespace orc {
using Z = boost::multiprecision::cpp_int;
using walnut::BigInt;
using walnut::BigUInt;
using walnut::BigIntWords;
using walnut::BigUIntWord;

inline Z Pow2(unsigned n) { Z r = 1; r <<= n; return r; }

inline Z ToZ(const BigInt& v) {
  size_t n = v.used_words();
  Z r = 0;
  for (size_t i = n; i-- > 0;) { r <<= 64; r |= Z(v.word(i).low_uint64()); }
  if (v.word(n - 1).low_uint64() >> 63) r -= Pow2(64 * n);
  return r;
}
inline Z ToZ(const BigUInt& v) {
  size_t n = v.used_words();
  Z r = 0;
  for (size_t i = n; i-- > 0;) { r <<= 64; r |= Z(v.word(i).low_uint64()); }
  return r;
}
inline size_t WordCount(const Z& v) {  // of the magnitude
  Z m = v < 0 ? Z(-v) : v;
  size_t n = 1;
  while ((m >>= 64) != 0) ++n;
  return n;
}
inline BigUInt ToU(const Z& v) {
  size_t n = WordCount(v);
  BigIntWords w(static_cast<int>(n));
  Z m = v;
  for (size_t i = 0; i < n; ++i) {
    w[i] = BigUIntWord{static_cast<uint64_t>(Z(m & Z(~0ULL)))};
    m >>= 64;
  }
  return BigUInt(w, n);
}
inline BigInt ToB(const Z& v) {
  Z m = v < 0 ? Z(-v) : v;
  BigInt r(ToU(m));
  if (v < 0) r.Negate();
  return r;
}
inline BigInt B(long long v) { return BigInt(static_cast<walnut::BigIntWord>(v)); }
// Shortest two's complement word count.
inline size_t CanonicalWords(const Z& v) {
  const Z m = v < 0 ? Z(-v - 1) : v;
  return m == 0 ? 1 : (msb(m) + 1) / 64 + 1;
}
// Patterns that fill n words: the words on which carries, borrows and the
// estimates of the division turn, at every size.
inline std::vector<Z> PatternsOfSize(unsigned n, bool more) {
  std::vector<Z> r;
  const unsigned b = 64 * n;
  r.push_back(Pow2(b) - 1); r.push_back(Pow2(b - 1)); r.push_back(Pow2(b - 1) - 1);
  Z alt = 0, mix = 0;
  for (unsigned i = 0; i < n; ++i) { alt <<= 64; if (i % 2 == 0) alt |= Z(~uint64_t(0)); mix <<= 64; mix |= Z(0x9e3779b97f4a7c15ull * (i + 1)); }
  r.push_back(alt); r.push_back(mix);
  if (more) { r.push_back(Pow2(b - 1) + 1); r.push_back(Pow2(b) - Pow2(b / 2)); r.push_back(Pow2(b) - 1 - Pow2(b / 2 + 31)); r.push_back(Pow2(b - 64)); }
  return r;
}
inline std::string Hex(const Z& v) {
  std::ostringstream o;
  Z m = v < 0 ? Z(-v) : v;
  o << (v < 0 ? "-0x" : "0x") << std::hex << m;
  return o.str();
}
inline int Sgn(const Z& v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
template <class T> inline int SgnI(T v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
inline uint64_t HashZ(const Z& v) {
  uint64_t h = v < 0 ? 77 : 5;
  Z m = v < 0 ? Z(-v) : v;
  do { h = mc::HashAdd(h, static_cast<uint64_t>(Z(m & Z(~0ULL)))); m >>= 64; } while (m != 0);
  return h;
}
// Value and representation agree with the model.
inline void CheckValue(const BigInt& got, const Z& want, const char* what) {
  Z g = ToZ(got);
  MC_CHECK(g == want) << what << ": got " << Hex(g) << " want " << Hex(want);
  MC_CHECK(got.used_words() == CanonicalWords(want))
      << what << ": value " << Hex(want) << " is stored in " << got.used_words() << " words instead of " << CanonicalWords(want);
}
}  // namespace orc
#endif
