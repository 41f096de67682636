// Exact geometry oracle on small integers: points are (x,y,z)/w with w > 0,
// planes are n.p = d, all in int64/__int128. Real objects are built from these
// in any chosen representation (scale).
#ifndef VERIF_GEO_H
#define VERIF_GEO_H
#include <array>
#include "big.h"
#include "walnut/half_space2.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point2.h"
#include "walnut/homo_point3.h"
#include "walnut/plucker_line.h"
#include "walnut/point2.h"
#include "walnut/point3.h"
namespace geo {
using orc::Z; using orc::ToB; using orc::ToZ;
typedef long long I;
typedef __int128 W;
inline int S(W v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
struct V { I x, y, z; I operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
inline V operator-(const V& a, const V& b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator+(const V& a, const V& b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator*(const V& a, I s) { return {a.x * s, a.y * s, a.z * s}; }
inline bool operator==(const V& a, const V& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
inline V Cross(const V& a, const V& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline W Dot(const V& a, const V& b) { return W(a.x) * b.x + W(a.y) * b.y + W(a.z) * b.z; }
inline bool Zero(const V& a) { return !a.x && !a.y && !a.z; }
struct P { V v; I w; };  // w > 0
inline bool Same(const P& a, const P& b) { return a.v * b.w == b.v * a.w; }
inline V Diff(const P& a, const P& b) { return a.v * b.w - b.v * a.w; }  // positive multiple of a-b
struct H { V n; I d; };
inline int Side(const H& h, const P& p) { return S(Dot(h.n, p.v) - W(h.d) * p.w); }
inline bool Parallel(const V& a, const V& b) { return Zero(Cross(a, b)); }
inline bool SameDir(const V& a, const V& b) { return Parallel(a, b) && Dot(a, b) > 0; }
inline bool SamePlane(const H& a, const H& b) {
  return Parallel(a.n, b.n) && W(a.n.x) * b.d == W(b.n.x) * a.d && W(a.n.y) * b.d == W(b.n.y) * a.d && W(a.n.z) * b.d == W(b.n.z) * a.d;
}
inline walnut::HomoPoint3 MkP(const P& p, const Z& s) { return walnut::HomoPoint3(ToB(p.v.x * s), ToB(p.v.y * s), ToB(p.v.z * s), ToB(p.w * s)); }
inline walnut::HalfSpace3 MkH(const H& h, const Z& s) { return walnut::HalfSpace3(ToB(h.n.x * s), ToB(h.n.y * s), ToB(h.n.z * s), ToB(h.d * s)); }
inline walnut::Vector3 MkV(const V& v, const Z& s) { return walnut::Vector3(ToB(v.x * s), ToB(v.y * s), ToB(v.z * s)); }
inline std::string T(const V& v) { std::ostringstream o; o << "(" << v.x << "," << v.y << "," << v.z << ")"; return o.str(); }
inline std::string T(const P& p) { std::ostringstream o; o << T(p.v) << "/" << p.w; return o.str(); }
inline std::string T(const H& h) { std::ostringstream o; o << T(h.n) << "=" << h.d; return o.str(); }
inline std::string T(const Z& z) { return orc::Hex(z); }
inline uint64_t Hash(const V& v) { return mc::HashAdd(mc::HashAdd(mc::HashAdd(3, v.x), v.y), v.z); }
inline uint64_t Hash(const P& p) { return mc::HashAdd(Hash(p.v), p.w); }
inline uint64_t Hash(const H& p) { return mc::HashAdd(Hash(p.n), p.d); }
// Checks on real objects, in arbitrary precision.
struct ZV { Z x, y, z; };
inline ZV ToZV(const walnut::Vector3& v) { return {ToZ(v.x()), ToZ(v.y()), ToZ(v.z())}; }
inline Z ZDot(const ZV& a, const ZV& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline ZV ZCross(const ZV& a, const ZV& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline bool ZZero(const ZV& a) { return a.x == 0 && a.y == 0 && a.z == 0; }
inline ZV ZOf(const V& v) { return {v.x, v.y, v.z}; }
inline int PlaneSide(const walnut::HalfSpace3& h, const walnut::HomoPoint3& p) {
  Z w = ToZ(p.w());
  Z e = ZDot(ToZV(h.normal()), ToZV(p.vector_from_origin())) - ToZ(h.d()) * w;
  return w < 0 ? -orc::Sgn(e) : orc::Sgn(e);
}
inline std::vector<V> Grid(int lo, int hi) {
  std::vector<V> r;
  for (int x = lo; x <= hi; ++x) for (int y = lo; y <= hi; ++y) for (int z = lo; z <= hi; ++z) r.push_back({x, y, z});
  return r;
}
}  // namespace geo
#endif
