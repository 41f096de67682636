// Convex polygons enumerated on a 2D grid, embedded in 3D by integer frames,
// with an exact 2D rational oracle for half-plane splits.
#ifndef VERIF_POLYS_H
#define VERIF_POLYS_H
#include "solid.h"
#include "walnut/aabb_convex_polygon.h"
namespace polys {
using geo::I; using geo::W; using geo::V; using geo::H; using solid::OPt;
using orc::Z;
struct Q2 { I x, y, w; };  // (x/w, y/w), w > 0, reduced
inline bool operator==(const Q2& a, const Q2& b) { return a.x == b.x && a.y == b.y && a.w == b.w; }
inline bool operator<(const Q2& a, const Q2& b) { return std::tie(a.x, a.y, a.w) < std::tie(b.x, b.y, b.w); }
inline std::string T(const Q2& q) { std::ostringstream o; o << "(" << q.x << "," << q.y << ")"; if (q.w != 1) o << "/" << q.w; return o.str(); }
typedef std::vector<Q2> Loop;
inline std::string T(const Loop& l) { std::string s; for (auto& q : l) s += T(q); return s; }
inline Q2 Red(W x, W y, W w) {
  if (w < 0) { x = -x; y = -y; w = -w; }
  auto g = [](W a, W b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { W t = a % b; a = b; b = t; } return a; };
  W k = g(g(x, y), w);
  MC_CHECK(k != 0) << "harness: degenerate rational point";
  return {I(x / k), I(y / k), I(w / k)};
}
struct L2 { I a, b, c; };  // a x + b y = c, positive side is >
inline W Eval(const L2& l, const Q2& q) { return W(l.a) * q.x + W(l.b) * q.y - W(l.c) * q.w; }
inline int Side(const L2& l, const Q2& q) { return geo::S(Eval(l, q)); }
inline Q2 Meet(const L2& l, const Q2& p, const Q2& q) {
  W sp = Eval(l, p), sq = Eval(l, q);
  return Red(p.x * sq - q.x * sp, p.y * sq - q.y * sp, p.w * sq - q.w * sp);
}
inline W Turn(const Q2& a, const Q2& b, const Q2& c) {  // sign of the turn a->b->c, exact determinant
  return a.x * (W(b.y) * c.w - W(c.y) * b.w) - a.y * (W(b.x) * c.w - W(c.x) * b.w) + a.w * (W(b.x) * c.y - W(c.x) * b.y);
}
// Twice the signed area as a fraction, exact.
// All vertex loops (counter-clockwise, weakly convex: collinear vertices
// allowed, all vertices used) over subsets of an nx x ny grid.
inline std::vector<Loop> GridLoops(int nx, int ny, size_t max_vertices = 99) {
  std::vector<Loop> r;
  std::vector<Q2> pts;
  for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) pts.push_back({x, y, 1});
  for (unsigned m = 0; m < (1u << pts.size()); ++m) {
    if (__builtin_popcount(m) < 3 || size_t(__builtin_popcount(m)) > max_vertices) continue;
    std::vector<Q2> s;
    for (size_t i = 0; i < pts.size(); ++i) if (m >> i & 1) s.push_back(pts[i]);
    // Order by angle around the centroid, which is strictly inside.
    I n = I(s.size()), sx = 0, sy = 0;
    for (auto& q : s) { sx += q.x; sy += q.y; }
    auto key = [&](const Q2& q) { return std::make_pair(q.x * n - sx, q.y * n - sy); };
    auto half = [](std::pair<I, I> v) { return v.second < 0 || (v.second == 0 && v.first < 0); };
    Loop l = s; bool ok = true;
    std::stable_sort(l.begin(), l.end(), [&](const Q2& p, const Q2& q) {
      auto a = key(p), b = key(q);
      if (half(a) != half(b)) return half(a) < half(b);
      return a.first * b.second - a.second * b.first > 0;
    });
    for (size_t i = 0; i < l.size(); ++i) {
      auto a = key(l[i]), b = key(l[(i + 1) % l.size()]);
      if (a.first * b.second - a.second * b.first == 0 && a.first * b.first + a.second * b.second >= 0) ok = false;
    }
    // Validate: weakly convex, full turn, not all collinear.
    bool any = false;
    for (size_t i = 0; i < l.size(); ++i) {
      for (size_t j = 0; j < l.size(); ++j) { W t = Turn(l[i], l[(i + 1) % l.size()], l[j]); if (t < 0) ok = false; if (t > 0) any = true; }
    }
    if (ok && any) r.push_back(l);
  }
  return r;
}
// Larger polygons (10 or more vertices) so that the bisecting search is used.
inline std::vector<Loop> BigLoops() {
  std::vector<Loop> r;
  auto build = [&](std::vector<std::pair<int, int>> edges) {
    std::sort(edges.begin(), edges.end(), [](std::pair<int, int> a, std::pair<int, int> b) {
      auto half = [](std::pair<int, int> v) { return v.second < 0 || (v.second == 0 && v.first < 0); };
      if (half(a) != half(b)) return half(a) < half(b);
      return a.first * b.second - a.second * b.first > 0;
    });
    Loop l; I x = 0, y = 0;
    for (auto& e : edges) { l.push_back({x, y, 1}); x += e.first; y += e.second; }
    MC_CHECK(x == 0 && y == 0) << "harness: open loop";
    r.push_back(l);
  };
  auto sym = [](std::vector<std::pair<int, int>> h) { size_t n = h.size(); for (size_t i = 0; i < n; ++i) h.push_back({-h[i].first, -h[i].second}); return h; };
  build(sym({{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {2, 1}}));                           // 10
  build(sym({{1, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 1}, {-1, 1}}));                   // 12
  build(sym({{1, 0}, {1, 0}, {1, 1}, {0, 1}, {0, 1}, {-1, 1}, {-1, 1}}));          // 14 with collinear runs
  build(sym({{1, 0}, {1, 0}, {1, 0}, {0, 1}, {0, 1}, {0, 1}}));                    // 12, a square with collinear runs
  build({{1, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {-1, 1}, {-2, 1}, {-4, 1}, {0, -3}});  // 11, one long collinear run
  build({{5, 0}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {-1, 0}, {-1, 0}, {-1, 0}, {-1, 0}, {-1, 0}, {0, -5}});
  build(sym({{1, 0}, {3, 1}, {2, 1}, {1, 1}, {1, 2}, {1, 3}, {0, 1}, {-1, 2}, {-1, 1}, {-2, 1}}));  // 20
  return r;
}
// Convex polygons with 9 to 96 vertices.
inline std::vector<Loop> ManyLoops() {
  std::vector<Loop> r;
  auto half = [](std::pair<I, I> v) { return v.second < 0 || (v.second == 0 && v.first < 0); };
  auto build = [&](std::vector<std::pair<I, I>> e) {
    std::stable_sort(e.begin(), e.end(), [&](std::pair<I, I> a, std::pair<I, I> b) { return half(a) != half(b) ? half(a) < half(b) : a.first * b.second - a.second * b.first > 0; });
    Loop l; I x = 0, y = 0;
    for (auto& v : e) { l.push_back({x, y, 1}); x += v.first; y += v.second; }
    MC_CHECK(x == 0 && y == 0) << "harness: open loop";
    r.push_back(l);
  };
  for (int k = 1; k <= 4; ++k) {
    std::vector<std::pair<I, I>> e;
    for (I a = -k; a <= k; ++a) for (I b = -k; b <= k; ++b) if ((a || b) && std::__gcd(a < 0 ? -a : a, b < 0 ? -b : b) == 1) e.push_back({a, b});
    if (k > 1) build(e);                       // 16, 32, 48
    auto twice = e; twice.insert(twice.end(), e.begin(), e.end());
    build(twice);                              // 16 .. 96, a vertex in the middle of every side
    auto odd = e; odd.push_back({k + 1, 1}); odd.push_back({-k, k + 1}); odd.push_back({-1, -k - 2}); build(odd);
    auto run = e; for (int i = 0; i < 5 * k; ++i) run.push_back({1, 0}); run.push_back({-5 * k, 0}); build(run);  // a long straight run
    run = e; for (int i = 0; i < 4 * k; ++i) run.push_back({-1, 1}); run.push_back({4 * k, -4 * k}); build(run);
  }
  return r;
}
struct Frame { V o, u, v, t; std::string name; };
inline V N(const Frame& f) { return geo::Cross(f.u, f.v); }
inline V At(const Frame& f, I x, I y, I z) { return f.o + f.u * x + f.v * y + f.t * z; }
// Every sign pattern of the normal and of the dropped dimension.
inline const std::vector<Frame>& Frames() {
  static const std::vector<Frame> f = {
    {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, "+z"},
    {{1, 2, 3}, {0, 1, 0}, {1, 0, 0}, {0, 0, 1}, "-z"},
    {{2, -1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 0}, "+x"},
    {{0, 1, 1}, {1, 0, 0}, {0, 0, 1}, {0, 1, 0}, "-y"},
    {{-3, 0, 1}, {1, 0, -1}, {0, 1, -1}, {1, 0, 0}, "+++"},
    {{0, 5, 0}, {1, 2, 0}, {0, 1, 1}, {1, 0, 0}, "2,-1,1"},
    {{-1, -2, -5}, {2, 1, 1}, {-1, 1, 2}, {0, 0, -1}, "1,-5,3"},
    {{7, 0, -2}, {0, -1, 1}, {1, 1, 1}, {1, 0, 0}, "-2,1,1"},
    {{0, 0, -4}, {3, 0, 1}, {0, 2, 1}, {0, 0, 1}, "-2,-3,6"},
    {{0, 0, 0}, {-1, 2, 0}, {0, -1, -2}, {1, 1, 1}, "-4,-2,1"},
  };
  return f;
}
// The half-space of R^3 whose trace in the frame is a x + b y + k t > c, where
// (x, y, t) are frame coordinates.
inline H Lift(const Frame& f, const L2& l, I k) {
  V uxv = geo::Cross(f.u, f.v), vxt = geo::Cross(f.v, f.t), txu = geo::Cross(f.t, f.u);
  I det = I(geo::Dot(uxv, f.t));
  V n = vxt * l.a + txu * l.b + uxv * k;
  I d = l.c * det;
  if (det < 0) { n = n * -1; d = -d; }
  return {n, d + I(geo::Dot(n, f.o))};
}
inline Z Wt(int pattern, size_t i) {  // homogeneous weight of vertex i
  switch (pattern) {
    case 0: return 1;
    case 1: return i % 2 ? Z(-1) : Z(2);
    case 2: return Z(-3);
    case 3: return i % 3 == 0 ? Z(1) : i % 3 == 1 ? Z(-orc::Pow2(63)) : Z(5);
    default: return 1;
  }
}
inline walnut::HomoPoint3 Embed(const Frame& f, const Q2& q, const Z& s = 1) {
  V p = f.o * q.w + f.u * q.x + f.v * q.y;
  return walnut::HomoPoint3(orc::ToB(p.x * s), orc::ToB(p.y * s), orc::ToB(p.z * s), orc::ToB(q.w * s));
}
inline walnut::HalfSpace3 PlaneOf(const Frame& f, bool flip, const Z& s = 1) {
  V n = N(f); I d = I(geo::Dot(n, f.o));
  if (flip) { n = n * -1; d = -d; }
  return walnut::HalfSpace3(orc::ToB(n.x * s), orc::ToB(n.y * s), orc::ToB(n.z * s), orc::ToB(d * s));
}
inline std::vector<int> Drops(const Frame& f) { V n = N(f); std::vector<int> r; for (int i = 0; i < 3; ++i) if (n[i]) r.push_back(i); return r; }
template <class Poly>
inline Poly Make(const Frame& f, const Loop& l, bool cw, int rotate, int drop, int wpat = 0, const Z& pscale = 1) {
  std::vector<walnut::HomoPoint3> v;
  size_t n = l.size();
  for (size_t i = 0; i < n; ++i) { size_t k = (i + rotate) % n; v.push_back(Embed(f, l[cw ? n - 1 - k : k], Wt(wpat, i))); }
  std::rotate(v.begin(), v.begin() + 1, v.end());  // the constructor starts with the last vertex of the list
  return Poly(PlaneOf(f, cw, pscale), drop, v);
}
// Order of the vertices used by Make.
inline Loop Order(const Loop& l, bool cw, int rotate) {
  Loop r; size_t n = l.size();
  for (size_t i = 0; i < n; ++i) { size_t k = (i + rotate) % n; r.push_back(l[cw ? n - 1 - k : k]); }
  return r;
}
inline bool SamePoint(const walnut::HomoPoint3& p, const Frame& f, const Q2& q) {
  Z w = orc::ToZ(p.w());
  if (w == 0) return false;
  V v = f.o * q.w + f.u * q.x + f.v * q.y;
  return orc::ToZ(p.x()) * q.w == v.x * w && orc::ToZ(p.y()) * q.w == v.y * w && orc::ToZ(p.z()) * q.w == v.z * w;
}
// Edge data that records where it came from.
struct Tag : public walnut::EdgeInfoRoot {
  Tag() {}
  Tag(const Tag&) = default;
  explicit Tag(const walnut::EdgeInfoRoot&) {}
  Tag(walnut::RValueKey<Tag> o) noexcept : walnut::EdgeInfoRoot(), tag(o.get().tag), vtag(o.get().vtag) {}
  Tag(const Tag& parent, const walnut::HomoPoint3&) : tag(parent.tag), vtag(-2) {}
  Tag(const Tag& parent, const walnut::PluckerLine&) : tag(-1), vtag(parent.vtag) {}
  Tag(const Tag& parent, const walnut::HomoPoint3&, const walnut::PluckerLine&) : tag(-1), vtag(-2) {}
  bool operator==(const Tag& o) const { return tag == o.tag && vtag == o.vtag; }
  bool operator!=(const Tag& o) const { return !(*this == o); }
  Tag& operator=(const Tag&) = default;
  Tag& operator=(walnut::RValueKey<Tag> o) noexcept { tag = o.get().tag; vtag = o.get().vtag; return *this; }
  walnut::RValueKey<Tag> GetRValueKey() && { return walnut::RValueKey<Tag>(std::move(*this)); }
  bool CanMerge(const Tag& next) const { return tag == next.tag; }
  int tag = 0;    // the edge
  int vtag = 0;   // its source vertex
 protected:
  void Merge(Tag&) {}
  template <typename E> void EdgeMoved(walnut::ConvexPolygon<E>&) {}
};
inline std::ostream& operator<<(std::ostream& o, const Tag& t) { return o << t.tag << "/" << t.vtag; }
}  // namespace polys
#endif
