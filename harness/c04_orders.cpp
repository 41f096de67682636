// C04: orderings are strict weak orders that match the geometry they name.
#include "big.h"
#include "walnut/half_space2_sideless_compare.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point2.h"
#include "walnut/homo_point3.h"
#include "walnut/point3.h"
#include "walnut/rational.h"
#include "walnut/vector2.h"
using namespace orc;
using namespace walnut;
using mc::Explorer;

static std::string D(const Z& z) { std::ostringstream o; o << z; return o.str(); }

// A list of items with the class each item denotes and, if the order is
// documented, the rank of that class. `less` is the real comparator.
struct Space {
  std::string name;
  size_t n = 0;
  std::function<bool(size_t, size_t)> less;
  std::function<std::string(size_t)> text;
  std::vector<int> cls;   // items denoting the same thing share a class
  std::vector<int> rank;  // rank of each item, empty if implementation defined
  // The order may only be defined up to the same direction of the classes.
  std::vector<std::vector<uint64_t>> matrix;
  std::vector<char> have;
  const std::vector<uint64_t>& Row(size_t i) {
    if (have.empty()) { have.assign(n, 0); matrix.assign(n, std::vector<uint64_t>()); }
    if (!have[i]) {
      matrix[i].assign((n + 63) / 64, 0);
      for (size_t j = 0; j < n; ++j) if (less(i, j)) matrix[i][j >> 6] |= uint64_t(1) << (j & 63);
      have[i] = 1;
    }
    return matrix[i];
  }
  bool L(size_t i, size_t j) { return (Row(i)[j >> 6] >> (j & 63)) & 1; }
};

static void Run(Explorer& ex, Space& s) {
  ex.Section(s.name);
  for (size_t i = 0; i < s.n; ++i)
    ex.Case([&] { return s.text(i); }, [&] {
      ex.Op(s.n);
      ex.State(mc::HashAdd(mc::HashStr(s.name), i));
      MC_CHECK(!s.L(i, i)) << "an item is less than itself";
      const std::vector<uint64_t> row = s.Row(i);
      for (size_t j = 0; j < s.n; ++j) {
        ex.Beat();
        bool ij = (row[j >> 6] >> (j & 63)) & 1, ji = s.L(j, i);
        MC_CHECK(!(ij && ji)) << "both less than each other: other is " << s.text(j);
        MC_CHECK((!ij && !ji) == (s.cls[i] == s.cls[j])) << (s.cls[i] == s.cls[j] ? "representations of one object are ordered: " : "different objects are equivalent: ") << s.text(j);
        if (!s.rank.empty()) MC_CHECK(ij == (s.rank[i] < s.rank[j])) << "less is " << ij << " but ranks are " << s.rank[i] << " and " << s.rank[j] << "; other is " << s.text(j);
        if (ij) {
          // Transitivity: everything j is less than, i is less than too.
          const std::vector<uint64_t>& rj = s.Row(j);
          for (size_t w = 0; w < rj.size(); ++w)
            if (rj[w] & ~row[w]) {
              size_t k = w * 64 + __builtin_ctzll(rj[w] & ~row[w]);
              MC_FAIL() << "not transitive: < " << s.text(j) << " < " << s.text(k);
            }
        }
      }
    });
}

// Groups items by an exact equality and, optionally, ranks them.
template <class T, class Eq> static std::vector<int> Classes(const std::vector<T>& v, Eq eq) {
  std::vector<int> c(v.size(), -1), reps;
  for (size_t i = 0; i < v.size(); ++i) {
    for (int r : reps) if (eq(v[r], v[i])) { c[i] = c[r]; break; }
    if (c[i] < 0) { c[i] = static_cast<int>(reps.size()); reps.push_back(static_cast<int>(i)); }
  }
  return c;
}
template <class T, class Lt> static std::vector<int> Ranks(const std::vector<T>& v, const std::vector<int>& cls, Lt lt) {
  int m = 0;
  for (int c : cls) m = std::max(m, c + 1);
  std::vector<size_t> rep(m, size_t(-1));
  for (size_t i = 0; i < v.size(); ++i) if (rep[cls[i]] == size_t(-1)) rep[cls[i]] = i;
  std::vector<int> order(m);
  for (int i = 0; i < m; ++i) order[i] = i;
  std::sort(order.begin(), order.end(), [&](int a, int b) { return lt(v[rep[a]], v[rep[b]]); });
  std::vector<int> r(m), out(v.size());
  for (int i = 0; i < m; ++i) r[order[i]] = i;
  for (size_t i = 0; i < v.size(); ++i) out[i] = r[cls[i]];
  return out;
}

struct V2 { Z x, y; };
struct HS2 { Z x, y, d; };
struct HS3 { Z x, y, z, d; };
struct P { Z c[3]; Z w; };
static int Half(const V2& v) { return v.y > 0 || (v.y == 0 && v.x > 0) ? 0 : 1; }
static Z Cr(const V2& a, const V2& b) { return a.x * b.y - a.y * b.x; }
static int CmpQ(const Z& an, const Z& ad, const Z& bn, const Z& bd) {
  Z l = an * bd, r = bn * ad;
  int c = l < r ? -1 : l > r ? 1 : 0;
  return ((ad < 0) != (bd < 0)) ? -c : c;
}

void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  std::vector<Z> scales = {1, 2, Pow2(32) + 1, Pow2(63), Pow2(65) - 3};
  {
    std::vector<V2> v;
    int R = th ? 5 : 4;
    for (int x = -R; x <= R; ++x) for (int y = -R; y <= R; ++y) if (x || y) for (const Z& s : scales) v.push_back({x * s, y * s});
    for (const Z& b : {Pow2(63), Pow2(64), Pow2(127)}) for (int sx = -1; sx <= 1; ++sx) for (int sy = -1; sy <= 1; ++sy) for (int e = -1; e <= 1; ++e) for (int f = -1; f <= 1; ++f)
      if (sx || sy) v.push_back({sx * b + e, sy * b + f});
    std::vector<Vector2> r;
    for (auto& a : v) r.emplace_back(ToB(a.x), ToB(a.y));
    auto text = [&](size_t i) { return "(" + D(v[i].x) + ", " + D(v[i].y) + ")"; };
    Space s;
    s.name = "rotation_compare"; s.n = v.size(); s.text = text;
    s.less = [&](size_t i, size_t j) { return Vector2::RotationCompare()(r[i], r[j]); };
    s.cls = Classes(v, [](const V2& a, const V2& b) { return Cr(a, b) == 0 && a.x * b.x + a.y * b.y > 0; });
    s.rank = Ranks(v, s.cls, [](const V2& a, const V2& b) { return Half(a) != Half(b) ? Half(a) < Half(b) : Cr(a, b) > 0; });
    Run(ex, s);
    Space h;
    h.name = "half_rotation_compare"; h.n = v.size(); h.text = text;
    h.less = [&](size_t i, size_t j) { return Vector2::HalfRotationCompare()(r[i], r[j]); };
    h.cls = Classes(v, [](const V2& a, const V2& b) { return Cr(a, b) == 0; });
    h.rank = Ranks(v, h.cls, [](const V2& a, const V2& b) {
      V2 p = Half(a) ? V2{-a.x, -a.y} : a, q = Half(b) ? V2{-b.x, -b.y} : b;
      return Cr(p, q) > 0; });
    Run(ex, h);
  }
  {
    std::vector<HS2> v;
    for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) if (x || y) for (int d = -2; d <= 2; ++d) {
      for (const Z& s : {Z(1), Z(3), Pow2(64) + 1}) v.push_back({x * s, y * s, d * s});
    }
    std::vector<HalfSpace2> r;
    for (auto& a : v) r.emplace_back(ToB(a.x), ToB(a.y), ToB(a.d));
    Space s;
    s.name = "half_space2_sideless"; s.n = v.size();
    s.text = [&](size_t i) { return D(v[i].x) + "x+" + D(v[i].y) + "y=" + D(v[i].d); };
    s.less = [&](size_t i, size_t j) { return HalfSpace2SidelessCompare()(r[i], r[j]); };
    s.cls = Classes(v, [](const HS2& a, const HS2& b) { return a.x * b.y == a.y * b.x && a.x * b.d == a.d * b.x && a.y * b.d == a.d * b.y; });
    Run(ex, s);
  }
  {
    std::vector<HS3> v;
    int R = th ? 2 : 1;
    for (int x = -R; x <= R; ++x) for (int y = -R; y <= R; ++y) for (int z = -R; z <= R; ++z) if (x || y || z) for (int d = -2; d <= 2; ++d)
      for (const Z& s : {Z(1), Z(2), Pow2(64) + 1}) v.push_back({x * s, y * s, z * s, d * s});
    if (!th) for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int z = -2; z <= 2; ++z)
      if (abs(x) == 2 || abs(y) == 2 || abs(z) == 2) for (int d = -1; d <= 1; ++d) v.push_back({x, y, z, d});
    std::vector<HalfSpace3> r;
    for (auto& a : v) r.emplace_back(ToB(a.x), ToB(a.y), ToB(a.z), ToB(a.d));
    Space s;
    s.name = "half_space3_compare"; s.n = v.size();
    s.text = [&](size_t i) { return D(v[i].x) + "x+" + D(v[i].y) + "y+" + D(v[i].z) + "z=" + D(v[i].d); };
    s.less = [&](size_t i, size_t j) { return HalfSpace3Compare()(r[i], r[j]); };
    s.cls = Classes(v, [](const HS3& a, const HS3& b) {
      return a.x * b.y == a.y * b.x && a.x * b.z == a.z * b.x && a.y * b.z == a.z * b.y && a.x * b.d == a.d * b.x && a.y * b.d == a.d * b.y && a.z * b.d == a.d * b.z &&
             a.x * b.x + a.y * b.y + a.z * b.z > 0; });
    Run(ex, s);
  }
  {
    std::vector<P> v;
    std::vector<Z> cs = {-1, 0, 1, 2};
    std::vector<Z> ws = {1, -1, 2, -3};
    if (th) { cs.push_back(-3); ws.push_back(Pow2(64)); ws.push_back(-Pow2(63)); }
    for (auto& x : cs) for (auto& y : cs) for (auto& z : cs) for (auto& w : ws) v.push_back({{x, y, z}, w});
    for (auto& sc : {Pow2(63), Pow2(64), -Pow2(63), -(Pow2(65) + 1)}) for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) v.push_back({{x * sc, y * sc, z * sc}, sc});
    for (auto& b : {Pow2(62), Pow2(63), Pow2(64)}) for (int e = -1; e <= 1; ++e) for (int k = 0; k < 3; ++k) for (int w : {1, -1}) { P p{{0, 0, 0}, w}; p.c[k] = b + e; v.push_back(p); }
    std::vector<HomoPoint3> r;
    for (auto& a : v) r.emplace_back(ToB(a.c[0]), ToB(a.c[1]), ToB(a.c[2]), ToB(a.w));
    auto cmp = [](const P& a, const P& b, int k) { return CmpQ(a.c[k], a.w, b.c[k], b.w); };
    auto text = [&](size_t i) { return "(" + D(v[i].c[0]) + "," + D(v[i].c[1]) + "," + D(v[i].c[2]) + ")/" + D(v[i].w); };
    std::vector<int> cls = Classes(v, [&](const P& a, const P& b) { return !cmp(a, b, 0) && !cmp(a, b, 1) && !cmp(a, b, 2); });
    Space s;
    s.name = "homo_point3_lexicographic"; s.n = v.size(); s.text = text; s.cls = cls;
    s.less = [&](size_t i, size_t j) { return HomoPoint3::LexicographicallyLt(r[i], r[j]); };
    s.rank = Ranks(v, cls, [&](const P& a, const P& b) { for (int k = 0; k < 3; ++k) if (int c = cmp(a, b, k)) return c < 0; return false; });
    Run(ex, s);
    Space t;
    t.name = "homo_point3_topness"; t.n = v.size(); t.text = text; t.cls = cls;
    t.less = [&](size_t i, size_t j) { return HomoPoint3::TopnessLt(r[i], r[j]); };
    t.rank = Ranks(v, cls, [&](const P& a, const P& b) { for (int k = 2; k >= 0; --k) if (int c = cmp(a, b, k)) return c < 0; return false; });
    Run(ex, t);
    for (int k = 0; k < 3; ++k) {
      std::vector<int> kc = Classes(v, [&](const P& a, const P& b) { return !cmp(a, b, k); });
      std::vector<int> kr = Ranks(v, kc, [&](const P& a, const P& b) { return cmp(a, b, k) < 0; });
      Space c;
      c.name = "homo_point3_compare_component_" + std::to_string(k); c.n = v.size(); c.text = text; c.cls = kc; c.rank = kr;
      c.less = [&](size_t i, size_t j) { return r[i].CompareComponent(k, r[j]) < 0; };
      Run(ex, c);
      Space d = c;
      d.name = "homo_point3_less_component_" + std::to_string(k); d.have.clear();
      d.less = [&](size_t i, size_t j) { return r[i].IsLessThanComponent(k, r[j]); };
      Run(ex, d);
    }
    std::vector<HomoPoint2> r2;
    for (auto& a : v) r2.emplace_back(ToB(a.c[0]), ToB(a.c[1]), ToB(a.w));
    std::vector<int> c2 = Classes(v, [&](const P& a, const P& b) { return !cmp(a, b, 0) && !cmp(a, b, 1); });
    Space u;
    u.name = "homo_point2_lexicographic"; u.n = v.size(); u.text = text; u.cls = c2;
    u.less = [&](size_t i, size_t j) { return HomoPoint2::LexicographicallyLt(r2[i], r2[j]); };
    u.rank = Ranks(v, c2, [&](const P& a, const P& b) { for (int k = 0; k < 2; ++k) if (int c = cmp(a, b, k)) return c < 0; return false; });
    Run(ex, u);
    // Exact points.
    std::vector<Point3> r3;
    for (auto& a : v) r3.emplace_back(ToB(a.c[0]), ToB(a.c[1]), ToB(a.c[2]));
    std::vector<int> c3 = Classes(v, [&](const P& a, const P& b) { return a.c[0] == b.c[0] && a.c[1] == b.c[1] && a.c[2] == b.c[2]; });
    Space q;
    q.name = "point3_lexicographic"; q.n = v.size(); q.text = text; q.cls = c3;
    q.less = [&](size_t i, size_t j) { return Point3::LexicographicallyLt(r3[i], r3[j]); };
    q.rank = Ranks(v, c3, [&](const P& a, const P& b) { for (int k = 0; k < 3; ++k) if (a.c[k] != b.c[k]) return a.c[k] < b.c[k]; return false; });
    Run(ex, q);
    Space q0;
    q0.name = "point3_compare_component"; q0.n = v.size(); q0.text = text;
    q0.less = [&](size_t i, size_t j) { return r3[i].CompareComponent(1, r3[j]) < 0; };
    q0.cls = Classes(v, [&](const P& a, const P& b) { return a.c[1] == b.c[1]; });
    q0.rank = Ranks(v, q0.cls, [&](const P& a, const P& b) { return a.c[1] < b.c[1]; });
    Run(ex, q0);
  }
  {
    std::vector<std::pair<Z, Z>> v;
    std::vector<Z> ns, dn;
    for (int i = -6; i <= 6; ++i) { ns.push_back(i); if (i) dn.push_back(i); }
    for (const Z& b : {Pow2(31), Pow2(63), Pow2(64), Pow2(128)}) for (int e = -1; e <= 1; ++e) for (int s : {-1, 1}) { ns.push_back((b + e) * s); dn.push_back((b + e) * s); }
    for (auto& a : ns) for (auto& b : dn) v.emplace_back(a, b);
    std::vector<std::pair<BigInt, BigInt>> r;
    for (auto& a : v) r.emplace_back(ToB(a.first), ToB(a.second));
    Space s;
    s.name = "rational_less"; s.n = v.size();
    s.text = [&](size_t i) { return D(v[i].first) + "/" + D(v[i].second); };
    s.less = [&](size_t i, size_t j) {
      bool lt = rational::IsLessThan(r[i].first, r[i].second, r[j].first, r[j].second);
      bool eq = rational::Equals(r[i].first, r[i].second, r[j].first, r[j].second);
      MC_CHECK(eq == (v[i].first * v[j].second == v[j].first * v[i].second)) << "rational::Equals of " << D(v[i].first) << "/" << D(v[i].second) << " and " << D(v[j].first) << "/" << D(v[j].second);
      return lt;
    };
    s.cls = Classes(v, [](const std::pair<Z, Z>& a, const std::pair<Z, Z>& b) { return !CmpQ(a.first, a.second, b.first, b.second); });
    s.rank = Ranks(v, s.cls, [](const std::pair<Z, Z>& a, const std::pair<Z, Z>& b) { return CmpQ(a.first, a.second, b.first, b.second) < 0; });
    Run(ex, s);
  }
}
