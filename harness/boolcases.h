// Boolean problems shared by the checks of connected output and of
// independence from the partition.
#ifndef VERIF_BOOLCASES_H
#define VERIF_BOOLCASES_H
#include "shapes.h"
namespace solid {
const size_t kNoKd = static_cast<size_t>(-1);
inline const Lattice& Lat() { static Lattice l(-2, 6); return l; }

struct Problem {
  std::vector<Shape> s;
  PlaneSet planes;
  std::vector<Samp> samples;
  std::vector<std::vector<int>> in;  // per shape, per sample
};
// The shapes are in lattice coordinates; an optional affine map with positive
// determinant is applied to everything.
inline Problem MakeProblem(const std::vector<Shape>& shapes, const Mat* m = nullptr) {
  Problem p;
  p.s = shapes;
  for (auto& s : shapes) p.planes = Union(p.planes, PlanesOf(s));
  const Lattice& lat = Lat();
  for (int i : lat.Select(p.planes)) p.samples.push_back(lat.samples[i]);
  for (auto& s : shapes) {
    std::vector<OPoly> mesh; for (auto& f : s.faces) mesh.push_back(FromFace(f));
    std::vector<int> w;
    for (auto& q : p.samples) {
      int k = Winding(mesh, q);
      MC_CHECK(k == 0 || k == 1) << "harness: shape " << s.name << " is not simple";
      w.push_back(k);
    }
    p.in.push_back(w);
  }
  if (m) {
    p.planes.clear();
    for (auto& s : p.s) { s = Mapped(s, *m); p.planes = Union(p.planes, PlanesOf(s)); }
    for (auto& q : p.samples) {
      Mat k = *m; k.o = k.o * q.D;
      V t = Apply(k, {q.x, q.y, q.z}); q = {t.x, t.y, t.z, q.D};
    }
  }
  return p;
}
struct Expr {
  const char* name;
  std::vector<int> inv;
  std::vector<BSPContentId> id;
  std::function<AnyFilter()> f;
  std::function<int(const int*)> want;
  bool parity = false;  // the filter does not fix the facet orientation
};
inline const std::vector<Expr>& Exprs2() {
  static const std::vector<Expr> e = {
    {"union", {0, 0}, {0, 1}, [] { return Or(Pos(0), Pos(1)); }, [](const int* a) { return a[0] | a[1]; }},
    {"intersection", {0, 0}, {0, 1}, [] { return And(Pos(0), Pos(1)); }, [](const int* a) { return a[0] & a[1]; }},
    {"difference", {0, 1}, {0, 1}, [] { return Sub(Pos(0), Neg(1)); }, [](const int* a) { return int(a[0] && !a[1]); }},
    {"symmetric difference", {0, 0}, {0, 1}, [] { return Xor(Pos(0), Pos(1)); }, [](const int* a) { return a[0] ^ a[1]; }, true},
  };
  return e;
}
inline const std::vector<Expr>& Exprs3() {
  static const std::vector<Expr> e = {
    {"(A|B)-C", {0, 0, 1}, {0, 1, 2}, [] { return Sub(Or(Pos(0), Pos(1)), Neg(2)); }, [](const int* a) { return int((a[0] || a[1]) && !a[2]); }},
    {"A-B-C", {0, 1, 1}, {2, 0, 1}, [] { return Sub(Pos(2), And(Neg(0), Neg(1))); }, [](const int* a) { return int(a[0] && !a[1] && !a[2]); }},
    {"union ids", {0, 0, 0}, {0, 1, 2}, [] { return Any(walnut::UnionIdsFilter({0, 1, 2})); }, [](const int* a) { return a[0] | a[1] | a[2]; }},
    {"intersect ids", {0, 0, 0}, {2, 0, 1}, [] { return Any(walnut::IntersectIdsFilter({0, 1, 2})); }, [](const int* a) { return a[0] & a[1] & a[2]; }},
    {"subtract ids", {0, 1, 1}, {1, 2, 0}, [] { return Any(walnut::SubtractIdsFilter({1, 2, 0})); }, [](const int* a) { return int(a[0] && !a[1] && !a[2]); }},
    {"(A&B)|C", {0, 0, 0}, {1, 2, 0}, [] { return Or(And(Pos(1), Pos(2)), Pos(0)); }, [](const int* a) { return (a[0] & a[1]) | a[2]; }},
    {"all under one id, positive", {0, 0, 0}, {0, 0, 0}, [] { return Pos(0); }, [](const int* a) { return a[0] | a[1] | a[2]; }},
    {"two under one id, minus third", {0, 0, 1}, {0, 0, 1}, [] { return Sub(Pos(0), Neg(1)); }, [](const int* a) { return int((a[0] | a[1]) && !a[2]); }},
    {"complement of union, one id", {1, 1, 1}, {0, 0, 0}, [] { return Neg(0); }, [](const int* a) { return -(a[0] | a[1] | a[2]); }},
  };
  return e;
}
inline std::vector<int> Wanted(const Problem& p, const Expr& e) {
  std::vector<int> w;
  for (size_t k = 0; k < p.samples.size(); ++k) {
    std::vector<int> a(std::max<size_t>(4, p.in.size()), 0);
    for (size_t j = 0; j < p.in.size(); ++j) a[j] = p.in[j][k];
    w.push_back(e.want(a.data()));
  }
  return w;
}
inline void Fill(Tree& t, const Problem& p, const Expr& e, const Rep& rep = Rep()) {
  size_t top = 0;
  for (auto i : e.id) top = std::max(top, i);
  for (size_t k = 0; k <= top; ++k) t.AllocateId();
  for (size_t j = 0; j < p.s.size(); ++j) t.AddContents(e.id[j], MakeMesh(e.inv[j] ? Inverted(p.s[j]) : p.s[j], rep));
}
inline void CheckSolid(mc::Explorer& ex, const std::vector<OPoly>& out, const Problem& p, const std::vector<int>& want, const std::string& what, bool parity) {
  for (auto& q : out) {
    CheckOPoly(q, what.c_str());
    MC_CHECK(HasPlane(p.planes, q.plane)) << what << ": output polygon is not on an input plane " << T(q);
  }
  for (size_t i = 0; i < p.samples.size(); ++i) {
    int w = Winding(out, p.samples[i]);
    MC_CHECK(parity ? ((w ^ want[i]) & 1) == 0 : w == want[i]) << what << ": winding number at " << T(p.samples[i]) << " is " << w << " instead of " << want[i] << "; output " << T(out);
  }
  ex.Op(p.samples.size());
}
inline uint64_t HashMesh(const std::vector<OPoly>& m) {
  uint64_t h = 1;
  for (auto& p : m) { uint64_t k = 7; for (auto& q : p.v) k = mc::HashAdd(mc::HashAdd(mc::HashAdd(mc::HashAdd(k, q.x), q.y), q.z), q.w); h += k; }
  return h;
}
inline const std::vector<Mat>& Maps() {
  static const std::vector<Mat> m = {
    {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {0, 0, 0}},
    {{{1, 1, 0}, {-1, 2, 1}, {0, -1, 1}}, {1, 0, -2}},
    {{{2, -1, 1}, {1, 1, 0}, {-1, 1, 3}}, {-1, 2, 0}},
    {{{0, -1, 0}, {1, 0, -1}, {3, 1, 1}}, {0, 0, 0}},
  };
  return m;
}
// --- crowds: many meshes ----------------------------------------------------
struct Cuboid { V lo, hi; };
inline const char* CrowdName(int kind) { static const char* n[] = {"staircase", "copies of one box", "nested boxes", "touching row", "crossing bars", "pairwise disjoint", "boxes of one corner", "row within a row"}; return n[kind]; }
const int kCrowds = 8;
inline std::vector<Cuboid> Crowd(int kind, int count) {
  std::vector<Cuboid> r;
  const I n = count;
  for (I i = 0; i < n; ++i) switch (kind) {
    case 0: r.push_back({{i, i % 2, 0}, {i + 3, i % 2 + 2, 2 + i % 3}}); break;
    case 1: r.push_back({{0, 0, 0}, {1, 2, 3}}); break;
    case 2: r.push_back({{i, i / 2, i / 3}, {3 * n - i, 3 * n - i / 2, 3 * n - i}}); break;
    case 3: r.push_back({{i, 0, 0}, {i + 1, 1, 1}}); break;
    case 4: r.push_back(i % 2 ? Cuboid{{0, i, 0}, {n, i + 2, 1 + i % 3}} : Cuboid{{i, 0, 0}, {i + 2, n, 1 + i % 4}}); break;
    case 5: r.push_back({{2 * i, i % 3, 0}, {2 * i + 1, i % 3 + 1, 1}}); break;
    case 6: r.push_back({{0, 0, 0}, {1 + i, n - i, 1 + (i * 3) % n}}); break;
    case 7: r.push_back(i % 2 ? Cuboid{{i, 1, 1}, {i + 2, 2, 2}} : Cuboid{{i, 0, 0}, {i + 2, 3, 3}}); break;
  }
  return r;
}
// One sample per cell of the arrangement of all facet planes.
inline Problem CrowdProblem(const std::vector<Cuboid>& c, const std::vector<H>& more = {}, const Mat* m = nullptr) {
  Problem p;
  std::set<I> at[3];
  auto get = [](const V& v, int d) { return d == 0 ? v.x : d == 1 ? v.y : v.z; };
  for (auto& b : c) { p.s.push_back(Box(b.lo, b.hi)); for (int d = 0; d < 3; ++d) { at[d].insert(get(b.lo, d)); at[d].insert(get(b.hi, d)); } }
  for (auto& h : more) for (int d = 0; d < 3; ++d) if (I k = get(h.n, d)) at[d].insert(h.d / k);  // axis-aligned
  std::vector<I> mid[3];
  for (int d = 0; d < 3; ++d) {
    std::vector<I> a(at[d].begin(), at[d].end());
    mid[d].push_back(2 * a[0] - 1);
    for (size_t i = 0; i + 1 < a.size(); ++i) mid[d].push_back(a[i] + a[i + 1]);
    mid[d].push_back(2 * a.back() + 1);
  }
  for (I x : mid[0]) for (I y : mid[1]) for (I z : mid[2]) p.samples.push_back({x, y, z, 2});
  for (auto& b : c) {
    std::vector<int> w;
    for (auto& q : p.samples) w.push_back(q.x > 2 * b.lo.x && q.y > 2 * b.lo.y && q.z > 2 * b.lo.z && q.x < 2 * b.hi.x && q.y < 2 * b.hi.y && q.z < 2 * b.hi.z);
    p.in.push_back(w);
  }
  if (m) {
    for (auto& s : p.s) s = Mapped(s, *m);
    for (auto& q : p.samples) { Mat k = *m; k.o = k.o * q.D; V t = Apply(k, {q.x, q.y, q.z}); q = {t.x, t.y, t.z, q.D}; }
  }
  for (auto& s : p.s) p.planes = Union(p.planes, PlanesOf(s));
  return p;
}
inline std::vector<Expr> CrowdExprs(size_t n) {
  std::vector<Expr> r;
  std::vector<BSPContentId> ids; for (size_t i = 0; i < n; ++i) ids.push_back(i);
  const std::vector<int> none(n, 0); std::vector<int> rest(n, 1); rest[0] = 0;
  auto any = [n](const int* a) { int k = 0; for (size_t i = 0; i < n; ++i) k |= a[i]; return k; };
  auto all = [n](const int* a) { int k = 1; for (size_t i = 0; i < n; ++i) k &= a[i]; return k; };
  auto odd = [n](const int* a) { int k = 0; for (size_t i = 0; i < n; ++i) k ^= a[i]; return k; };
  auto minus = [n](const int* a) { int k = a[0]; for (size_t i = 1; i < n; ++i) k &= !a[i]; return k; };
  r.push_back({"union ids", none, ids, [ids] { return Any(walnut::UnionIdsFilter(ids)); }, any});
  r.push_back({"intersect ids", none, ids, [ids] { return Any(walnut::IntersectIdsFilter(ids)); }, all});
  r.push_back({"subtract ids", rest, ids, [ids] { return Any(walnut::SubtractIdsFilter(ids)); }, minus});
  r.push_back({"one id", none, std::vector<BSPContentId>(n, 0), [] { return Pos(0); }, any});
  r.push_back({"one id, odd", none, std::vector<BSPContentId>(n, 0), [] { return Odd(0); }, odd, true});
  r.push_back({"nested union", none, ids, [n] { AnyFilter f = Pos(n - 1); for (size_t i = n - 1; i-- > 0;) f = i % 2 ? Or(f, Pos(i)) : Or(Pos(i), f); return f; }, any});
  r.push_back({"nested exclusive or", none, ids, [n] { AnyFilter f = Pos(0); for (size_t i = 1; i < n; ++i) f = Xor(f, Pos(i)); return f; }, odd, true});
  r.push_back({"nested difference", rest, ids, [n] { AnyFilter f = Pos(0); for (size_t i = 1; i < n; ++i) f = Sub(f, Neg(i)); return f; }, minus});
  return r;
}
}  // namespace solid
#endif
