// Vertex loops (not necessarily convex) in many frames, exact boundary chains and
// checks of the convex pieces made from them.
#ifndef VERIF_LOOPS_H
#define VERIF_LOOPS_H
#include "polys.h"
namespace loops {
using namespace polys;
using mc::Explorer;
struct Frames3 {
  std::vector<Frame> f = Frames();
  Frames3() {
    // More frames whose dropped dimension is y (normal (0,b,c)).
    f.push_back({{1, 0, 0}, {1, 0, 0}, {0, 1, 1}, {0, 0, 1}, "0,-1,1"});
    f.push_back({{0, -2, 0}, {0, 1, 2}, {1, 0, 0}, {0, 0, 1}, "0,2,-1"});
    f.push_back({{0, 0, 3}, {1, 1, 0}, {1, -1, 0}, {0, 0, 1}, "-z45"});
    f.push_back({{0, 0, 3}, {1, 1, 1}, {-1, 1, 1}, {0, 0, 1}, "0,-1,1/45"});
  }
};
inline const std::vector<Frame>& AllFrames() { static Frames3 f; return f.f; }

typedef std::vector<V> Loop3;
inline std::string T3(const Loop3& l) { std::string s; for (auto& p : l) s += geo::T(p); return s; }
typedef std::map<std::pair<int, int>, int> Chain;   // directed edges between point classes
// Edges a->b of the loop, split at every point of `pts` that lies inside.
inline void AddEdge(Chain& c, const Loop3& pts, int a, int b, int k) {
  if (a == b) return;
  V d = pts[b] - pts[a];
  std::vector<std::pair<W, int>> on;
  for (size_t i = 0; i < pts.size(); ++i) {
    V e = pts[i] - pts[a];
    if (!geo::Parallel(e, d)) continue;
    W t = geo::Dot(e, d);
    if (t >= 0 && t <= geo::Dot(d, d)) on.push_back({t, int(i)});
  }
  std::sort(on.begin(), on.end());
  for (size_t i = 0; i + 1 < on.size(); ++i) {
    int x = on[i].second, y = on[i + 1].second, s = k;
    if (x > y) { std::swap(x, y); s = -s; }
    if ((c[{x, y}] += s) == 0) c.erase({x, y});
  }
}
inline Loop3 Distinct(const Loop3& l) { Loop3 r; for (auto& p : l) if (std::find(r.begin(), r.end(), p) == r.end()) r.push_back(p); return r; }
inline int Index(const Loop3& pts, const walnut::HomoPoint3& p) {
  Z w = orc::ToZ(p.w()); if (w == 0) return -1;
  for (size_t i = 0; i < pts.size(); ++i) if (orc::ToZ(p.x()) == pts[i].x * w && orc::ToZ(p.y()) == pts[i].y * w && orc::ToZ(p.z()) == pts[i].z * w) return int(i);
  return -1;
}
// Is the loop a simple polygon (distinct vertices, no touching)?
inline bool Simple(const Loop3& l, const V& n) {
  size_t m = l.size();
  auto turn = [&](const V& a, const V& b, const V& c) { return geo::S(geo::Dot(geo::Cross(b - a, c - a), n)); };
  auto on = [&](const V& a, const V& b, const V& p) { return turn(a, b, p) == 0 && geo::Dot(p - a, p - b) <= 0; };
  for (size_t i = 0; i < m; ++i) {
    const V &a = l[i], &b = l[(i + 1) % m];
    for (size_t j = 0; j < m; ++j) {
      if (j != i && j != (i + 1) % m && on(a, b, l[j])) return false;
      if (j == i || (j + 1) % m == i || (i + 1) % m == j) continue;
      const V &c = l[j], &d = l[(j + 1) % m];
      if (turn(a, b, c) * turn(a, b, d) < 0 && turn(c, d, a) * turn(c, d, b) < 0) return false;
    }
  }
  return true;
}
inline bool Monotone(const Loop3& l, int dim) {
  std::vector<int> dirs; size_t m = l.size();
  for (size_t i = 0; i < m; ++i) { int s = geo::S(l[(i + 1) % m][dim] - l[i][dim]); if (s && (dirs.empty() || dirs.back() != s)) dirs.push_back(s); }
  if (dirs.size() > 1 && dirs.front() == dirs.back()) dirs.pop_back();
  return dirs.size() <= 2;
}
inline V LoopNormal(const Loop3& l) { V r{0, 0, 0}; for (size_t i = 0; i < l.size(); ++i) r = r + geo::Cross(l[i], l[(i + 1) % l.size()]); return r; }

inline bool Points(const walnut::Vector3& d, const V& v) {
  geo::ZV a = geo::ToZV(d), b = geo::ZOf(v);
  return geo::ZZero(geo::ZCross(a, b)) && geo::ZDot(a, b) > 0;
}
// Each piece alone: a valid convex polygon over input vertices.
template <class P>
inline void CheckPiece(const P& p, const Loop3& pts, const Loop3& loop, std::vector<int>& idx) {
  size_t n = p.vertex_count();
  auto all = [&]() { std::ostringstream o; o << "loop " << T3(loop) << " piece "; for (size_t i = 0; i < n; ++i) o << p.vertex(i) << " "; return o.str(); };
  MC_CHECK(n >= 3) << "piece with " << n << " vertices, " << all();
  H h = solid::ReadPlane(p.plane());
  MC_CHECK(!geo::Zero(h.n)) << "piece without a plane, " << all();
  MC_CHECK(p.drop_dimension() >= 0 && p.drop_dimension() < 3 && h.n[p.drop_dimension()] != 0) << "bad drop dimension, " << all();
  idx.clear();
  for (size_t i = 0; i < n; ++i) {
    idx.push_back(Index(pts, p.vertex(i)));
    MC_CHECK(idx.back() >= 0) << "vertex " << i << " is not an input vertex, " << all();
    for (size_t j = 0; j < i; ++j) MC_CHECK(idx[j] != idx[i]) << "vertex used twice, " << all();
    MC_CHECK(geo::Dot(h.n, pts[idx[i]]) == h.d) << "vertex off the plane, " << all();
  }
  bool area = false;
  for (size_t i = 0; i < n; ++i) {
    const V &a = pts[idx[i]], &b = pts[idx[(i + 1) % n]], &c = pts[idx[(i + 2) % n]];
    MC_CHECK(p.const_edge(i).line().IsCoincident(p.vertex(i)) && p.const_edge(i).line().IsCoincident(p.vertex((i + 1) % n))
             && Points(p.const_edge(i).line().d(), b - a)) << "edge line " << i << " is wrong, " << all();
    for (size_t j = 0; j < n; ++j) {
      int s = geo::S(geo::Dot(geo::Cross(b - a, pts[idx[j]] - a), h.n));
      MC_CHECK(s >= 0) << "piece is not convex counter-clockwise, " << all();
      if (s > 0) area = true;
    }
    if (geo::Parallel(b - a, c - b)) MC_CHECK(geo::Dot(b - a, c - b) > 0) << "piece turns back, " << all();
  }
  MC_CHECK(area) << "piece without area, " << all();
  MC_CHECK(p.IsValidState()) << "invalid piece, " << all();
}
struct Expect { bool oriented; V n; bool planar; bool exact_edges; bool simple; };
template <class Ps>
inline void CheckPieces(Explorer& ex, const Ps& out, const Loop3& loop, const Expect& e) {
  Loop3 pts = Distinct(loop);
  auto at = [&](const V& p) { return int(std::find(pts.begin(), pts.end(), p) - pts.begin()); };
  Chain want, got;
  for (size_t i = 0; i < loop.size(); ++i) AddEdge(want, pts, at(loop[i]), at(loop[(i + 1) % loop.size()]), 1);
  std::vector<int> idx;
  std::map<std::pair<int, int>, int> raw;
  for (auto& p : out) {
    CheckPiece(p, pts, loop, idx);
    for (size_t i = 0; i < idx.size(); ++i) AddEdge(got, pts, idx[i], idx[(i + 1) % idx.size()], 1), ++raw[{idx[i], idx[(i + 1) % idx.size()]}];
    if (e.planar) {
      V n = solid::ReadPlane(p.plane()).n;
      MC_CHECK(geo::Parallel(n, e.n)) << "piece in another plane, loop " << T3(loop);
      if (e.oriented) MC_CHECK(geo::Dot(n, e.n) > 0) << "piece of the opposite orientation, loop " << T3(loop);
    }
  }
  if (want != got) {
    std::ostringstream o; for (auto& p : out) { o << "["; for (size_t i = 0; i < p.vertex_count(); ++i) o << p.vertex(i) << " "; o << "]"; }
    MC_FAIL() << "the pieces do not add up to the loop " << T3(loop) << " : " << o.str();
  }
  if (e.exact_edges) {
    // Every edge of the loop is an edge of a piece.
    for (size_t i = 0; i < loop.size(); ++i) {
      std::pair<int, int> k{at(loop[i]), at(loop[(i + 1) % loop.size()])};
      MC_CHECK(raw[k] == 1) << "edge " << i << " of the loop is in " << raw[k] << " pieces, loop " << T3(loop);
    }
  }
  ex.Op(1 + out.size());
}
inline Expect ExpectOf(const Loop3& loop, const V& n) {
  // Mirrors the documented dimensions: drop the first dimension of the normal that is not zero, the chains are
  // monotone in y, or in x if y is dropped.
  Expect e{false, LoopNormal(loop), true, false, false};
  if (geo::Zero(e.n)) e.n = n;
  int drop = n.x ? 0 : n.y ? 1 : 2, mono = drop == 1 ? 0 : 1;
  if (Simple(loop, n) && !geo::Zero(LoopNormal(loop))) { e.simple = true; e.oriented = Monotone(loop, mono); }
  return e;
}
// Simple loops of a kind and size that have many vertices.
const int kLongKinds = 7;
inline std::vector<std::pair<I, I>> LongLoop(int kind, int k) {
  std::vector<std::pair<I, I>> l;
  switch (kind) {
    case 0:  // comb with teeth of different lengths
      l.push_back({0, 0}); l.push_back({4 * k, 0});
      for (int i = k - 1; i >= 0; --i) { l.push_back({4 * i + 3, 3 + i % 3}); l.push_back({4 * i + 2, 9 + i * 7 % 5}); l.push_back({4 * i + 1, 3 + (i + 1) % 3}); }
      break;
    case 1: { // rectangular spiral
      std::vector<std::pair<I, I>> in, out; I x = 0, y = 0; static const int dx[4] = {1, 0, -1, 0}, dy[4] = {0, 1, 0, -1};
      for (int i = 0; i < k; ++i) { out.push_back({x, y}); I len = 4 * (k - i / 2); x += dx[i % 4] * len; y += dy[i % 4] * len; }
      out.push_back({x, y});
      // The inner side: parallel at distance 1.
      for (int i = 0; i <= k; ++i) { int a = i == 0 ? -1 : (i - 1) % 4, b = i == k ? -1 : i % 4; I ox = 0, oy = 0; if (a >= 0) { ox -= dy[a]; oy += dx[a]; } if (b >= 0) { ox -= dy[b]; oy += dx[b]; } in.push_back({out[i].first + ox, out[i].second + oy}); }
      l = out; l.insert(l.end(), in.rbegin(), in.rend());
      break; }
    case 2:  // zigzag band
      for (int i = 0; i <= k; ++i) l.push_back({3 * i, i % 2 ? 5 : i % 3});
      for (int i = k; i >= 0; --i) l.push_back({3 * i, (i % 2 ? 5 : i % 3) + 1});
      break;
    case 3:  // teeth on both sides, monotone
      for (int i = 0; i <= k; ++i) l.push_back({i, -(i * 5 % 7) - 1});
      for (int i = k; i >= 0; --i) l.push_back({i, i * 3 % 7 + 1});
      break;
    case 4:  // steps
      l.push_back({0, 0}); l.push_back({2 * k, 0});
      for (int i = k; i > 0; --i) { l.push_back({2 * i, 3 * (k - i) + 3}); l.push_back({2 * i - 2, 3 * (k - i) + 3}); }
      break;
    case 5:  // star
      for (int i = 0; i < 4; ++i) for (int j = 0; j < k; ++j) {
        I a = 10 * (k - j), b = 10 * j, m = j % 2 ? 1 : 3; a = a * m; b = b * m; if (j == 0) { a += 7 * k; }
        static const int cx[4] = {1, 0, -1, 0};
        l.push_back({cx[i] * a - cx[(i + 3) % 4] * b, cx[(i + 3) % 4] * a + cx[i] * b});
      }
      break;
    case 6:  // two facing combs: bays from above and below
      for (int i = 0; i < k; ++i) { l.push_back({6 * i, 0}); l.push_back({6 * i + 2, 0}); l.push_back({6 * i + 3, 7}); l.push_back({6 * i + 4, 0}); }
      l.push_back({6 * k, 0});
      for (int i = k; i > 0; --i) { l.push_back({6 * i, 10}); l.push_back({6 * i - 1, 10}); l.push_back({6 * i, 1}); l.push_back({6 * i - 4, 9 + i % 2}); }
      break;
  }
  return l;
}
}  // namespace loops
#endif
