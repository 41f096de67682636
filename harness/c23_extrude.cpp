// C23: extrusion yields the closed prism of its profile.
#include "loops.h"
#include "walnut/extrude.h"
using namespace loops;

// All coordinates are multiplied by `den` so that the lifted vertices are integers.
static V Read(const walnut::HomoPoint3& p, I den, const Loop3& pts) {
  Z w = orc::ToZ(p.w());
  MC_CHECK(w != 0) << "vertex at infinity";
  Z x = orc::ToZ(p.x()) * den, y = orc::ToZ(p.y()) * den, z = orc::ToZ(p.z()) * den;
  MC_CHECK(x % w == 0 && y % w == 0 && z % w == 0) << "vertex " << p << " is not one of the profile or its translate";
  V v{solid::Small(x / w), solid::Small(y / w), solid::Small(z / w)};
  MC_CHECK(std::find(pts.begin(), pts.end(), v) != pts.end()) << "vertex " << p << " is not one of the profile or its translate";
  return v;
}
struct Key { V n; I d; };
static bool operator<(const Key& a, const Key& b) { return std::tie(a.n.x, a.n.y, a.n.z, a.d) < std::tie(b.n.x, b.n.y, b.n.z, b.d); }
static Key KeyOf(const Loop3& f, V n) {
  I g = solid::Gcd(solid::Gcd(n.x, n.y), n.z);
  H h = solid::Unsided({{n.x / g, n.y / g, n.z / g}, I(geo::Dot(V{n.x / g, n.y / g, n.z / g}, f[0]))});
  return {h.n, h.d};
}
static void Run(Explorer& ex, const Loop3& loop, V dir, I den, bool neg, int wpat, const Expect& e) {
  // The real call.
  std::vector<walnut::HomoPoint3> cap; size_t k = 0;
  for (auto& p : loop) { Z s = Wt(wpat, k++); cap.push_back(walnut::HomoPoint3(orc::ToB(p.x * s), orc::ToB(p.y * s), orc::ToB(p.z * s), orc::ToB(s))); }
  Z sg = neg ? -1 : 1;
  auto mesh = walnut::Extrude(cap, walnut::Vector3(orc::ToB(dir.x * sg), orc::ToB(dir.y * sg), orc::ToB(dir.z * sg)), walnut::BigInt(orc::ToB(den * sg)));
  // The expected oriented faces, as chains per plane.
  Loop3 low, up, pts;
  for (auto& p : loop) { low.push_back(p * den); up.push_back(p * den + dir); }
  pts = low; pts.insert(pts.end(), up.begin(), up.end()); pts = Distinct(pts);
  std::ostringstream what; what << "profile " << T3(loop) << " swept by " << geo::T(dir) << "/" << den;
  auto at = [&](const V& p) { return int(std::find(pts.begin(), pts.end(), p) - pts.begin()); };
  std::map<Key, Chain> want, got;
  std::vector<Loop3> faces = {low, Loop3(up.rbegin(), up.rend())};
  size_t n = loop.size();
  for (size_t i = 0; i < n; ++i) { size_t j = (i + 1) % n; faces.push_back({low[j], low[i], up[i], up[j]}); }
  V cn = LoopNormal(low); if (geo::Zero(cn)) cn = e.n;
  for (size_t i = 0; i < faces.size(); ++i) {
    V fn = i < 2 ? cn : geo::Cross(faces[i][1] - faces[i][0], faces[i][2] - faces[i][1]);
    if (geo::Zero(fn)) continue;   // a side of zero length or along the direction
    Chain& c = want[KeyOf(faces[i], fn)];
    for (size_t j = 0; j < faces[i].size(); ++j) AddEdge(c, pts, at(faces[i][j]), at(faces[i][(j + 1) % faces[i].size()]), 1);
  }
  std::map<std::pair<int, int>, int> half;   // unsplit directed edges
  for (auto& p : mesh) {
    size_t m = p.vertex_count();
    MC_CHECK(m >= 3 && p.IsValidState()) << "invalid polygon " << p << ", " << what.str();
    Loop3 f; for (size_t i = 0; i < m; ++i) f.push_back(Read(p.vertex(i), den, pts));
    geo::ZV hn = geo::ToZV(p.plane().normal()); Z hd = orc::ToZ(p.plane().d());
    V fn = LoopNormal(f);
    MC_CHECK(!geo::Zero(fn) && Points(p.plane().normal(), fn)) << "plane normal disagrees with the vertices of " << p << ", " << what.str();
    for (size_t i = 0; i < m; ++i) {
      const V &a = f[i], &b = f[(i + 1) % m];
      MC_CHECK(geo::ZDot(hn, geo::ZOf(a)) == hd * den) << "vertex off the plane of " << p << ", " << what.str();
      MC_CHECK(!(a == b)) << "repeated vertex in " << p << ", " << what.str();
      for (auto& q : f) MC_CHECK(geo::Dot(geo::Cross(b - a, q - a), fn) >= 0) << "polygon is not convex counter-clockwise " << p << ", " << what.str();
      AddEdge(got[KeyOf(f, fn)], pts, at(a), at(b), 1);
      ++half[{at(a), at(b)}];
    }
    // Orientation of each piece.
    if (geo::Parallel(fn, cn)) {
      if (e.oriented && !geo::Zero(dir) && geo::Dot(dir, cn) != 0) {
        bool bottom = geo::Dot(cn, f[0]) == geo::Dot(cn, low[0]);
        MC_CHECK(geo::Dot(fn, cn) * (bottom ? 1 : -1) > 0) << "cap piece of the wrong orientation " << p << ", " << what.str();
      }
    }
  }
  for (auto it = want.begin(); it != want.end();) { if (it->second.empty()) it = want.erase(it); else ++it; }
  for (auto it = got.begin(); it != got.end();) { if (it->second.empty()) it = got.erase(it); else ++it; }
  // Equal boundary chains in every plane: the mesh and the prism are the same oriented surface, so they wind
  // around every point equally often.
  auto all = [&] { std::ostringstream o; for (auto& p : mesh) o << p << "; "; return o.str(); };
  if (!(want.size() == got.size() && std::equal(want.begin(), want.end(), got.begin(), [](const std::pair<const Key, Chain>& a, const std::pair<const Key, Chain>& b) { return !(a.first < b.first) && !(b.first < a.first) && a.second == b.second; })))
    MC_FAIL() << "the faces are not those of the prism: " << what.str() << " gives " << all();
  // For simple profiles without three collinear vertices neighbours share whole edges.
  if (e.exact_edges && geo::Dot(dir, cn) != 0) for (auto& h : half) {
    int back = half.count({h.first.second, h.first.first}) ? half[{h.first.second, h.first.first}] : 0;
    MC_CHECK(back == h.second) << "edge " << geo::T(pts[h.first.first]) << geo::T(pts[h.first.second]) << " is in " << h.second << " faces and reversed in " << back << ", " << what.str() << " gives " << all();
  }
  ex.Op(1 + mesh.size());
}
// Chords of the caps may pass through another vertex if three vertices are collinear.
static bool Collinear(const Loop3& l) {
  for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k) if (geo::Parallel(l[j] - l[i], l[k] - l[i])) return true;
  return false;
}
void Explore(Explorer& ex) {
  auto sweep = [&](const char* name, int nx, int ny, size_t lo, size_t hi, uint64_t step, bool simple_only) {
    ex.Section(name);
    std::vector<std::pair<I, I>> g; for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) g.push_back({x, y});
    for (size_t fi = 0; fi < AllFrames().size(); ++fi) for (size_t a = 0; a < g.size(); ++a) for (size_t b = 0; b < g.size(); ++b) {
      if (a == b) continue;
      ex.Case([&] { std::ostringstream o; o << "profiles in frame " << AllFrames()[fi].name << " starting with (" << g[a].first << "," << g[a].second << ")(" << g[b].first << "," << g[b].second << ")"; return o.str(); }, [&] {
        const Frame& f = AllFrames()[fi];
        // Along both normals, oblique, along axes, within the plane and zero.
        V nn = N(f);
        std::vector<V> dirs = {nn, nn * -2, f.t, f.t * -1 + f.u, {1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {2, 3, -5}, {-7, 1, 2}, f.u, f.v * 2 - f.u, {0, 0, 0}};
        std::vector<size_t> s = {a, b};
        uint64_t count = 0;
        std::function<void()> rec = [&] {
          if (s.size() >= lo) {
            uint64_t id = mc::Mix(((a * 16 + b) * 32 + fi) * 1000003 + count++);
            if (id % step == 0) {
              Loop3 l; for (size_t k : s) l.push_back(At(f, g[k].first, g[k].second, 0));
              Expect e = ExpectOf(l, nn);
              if ((e.simple || !simple_only)) {
                e.exact_edges = e.simple && !Collinear(l);
                ex.State(mc::HashStr(T3(l)));
                for (size_t d = 0; d < dirs.size(); ++d) {
                  uint64_t h = mc::Mix(id + d);
                  // Every direction; denominators, its sign and the vertex weights vary with the loop.
                  Run(ex, l, dirs[d], 1 + h % 3, h >> 8 & 1, int(h >> 16 & 3), e);
                }
              }
            }
          }
          if (s.size() == hi) return;
          for (size_t k = 0; k < g.size(); ++k) if (std::find(s.begin(), s.end(), k) == s.end()) { s.push_back(k); rec(); s.pop_back(); }
        };
        rec();
      });
    }
  };
  bool t = ex.thorough;
  sweep("all_loops_3", 3, 3, 3, 4, 1, false);
  sweep("all_loops_5", 3, 3, 5, 5, t ? 3 : 40, false);
  sweep("simple_6", 3, 3, 6, 6, t ? 3 : 40, true);
  sweep("simple_4x3", 4, 3, 5, 6, t ? 40 : 1000, true);
  ex.Section("long_profiles");
  for (int shape = 0; shape < kLongKinds; ++shape) for (int k = 1; k <= (t ? 20 : 10); ++k) for (size_t fi = 0; fi < AllFrames().size(); ++fi) {
    if (!t && (shape + k + fi) % 3) continue;
    ex.Case([=] { return "long profile " + std::to_string(shape) + " of size " + std::to_string(k) + " in frame " + AllFrames()[fi].name; }, [&, shape, k, fi] {
      const Frame& f = AllFrames()[fi];
      V nn = N(f);
      std::vector<V> dirs = {nn, nn * -2, f.t * -1 + f.u, {2, 3, -5}, f.u};
      auto base = LongLoop(shape, k);
      for (size_t rot = 0; rot < base.size(); ++rot) for (int mode = 0; mode < 4; ++mode) {
        uint64_t h = mc::Mix(rot * 4 + mode + fi * 1000 + shape * 77777);
        if (base.size() > 12 && h % (t ? 6 : 20)) continue;
        auto l = base; std::rotate(l.begin(), l.begin() + rot, l.end());
        if (mode & 1) std::reverse(l.begin(), l.end());
        Loop3 l3; for (auto& q : l) l3.push_back(mode & 2 ? At(f, q.second, q.first, 0) : At(f, q.first, q.second, 0));
        Expect e = ExpectOf(l3, nn);
        if (!e.simple) break;
        e.exact_edges = !Collinear(l3);
        ex.State(mc::HashStr(T3(l3)));
        Run(ex, l3, dirs[h % dirs.size()], 1 + (h >> 8) % 3, h >> 16 & 1, int(h >> 24 & 3), e);
      }
    });
  }
}
