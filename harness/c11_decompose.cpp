// C11: polygons are decomposed into convex pieces that cover them exactly.
#include <list>
#include "loops.h"
#include "walnut/convex_polygon_factory.h"
#include "walnut/point3_with_vertex_data.h"
using namespace loops;

struct Mark : public walnut::EdgeInfoRoot {   // which input vertex an edge starts at
  Mark() {}
  explicit Mark(int id) : id(id) {}
  int id = -1;
};
typedef walnut::Point3WithVertexData<Mark> DPoint;

template <class In, class Out> class Collect : public walnut::ConvexPolygonFactory<In, Out> {
 public:
  std::vector<Out> out;
  void Emit(Out&& p) override { out.push_back(std::move(p)); }
};
template <class In> struct DefaultFactory : public walnut::ConvexPolygonFactory<In> {
  typedef walnut::ConvexPolygonFactory<In> Parent;
  std::vector<typename Parent::ConvexPolygonRep> out;
  void Emit(typename Parent::ConvexPolygonRep&& p) override { out.push_back(std::move(p)); }
};
struct Factories {
  DefaultFactory<walnut::Point3> plain;
  DefaultFactory<walnut::HomoPoint3> homo;
  Collect<DPoint, walnut::MutableConvexPolygon<Mark>> data;
};
static void RunLoop(Explorer& ex, Factories& fs, const Loop3& loop, const Expect& e, int kind, uint64_t h) {
  static const int only = getenv("VERIF_ONLY") ? atoi(getenv("VERIF_ONLY")) : 0;
  if (only && only != 1 + e.simple + e.oriented) return;
  static const bool trace = getenv("VERIF_TRACE") != nullptr;
  if (trace) std::cerr << "loop " << T3(loop) << " simple and monotone " << e.oriented << std::endl;
  if (kind == 0) {
    std::vector<walnut::Point3> v; for (auto& p : loop) v.push_back(walnut::Point3(int(p.x), int(p.y), int(p.z)));
    fs.plain.out.clear();
    fs.plain.Build(v.begin(), v.end());
    CheckPieces(ex, fs.plain.out, loop, e);
  } else if (kind == 1) {
    std::vector<walnut::HomoPoint3> v; size_t i = 0;
    for (auto& p : loop) { Z s = Wt(int(h % 3) + 1, i++); v.push_back(walnut::HomoPoint3(orc::ToB(p.x * s), orc::ToB(p.y * s), orc::ToB(p.z * s), orc::ToB(s))); }
    fs.homo.out.clear();
    fs.homo.Build(v.begin(), v.end());
    CheckPieces(ex, fs.homo.out, loop, e);
  } else {
    std::list<DPoint> v; int i = 0; for (auto& p : loop) v.push_back(DPoint(int(p.x), int(p.y), int(p.z), Mark(i++)));
    fs.data.out.clear();
    fs.data.Build(v.begin(), v.end());
    CheckPieces(ex, fs.data.out, loop, e);
    for (auto& p : fs.data.out) for (size_t k = 0; k < p.vertex_count(); ++k) {
      int id = p.const_edge(k).id;
      MC_CHECK(id >= 0 && size_t(id) < loop.size() && Index({loop[id]}, p.vertex(k)) == 0) << "vertex " << k << " carries the data of input vertex " << id << ", loop " << T3(loop);
    }
  }
}
void Explore(Explorer& ex) {
  // All vertex sequences over a grid, by their first two or three points.
  auto sequences = [&](const char* name, int nx, int ny, size_t lo, size_t hi, bool repeats, size_t prefix, uint64_t step) {
    ex.Section(name);
    std::vector<std::pair<I, I>> g; for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) g.push_back({x, y});
    size_t np = 1; for (size_t i = 0; i < prefix; ++i) np *= g.size();
    for (size_t fi = 0; fi < AllFrames().size(); ++fi) for (int kind = 0; kind < 3; ++kind) for (size_t pre = 0; pre < np; ++pre) {
      std::vector<int> seq; bool ok = true;
      for (size_t i = 0, r = pre; i < prefix; ++i, r /= g.size()) { int k = int(r % g.size()); if (!repeats && std::find(seq.begin(), seq.end(), k) != seq.end()) ok = false; seq.push_back(k); }
      if (!ok) continue;
      ex.Case([&] { std::ostringstream o; o << "loops in frame " << AllFrames()[fi].name << " kind " << kind << " starting with "; for (int k : seq) o << "(" << g[k].first << "," << g[k].second << ")"; return o.str(); }, [&] {
        const Frame& f = AllFrames()[fi];
        Factories fs;
        std::vector<int> s = seq;
        uint64_t count = 0;
        std::function<void()> rec = [&] {
          if (s.size() >= lo) {
            uint64_t id = ((pre * 131 + fi) * 7 + kind) * 1000003 + count++;
            if (mc::Mix(id) % step == 0) {
              Loop3 l; for (int k : s) l.push_back(At(f, g[k].first, g[k].second, 0));
              ex.State(mc::HashAdd(mc::HashStr(T3(l)), kind));
              Expect e = ExpectOf(l, N(f));
              RunLoop(ex, fs, l, e, kind, mc::Mix(count));
            }
          }
          if (s.size() == hi) return;
          for (int k = 0; k < int(g.size()); ++k) {
            if (!repeats && std::find(s.begin(), s.end(), k) != s.end()) continue;
            s.push_back(k); rec(); s.pop_back();
          }
        };
        rec();
      });
    }
  };
  // Loops in space: planar ranges are cut off along chords, the pieces still add up to the loop.
  auto spatial = [&](const char* name, size_t hi, uint64_t step) {
    ex.Section(name);
    std::vector<V> g;
    for (int i = 0; i < 8; ++i) g.push_back({i & 1 ? 3 : 0, i & 2 ? 2 : 0, i & 4 ? 5 : 1});
    g.push_back({1, 1, 1}); g.push_back({1, 2, 3});
    for (int kind = 0; kind < 3; ++kind) for (size_t a = 0; a < g.size(); ++a) for (size_t b = 0; b < g.size(); ++b) {
      if (a == b) continue;
      ex.Case([&] { std::ostringstream o; o << "loops in space, kind " << kind << " starting with " << geo::T(g[a]) << geo::T(g[b]); return o.str(); }, [&] {
        Factories fs;
        std::vector<size_t> s = {a, b};
        uint64_t count = 0;
        std::function<void()> rec = [&] {
          if (s.size() >= 3 && mc::Mix(((a * 16 + b) * 8 + kind) * 1000003 + count++) % step == 0) {
            Loop3 l; for (size_t k : s) l.push_back(g[k]);
            ex.State(mc::HashAdd(mc::HashStr(T3(l)), kind));
            RunLoop(ex, fs, l, {false, {0, 0, 0}, false, false, false}, kind, mc::Mix(count));
          }
          if (s.size() == hi) return;
          for (size_t k = 0; k < g.size(); ++k) if (std::find(s.begin(), s.end(), k) == s.end()) { s.push_back(k); rec(); s.pop_back(); }
        };
        rec();
      });
    }
  };
  // Monotone polygons with long reflex chains: every assignment of the inner positions to the two chains, chains that are
  // bent inwards, straight or bent outwards, and every pattern of small displacements.
  auto chains = [&](const char* name, int n, uint64_t step) {
    ex.Section(name);
    for (size_t fi = 0; fi < AllFrames().size(); ++fi) for (int kind = 0; kind < 3; ++kind) for (int mask = 0; mask < 1 << n; ++mask) {
      ex.Case([&] { return "monotone polygons in frame " + std::string(AllFrames()[fi].name) + " kind " + std::to_string(kind) + ", inner positions on the upper chain " + std::to_string(mask) + " of " + std::to_string(n); }, [&, fi, kind, mask] {
        const Frame& f = AllFrames()[fi];
        Factories fs;
        uint64_t count = 0;
        int top = n + 1;
        for (int lo = -1; lo <= 1; ++lo) for (int up = -1; up <= 1; ++up) for (int noise = 0; noise < 1 << n; ++noise) for (int swap = 0; swap < 2; ++swap) for (int turned = 0; turned < 2; ++turned) {
          uint64_t m = mc::Mix(((uint64_t(mask) * 131 + fi) * 7 + kind) * 1000003 + count++);
          if (m % step) continue;
          std::vector<std::pair<I, I>> l{{0, 0}};
          auto y = [&](int i) { int b = i * (top - i); return mask >> (i - 1) & 1 ? I(40 + up * b + (noise >> (i - 1) & 1)) : I(-20 + lo * b - (noise >> (i - 1) & 1)); };
          for (int i = 1; i <= n; ++i) if (!(mask >> (i - 1) & 1)) l.push_back({i, y(i)});
          l.push_back({top, I((m >> 40) % 3)});
          for (int i = n; i >= 1; --i) if (mask >> (i - 1) & 1) l.push_back({i, y(i)});
          if (turned) std::reverse(l.begin(), l.end());
          std::rotate(l.begin(), l.begin() + (m >> 20) % l.size(), l.end());
          Loop3 l3; for (auto& q : l) l3.push_back(swap ? At(f, q.second, q.first, 0) : At(f, q.first, q.second, 0));
          ex.State(mc::HashAdd(mc::HashStr(T3(l3)), kind));
          Expect e = ExpectOf(l3, N(f));
          RunLoop(ex, fs, l3, e, kind, mc::Mix(count));
        }
      });
    }
  };
  bool t = ex.thorough;
  // Loops with up to 60 (120) vertices, every start vertex.
  ex.Section("long_loops");
  for (int shape = 0; shape < kLongKinds; ++shape) for (int k = 1; k <= (t ? 30 : 15); ++k) for (size_t fi = 0; fi < AllFrames().size(); ++fi) {
    if (!t && (shape + k + fi) % 3) continue;
    ex.Case([=] { return "long loop " + std::to_string(shape) + " of size " + std::to_string(k) + " in frame " + AllFrames()[fi].name; }, [&, shape, k, fi] {
      const Frame& f = AllFrames()[fi];
      Factories fs;
      auto base = LongLoop(shape, k);
      int count = 0;
      for (size_t rot = 0; rot < base.size(); ++rot) for (int mode = 0; mode < 4; ++mode) {
        if (!t && base.size() > 12 && mc::Mix(rot * 4 + mode + fi * 1000) % 4) continue;
        auto l = base; std::rotate(l.begin(), l.begin() + rot, l.end());
        if (mode & 1) std::reverse(l.begin(), l.end());
        Loop3 l3; for (auto& q : l) l3.push_back(mode & 2 ? At(f, q.second, q.first, 0) : At(f, q.first, q.second, 0));
        Expect e = ExpectOf(l3, N(f));
        if (!e.simple) break;
        ex.State(mc::HashStr(T3(l3)));
        RunLoop(ex, fs, l3, e, int(count % 3), mc::Mix(count)); ++count;
      }
    });
  }
  chains("chains5", 5, t ? 2 : 20);
  chains("chains7", 7, t ? 60 : 600);
  if (t) chains("chains9", 9, 3000);
  spatial("spatial", t ? 7 : 6, t ? 10 : 6);
  sequences("distinct_grid3", 3, 3, 3, 6, false, 2, t ? 1 : 30);
  sequences("repeats_grid3", 3, 3, 1, 5, true, 1, 1);
  sequences("repeats_grid32", 3, 2, 6, t ? 8 : 7, true, 2, t ? 60 : 50);
  sequences("distinct_grid3_seven", 3, 3, 7, t ? 8 : 7, false, 2, t ? 120 : 400);
  sequences("distinct_grid4", 4, 3, 5, 6, false, 2, t ? 40 : 1000);
  sequences("strip", 6, 2, 5, 7, false, 2, t ? 600 : 8000);
}
