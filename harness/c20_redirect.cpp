// C20: redirectable values and the shared vertex mapping.
#include <cmath>
#include "mc.h"
#include "walnut/connected_polygon.h"
#include "walnut/edge_line_connector.h"
#include "walnut/redirectable_value.h"
#include "walnut/vertex_double_point3_mapper.h"
using mc::Explorer;
using walnut::BigInt; using walnut::HomoPoint3; using walnut::HalfSpace3; using walnut::DoublePoint3;
namespace {
int g_alive = 0;
struct Counted {   // owns memory: leaks and double destruction are visible
  int* v;
  Counted() : v(new int(-1)) { ++g_alive; }
  explicit Counted(int x) : v(new int(x)) { ++g_alive; }
  Counted(const Counted& o) : v(new int(*o.v)) { ++g_alive; }
  Counted& operator=(const Counted& o) { *v = *o.v; return *this; }
  ~Counted() { delete v; v = nullptr; --g_alive; }
};
typedef walnut::RedirectableValue<Counted> RV;
const int kSlots = 4;
struct Model {
  bool live[kSlots] = {}; int cls[kSlots]; unsigned dep[kSlots] = {}; int content[kSlots] = {}; int next_value = 10;   // cls: slot of the primary
  unsigned Deps(int i) const { unsigned s = 0, t = dep[i]; while (t & ~s) { s |= t; for (int k = 0; k < kSlots; ++k) if (s >> k & 1) t |= dep[k]; } return s; }
  bool Needed(int i) const { for (int y = 0; y < kSlots; ++y) if (y != i && live[y] && (Deps(y) >> i & 1)) return true; return false; }
};
struct Op { int k, a, b; };
enum { kDefault, kValue, kCopy, kConstCopy, kRedirect, kRedirectPrimary, kWrite, kArrow, kRead, kDestroy };
const char* const kName[] = {"default", "value", "copy", "constcopy", "redirect", "redirectprimary", "write", "writearrow", "read", "destroy"};
bool Legal(const Model& m, const Op& o) {
  switch (o.k) {
    case kDefault: case kValue: return !m.live[o.a];
    case kCopy: case kConstCopy: return !m.live[o.a] && m.live[o.b];
    // Redirecting an entry that others may be reached through leaves open which of them follow.
    case kRedirect: return m.live[o.a] && m.live[o.b] && (m.cls[o.a] == o.a || m.cls[o.a] == m.cls[o.b] || !m.Needed(o.a));
    case kRedirectPrimary: return m.live[o.a] && m.live[o.b];
    case kWrite: case kArrow: case kRead: return m.live[o.a];
    case kDestroy: return m.live[o.a] && !m.Needed(o.a);
  }
  return false;
}
void Apply(Model& m, const Op& o) {
  int a = o.a, b = o.b;
  switch (o.k) {
    case kDefault: m.live[a] = true; m.cls[a] = a; m.dep[a] = 0; m.content[a] = -1; break;
    case kValue: m.live[a] = true; m.cls[a] = a; m.dep[a] = 0; m.content[a] = m.next_value++; break;
    // A copy of a redirected entry needs what that entry needs, but not the entry itself.
    case kCopy: case kConstCopy: m.live[a] = true; m.cls[a] = m.cls[b]; m.dep[a] = m.cls[b] == b ? 1u << b : m.dep[b]; break;
    case kRedirectPrimary: a = m.cls[a];  // fall through
    case kRedirect: {
      if (m.cls[a] == m.cls[b]) { if (m.cls[a] != a) m.dep[a] |= 1u << m.cls[b]; break; }
      int to = m.cls[b];
      if (m.cls[a] == a) { for (int y = 0; y < kSlots; ++y) if (m.live[y] && m.cls[y] == a) { m.cls[y] = to; } }
      else m.cls[a] = to;
      m.dep[a] |= 1u << b | 1u << to; break; }
    case kWrite: case kArrow: m.content[m.cls[a]] = m.next_value++; break;
    case kRead: break;
    case kDestroy: m.live[a] = false; m.dep[a] = 0; break;
  }
}
struct World {
  alignas(RV) unsigned char mem[kSlots][sizeof(RV)]; Model m;
  RV& R(int i) { return *reinterpret_cast<RV*>(mem[i]); }
  World() { memset(mem, 0xAB, sizeof mem); g_alive = 0; }
  void Do(const Op& o) {
    switch (o.k) {
      case kDefault: new (mem[o.a]) RV(); break;
      case kValue: new (mem[o.a]) RV(m.next_value); break;
      case kCopy: new (mem[o.a]) RV(R(o.b)); break;
      case kConstCopy: new (mem[o.a]) RV(static_cast<const RV&>(R(o.b))); break;
      case kRedirect: R(o.a).Redirect(R(o.b)); break;
      case kRedirectPrimary: R(o.a).primary().Redirect(R(o.b)); break;
      case kWrite: *(*R(o.a)).v = m.next_value; break;
      case kArrow: *R(o.a)->v = m.next_value; break;
      case kRead: (void)*(*R(o.a)).v; break;
      case kDestroy: R(o.a).~RV(); memset(mem[o.a], 0xAB, sizeof(RV)); break;
    }
    Apply(m, o);
  }
  // Reads through const access only, which must not depend on (or change) any
  // shortcut taken by mutable reads.
  void Check(Explorer& ex, const std::string& w) {
    ex.Op(); int primaries = 0;
    for (int i = 0; i < kSlots; ++i) if (m.live[i]) {
      const RV& r = R(i); primaries += m.cls[i] == i;
      MC_CHECK(r.IsPrimary() == (m.cls[i] == i)) << "value " << i << (m.cls[i] == i ? " is no longer" : " still is") << " the primary after" << w;
      MC_CHECK(&r.primary() == &R(m.cls[i])) << "value " << i << " follows the wrong primary after" << w;
      MC_CHECK(*(*r).v == m.content[m.cls[i]] && *r->v == m.content[m.cls[i]]) << "value " << i << " reads " << *(*r).v << " instead of " << m.content[m.cls[i]] << " after" << w;
      for (int j = 0; j < kSlots; ++j) if (m.live[j]) MC_CHECK((r == R(j)) == (m.cls[i] == m.cls[j]) && (r != R(j)) == (m.cls[i] != m.cls[j])) << "values " << i << " and " << j << " compare wrong after" << w;
    }
    MC_CHECK(g_alive == primaries) << g_alive << " stored values for " << primaries << " primaries after" << w;
  }
  void Finish(Explorer& ex, const std::string& w) {
    for (bool again = true; again;) { again = false; for (int i = 0; i < kSlots; ++i) { Op o{kDestroy, i, 0}; if (Legal(m, o)) { Do(o); again = true; Check(ex, w + " destroy " + std::to_string(i)); } } }
    for (int i = kSlots; i--;) if (m.live[i] && m.cls[i] != i) { R(i).~RV(); m.live[i] = false; }   // mutual dependants: the primaries last
    for (int i = 0; i < kSlots; ++i) if (m.live[i]) { R(i).~RV(); m.live[i] = false; }
    MC_CHECK(g_alive == 0) << g_alive << " stored values leaked after" << w;
  }
};
// ---- vertex mapping ----
// Representations of one rational point whose floating point images differ.
std::vector<HomoPoint3> Reps(size_t count) {
  auto boundary = [](BigInt num, BigInt den) {
    DoublePoint3 u = HomoPoint3(num, num, num, den).GetDoublePoint3();
    for (int i = 140; i >= 0; --i) if (u == HomoPoint3(num + (BigInt(1) << i), num, num, den).GetDoublePoint3()) num += BigInt(1) << i;
    return num;
  };
  BigInt w(BigInt(37) << 60);
  HomoPoint3 c(boundary(BigInt(251) << 63, w), boundary(BigInt(251) << 62, w), boundary(BigInt(251) << 61, w), w);
  std::vector<HomoPoint3> r = {c}; BigInt mult(7);
  for (int tries = 0; r.size() < count && tries < 300; ++tries, mult *= 7) {
    HomoPoint3 p(c.x() * mult, c.y() * mult, c.z() * mult, c.w() * mult); DoublePoint3 d = p.GetDoublePoint3();
    if (!std::isfinite(d.x)) break;
    bool known = false; for (auto& q : r) known |= q.GetDoublePoint3() == d;
    if (!known) r.push_back(p);
  }
  return r;
}
typedef walnut::ConnectedPolygon<> CPoly;
// A fan of triangles around a vertex, triangle i using representation rep[i].
// With `open` the last and the first triangle are not connected (a slit).
void Fan(const std::vector<HomoPoint3>& reps, const std::vector<int>& rep, bool open, std::vector<CPoly>& out, std::vector<HomoPoint3>& outer) {
  const int k = int(rep.size());
  static const int dirs[6][6][2] = {{}, {}, {}, {{3, 0}, {-2, 3}, {-2, -3}}, {{2, 0}, {0, 2}, {-2, 0}, {0, -2}}, {{2, 0}, {1, 2}, {-2, 1}, {-2, -1}, {1, -2}}};
  const HomoPoint3& c = reps[0];
  outer.clear(); out.clear(); out.reserve(k);
  for (int i = 0; i < k; ++i) outer.push_back(HomoPoint3(c.x() + c.w() * BigInt(64 * dirs[k][i][0]), c.y() + c.w() * BigInt(64 * dirs[k][i][1]), c.z(), c.w()));
  HalfSpace3 plane(BigInt(0), BigInt(0), c.w(), c.z());
  for (int i = 0; i < k; ++i) out.emplace_back(plane, 2, std::vector<HomoPoint3>{outer[i], outer[(i + 1) % k], reps[rep[i]]});
  std::vector<walnut::Deed<CPoly::EdgeRep>> edges;
  for (int i = 0; i < k; ++i) {
    // edge 0: centre to outer[i]; edge 1: outer[i] to outer[i+1]; edge 2: back to the centre.
    if (!(open && i == 0)) edges.emplace_back(&out[i].edge(0));
    if (!(open && i == k - 1)) edges.emplace_back(&out[i].edge(2));
  }
  std::string err; walnut::EdgeLineConnector<> con;
  con.ConnectUnsorted(edges.begin(), edges.end(), 2, [&](const std::string& e) { err += e; });
  MC_CHECK(err.empty()) << "the fan could not be connected: " << err;
}
struct Group { std::vector<DoublePoint3> points; };
}  // namespace
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  ex.Section("redirect");
  {
    std::vector<Op> ops;
    for (int a = 0; a < kSlots; ++a) { for (int k : {kDefault, kValue, kWrite, kArrow, kRead, kDestroy}) ops.push_back({k, a, 0}); for (int b = 0; b < kSlots; ++b) { if (a != b) { ops.push_back({kCopy, a, b}); ops.push_back({kConstCopy, a, b}); } ops.push_back({kRedirect, a, b}); ops.push_back({kRedirectPrimary, a, b}); } }
    // Every history from `live` fresh values onwards.
    for (int live = 0; live <= kSlots; ++live) {
      std::vector<Op> base; Model m; for (int i = 0; i < live; ++i) { Op o{kValue, i, 0}; base.push_back(o); Apply(m, o); }
      for (auto& f : ops) if (Legal(m, f)) { Model m1 = m; Apply(m1, f); for (auto& g : ops) if (Legal(m1, g)) ex.Case([live, f, g] { std::ostringstream o; o << live << " values, " << kName[f.k] << " " << f.a << "," << f.b << ", " << kName[g.k] << " " << g.a << "," << g.b << " and every continuation"; return o.str(); }, [&, base, m1, f, g, live, th] {
        const size_t depth = (th ? 5 : 4) - (live == 1 || live == 2 ? 0 : 0);
        std::vector<Op> h = base; h.push_back(f); h.push_back(g); Model m2 = m1; Apply(m2, g);
        std::function<void(const Model&, size_t)> go = [&](const Model& mm, size_t left) {
          if (left) { for (auto& o : ops) if (Legal(mm, o)) { Model n = mm; Apply(n, o); h.push_back(o); go(n, left - 1); h.pop_back(); } return; }
          World w; std::string t;
          for (auto& o : h) { w.Do(o); t += std::string(" ") + kName[o.k] + " " + std::to_string(o.a) + "," + std::to_string(o.b); if (&o >= &h[base.size()]) w.Check(ex, t); }
          uint64_t s = 0; for (int i = 0; i < kSlots; ++i) s = mc::HashAdd(s, w.m.live[i] ? w.m.cls[i] * 64 + w.m.dep[i] : 999); ex.State(s);
          w.Finish(ex, t);
        };
        go(m2, depth - 2);
      }); }
    }
  }
  // Merging chains of many values: every sequence of merges of five classes.
  ex.Section("merge_trees");
  for (int f = 0; f < 20; ++f) ex.Case([f] { return "merge sequences starting with pair " + std::to_string(f); }, [&ex, f, th] {
    const int n = 5; std::vector<std::pair<int, int>> pairs; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) pairs.push_back({a, b});
    std::vector<int> h = {f}; const size_t depth = th ? 5 : 4;
    std::function<void()> go = [&] {
      if (h.size() < depth) { for (size_t i = 0; i < pairs.size(); ++i) { h.push_back(int(i)); go(); h.pop_back(); } return; }
      g_alive = 0;
      { RV v0(0), v1(1), v2(2), v3(3), v4(4); RV* v[5] = {&v0, &v1, &v2, &v3, &v4}; int cls[5] = {0, 1, 2, 3, 4};
        for (int i : h) { int a = pairs[i].first, b = pairs[i].second; v[a]->primary().Redirect(*v[b]); int x = cls[a], y = cls[b]; for (int& c : cls) if (c == x) c = y; ex.Op(); }
        for (int i = 0; i < n; ++i) { const RV& c = *v[i]; MC_CHECK(*(*c).v == cls[i] && *(**v[i]).v == cls[i]) << "value " << i << " reads " << *(*c).v << " instead of " << cls[i]; for (int j = 0; j < n; ++j) MC_CHECK((*v[i] == *v[j]) == (cls[i] == cls[j])); }
        uint64_t s = 5; for (int c : cls) s = mc::HashAdd(s, c); ex.State(s);
      }
      MC_CHECK(g_alive == 0) << "leaked values";
    };
    go();
  });
  ex.Section("mapper");
  {
    std::vector<HomoPoint3> reps = Reps(4); const int nr = int(reps.size());
    for (int k = 3; k <= 5; ++k) {
      int total = 1; for (int i = 0; i < k; ++i) total *= nr;
      for (int code = 0; code < total; ++code) {
        std::vector<int> rep(k); { int c = code; for (int& r : rep) { r = c % nr; c /= nr; } }
        // Representations up to renaming: the first occurrences are in order (quick tier, five triangles only).
        if (!th && k == 5) { int mx = -1; bool ok = true; for (int r : rep) { if (r > mx + 1) ok = false; mx = std::max(mx, r); } if (!ok) continue; }
        ex.Case([rep] { std::ostringstream o; o << "fan with representations"; for (int r : rep) o << " " << r; return o.str(); }, [&ex, &reps, rep, k] {
          for (int open = 0; open < 2; ++open) for (int how = 0; how < 2; ++how) {
            std::vector<CPoly> tri; std::vector<HomoPoint3> outer; Fan(reps, rep, open, tri, outer);
            std::vector<int> order(k); for (int i = 0; i < k; ++i) order[i] = i;
            do for (int mode = 0; mode < 2; ++mode) {   // centre edges first / each triangle as a whole
              int created = 0;
              auto factory = [&](const DoublePoint3& p) { ++created; Group g; g.points.push_back(p); return g; };
              auto merger = [&](walnut::RedirectableValue<Group>& a, walnut::RedirectableValue<Group>& b) {
                walnut::RedirectableValue<Group>& from = how ? b : a; walnut::RedirectableValue<Group>& to = how ? a : b;
                MC_CHECK(from != to) << "merging a value with itself";
                std::vector<DoublePoint3> pts = from->points; from.Redirect(to); to->points.insert(to->points.end(), pts.begin(), pts.end());
              };
              walnut::VertexDoublePoint3Mapper<decltype(factory), decltype(merger)> mapper(factory, merger);
              auto map = [&](CPoly::EdgeRep& e) {
                auto& r = mapper.Map(e); ex.Op();
                MC_CHECK(r.first == e.vertex().GetDoublePoint3()) << "Map returns the entry of another point";
                auto& again = mapper.Map(e); MC_CHECK(&again == &r) << "mapping an edge again gives another entry";
              };
              for (int i : order) { map(tri[i].edge(0)); if (mode) { map(tri[i].edge(1)); map(tri[i].edge(2)); } }
              if (!mode) for (int i : order) { map(tri[i].edge(2)); map(tri[i].edge(1)); }
              std::ostringstream w; w << (open ? "open" : "closed") << " fan, order"; for (int i : order) w << " " << i; w << (mode ? " by triangle" : " centres first") << (how ? ", merging back" : ", merging forward");
              auto find = [&](const HomoPoint3& p) -> walnut::RedirectableValue<Group>& { auto it = mapper.map.find(p.GetDoublePoint3()); MC_CHECK(it != mapper.map.end()) << w.str() << ": a vertex was never mapped"; return it->second; };
              auto& centre = find(reps[rep[0]]);
              std::vector<DoublePoint3> distinct;
              for (int r : rep) {
                MC_CHECK(find(reps[r]) == centre) << w.str() << ": two representations of the centre (triangles with " << rep[0] << " and " << r << ") have different values";
                DoublePoint3 d = reps[r].GetDoublePoint3(); bool known = false; for (auto& q : distinct) known |= q == d; if (!known) distinct.push_back(d);
              }
              for (int i = 0; i < k; ++i) { MC_CHECK(find(outer[i]) != centre) << w.str() << ": an outer vertex shares the value of the centre"; for (int j = 0; j < i; ++j) MC_CHECK(find(outer[i]) != find(outer[j])) << w.str() << ": two outer vertices share a value"; }
              size_t primaries = 0; for (auto& p : mapper.map) primaries += p.second.IsPrimary();
              MC_CHECK(primaries == size_t(k) + 1) << w.str() << ": " << primaries << " values for " << k + 1 << " vertices";
              MC_CHECK(mapper.map.size() == size_t(k) + distinct.size()) << w.str() << ": wrong number of mapped points";
              // What was created for the centre was merged into its one value, once.
              MC_CHECK(size_t(created) == size_t(k) + centre->points.size()) << w.str() << ": contents of merged values are lost or repeated";
              for (size_t i = 0; i < centre->points.size(); ++i) { bool known = false; for (auto& q : distinct) known |= q == centre->points[i]; MC_CHECK(known) << w.str() << ": a foreign point was merged"; for (size_t j = 0; j < i; ++j) MC_CHECK(centre->points[i] != centre->points[j]) << w.str() << ": a point was merged twice"; }
              ex.State(mc::HashAdd(mc::HashAdd(distinct.size(), created), primaries));
            } while (std::next_permutation(order.begin(), order.end()));
          }
        });
      }
    }
  }
}
