// C27: neighbour links survive every history of moves and edits.
//
// The model is a list of polygons, each a cyclic list of edge tokens with an
// exact start vertex, a neighbour token and (for some) the deed that must
// follow the edge. The real polygons are connected by the real edge connector
// and driven through the same history.
#include <deque>
#include "shapes.h"
#include "walnut/aabb_convex_polygon.h"
#include "walnut/bsp_polygon.h"
#include "walnut/connected_polygon.h"
#include "walnut/connecting_visitor.h"
#include "walnut/edge_line_connector.h"
using namespace solid;
using mc::Explorer;

static const I kUnit = 64;
static const size_t kNoKd = size_t(-1);

struct MEdge { V v; int partner; int poly; int deed; };  // deed: index or -1
struct MPoly { std::vector<int> e; V n; };
struct Model {
  std::vector<MEdge> edges;
  std::vector<MPoly> slots;
  std::vector<int> deeds;     // edge the deed gives access to, or -1
  size_t open = 0;
};
static uint64_t Hash(const Model& m) {
  uint64_t h = 27;
  for (auto& p : m.slots) {
    h = mc::HashAdd(h, p.e.size());
    for (int e : p.e) { h = mc::HashAdd(h, e); h = mc::HashAdd(h, geo::Hash(m.edges[e].v)); h = mc::HashAdd(h, m.edges[e].partner); }
  }
  for (int d : m.deeds) h = mc::HashAdd(h, d);
  return h;
}

struct MeshDef { std::string name; std::vector<Face> faces; };
static Face Scaled(Face f) { for (auto& v : f) v = v * kUnit; return f; }

template <class P> struct Maker { static P Make(walnut::MutableConvexPolygon<>&& p) { return P(std::move(p)); } };
template <class Q> struct Maker<walnut::BSPPolygon<Q>> {
  static walnut::BSPPolygon<Q> Make(walnut::MutableConvexPolygon<>&& p) { return walnut::BSPPolygon<Q>(3, nullptr, false, std::move(p)); }
};
static walnut::MutableConvexPolygon<> Loop(const Face& f) {
  std::vector<walnut::HomoPoint3> v;
  // The constructor starts the polygon at the last vertex of its argument.
  for (size_t i = 0; i < f.size(); ++i) v.push_back(geo::MkP({f[(i + 1) % f.size()], 1}, 1));
  H h = FacePlane(f);
  int drop = h.n.x ? 0 : h.n.y ? 1 : 2;
  return walnut::MutableConvexPolygon<>(geo::MkH(h, 1), drop, v);
}

struct LineKey { V d; V m; };
static bool operator<(const LineKey& a, const LineKey& b) {
  return std::tie(a.d.x, a.d.y, a.d.z, a.m.x, a.m.y, a.m.z) < std::tie(b.d.x, b.d.y, b.d.z, b.m.x, b.m.y, b.m.z);
}
static LineKey KeyOf(const V& a, const V& b) {
  V d = b - a; I g = Gcd(Gcd(d.x, d.y), d.z); d = {d.x / g, d.y / g, d.z / g};
  I lead = d.x ? d.x : d.y ? d.y : d.z;
  if (lead < 0) d = d * -1;
  return {d, geo::Cross(a, d)};
}

template <class P> struct Rig {
  typedef typename P::EdgeRep E;
  // Declared first so that the deeds are returned before ... the polygons go.
  std::vector<P> polys;
  std::deque<walnut::Deed<E>> deeds;
  Model m;
  size_t errors = 0;

  V Next(int s, size_t k) const { auto& e = m.slots[s].e; return m.edges[e[(k + 1) % e.size()]].v; }
  size_t Pos(int e) const { auto& l = m.slots[m.edges[e].poly].e; for (size_t i = 0; i < l.size(); ++i) if (l[i] == e) return i; MC_FAIL() << "harness: edge lost"; }
  E& Real(int e) { return polys[m.edges[e].poly].edge(Pos(e)); }

  // Connects a set of edges (by token) with the real connector, line by line.
  void Connect(const std::vector<int>& tokens) {
    std::map<LineKey, std::vector<int>> lines;
    for (int t : tokens) { size_t k = Pos(t); lines[KeyOf(m.edges[t].v, Next(m.edges[t].poly, k))].push_back(t); }
    walnut::EdgeLineConnector<E> connector;
    for (auto& l : lines) {
      const V& d = l.first.d;
      int drop = d.y || d.z ? 0 : 1;   // some plane through the line is not parallel to this axis
      std::vector<walnut::Deed<E>> list;
      for (int t : l.second) list.emplace_back(&Real(t));
      connector.ConnectUnsorted(list.begin(), list.end(), drop, [&](const std::string&) { ++errors; });
      while (!list.empty()) list.pop_back();
    }
  }
  // Reads the links of freshly connected edges into the model; they must join
  // opposite edges.
  void ReadLinks(const std::vector<int>& tokens, const std::string& what) {
    std::map<const void*, int> by;
    for (size_t s = 0; s < m.slots.size(); ++s) for (size_t k = 0; k < m.slots[s].e.size(); ++k) by[&polys[s].edge(k)] = m.slots[s].e[k];
    for (int t : tokens) {
      E& r = Real(t);
      m.edges[t].partner = -1;
      if (!r.partner()) continue;
      auto it = by.find(static_cast<E*>(r.partner()));
      MC_CHECK(it != by.end()) << what << ": linked to something that is not an edge";
      int q = it->second;
      MC_CHECK(m.edges[q].v == Next(m.edges[t].poly, Pos(t)) && Next(m.edges[q].poly, Pos(q)) == m.edges[t].v) << what << ": linked edges are not opposite";
      m.edges[t].partner = q;
    }
    for (int t : tokens) if (m.edges[t].partner >= 0) MC_CHECK(m.edges[m.edges[t].partner].partner == t) << what << ": a new link is not mutual";
  }

  Rig(const MeshDef& def, int deed_mod) {
    std::vector<int> all;
    polys.reserve(def.faces.size());
    for (auto& f0 : def.faces) {
      Face f = Scaled(f0);
      polys.push_back(Maker<P>::Make(Loop(f)));
      MPoly mp; mp.n = FaceNormal(f);
      for (auto& v : f) { mp.e.push_back(int(m.edges.size())); all.push_back(int(m.edges.size())); m.edges.push_back({v, -1, int(m.slots.size()), -1}); }
      m.slots.push_back(mp);
    }
    Connect(all);
    ReadLinks(all, "initial connection");
    for (int t : all) if (m.edges[t].partner < 0) ++m.open;
    MC_CHECK((errors > 0) == (m.open > 0)) << def.name << ": " << errors << " errors reported, " << m.open << " edges without a neighbour";
    for (int t : all) if (t % deed_mod == 0) {
      m.edges[t].deed = int(m.deeds.size()); m.deeds.push_back(t);
      deeds.emplace_back(&Real(t));
    }
  }
  ~Rig() {
    // Deeds must outlive nothing: clear them before the polygons are gone.
    while (!deeds.empty()) deeds.pop_back();
  }

  void Check(const std::string& h) {
    for (size_t s = 0; s < m.slots.size(); ++s) {
      const P& p = polys[s];
      const MPoly& mp = m.slots[s];
      MC_CHECK(p.vertex_count() == mp.e.size()) << h << ": polygon " << s << " has " << p.vertex_count() << " vertices, not " << mp.e.size();
      if (mp.e.empty()) continue;
      MC_CHECK(p.IsValidState()) << h << ": polygon " << s << " is invalid";
      geo::ZV n = geo::ToZV(p.plane().normal());
      MC_CHECK(geo::ZZero(geo::ZCross(n, geo::ZOf(mp.n))) && geo::ZDot(n, geo::ZOf(mp.n)) > 0) << h << ": normal of polygon " << s;
      for (size_t k = 0; k < mp.e.size(); ++k) {
        const MEdge& e = m.edges[mp.e[k]];
        const E& r = polys[s].edge(k);
        OPt v = ReadPoint(r.vertex());
        MC_CHECK(v.w == 1 && V({v.x, v.y, v.z}) == e.v) << h << ": vertex " << k << " of polygon " << s << " is not " << geo::T(e.v);
        OPt w = ReadPoint(r.next_vertex());
        MC_CHECK(V({w.x, w.y, w.z}) == Next(int(s), k)) << h << ": next_vertex of edge " << k << " of polygon " << s;
        V d = Next(int(s), k) - e.v;
        geo::ZV rd = geo::ToZV(r.line().d());
        MC_CHECK(geo::ZZero(geo::ZCross(rd, geo::ZOf(d))) && geo::ZDot(rd, geo::ZOf(d)) > 0) << h << ": line of edge " << k << " of polygon " << s;
        MC_CHECK(&r.polygon() == &polys[s]) << h << ": edge " << k << " of polygon " << s << " names another polygon";
        MC_CHECK(r.edge_index() == k) << h << ": edge " << k << " of polygon " << s << " names another position";
        if (e.partner < 0) {
          MC_CHECK(r.partner() == nullptr && r.GetNextAroundVertex() == nullptr) << h << ": edge " << k << " of polygon " << s << " has a neighbour, expected none";
        } else {
          int qs = m.edges[e.partner].poly; size_t qk = Pos(e.partner);
          MC_CHECK(r.partner() == &polys[qs].edge(qk)) << h << ": edge " << k << " of polygon " << s << (r.partner() ? " is linked to the wrong edge" : " lost its neighbour") << ", expected edge " << qk << " of polygon " << qs;
          MC_CHECK(r.GetNextAroundVertex() == &polys[qs].edge((qk + 1) % m.slots[qs].e.size())) << h << ": GetNextAroundVertex of edge " << k << " of polygon " << s;
        }
      }
    }
    for (size_t d = 0; d < deeds.size(); ++d) {
      int t = m.deeds[d];
      if (t < 0) MC_CHECK(deeds[d].get() == nullptr) << h << ": the deed of a removed edge still gives access to something";
      else MC_CHECK(deeds[d].get() == &Real(t)) << h << ": a deed does not follow its edge " << Pos(t) << " of polygon " << m.edges[t].poly;
    }
  }

  // --- model steps ---
  void KillToken(int t) { if (m.edges[t].deed >= 0) m.deeds[m.edges[t].deed] = -1; m.edges[t].deed = -1; }
  void ErasePos(int s, size_t k) { KillToken(m.slots[s].e[k]); m.slots[s].e.erase(m.slots[s].e.begin() + k); }
  // Removes the vertex between positions k and k+1 if the links allow it.
  bool TryDropVertex(int s, size_t k) {
    auto& l = m.slots[s].e;
    int a = l[k], b = l[(k + 1) % l.size()];
    int pa = m.edges[a].partner, pb = m.edges[b].partner;
    if ((pa < 0) != (pb < 0)) return false;
    if (pa >= 0) {
      if (m.edges[pa].poly != m.edges[pb].poly) return false;
      // pb is followed by pa in the neighbour; pb is kept.
      int ps = m.edges[pb].poly;
      auto& pl = m.slots[ps].e;
      size_t kb = Pos(pb);
      MC_CHECK(pl[(kb + 1) % pl.size()] == pa) << "harness: linked edges are not adjacent";
      ErasePos(ps, (kb + 1) % pl.size());
      m.edges[a].partner = pb; m.edges[pb].partner = a;
    }
    ErasePos(s, (k + 1) % l.size());
    return true;
  }
  bool MergeModel(int s, size_t k, int os, size_t ok) {
    MPoly &A = m.slots[s], &B = m.slots[os];
    if (!geo::SameDir(A.n, B.n)) return false;
    size_t na = A.e.size(), nb = B.e.size();
    auto dir = [&](int sl, size_t i) { auto& e = m.slots[sl].e; return m.edges[e[(i + 1) % e.size()]].v - m.edges[e[i % e.size()]].v; };
    V ap = dir(s, k + na - 1), an = dir(s, k + 1), bp = dir(os, ok + nb - 1), bn = dir(os, ok + 1);
    int t1 = SgnW(geo::Dot(geo::Cross(ap, bn), A.n)), t2 = SgnW(geo::Dot(geo::Cross(bp, an), A.n));
    if (t1 < 0 || t2 < 0) return false;
    if (t1 == 0 && geo::Dot(ap, bn) < 0) return false;
    if (t2 == 0 && geo::Dot(bp, an) < 0) return false;
    int je = A.e[k], jo = B.e[ok];
    std::vector<int> ins;
    for (size_t i = 1; i < nb; ++i) ins.push_back(B.e[(ok + i) % nb]);
    KillToken(je); KillToken(jo);
    m.edges[je].partner = m.edges[jo].partner = -1;
    A.e.erase(A.e.begin() + k);
    A.e.insert(A.e.begin() + k, ins.begin(), ins.end());
    B.e.clear();
    for (int t : ins) m.edges[t].poly = s;
    int first = ins.front(), last = ins.back();
    if (t1 == 0) { size_t p = Pos(first); TryDropVertex(s, (p + A.e.size() - 1) % A.e.size()); }
    if (t2 == 0) {
      // `last` may have been dropped if it was also `first`.
      size_t p = 0; bool found = false;
      for (size_t i = 0; i < A.e.size(); ++i) if (A.e[i] == last) { p = i; found = true; }
      MC_CHECK(found) << "harness: last edge vanished";
      TryDropVertex(s, p);
    }
    return true;
  }
};

// One step of a history.
struct Op { enum K { kMerge, kSplit, kResplit, kSort, kSwap, kRoundTrip, kGrow, kFilter, kCopy } k; int a, b; };
static std::string T(const Op& o) {
  static const char* n[] = {"merge", "split", "resplit", "sort", "swap", "roundtrip", "grow", "filter", "copy"};
  std::ostringstream s; s << n[o.k] << "(" << o.a << "," << o.b << ")"; return s.str();
}

template <class P> struct Driver {
  typedef Rig<P> R;
  Explorer& ex;
  const MeshDef& def;
  int deed_mod;
  bool prune;
  std::unordered_map<uint64_t, int> seen;

  // All steps enabled in a state. `wide` includes every relocation.
  static std::vector<Op> Enabled(const R& r, int level, bool wide) {
    std::vector<Op> v;
    const Model& m = r.m;
    int n = int(m.slots.size());
    for (int s = 0; s < n; ++s) for (size_t k = 0; k < m.slots[s].e.size(); ++k) {
      int t = m.slots[s].e[k], q = m.edges[t].partner;
      // A link that no longer matches the whole edge (only one side was
      // divided) can neither be used for joining polygons nor lie next to the
      // joined edge.
      auto whole = [&](int sl, size_t i) {
        size_t c = m.slots[sl].e.size(); i %= c;
        int e = m.slots[sl].e[i], w = m.edges[e].partner;
        return w < 0 || (m.edges[w].v == r.Next(sl, i) && r.Next(m.edges[w].poly, r.Pos(w)) == m.edges[e].v);
      };
      bool match = q >= 0 && m.edges[q].poly != s && whole(s, k);
      if (match) {
        int os = m.edges[q].poly; size_t ok = r.Pos(q), nb = m.slots[os].e.size(), na = m.slots[s].e.size();
        match = whole(s, k + 1) && whole(s, k + na - 1) && whole(os, ok + 1) && whole(os, ok + nb - 1);
      }
      if (match) {
        const V& a = m.slots[s].n; const V& b = m.slots[m.edges[q].poly].n;
        if (geo::SameDir(a, b)) v.push_back({Op::kMerge, s, int(k)});
        else if ((s + int(k)) % 7 == 0) v.push_back({Op::kMerge, s, int(k)});
      }
      V d = r.Next(s, k) - m.edges[t].v;
      if (d.x % 2 || d.y % 2 || d.z % 2) continue;
      if (wide || (s * 3 + int(k) + level) % 4 == 0) v.push_back({Op::kSplit, s, int(k)});
      if (match && q > t && (wide || (s + int(k) + level) % 4 == 0)) v.push_back({Op::kResplit, s, int(k)});
    }
    for (int s = 0; s < n; ++s) {
      if (!m.slots[s].e.empty() && (wide || s % 3 == level % 3)) v.push_back({Op::kSort, s, 0});
      if (wide || s % 5 == level % 5) v.push_back({Op::kRoundTrip, s, 0});
    }
    for (int s = 0; s < n; ++s) for (int t = s + 1; t < n; ++t)
      if (wide ? (t == s + 1 || (s + t) % 3 == 0) : (s * 5 + t + level) % 9 == 0) v.push_back({Op::kSwap, s, t});
    v.push_back({Op::kGrow, 0, 0});
    v.push_back({Op::kFilter, 0, 0});
    v.push_back({Op::kCopy, level, 0});
    return v;
  }
  static void Apply(R& r, const Op& o, const std::string& h) {
    Model& m = r.m;
    switch (o.k) {
      case Op::kMerge: {
        int t = m.slots[o.a].e[o.b], q = m.edges[t].partner;
        int os = m.edges[q].poly; size_t ok = r.Pos(q);
        V d = r.Next(o.a, o.b) - m.edges[t].v;
        int dim = d.x ? 0 : d.y ? 1 : 2;
        if ((o.a & 1) && d[2]) dim = 2;
        Model before = m;
        bool want = r.MergeModel(o.a, o.b, os, ok);
        bool got = r.polys[o.a].TryMergePolygon(dim, o.b, r.polys[os], ok);
        MC_CHECK(got == want) << h << ": merging " << (got ? "succeeds" : "is refused");
        break;
      }
      case Op::kSplit: {
        int t = m.slots[o.a].e[o.b];
        V mid = m.edges[t].v + r.Next(o.a, o.b); mid = {mid.x / 2, mid.y / 2, mid.z / 2};
        m.slots[o.a].e.insert(m.slots[o.a].e.begin() + o.b + 1, int(m.edges.size()));
        m.edges.push_back({mid, -1, o.a, -1});
        r.polys[o.a].SplitEdge(o.b, geo::MkP({mid, 1}, (o.a & 1) ? orc::Z(-3) : orc::Z(1)));
        break;
      }
      case Op::kResplit: {
        // Both sides are divided at the middle and connected again.
        int t = m.slots[o.a].e[o.b], q = m.edges[t].partner;
        int qs = m.edges[q].poly; size_t qk = r.Pos(q);
        V mid = m.edges[t].v + r.Next(o.a, o.b); mid = {mid.x / 2, mid.y / 2, mid.z / 2};
        int t2 = int(m.edges.size()), q2 = t2 + 1;
        m.slots[o.a].e.insert(m.slots[o.a].e.begin() + o.b + 1, t2);
        m.edges.push_back({mid, -1, o.a, -1});
        r.polys[o.a].SplitEdge(o.b, geo::MkP({mid, 1}, 1));
        m.slots[qs].e.insert(m.slots[qs].e.begin() + qk + 1, q2);
        m.edges.push_back({mid, -1, qs, -1});
        r.polys[qs].SplitEdge(qk, geo::MkP({mid, 1}, 2));
        r.Check(h + " (before connecting)");
        size_t errors = r.errors;
        r.Connect({t, t2, q, q2});
        MC_CHECK(r.errors == errors) << h << ": the connector reports matching edges as open";
        m.edges[t].partner = q2; m.edges[q2].partner = t;
        m.edges[t2].partner = q; m.edges[q].partner = t2;
        break;
      }
      case Op::kSort: {
        auto& e = m.slots[o.a].e;
        size_t b = 0;
        for (size_t i = 1; i < e.size(); ++i) { const V &x = m.edges[e[i]].v, &y = m.edges[e[b]].v; if (std::tie(x.x, x.y, x.z) < std::tie(y.x, y.y, y.z)) b = i; }
        std::rotate(e.begin(), e.begin() + b, e.end());
        r.polys[o.a].SortVertices();
        break;
      }
      case Op::kSwap: {
        std::swap(m.slots[o.a], m.slots[o.b]);
        for (int s : {o.a, o.b}) for (int t : m.slots[s].e) m.edges[t].poly = s;
        std::swap(r.polys[o.a], r.polys[o.b]);
        break;
      }
      case Op::kRoundTrip: {
        P tmp(std::move(r.polys[o.a]));
        for (size_t k = 0; k < tmp.vertex_count(); ++k) {
          MC_CHECK(&tmp.edge(k).polygon() == &tmp && tmp.edge(k).edge_index() == k) << h << ": a moved polygon's edges name another polygon";
          if (tmp.edge(k).partner()) MC_CHECK(tmp.edge(k).partner()->partner() == &tmp.edge(k)) << h << ": a neighbour does not follow a moved polygon";
        }
        P other;
        other = std::move(tmp);
        r.polys[o.a] = std::move(other);
        break;
      }
      case Op::kGrow:
        r.polys.reserve(r.polys.capacity() + 1);
        break;
      case Op::kFilter: {
        std::vector<MPoly> kept;
        for (auto& p : m.slots) if (!p.e.empty()) kept.push_back(p);
        m.slots = kept;
        for (size_t s = 0; s < m.slots.size(); ++s) for (int t : m.slots[s].e) m.edges[t].poly = int(s);
        r.polys.erase(std::remove_if(r.polys.begin(), r.polys.end(), [](P& p) { return p.vertex_count() == 0; }), r.polys.end());
        break;
      }
      case Op::kCopy: {
        std::vector<P> c;
        for (size_t s = o.a % 2; s < r.polys.size(); s += 2) {
          P x(r.polys[s]);
          MC_CHECK(x == r.polys[s]) << h << ": a copy differs";
          for (size_t k = 0; k < x.vertex_count(); ++k) {
            MC_CHECK(&x.edge(k).polygon() == &x && x.edge(k).edge_index() == k) << h << ": a copied polygon's edges name another polygon";
            MC_CHECK(geo::PlaneSide(x.plane(), x.edge(k).vertex()) == 0 && x.edge(k).vertex() == r.polys[s].edge(k).vertex()) << h << ": copied vertex";
          }
        }
        break;
      }
    }
  }
  void Walk(std::vector<Op>& hist, int depth, bool wide) {
    R r(def, deed_mod);
    std::string h = def.name;
    for (size_t i = 0; i < hist.size(); ++i) { h += " " + T(hist[i]); Apply(r, hist[i], h); }
    r.Check(h);
    ex.Op();
    uint64_t key = Hash(r.m);
    ex.State(key);
    if (depth == 0) return;
    if (prune) {
      auto it = seen.find(key);
      if (it != seen.end() && it->second >= depth) return;
      seen[key] = depth;
    }
    ex.Beat();
    for (const Op& o : Enabled(r, int(hist.size()), wide)) { hist.push_back(o); Walk(hist, depth - 1, wide); hist.pop_back(); }
  }
};

template <class P> static void Histories(Explorer& ex, const MeshDef& d, const char* kind, int depth, bool wide, bool prune, int deed_mod) {
  // The first step selects the case; how many are enabled is known only to
  // the model, so a bound on their number is enumerated.
  size_t n = d.faces.size(), bound = 2 * n + n * n + 3;
  for (auto& f : d.faces) bound += 3 * f.size();
  for (size_t i = 0; i < bound; ++i) ex.Case([&] { std::ostringstream s; s << d.name << " as " << kind << ", histories of " << depth << " steps from first step " << i; return s.str(); }, [&] {
    std::vector<Op> first;
    { Rig<P> r(d, deed_mod); if (i == 0) r.Check(d.name); first = Driver<P>::Enabled(r, 0, true); }
    MC_CHECK(first.size() <= bound) << "harness: more first steps than cases";
    if (i >= first.size()) return;
    Driver<P> dr{ex, d, deed_mod, prune, {}};
    std::vector<Op> hist{first[i]};
    dr.Walk(hist, depth - 1, wide);
  });
}

static std::vector<Face> Drop(std::vector<Face> f, std::vector<int> which) {
  std::sort(which.rbegin(), which.rend());
  for (int i : which) f.erase(f.begin() + i);
  return f;
}
static std::vector<MeshDef> Meshes() {
  std::vector<MeshDef> r;
  std::vector<Face> bar = Voxels(3, 2, 1, 1).faces;      // 2x1x1, every face cut at x = 1
  r.push_back({"bar", bar});
  r.push_back({"open bar without 0", Drop(bar, {0})});
  r.push_back({"open bar without 2 and 6", Drop(bar, {2, 6})});
  r.push_back({"sheet 2x2", {{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}}, {{1, 0, 0}, {2, 0, 0}, {2, 1, 0}, {1, 1, 0}}, {{0, 1, 0}, {1, 1, 0}, {1, 2, 0}, {0, 2, 0}}, {{1, 1, 0}, {2, 1, 0}, {2, 2, 0}, {1, 2, 0}}}});
  // A strip of three and its reverse: closed, encloses nothing.
  {
    MeshDef p{"pillow of triangles", {}};
    std::vector<V> c = {{0, 0, 0}, {2, 0, 2}, {4, 0, 4}, {4, 2, 4}, {2, 2, 2}, {0, 2, 0}};
    p.faces = {{c[0], c[1], c[5]}, {c[1], c[4], c[5]}, {c[1], c[2], c[4]}, {c[2], c[3], c[4]}};
    size_t n = p.faces.size();
    for (size_t i = 0; i < n; ++i) { Face f = p.faces[i]; std::reverse(f.begin(), f.end()); p.faces.push_back(f); }
    r.push_back(p);
  }
  {
    // A cube whose facets are fans of triangles.
    MeshDef p{"triangulated cube", {}};
    for (auto& f : Box({0, 0, 0}, {1, 1, 1}).faces) for (size_t i = 1; i + 1 < f.size(); ++i) p.faces.push_back({f[0], f[i], f[i + 1]});
    r.push_back(p);
  }
  r.push_back({"plate", Voxels(15, 2, 2, 1).faces});
  // Prism over a hexagon whose caps are cut into three along parallels.
  {
    MeshDef p{"oblique prism", {}};
    auto m = [](I x, I y, I z) { return V{x + z, y, x + 2 * z}; };
    std::vector<std::vector<V>> q = {{m(0, 0, 0), m(1, 0, 0), m(1, 2, 0), m(0, 2, 0)}, {m(1, 0, 0), m(2, 0, 0), m(2, 2, 0), m(1, 2, 0)}};
    for (auto& f : q) { Face b(f.rbegin(), f.rend()); p.faces.push_back(b); }
    for (auto& f : q) { Face t = f; for (auto& v : t) v = v + m(0, 0, 1); p.faces.push_back(t); }
    for (auto e : std::vector<std::pair<V, V>>{{m(0, 0, 0), m(1, 0, 0)}, {m(1, 0, 0), m(2, 0, 0)}, {m(2, 0, 0), m(2, 2, 0)}, {m(2, 2, 0), m(1, 2, 0)}, {m(1, 2, 0), m(0, 2, 0)}, {m(0, 2, 0), m(0, 0, 0)}})
      p.faces.push_back({e.first, e.second, e.second + m(0, 0, 1), e.first + m(0, 0, 1)});
    Shape s{"", p.faces};
    MC_CHECK(Closed(s)) << "harness: open prism";
    r.push_back(p);
  }
  return r;
}

// --- open meshes through the whole pipeline ---------------------------------
static void OpenRun(Explorer& ex, const std::vector<Face>& faces, bool closed, size_t kd, const std::string& what) {
  typedef walnut::ConnectingVisitor<walnut::PolygonFilter> Visitor;
  walnut::BSPTree<> t;
  BSPContentId id = t.AllocateId();
  std::vector<walnut::MutableConvexPolygon<>> mesh;
  for (auto& f : faces) mesh.push_back(Loop(f));
  t.AddContents(id, mesh);
  walnut::PolygonFilter filter(id);
  size_t errors = 0;
  Visitor v(filter, [&](const std::string&) { ++errors; });
  t.Traverse(v, kd);
  v.FilterEmptyPolygons();
  std::vector<Visitor::PolygonRep> polys = v.TakePolygons();
  size_t unlinked = 0;
  uint64_t h = 5;
  for (auto& p : polys) {
    MC_CHECK(p.vertex_count() >= 3 && p.IsValidState()) << what << ": invalid polygon " << p;
    h = mc::HashAdd(h, p.vertex_count());
    for (size_t k = 0; k < p.vertex_count(); ++k) {
      const auto& e = p.edge(k);
      MC_CHECK(&e.polygon() == &p && e.edge_index() == k) << what << ": an edge does not know its polygon";
      if (!e.partner()) { ++unlinked; h = mc::HashAdd(h, k); MC_CHECK(e.GetNextAroundVertex() == nullptr) << what; continue; }
      const auto* q = e.partner();
      const auto* qp = &q->polygon();
      MC_CHECK(qp >= polys.data() && qp < polys.data() + polys.size() && q->edge_index() < qp->vertex_count()) << what << ": dangling neighbour";
      MC_CHECK(q->partner() == &e) << what << ": the neighbour relation is not mutual";
      MC_CHECK(q->vertex() == e.next_vertex() && e.vertex() == q->next_vertex()) << what << ": neighbours are not opposite edges";
    }
  }
  MC_CHECK((unlinked > 0) == (errors > 0)) << what << ": " << errors << " errors reported but " << unlinked << " edges lack a neighbour";
  if (closed) MC_CHECK(errors == 0) << what << ": a closed mesh is reported as open";
  ex.State(h);
  ex.Op();
}

// --- half-edges overlapping on one line --------------------------------------
struct Spoke { int a, b, dir; bool pos; };   // triangle on [a,b] of the line
static const I kDirs[8][2] = {{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}};
static std::string T(const Spoke& s) { std::ostringstream o; o << "[" << s.a << "," << s.b << "]" << (s.pos ? "+" : "-") << "@" << s.dir; return o.str(); }
template <class P> static void LineRun(Explorer& ex, const std::vector<Spoke>& sp, const Mat& map, bool reverse, int drop, bool dup) {
  typedef typename P::EdgeRep E;
  std::string what;
  for (auto& s : sp) what += " " + T(s);
  std::vector<P> polys;
  polys.reserve(sp.size());
  std::vector<int> base;
  auto at = [&](int i) { return Apply(map, V{I(i), 0, 0}); };
  for (auto& s : sp) {
    V apex = Apply(map, V{s.a, kDirs[s.dir][0], kDirs[s.dir][1]});
    Face f = s.pos ? Face{at(s.a), at(s.b), apex} : Face{at(s.b), at(s.a), apex};
    std::rotate(f.begin(), f.begin() + polys.size() % 3, f.end());
    base.push_back(int((3 - polys.size() % 3) % 3));
    polys.push_back(Maker<P>::Make(Loop(f)));
  }
  size_t errors = 0;
  {
    walnut::EdgeLineConnector<E> connector;
    std::vector<walnut::Deed<E>> list;
    for (size_t i = 0; i < sp.size(); ++i) { size_t j = reverse ? sp.size() - 1 - i : i; list.emplace_back(&polys[j].edge(base[j])); }
    connector.ConnectUnsorted(list.begin(), list.end(), drop, [&](const std::string&) { ++errors; });
    while (!list.empty()) list.pop_back();
  }
  // The pieces of every half-edge, by unit stretch of the line.
  int hi = 0; for (auto& s : sp) hi = std::max(hi, s.b);
  std::vector<std::vector<const E*>> piece(sp.size(), std::vector<const E*>(hi, nullptr));
  for (size_t i = 0; i < sp.size(); ++i) {
    const P& p = polys[i];
    MC_CHECK(p.vertex_count() >= 3 && p.IsValidState()) << what << ": invalid polygon " << p;
    for (size_t k = 0; k < p.vertex_count(); ++k) {
      const E& e = polys[i].edge(k);
      MC_CHECK(&e.polygon() == &polys[i] && e.edge_index() == k) << what << ": an edge does not know its polygon";
      OPt u = ReadPoint(e.vertex()), w = ReadPoint(e.next_vertex());
      int iu = -1, iw = -1;
      for (int x = 0; x <= hi; ++x) { if (u == OPt{at(x).x, at(x).y, at(x).z, 1}) iu = x; if (w == OPt{at(x).x, at(x).y, at(x).z, 1}) iw = x; }
      if (iu < 0 || iw < 0) { MC_CHECK(!e.partner()) << what << ": an edge off the line is linked"; continue; }
      MC_CHECK((iu < iw) == sp[i].pos && iu != iw) << what << ": a piece of an edge is reversed";
      for (int x = std::min(iu, iw); x < std::max(iu, iw); ++x) { MC_CHECK(!piece[i][x]) << what << ": pieces overlap"; piece[i][x] = &e; }
      if (const auto* q = e.partner()) {
        MC_CHECK(q->partner() == &e) << what << ": a link is not mutual";
        MC_CHECK(q->vertex() == e.next_vertex() && q->next_vertex() == e.vertex()) << what << ": linked edges are not opposite";
      }
    }
  }
  // `balanced`: as many half-edges one way as the other on every stretch.
  // `consistent`: in addition every half-edge finds an opposite one first,
  // turning clockwise around its direction through the solid, by a full turn
  // at most. Pairings are only determined for consistent sets.
  bool balanced = true, consistent = !dup;
  uint64_t h = 9;
  std::vector<std::vector<int>> want(sp.size(), std::vector<int>(hi, -1)), got = want;
  for (int x = 0; x < hi; ++x) {
    int sum = 0;
    for (size_t i = 0; i < sp.size(); ++i) {
      bool in = x >= sp[i].a && x < sp[i].b;
      MC_CHECK(in == (piece[i][x] != nullptr)) << what << ": the pieces of an edge do not add up to it";
      if (!in) continue;
      sum += sp[i].pos ? 1 : -1;
      int best = 9, who = -1; bool opposite = false;
      for (size_t j = 0; j < sp.size(); ++j) {
        if (j == i || x < sp[j].a || x >= sp[j].b) continue;
        int turn = sp[i].pos ? sp[i].dir - sp[j].dir : sp[j].dir - sp[i].dir;
        turn = ((turn % 8) + 8) % 8; if (turn == 0) turn = 8;
        bool opp = sp[j].pos != sp[i].pos;
        if (turn < best || (turn == best && opp && !opposite)) { best = turn; who = int(j); opposite = opp; }
      }
      want[i][x] = who;
      if (!opposite) consistent = false;
      if (const auto* q = piece[i][x]->partner()) for (size_t j = 0; j < sp.size(); ++j) if (&q->polygon() == &polys[j]) got[i][x] = int(j);
      h = mc::HashAdd(h, got[i][x]);
    }
    if (sum != 0 && !dup) balanced = consistent = false;
  }
  for (size_t i = 0; i < sp.size(); ++i) for (int x = sp[i].a; x < sp[i].b; ++x) {
    MC_CHECK(piece[i][x]->partner() == nullptr || got[i][x] >= 0) << what << ": a link leads out of the set";
    if (consistent) MC_CHECK(got[i][x] == want[i][x]) << what << ": on [" << x << "," << x + 1 << "] half-edge " << i << " is linked to " << got[i][x] << ", the closest is " << want[i][x];
  }
  if (!balanced) MC_CHECK(errors > 0) << what << ": an open set of half-edges is not reported";
  if (dup) MC_CHECK(errors > 0) << what << ": overlapping copies of one half-edge are not reported";
  if (consistent) MC_CHECK(errors == 0) << what << ": a closed set of half-edges is reported as open";
  bool unlinked = false;
  for (size_t i = 0; i < sp.size(); ++i) for (int x = sp[i].a; x < sp[i].b; ++x) unlinked |= got[i][x] < 0;
  MC_CHECK(!unlinked || errors > 0) << what << ": a half-edge stays unlinked but no error is reported";
  ex.State(h); ex.Op();
}
static void Lines(Explorer& ex, size_t count, int top, std::vector<int> dirs, int modulus) {
  typedef walnut::ConnectedPolygon<> Plain;
  typedef walnut::ConnectingVisitorOutputPolygon<> Bsp;
  // Line direction, and two planes through the line not parallel to `drop`.
  static const std::vector<std::pair<Mat, std::array<int, 2>>> maps = {
      {{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {0, 0, 0}}, {{1, 2}}},
      {{{{0, 0, 1}, {0, 1, 0}, {-1, 0, 0}}, {3, -1, 2}}, {{0, 1}}},       // along -z
      {{{{1, 1, 0}, {-1, 1, 0}, {2, 0, 1}}, {-2, 0, 5}}, {{0, 1}}},     // oblique
      {{{{0, 0, 1}, {1, 0, 1}, {0, 1, 0}}, {0, 7, 0}}, {{0, 2}}},       // along y
  };
  std::vector<Spoke> all;
  for (int a = 0; a < top; ++a) for (int b = a + 1; b <= top; ++b) for (int d : dirs) for (int p = 0; p < 2; ++p) all.push_back({a, b, d, bool(p)});
  std::vector<size_t> pick(count, 0);
  // Cases are the choices of all but the last two half-edges.
  std::function<void(size_t, size_t)> rec = [&](size_t depth, size_t from) {
    if (depth + 2 == count) {
      std::vector<size_t> head(pick.begin(), pick.begin() + depth);
      ex.Case([&] { std::string s; for (size_t i : head) s += " " + T(all[i]); std::ostringstream o; o << count << " half-edges starting with" << s; return o.str(); }, [&, head, from] {
        size_t number = 0;
        for (size_t i = from; i < all.size(); ++i) for (size_t j = i; j < all.size(); ++j) {
          std::vector<Spoke> sp;
          for (size_t k : head) sp.push_back(all[k]);
          sp.push_back(all[i]); sp.push_back(all[j]);
          bool dup = false;   // overlapping copies of one half-edge: an error must be reported
          for (size_t x = 0; x < count; ++x) for (size_t y = 0; y < x; ++y)
            dup |= sp[x].dir == sp[y].dir && sp[x].pos == sp[y].pos && sp[x].a < sp[y].b && sp[y].a < sp[x].b;
          ++number;
          if (modulus > 1 && number % modulus) continue;
          const auto& mp = maps[(number / modulus + i) % 4];
          if ((i ^ j) & 1) LineRun<Plain>(ex, sp, mp.first, (i + j) & 2, mp.second[(i + j) % 2], dup);
          else LineRun<Bsp>(ex, sp, mp.first, (i + j) & 2, mp.second[j % 2], dup);
        }
        ex.Beat();
      });
      return;
    }
    for (size_t i = from; i < all.size(); ++i) { pick[depth] = i; rec(depth + 1, i); }
  };
  rec(0, 0);
}

void Explore(Explorer& ex) {
  typedef walnut::ConnectedPolygon<> Plain;
  typedef walnut::ConnectingVisitorOutputPolygon<> Bsp;
  typedef walnut::ConnectedPolygon<walnut::AABBConvexPolygon<>> Boxed;
  const bool th = ex.thorough;
  static std::vector<MeshDef> meshes = Meshes();
  ex.Section("wide");
  if (ex.Active()) for (auto& d : meshes) {
    Histories<Plain>(ex, d, "connected polygons", 2, true, false, 1);
    Histories<Bsp>(ex, d, "visitor output", 2, true, false, 2);
    Histories<Boxed>(ex, d, "polygons with boxes", 2, true, false, 1);
  }
  ex.Section("deep");
  if (ex.Active()) for (size_t i = 0; i < meshes.size(); ++i) {
    auto& d = meshes[i];
    if (d.faces.size() > 12 && !th) continue;
    if (th || i % 2 == 1) Histories<Plain>(ex, d, "connected polygons", th ? 4 : 3, false, th, 1);
    if (th || i == 0 || i == 4) Histories<Bsp>(ex, d, "visitor output", 3, false, false, 3);
    if (th) Histories<Boxed>(ex, d, "polygons with boxes", 3, false, false, 2);
  }
  ex.Section("lines2"); if (ex.Active()) Lines(ex, 2, 4, {0, 1, 2, 3, 4, 5, 6, 7}, 1);
  ex.Section("lines3"); if (ex.Active()) Lines(ex, 3, 3, {0, 1, 2, 3, 4, 5, 6, 7}, 1);
  ex.Section("lines4"); if (ex.Active()) Lines(ex, 4, 3, {0, 1, 3, 5}, 1);
  ex.Section("lines4_wide"); if (ex.Active()) Lines(ex, 4, 2, {0, 1, 2, 3, 4, 5, 6, 7}, 1);
  if (th) { ex.Section("lines5"); if (ex.Active()) Lines(ex, 5, 2, {0, 1, 3, 5, 6}, 1); ex.Section("lines6"); if (ex.Active()) Lines(ex, 6, 2, {0, 3, 5}, 1); }
  ex.Section("open_bar");
  {
    std::vector<Face> bar = meshes[0].faces;
    for (auto& f : bar) f = Scaled(f);
    for (unsigned mask = 0; mask < (1u << bar.size()); ++mask) for (size_t kd : {size_t(0), size_t(2), size_t(6), kNoKd})
      ex.Case([&] { std::ostringstream o; o << "bar without the polygons " << std::hex << mask << " kd bound " << kd; return o.str(); }, [&] {
        std::vector<int> w; for (size_t i = 0; i < bar.size(); ++i) if (mask >> i & 1) w.push_back(int(i));
        OpenRun(ex, Drop(bar, w), mask == 0, kd, "open bar");
      });
  }
  ex.Section("open_voxels");
  {
    std::vector<int> canon; for (int a = 1; a < 256; ++a) canon.push_back(a);
    for (int a : canon) {
      std::vector<Face> f0 = Voxels(a, 2, 2, 2).faces;
      if (!th && a % 4 != 3) continue;
      size_t n = f0.size();
      for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) {
        if (!th && (i * 7 + j) % 6 != size_t(a) % 6) continue;
        ex.Case([&] { std::ostringstream o; o << "voxels " << a << " without polygons " << i << " and " << j; return o.str(); }, [&] {
          std::vector<int> w{int(i)}; if (j != i) w.push_back(int(j));
          std::vector<Face> f = Drop(f0, w);
          for (size_t kd : {size_t(2), kNoKd}) OpenRun(ex, f, false, kd, "open voxels");
        });
      }
    }
  }
}
