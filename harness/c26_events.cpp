// C26: partition planning events stay exact under recursive splitting.
#include <boost/multiprecision/cpp_int.hpp>
#include "boolcases.h"
#include "walnut/polygon_event_point.h"
using namespace solid;
using mc::Explorer;
typedef boost::multiprecision::cpp_rational Q;
typedef walnut::BSPPolygon<walnut::AABBConvexPolygon<>> Poly;
typedef std::vector<Poly> Polys;
typedef std::vector<walnut::PolygonEventPoint> Events;
typedef walnut::PolygonEventPointPartition Part;

struct Fr { I n, d; };   // n/d, d > 0
static bool operator<(const Fr& a, const Fr& b) { return W(a.n) * b.d < W(b.n) * a.d; }
static bool operator==(const Fr& a, const Fr& b) { return W(a.n) * b.d == W(b.n) * a.d; }
static Fr Coord(const OPt& p, int dim) { return {dim == 0 ? p.x : dim == 1 ? p.y : p.z, p.w}; }
struct Model { OPoly o; BSPContentId id; Fr lo[3], hi[3]; };
static Model MakeModel(const Poly& p) {
  Model m; m.o = ReadPoly(p); m.id = p.id;
  for (int d = 0; d < 3; ++d) {
    m.lo[d] = m.hi[d] = Coord(m.o.v[0], d);
    for (auto& v : m.o.v) { Fr c = Coord(v, d); if (c < m.lo[d]) m.lo[d] = c; if (m.hi[d] < c) m.hi[d] = c; }
  }
  return m;
}
typedef std::vector<Model> Models;
static Models ModelsOf(const Polys& p) { Models r; for (auto& q : p) r.push_back(MakeModel(q)); return r; }
static std::string Show(const Models& m) { std::ostringstream o; for (auto& q : m) o << "#" << q.id << T(q.o) << " "; return o.str(); }
static std::string Show(const Events& e, size_t n) {
  std::ostringstream o;
  for (size_t i = 0; i < n; ++i) o << (e[i].new_location ? "|" : "") << (e[i].start ? "s>" : "e") << (e[i].start ? e[i].index.partner : e[i].index.content) << " ";
  return o.str();
}
// The events are exactly the sorted starts and ends of the polygons.
static void CheckEvents(int dim, const Models& m, const Events& e, const std::string& what, bool ties) {
  size_t n = m.size();
  MC_CHECK(e.size() >= 2 * n) << what << ": " << e.size() << " events for " << n << " polygons";
  auto all = [&] { return what + ", dimension " + std::to_string(dim) + ", polygons " + Show(m) + ", events " + Show(e, 2 * n); };
  std::vector<int> start(n, -1), end(n, -1);
  std::vector<Fr> loc(2 * n);
  for (size_t i = 0; i < 2 * n; ++i) if (!e[i].start) {
    size_t c = e[i].index.content;
    MC_CHECK(c < n && end[c] < 0) << "end event " << i << " names polygon " << c << ": " << all();
    end[c] = int(i); loc[i] = m[c].hi[dim];
  }
  for (size_t i = 0; i < 2 * n; ++i) if (e[i].start) {
    size_t k = e[i].index.partner;
    MC_CHECK(k < 2 * n && k > i && !e[k].start) << "start event " << i << " has partner " << k << ": " << all();
    size_t c = e[k].index.content;
    MC_CHECK(start[c] < 0) << "polygon " << c << " has two start events: " << all();
    start[c] = int(i); loc[i] = m[c].lo[dim];
  }
  for (size_t i = 0; i < 2 * n; ++i) {
    if (i) MC_CHECK(!(loc[i] < loc[i - 1])) << "event " << i << " is out of order: " << all();
    bool fresh = i == 0 || !(loc[i] == loc[i - 1]);
    MC_CHECK(bool(e[i].new_location) == fresh) << "event " << i << (fresh ? " is not" : " is wrongly") << " marked as a new location: " << all();
    // Polygons that end here and began earlier are closed before others are opened.
    if (ties && i && !fresh && !e[i].start && e[i - 1].start) MC_CHECK(m[e[i].index.content].lo[dim] == loc[i]) << "event " << i << " closes a polygon after one was opened at the same place: " << all();
  }
}
struct Cand { size_t index, neg, pos, neg_cost, pos_cost; };
// All split positions: after an end event that is followed by a start event or by nothing.
static std::vector<Cand> Candidates(const Models& m, const Events& e, size_t exclude_id) {
  std::vector<Cand> r; size_t n = m.size();
  for (size_t i = 0; i < 2 * n; ++i) {
    if (e[i].start || (i + 1 < 2 * n && !e[i + 1].start)) continue;
    Cand c{i, 0, 0, 0, 0}; size_t nl = 1, pl = 1;
    for (size_t j = 0; j < 2 * n; ++j) {
      bool other = m[e[j].start ? e[e[j].index.partner].index.content : e[j].index.content].id != exclude_id;
      if (j <= i && e[j].start) { ++c.neg; nl += other; }
      if (j > i && !e[j].start) { ++c.pos; pl += other; }
    }
    walnut::MLogNEstimator a, b;
    c.neg_cost = a.Estimate(c.neg, nl); c.pos_cost = b.Estimate(c.pos, pl);
    r.push_back(c);
  }
  return r;
}
static H NormalForm(const H& h) { I g = Gcd(Gcd(h.n.x, h.n.y), h.n.z); return {{h.n.x / g, h.n.y / g, h.n.z / g}, h.d / g}; }
static Q Area(const OPoly& p) {
  int d = p.plane.n.x ? 0 : p.plane.n.y ? 1 : 2;
  Q s = 0; size_t n = p.v.size();
  for (size_t i = 0; i < n; ++i) {
    const OPt &a = p.v[i], &b = p.v[(i + 1) % n];
    I ac[3] = {a.x, a.y, a.z}, bc[3] = {b.x, b.y, b.z};
    W num = W(ac[(d + 1) % 3]) * bc[(d + 2) % 3] - W(ac[(d + 2) % 3]) * bc[(d + 1) % 3];
    s += Q(orc::Z(static_cast<long long>(num)), orc::Z(static_cast<long long>(W(a.w) * b.w)));
  }
  return s;
}
static bool SameCycle(const OPoly& a, const OPoly& b) {
  if (a.v.size() != b.v.size()) return false;
  for (size_t k = 0; k < a.v.size(); ++k) {
    bool ok = true;
    for (size_t i = 0; i < a.v.size() && ok; ++i) ok = a.v[i] == b.v[(i + k) % a.v.size()];
    if (ok) return true;
  }
  return false;
}
struct State { Polys polys; Events ev[3]; };
static void Recurse(Explorer& ex, const State& s, int depth, uint64_t seed, size_t step, const std::string& what);
// Applies one split to a copy of the state and checks everything about the children.
static void Apply(Explorer& ex, const State& s, const Models& m, int dim, Part part, int depth, uint64_t seed, size_t step, const std::string& what0) {
  State st = s;
  size_t n = m.size();
  Fr at = m[s.ev[dim][part.split_index].index.content].hi[dim];
  std::ostringstream w; w << what0 << " / split at " << "xyz"[dim] << "=" << at.n << "/" << at.d; const std::string what = w.str();
  auto all = [&] { return what + ", polygons " + Show(m) + ", events " + Show(s.ev[dim], 2 * n); };
  part.DiscountBorderPolygons(st.ev[dim].data(), n);
  size_t neg = 0, pos = 0, on = 0;
  for (auto& q : m) { bool a = q.lo[dim] < at, b = at < q.hi[dim]; neg += a; pos += b; on += !a && !b; }
  MC_CHECK(part.neg_poly_count == neg && part.pos_poly_count == pos && part.border_poly_count == on)
      << "the split counts " << part.neg_poly_count << " negative, " << part.pos_poly_count << " positive and " << part.border_poly_count << " border polygons instead of " << neg << ", " << pos << ", " << on << ": " << all();
  walnut::HalfSpace3 plane = part.GetSplitPlane(dim, st.ev[dim].data(), st.polys);
  {
    auto comp = [&](int d) { return orc::ToZ(plane.normal().components()[d]); };
    MC_CHECK(comp(dim) > 0 && comp((dim + 1) % 3) == 0 && comp((dim + 2) % 3) == 0) << "the split plane is not aligned: " << all();
    orc::Z num = orc::ToZ(plane.d()), den = orc::ToZ(plane.normal().components()[dim]);
    MC_CHECK(num * at.d == den * at.n) << "the split plane is elsewhere: " << all();
  }
  std::vector<size_t> map(n, 77777);
  Events nev[3]; for (auto& e : nev) e.resize(part.GetNegEventPointCount());
  Polys np, pp, nb, pb;
  part.ApplyPrimary(dim, st.ev[dim].data(), &plane, st.polys, map.data(), nev[dim].data(), np, pp, nb, pb);
  MC_CHECK(st.polys.empty()) << "the parent keeps polygons: " << all();
  MC_CHECK(np.size() == neg && pp.size() == pos && nb.size() + pb.size() == on) << "the children have " << np.size() << ", " << pp.size() << " and " << nb.size() + pb.size() << " polygons: " << all();
  Models nm = ModelsOf(np), pm = ModelsOf(pp), nbm = ModelsOf(nb), pbm = ModelsOf(pb);
  size_t extra = neg + pos + on - n;
  std::vector<char> nseen(neg, 0), pseen(pos, 0);
  auto expect = [&](const Model& q, const Model& got) { MC_CHECK(q.id == got.id && SameCycle(q.o, got.o)) << "polygon " << T(q.o) << " became " << T(got.o) << ": " << all(); };
  for (size_t i = 0; i < n; ++i) {
    bool a = m[i].lo[dim] < at, b = at < m[i].hi[dim];
    size_t k = map[i];
    if (!a && !b) { MC_CHECK(k == size_t(-1)) << "border polygon " << i << " is mapped to " << k << ": " << all(); continue; }
    if (a && b) {
      MC_CHECK(k < extra && !nseen[k] && !pseen[k]) << "split polygon " << i << " is mapped to " << k << ": " << all();
      nseen[k] = pseen[k] = 1;
      for (const Model* c : {&nm[k], &pm[k]}) {
        CheckOPoly(c->o, what.c_str());
        MC_CHECK(c->id == m[i].id && NormalForm(c->o.plane).n == NormalForm(m[i].o.plane).n && NormalForm(c->o.plane).d == NormalForm(m[i].o.plane).d) << "a part of polygon " << i << " changed: " << all();
      }
      MC_CHECK(!(at < nm[k].hi[dim]) && !(pm[k].lo[dim] < at)) << "polygon " << i << " is split elsewhere: " << all();
      MC_CHECK(Area(nm[k].o) + Area(pm[k].o) == Area(m[i].o)) << "the parts of polygon " << i << " do not cover it: " << all();
    } else if (a) {
      MC_CHECK(k < neg && k >= extra && !nseen[k]) << "negative polygon " << i << " is mapped to " << k << ": " << all();
      nseen[k] = 1; expect(m[i], nm[k]);
    } else {
      MC_CHECK(k >= neg && k - neg < pos && k - neg >= extra && !pseen[k - neg]) << "positive polygon " << i << " is mapped to " << k << ": " << all();
      pseen[k - neg] = 1; expect(m[i], pm[k - neg]);
    }
  }
  // Border polygons.
  {
    std::vector<char> used(n, 0);
    for (int side = 0; side < 2; ++side) for (size_t j = 0; j < (side ? pbm : nbm).size(); ++j) {
      const Model& q = (side ? pbm : nbm)[j]; const Poly& real = (side ? pb : nb)[j];
      bool found = false;
      for (size_t i = 0; i < n && !found; ++i) if (!used[i] && map[i] == size_t(-1) && m[i].id == q.id && SameCycle(m[i].o, q.o) && NormalForm(m[i].o.plane).n == NormalForm(q.o.plane).n) found = used[i] = 1;
      MC_CHECK(found) << "border polygon " << T(q.o) << " appeared: " << all();
      MC_CHECK((q.o.plane.n[dim] < 0) == (side == 1)) << "border polygon " << T(q.o) << " is on the wrong side: " << all();
      MC_CHECK(real.on_node_plane.split == &plane && real.on_node_plane.pos_side == (side == 1)) << "border polygon " << T(q.o) << " names the wrong plane: " << all();
    }
  }
  CheckEvents(dim, nm, nev[dim], what + " negative child", false);
  CheckEvents(dim, pm, st.ev[dim], what + " positive child", false);
  State cn, cp;
  std::vector<walnut::PolygonMergeEvent> heap;
  for (int k = 1; k < 3; ++k) {
    int d = (dim + k) % 3;
    Events pe(part.GetPosEventPointCount());
    part.ApplySecondary(d, n, np, pp, map.data(), st.ev[d].data(), nev[d].data(), pe.data(), heap);
    CheckEvents(d, nm, nev[d], what + " negative child (parent " + Show(m) + " events " + Show(s.ev[d], 2 * n) + ")", false);
    CheckEvents(d, pm, pe, what + " positive child", false);
    cp.ev[d] = pe;
  }
  cp.ev[dim] = st.ev[dim]; cp.ev[dim].resize(2 * pos);
  for (int d = 0; d < 3; ++d) cn.ev[d] = nev[d];
  cn.polys = np; cp.polys = pp;
  ex.Op();
  if (depth > 1) {
    // Splits that leave everything on one side and no border polygons make no progress.
    if (neg && neg < n + 1) Recurse(ex, cn, depth - 1, mc::Mix(seed * 2 + 1), step, what + " -");
    if (pos) Recurse(ex, cp, depth - 1, mc::Mix(seed * 2 + 2), step, what + " +");
  }
}
static void Recurse(Explorer& ex, const State& s, int depth, uint64_t seed, size_t step, const std::string& what) {
  Models m = ModelsOf(s.polys);
  size_t n = m.size();
  ex.State(mc::HashStr(Show(m)));
  for (int d = 0; d < 3; ++d) for (size_t exc : {size_t(-1), size_t(0), size_t(1)}) {
    size_t count = 0; for (auto& q : m) count += q.id == exc;
    auto cands = Candidates(m, s.ev[d], exc);
    MC_CHECK(!cands.empty()) << "harness: no candidates";
    Part best = walnut::GetLowestCost(exc, count, s.polys, s.ev[d].data());
    size_t low = size_t(-1); for (auto& c : cands) low = std::min(low, c.neg_cost + c.pos_cost);
    auto all = [&] { return what + ", dimension " + std::to_string(d) + ", polygons " + Show(m) + ", events " + Show(s.ev[d], 2 * n); };
    const Cand* mine = nullptr; for (auto& c : cands) if (c.index == best.split_index) mine = &c;
    MC_CHECK(mine) << "the chosen split at event " << best.split_index << " is not a split position: " << all();
    MC_CHECK(best.cost == low && best.cost == best.neg_cost + best.pos_cost) << "the chosen split costs " << best.cost << " = " << best.neg_cost << " + " << best.pos_cost << ", the cheapest costs " << low << ": " << all();
    MC_CHECK(best.neg_cost == mine->neg_cost && best.pos_cost == mine->pos_cost && best.neg_poly_count == mine->neg && best.pos_poly_count == mine->pos)
        << "the chosen split reports " << best.neg_poly_count << "/" << best.pos_poly_count << " polygons of cost " << best.neg_cost << "/" << best.pos_cost << " instead of " << mine->neg << "/" << mine->pos << ", " << mine->neg_cost << "/" << mine->pos_cost << ": " << all();
    if (exc == size_t(-1)) {
      if (n == 0) continue;
      // Every split position, not just the cheapest.
      for (auto& c : cands) {
        if (step > 1 && c.index != best.split_index && mc::Mix(seed ^ (d * 100 + c.index)) % step) continue;
        Part p = best; p.split_index = c.index; p.neg_poly_count = c.neg; p.pos_poly_count = c.pos; p.neg_cost = c.neg_cost; p.pos_cost = c.pos_cost; p.cost = c.neg_cost + c.pos_cost;
        Apply(ex, s, m, d, p, depth, seed ^ (d * 100 + c.index), step, what);
      }
    }
  }
}
// Small polygons: axis-aligned ones facing both ways, oblique ones, with different vertex counts.
static std::vector<Face> Menu() {
  std::vector<Face> r;
  auto rect = [&](int dim, I at, I a0, I b0, I a1, I b1, bool flip) {
    auto P = [&](I a, I b) { V v{0, 0, 0}; (dim == 0 ? v.x : dim == 1 ? v.y : v.z) = at; (dim == 0 ? v.y : dim == 1 ? v.z : v.x) = a; (dim == 0 ? v.z : dim == 1 ? v.x : v.y) = b; return v; };
    Face f{P(a0, b0), P(a1, b0), P(a1, b1), P(a0, b1)};
    if (flip) std::reverse(f.begin(), f.end());
    r.push_back(f);
  };
  rect(0, 1, 0, 0, 2, 2, false); rect(0, 1, 1, 0, 3, 2, true); rect(0, 2, 0, 0, 2, 1, true);
  rect(1, 1, 0, 0, 2, 2, false); rect(1, 1, 0, 1, 2, 3, true); rect(1, 2, 0, 0, 1, 2, false);
  rect(2, 1, 0, 0, 2, 2, true); rect(2, 0, 0, 0, 1, 1, false); rect(2, 2, 1, 1, 3, 3, false);
  r.push_back({{0, 0, 0}, {2, 0, 0}, {0, 2, 2}});
  r.push_back({{0, 0, 2}, {0, 2, 0}, {3, 1, 1}});
  r.push_back({{1, 0, 0}, {2, 1, 0}, {2, 3, 2}, {1, 2, 2}});
  r.push_back({{3, 3, 0}, {0, 3, 3}, {0, 0, 3}});
  r.push_back({{2, 0, 1}, {2, 2, 1}, {0, 2, 2}, {0, 0, 2}});
  return r;
}
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  static const std::vector<Face> menu = Menu();
  auto make = [](size_t f, BSPContentId id, int rot, int wpat) {
    Rep rep; rep.rotate = rot; if (wpat == 1) rep.weight = -2; if (wpat == 2) rep.weight = orc::Pow2(64);
    return Poly(id, nullptr, false, walnut::AABBConvexPolygon<>(MakePoly(menu[f], rep)));
  };
  auto run = [&](const std::vector<size_t>& fs, uint64_t h, int depth, size_t step) {
    State s;
    std::ostringstream what; what << "menu";
    for (size_t i = 0; i < fs.size(); ++i) { s.polys.push_back(make(fs[i], h >> (i * 2) & 1, int(h >> (20 + i * 2) & 3), int((h >> (40 + i * 2) & 3) % 3))); what << " " << fs[i]; }
    Models m = ModelsOf(s.polys);
    for (int d = 0; d < 3; ++d) { s.ev[d].resize(2 * fs.size()); walnut::MakeEventPoints(d, s.polys, s.ev[d].data()); CheckEvents(d, m, s.ev[d], what.str(), true); }
    Recurse(ex, s, depth, h, step, what.str());
  };
  // Sequences of polygons, each with fixed ids, rotations and weights derived from the sequence.
  auto sets = [&](const char* name, size_t count, size_t total, int depth, size_t keep, size_t step) {
    ex.Section(name);
    for (size_t a = 0; a < total; ++a) for (size_t b = 0; b < total; ++b)
      ex.Case([&, a, b] { std::ostringstream o; o << count << " polygons of the menu, starting with " << a << ", " << b; return o.str(); }, [&, a, b] {
        std::vector<size_t> fs = {a, b};
        std::function<void()> rec = [&] {
          if (fs.size() >= count) {
            uint64_t h = 17; for (size_t f : fs) h = h * 31 + f; h = mc::Mix(h);
            if (h % keep == 0) run(fs, mc::Mix(h), depth, step);
            return;
          }
          for (size_t k = 0; k < total; ++k) { fs.push_back(k); rec(); fs.pop_back(); }
        };
        rec();
      });
  };
  ex.Section("none_and_one");
  for (size_t a = 0; a < menu.size(); ++a) ex.Case([a] { return "polygon " + std::to_string(a); }, [&, a] { for (uint64_t k = 0; k < 8; ++k) run({a}, mc::Mix(k), 3, 1); });
  sets("pairs", 2, menu.size(), 3, 1, 1);
  sets("triples", 3, menu.size(), 3, th ? 1 : 3, 1);
  sets("quadruples", 4, menu.size(), th ? 3 : 2, th ? 10 : 30, 1);
  sets("quintuples", 5, menu.size(), 3, th ? 100 : 2500, 2);
  sets("octuples", 8, 9, 2, th ? 2000 : 60000, 2);
}
