// C08: splitting a convex polygon by a plane partitions it exactly.
#include "polymodel.h"
using namespace polys;
using mc::Explorer;
using walnut::ConvexPolygonSplitInfo;
using walnut::ConvexPolygonSplitRanges;

static std::set<size_t> Range(std::pair<size_t, size_t> r, size_t n) { std::set<size_t> s; for (size_t i = r.first; i < r.second; ++i) s.insert(i % n); return s; }
static void CheckRanges(const ConvexPolygonSplitRanges& r, const std::vector<int>& side, bool bulk, const char* what) {
  size_t n = side.size();
  MC_CHECK(r.IsValid(n)) << what << ": invalid ranges " << r;
  std::set<size_t> neg, pos;
  for (size_t i = 0; i < n; ++i) { if (side[i] < 0) neg.insert(i); if (side[i] > 0) pos.insert(i); }
  (void)bulk;
  MC_CHECK(r.neg_range.second - r.neg_range.first == neg.size() && Range(r.neg_range, n) == neg) << what << ": negative range is wrong: " << r;
  MC_CHECK(r.pos_range.second - r.pos_range.first == pos.size() && Range(r.pos_range, n) == pos) << what << ": positive range is wrong: " << r;
}
template <class P> struct Rv { static std::pair<walnut::ConvexPolygon<Tag>, walnut::ConvexPolygon<Tag>> Do(P&& p, ConvexPolygonSplitInfo&& i) { return P::CreateSplitChildren(std::move(p).GetRValueKey(), std::move(i)); } };

struct Ctx { Explorer* ex; const Frame* f; bool cw; int drop; };
static void DoBox(const MPoly&, const Model&, const Frame&, const char*) {}
static void DoBox(const APoly& p, const Model& m, const Frame& f, const char* w) { CheckBox(p, m, f, w); }

template <class P>
static void Explore1(const Ctx& c, const P& p, const Model& m, const std::vector<std::pair<L2, std::vector<I>>>& lines, int depth, bool rv) {
  size_t n = m.v.size();
  for (auto& lk : lines) for (I k : lk.second) {
    const L2& l = lk.first;
    H h = Lift(*c.f, l, k);
    if (geo::Zero(h.n)) continue;
    std::vector<int> side; bool any_n = false, any_p = false;
    for (auto& q : m.v) { int s = Side(l, q); side.push_back(s); any_n |= s < 0; any_p |= s > 0; }
    walnut::HalfSpace3 hs = geo::MkH(h, 1 + (k == 2 ? 3 : 0));
    ConvexPolygonSplitInfo info = p.GetSplitInfo(hs);
    MC_CHECK(info.IsValid(n)) << "split info " << info << " of " << T(m) << " by " << l.a << "x+" << l.b << "y=" << l.c;
    MC_CHECK(info.ShouldEmitNegativeChild() == any_n && info.ShouldEmitPositiveChild() == any_p && info.ShouldEmitOnPlane() == (!any_n && !any_p))
        << "classification of " << T(m) << " by " << l.a << "x+" << l.b << "y>" << l.c << ", k=" << k << ": " << info;
    CheckRanges(info.ranges, side, false, "GetSplitInfo");
    if (l.a || l.b) {
      // The two searches, directly.
      walnut::PluckerLine nl(p.plane(), hs);
      auto hs2 = nl.Project2D(p.drop_dimension()) * -p.normal().components()[p.drop_dimension()].GetAbsMult();
      CheckRanges(p.FindSplitRangesLinear(hs2, p.drop_dimension()), side, false, "FindSplitRangesLinear");
      CheckRanges(p.FindSplitRangesBisect(hs2, p.drop_dimension()), side, false, "FindSplitRangesBisect");
    }
    c.ex->Op();
    if (!any_n || !any_p) continue;
    Model mn, mp;
    SplitModel(m, l, mn, mp);
    auto ch = p.CreateSplitChildren(info);
    P neg(ch.first), pos(ch.second);
    CheckPoly(neg, mn, *c.f, c.cw, c.drop, "negative child");
    CheckPoly(pos, mp, *c.f, c.cw, c.drop, "positive child");
    DoBox(neg, mn, *c.f, "negative child"); DoBox(pos, mp, *c.f, "positive child");
    if (rv) {
      P copy(p);
      auto c2 = P::CreateSplitChildren(std::move(copy).GetRValueKey(), ConvexPolygonSplitInfo(info));
      CheckPoly(c2.first, mn, *c.f, c.cw, c.drop, "moved negative child");
      CheckPoly(c2.second, mp, *c.f, c.cw, c.drop, "moved positive child");
    }
    CheckPoly(p, m, *c.f, c.cw, c.drop, "parent after a copying split");
    if (depth > 1) { Explore1(c, neg, mn, lines, depth - 1, rv); Explore1(c, pos, mp, lines, depth - 1, rv); }
  }
}
// The AABB polygon has no public GetRValueKey; drive the member overload.
struct ARv : APoly { using APoly::APoly; };
template <>
void Explore1<APoly>(const Ctx& c, const APoly& p, const Model& m, const std::vector<std::pair<L2, std::vector<I>>>& lines, int depth, bool rv) {
  size_t n = m.v.size();
  for (auto& lk : lines) for (I k : lk.second) {
    const L2& l = lk.first;
    H h = Lift(*c.f, l, k);
    if (geo::Zero(h.n)) continue;
    bool any_n = false, any_p = false;
    for (auto& q : m.v) { int s = Side(l, q); any_n |= s < 0; any_p |= s > 0; }
    walnut::HalfSpace3 hs = geo::MkH(h, 1);
    ConvexPolygonSplitInfo info = p.GetSplitInfo(hs);
    MC_CHECK(info.IsValid(n)) << "split info " << info;
    MC_CHECK(info.ShouldEmitNegativeChild() == any_n && info.ShouldEmitPositiveChild() == any_p)
        << "boxed classification of " << T(m) << " by " << l.a << "x+" << l.b << "y>" << l.c << ", k=" << k << ": " << info;
    c.ex->Op();
    if (!any_n || !any_p) continue;
    Model mn, mp;
    SplitModel(m, l, mn, mp);
    std::pair<APoly, APoly> ch = rv ? APoly(p).CreateSplitChildren(ConvexPolygonSplitInfo(info)) : p.CreateSplitChildren(info);
    CheckPoly(ch.first, mn, *c.f, c.cw, c.drop, "negative child");
    CheckPoly(ch.second, mp, *c.f, c.cw, c.drop, "positive child");
    CheckBox(ch.first, mn, *c.f, "negative child"); CheckBox(ch.second, mp, *c.f, "positive child");
    if (depth > 1) { Explore1<APoly>(c, ch.first, mn, lines, depth - 1, !rv); Explore1<APoly>(c, ch.second, mp, lines, depth - 1, !rv); }
  }
}

void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  // Lines through grid and half-grid points.
  auto lines_for = [&](int lim, int cmin, int cmax, std::vector<I> ks) {
    std::vector<std::pair<L2, std::vector<I>>> r;
    for (I a = -lim; a <= lim; ++a) for (I b = -lim; b <= lim; ++b) {
      if (!a && !b) { for (I c : {-1, 0, 1}) r.push_back({{0, 0, c}, {1, -1}}); continue; }
      if (solid::Gcd(a, b) > 2) continue;
      for (I c = cmin; c <= cmax; ++c) r.push_back({{a, b, c}, ks});
    }
    return r;
  };
  auto start = [&](const std::vector<Loop>& loops, const char* name, bool aabb, int wmax, const std::vector<std::pair<L2, std::vector<I>>>& lines, int depth, size_t step, bool all_frames) {
    ex.Section(name);
    size_t id = 0;
    for (size_t fi = 0; fi < Frames().size(); ++fi) for (size_t li = 0; li < loops.size(); ++li) for (int cw = 0; cw < 2; ++cw)
      for (size_t rot = 0; rot < loops[li].size(); ++rot) {
        ++id;
        if (step > 1 && mc::Mix(id) % step) continue;   // fixed subset of the product
        const Frame& f = Frames()[fi];
        (void)all_frames;
        auto drops = Drops(f);
        int drop = drops[(li + rot) % drops.size()];
        int wp = int((li + rot + fi) % (wmax + 1));
        ex.Case([&, fi, li, cw, rot] { std::ostringstream o; o << "polygon " << T(Order(loops[li], cw, int(rot))) << " in frame " << Frames()[fi].name << " drop " << drop << " weights " << wp; return o.str(); },
          [&] {
            Model m; m.v = Order(loops[li], cw, int(rot));
            MPoly p = Make<MPoly>(f, loops[li], cw, int(rot), drop, wp, wp == 2 ? Z(7) : Z(1));
            SetTags(p, m);
            CheckPoly(p, m, f, cw, drop, "input");
            Ctx c{&ex, &f, cw != 0, drop};
            ex.State(HashM(m.v, fi, drop));
            if (aabb) { APoly a(p); CheckBox(a, m, f, "input"); Explore1<APoly>(c, a, m, lines, depth, rot & 1); }
            else Explore1<MPoly>(c, p, m, lines, depth, true);
          });
      }
  };
  auto g3 = GridLoops(3, 3), big = BigLoops(), g4 = GridLoops(4, 4);
  auto l1 = lines_for(2, -4, 8, {0, 1});
  start(g3, "grid3", false, 3, l1, 1, th ? 1 : 3, true);
  start(g4, "grid4", false, 3, lines_for(th ? 3 : 2, -6, 12, {0}), 1, th ? 20 : 500, true);
  start(big, "big", false, 3, lines_for(3, -24, 24, {0}), 1, th ? 1 : 6, true);
  std::vector<std::pair<L2, std::vector<I>>> few;
  for (auto& l : lines_for(2, -2, 6, {0})) if (mc::Mix(l.first.a * 100 + l.first.b * 10 + l.first.c) % (th ? 3 : 6) == 0) few.push_back(l);
  start(g3, "grid3_depth3", false, 3, few, 3, th ? 60 : 600, true);
  start(g3, "boxed_grid3_depth2", true, 3, few, 2, th ? 10 : 60, true);
  start(big, "boxed_big", true, 3, lines_for(2, -12, 24, {0}), 1, th ? 1 : 6, true);
  auto many = ManyLoops();
  std::vector<std::pair<L2, std::vector<I>>> wide;
  for (auto& l : lines_for(2, -150, 150, {0})) if (mc::Mix(l.first.a * 1009 + l.first.b * 331 + l.first.c) % (th ? 2 : 6) == 0) wide.push_back(l);
  start(many, "many_vertices", false, 3, wide, 1, th ? 20 : 500, true);
  start(many, "boxed_many_vertices", true, 3, wide, 1, th ? 20 : 500, true);
}
