// C07: bounding boxes are tight and conservative and cut planes exactly.
#include "polymodel.h"
#include "walnut/aabb.h"
#include "walnut/convex_vertex_aabb_tracker.h"
#include "walnut/rational.h"
using mc::Explorer; using geo::I; using geo::V; using geo::H; using geo::P; using geo::W; using orc::Z; using orc::ToB; using orc::ToZ; using solid::OPt; using solid::OPoly;
struct Bx { V lo, hi; I D; };
static std::string T(const Bx& b) { return "box " + geo::T(b.lo) + geo::T(b.hi) + "/" + std::to_string(b.D); }
static walnut::AABB Mk(const Bx& b, const Z& s) { return walnut::AABB(geo::MkV(b.lo, s), geo::MkV(b.hi, s), ToB(Z(b.D) * s)); }
static V Corner(const Bx& b, int i) { return {i & 1 ? b.hi.x : b.lo.x, i & 2 ? b.hi.y : b.lo.y, i & 4 ? b.hi.z : b.lo.z}; }
static bool Nondeg(const Bx& b) { return b.lo.x < b.hi.x && b.lo.y < b.hi.y && b.lo.z < b.hi.z; }
static std::vector<Bx> Boxes(bool th) {
  std::vector<Bx> r;
  std::vector<std::pair<I, I>> iv = {{-2, 3}, {0, 1}, {-1, 1}, {1, 3}, {-3, -1}, {0, 0}, {2, 2}};
  for (I D : {1, 2, 3}) for (size_t i = 0; i < iv.size(); ++i) for (size_t j = 0; j < iv.size(); ++j) for (size_t k = 0; k < iv.size(); ++k) {
    (void)th;
    r.push_back({{iv[i].first, iv[j].first, iv[k].first}, {iv[i].second, iv[j].second, iv[k].second}, D});
  }
  return r;
}
static const std::vector<Z>& Scales() { static std::vector<Z> s = {1, -1, 3, -orc::Pow2(63), orc::Pow2(64) + 1}; return s; }
static Z Fl(const Z& a, const Z& b) { Z q = a / b, r = a % b; if (r != 0 && ((r < 0) != (b < 0))) --q; return q; }
static Z Ce(const Z& a, const Z& b) { return -Fl(-a, b); }
// The polygon is exactly the section of the box by the plane.
template <class Poly> static void CheckSection(const Bx& b, const H& h, const Poly& p, const char* what) {
  // Exact section: corners on the plane and edge crossings.
  std::set<OPt> want; int pos = 0, neg = 0, on = 0;
  int side[8];
  for (int i = 0; i < 8; ++i) { W e = geo::Dot(h.n, Corner(b, i)) - W(h.d) * b.D; side[i] = geo::S(e); (side[i] > 0 ? pos : side[i] < 0 ? neg : on)++; }
  auto add = [&](V v, I w) { if (w < 0) { v = v * -1; w = -w; } I g = std::__gcd(std::__gcd(std::llabs(v.x), std::llabs(v.y)), std::__gcd(std::llabs(v.z), w)); want.insert({v.x / g, v.y / g, v.z / g, w / g}); };
  for (int i = 0; i < 8; ++i) {
    if (!side[i]) add(Corner(b, i), b.D);
    for (int d = 1; d < 8; d <<= 1) if (!(i & d) && side[i] * side[i | d] < 0) {
      V p = Corner(b, i), q = Corner(b, i | d);
      I ep = I(geo::Dot(h.n, p) - W(h.d) * b.D), eq = I(geo::Dot(h.n, q) - W(h.d) * b.D);
      add(p * eq - q * ep, (eq - ep) * b.D);
    }
  }
  bool area = (pos && neg) || on >= 3;
  if (!area) { MC_CHECK(p.vertex_count() == 0) << what << ": plane " << geo::T(h) << " misses " << T(b) << " but the section is " << p; return; }
  MC_CHECK(p.vertex_count() >= 3) << what << ": plane " << geo::T(h) << " cuts " << T(b) << " but the section is empty";
  MC_CHECK(p.IsValidState()) << what << ": invalid section of " << T(b) << " by " << geo::T(h) << ": " << p;
  OPoly o; for (size_t i = 0; i < p.vertex_count(); ++i) o.v.push_back(solid::ReadPoint(p.vertex(i)));
  o.plane = h;
  solid::CheckOPoly(o, what);
  auto zn = geo::ToZV(p.plane().normal()); Z zd = ToZ(p.plane().d()); auto hn = geo::ZOf(h.n);
  MC_CHECK(geo::ZZero(geo::ZCross(zn, hn)) && geo::ZDot(zn, hn) > 0 && zn.x * h.d == hn.x * zd && zn.y * h.d == hn.y * zd && zn.z * h.d == hn.z * zd) << what << ": section of " << geo::T(h) << " has plane " << p.plane();
  std::set<OPt> got(o.v.begin(), o.v.end());
  MC_CHECK(got.size() == o.v.size()) << what << ": repeated vertex in section of " << T(b) << " by " << geo::T(h) << ": " << T(o);
  MC_CHECK(got == want) << what << ": section of " << T(b) << " by " << geo::T(h) << " is " << T(o);
}
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  auto boxes = Boxes(th);
  auto grid = geo::Grid(-2, 2);
  ex.Section("contains");
  std::vector<P> pts; for (auto& v : geo::Grid(-3, 3)) for (I w : {1, 2, 3}) { if (std::__gcd(std::__gcd(std::llabs(v.x), std::llabs(v.y)), std::__gcd(std::llabs(v.z), w)) != 1) continue; pts.push_back({v, w}); }
  for (size_t bi = 0; bi < boxes.size(); ++bi) for (const Z& s : Scales())
    ex.Case([&, bi] { return T(boxes[bi]) + " scale " + orc::Hex(s); }, [&] {
      const Bx& b = boxes[bi];
      walnut::AABB a = Mk(b, s);
      MC_CHECK(ToZ(a.denom()) > 0) << "denominator sign";
      ex.State(mc::HashAdd(bi, orc::Sgn(s)));
      for (auto& p : pts) {
        int rel[3]; bool in = true, border = false;
        for (int d = 0; d < 3; ++d) {
          I c = p.v[d] * b.D, l = b.lo[d] * p.w, h = b.hi[d] * p.w;
          rel[d] = c < l || c > h ? -1 : (c == l || c == h) ? 0 : 1;
          in &= rel[d] >= 0; border |= rel[d] == 0;
        }
        border &= in;
        ex.Op();
        for (const Z& ps : {Z(1), Z(-1), orc::Pow2(64), -orc::Pow2(63)}) {
          auto hp = geo::MkP(p, ps);
          MC_CHECK(a.IsInside(hp) == in) << geo::T(p) << " scaled " << orc::Hex(ps) << (in ? " is inside " : " is outside ") << T(b);
          MC_CHECK(a.IsOnBorder(hp) == border) << geo::T(p) << " scaled " << orc::Hex(ps) << " border of " << T(b);
        }
        if (p.w == 1) {
          walnut::Point3 q(int(p.v.x), int(p.v.y), int(p.v.z));
          MC_CHECK(a.IsInside(q) == in && a.IsOnBorder(q) == border) << geo::T(p) << " in " << T(b);
        }
      }
      walnut::AABB e;
      MC_CHECK(!e.IsInside(walnut::Point3(0, 0, 0)) && !e.IsInside(walnut::Point3(1, 1, 1))) << "the empty box contains a point";
    });

  ex.Section("equality");
  for (size_t bi = 0; bi < boxes.size(); ++bi)
    ex.Case([&, bi] { return "equality with " + T(boxes[bi]); }, [&] {
      const Bx& b = boxes[bi];
      for (size_t bj = 0; bj < boxes.size(); ++bj) {
        const Bx& c = boxes[bj];
        bool same = b.lo * c.D == c.lo * b.D && b.hi * c.D == c.hi * b.D;
        const Z &s = Scales()[(bi + bj) % 5], &t = Scales()[(bi * 3 + bj) % 5];
        ex.Op();
        MC_CHECK((Mk(b, s) == Mk(c, t)) == same && (Mk(b, s) != Mk(c, t)) == !same) << T(b) << " and " << T(c);
      }
      ex.State(bi);
    });

  // Planes against boxes.
  ex.Section("planes");
  for (size_t bi = 0; bi < boxes.size(); ++bi)
    for (size_t ni = 0; ni < grid.size(); ++ni) {
      if (geo::Zero(grid[ni])) continue;
      ex.Case([&, bi, ni] { return T(boxes[bi]) + " planes with normal " + geo::T(grid[ni]); }, [&] {
        const Bx& b = boxes[bi];
        for (I d = -9; d <= 9; ++d) {
          H h{grid[ni], d};
          bool p = false, n = false, on = false;
          for (int i = 0; i < 8; ++i) { W e = geo::Dot(h.n, Corner(b, i)) - W(d) * b.D; p |= e > 0; n |= e < 0; on |= e == 0; }
          int want = on || (p && n) ? 0 : p ? 1 : -1;
          const Z &bs = Scales()[(bi + ni) % 5], &hs = (d + ni) % 3 == 0 ? Z(1) : (d + ni) % 3 == 1 ? Z(7) : orc::Pow2(63);
          walnut::AABB a = Mk(b, bs);
          walnut::HalfSpace3 r = geo::MkH(h, hs);
          ex.Op();
          int got = a.GetPlaneSide(r);
          MC_CHECK(got == want) << "GetPlaneSide of " << T(b) << " for " << geo::T(h) << " is " << got;
          if (Nondeg(b)) CheckSection(b, h, a.IntersectPlane(r), "IntersectPlane");
        }
        ex.State(mc::HashAdd(bi, ni));
      });
    }
  ex.Section("walls");
  for (size_t bi = 0; bi < boxes.size(); ++bi)
    for (const Z& s : Scales()) {
      ex.Case([&, bi] { return "walls of " + T(boxes[bi]); }, [&] {
        const Bx& b = boxes[bi];
        auto w = Mk(b, s).GetWalls();
        // A flat box only has the two facets that have an area.
        size_t sides = 0;
        for (int d = 0; d < 3; ++d) if (b.lo[(d + 1) % 3] < b.hi[(d + 1) % 3] && b.lo[(d + 2) % 3] < b.hi[(d + 2) % 3]) sides += 2;
        MC_CHECK(w.size() == sides) << w.size() << " walls, not " << sides;
        std::set<std::pair<int, int>> seen;
        for (auto& p : w) {
          MC_CHECK(p.IsValidState()) << "invalid wall";
          int dim = p.plane().x().GetSign() != 0 ? 0 : p.plane().y().GetSign() != 0 ? 1 : 2;
          int sg = orc::Sgn(ToZ(p.plane().normal().components()[dim]));
          V n = dim == 0 ? V{1, 0, 0} : dim == 1 ? V{0, 1, 0} : V{0, 0, 1};
          H h{n * (sg * b.D), sg * (sg > 0 ? b.hi[dim] : b.lo[dim])};
          CheckSection(b, h, p, "wall");
          seen.insert({dim, sg});
          ex.Op();
        }
        MC_CHECK(seen.size() == sides) << "walls repeat a side";
        walnut::AABB a = Mk(b, s);
        for (int d = 0; d < 3; ++d) {
          MC_CHECK(ToZ(a.min_point().vector_from_origin().components()[d]) * b.D == ToZ(a.min_point().w()) * b.lo[d]) << "min_point of " << T(b);
          MC_CHECK(ToZ(a.max_point().vector_from_origin().components()[d]) * b.D == ToZ(a.max_point().w()) * b.hi[d]) << "max_point of " << T(b);
        }
        double want = 0; for (int d = 0; d < 3; ++d) want += double(b.hi[d] - b.lo[d]) * double(b.hi[d] - b.lo[d]);
        want = std::sqrt(want) / double(b.D);
        MC_CHECK(std::abs(a.GetDiagonalLength() - want) <= want * 1e-14) << "diagonal of " << T(b);
        ex.State(bi);
      });
    }
  // Boxes computed from vertices.
  ex.Section("tracker");
  std::vector<P> tp; for (auto& v : geo::Grid(-1, 1)) tp.push_back({v, 1});
  for (auto& v : {V{1, -3, 5}, V{-5, 1, 1}, V{3, 3, -1}, V{-1, -1, -1}, V{7, -1, 2}}) for (I w : {2, 3, 4}) tp.push_back({v, w});
  for (size_t i = 0; i < tp.size(); ++i) for (size_t j = 0; j < tp.size(); ++j)
    ex.Case([&, i, j] { return "tracker of " + geo::T(tp[i]) + geo::T(tp[j]) + " and a third point"; }, [&] {
      for (size_t k = 0; k < tp.size(); ++k) for (int wp = 0; wp < (th ? 4 : 2); ++wp) {
        int pat = (int(i + j + k) + wp) % 4;
        std::vector<P> g = {tp[i], tp[j], tp[k]};
        std::vector<walnut::HomoPoint3> v;
        for (size_t q = 0; q < 3; ++q) v.push_back(geo::MkP(g[q], polys::Wt(pat, q)));
        walnut::ConvexVertexAABBTracker t(v.begin(), v.end());
        ex.Op();
        MC_CHECK(t.IsValidState(3)) << "invalid indices";
        Z den = ToZ(t.aabb().denom());
        MC_CHECK(den > 0) << "box denominator";
        Z maxw = 0;
        for (int d = 0; d < 3; ++d) {
          size_t mn = 0, mx = 0;
          auto lt = [&](size_t a, size_t b) { return W(g[a].v[d]) * g[b].w < W(g[b].v[d]) * g[a].w; };
          for (size_t q = 1; q < 3; ++q) { if (lt(q, mn)) mn = q; if (lt(mx, q)) mx = q; }
          size_t gmn = t.min_indices()[d], gmx = t.max_indices()[d];
          MC_CHECK(!lt(mn, gmn) && !lt(gmx, mx)) << "extreme index in dimension " << d << " of " << geo::T(g[0]) << geo::T(g[1]) << geo::T(g[2]);
          for (size_t e : {gmn, gmx}) { Z w = ToZ(v[e].w()); if (w < 0) w = -w; if (w > maxw) maxw = w; }
          Z lo = ToZ(t.aabb().min_point_num().components()[d]), hi = ToZ(t.aabb().max_point_num().components()[d]);
          MC_CHECK(lo == Fl(Z(g[mn].v[d]) * den, g[mn].w)) << "minimum in dimension " << d << " of " << geo::T(g[0]) << geo::T(g[1]) << geo::T(g[2]) << " is " << t.aabb();
          MC_CHECK(hi == Ce(Z(g[mx].v[d]) * den, g[mx].w)) << "maximum in dimension " << d << " of " << geo::T(g[0]) << geo::T(g[1]) << geo::T(g[2]) << " is " << t.aabb();
        }
        MC_CHECK(den == maxw) << "grid of the box";
        for (size_t r = 0; r < 3; ++r) {
          auto u = t; u.RotateIndices(r, 3);
          for (int d = 0; d < 3; ++d) MC_CHECK((u.min_indices()[d] + r) % 3 == t.min_indices()[d] && (u.max_indices()[d] + r) % 3 == t.max_indices()[d]) << "RotateIndices";
          MC_CHECK(u.aabb() == t.aabb()) << "RotateIndices changed the box";
        }
      }
      ex.State(mc::HashAdd(i, j));
    });
  // Boxes of polygons that were cut, in two steps, copying and moving. One
  // vertex has a large weight, so that the grid of the box often stays that of
  // the parent while its extremes move to cut points off that grid.
  ex.Section("split_boxes");
  {
    auto loops = polys::GridLoops(3, 3, th ? 9 : 4);
    std::vector<polys::L2> cuts;
    for (I a = -2; a <= 2; ++a) for (I b = -2; b <= 2; ++b) if ((a || b) && solid::Gcd(a, b) == 1) for (I c = -5; c <= 7; c += 2) cuts.push_back({2 * a, 2 * b, c});
    auto grid_of = [&](const polys::APoly& p, const char* what) {
      Z m = 0;
      for (int d = 0; d < 3; ++d) for (size_t i : {p.min_vertex_index(d), p.max_vertex_index(d)}) { Z w = ToZ(p.vertex(i).w()); if (w < 0) w = -w; if (w > m) m = w; }
      MC_CHECK(ToZ(p.aabb().denom()) == m) << what << ": the grid of box " << p.aabb() << " is not that of its extreme vertices, 1/" << orc::Hex(m);
    };
    size_t id = 0;
    for (size_t fi = 0; fi < polys::Frames().size(); ++fi) for (size_t li = 0; li < loops.size(); ++li) for (size_t heavy = 0; heavy < loops[li].size(); ++heavy) {
      ++id;
      if (!th && mc::Mix(id) % 4) continue;   // fixed subset of the product
      ex.Case([&, fi, li, heavy] { return "cuts of " + polys::T(loops[li]) + " in frame " + polys::Frames()[fi].name + ", vertex " + std::to_string(heavy) + " is heavy"; }, [&] {
        const polys::Frame& f = polys::Frames()[fi]; const polys::Loop& l = loops[li];
        static const Z kHeavy[] = {Z(1) << 20, -(Z(1) << 20), Z(5) << 40, -orc::Pow2(64) - 1};
        const Z big = kHeavy[(li + heavy) % 4];
        std::vector<walnut::HomoPoint3> v; for (size_t i = 0; i < l.size(); ++i) v.push_back(polys::Embed(f, l[i], i == heavy ? big : Z(1)));
        std::rotate(v.begin(), v.begin() + 1, v.end());
        auto drops = polys::Drops(f);
        polys::APoly p(polys::MPoly(polys::PlaneOf(f, false), drops[(li + heavy) % drops.size()], v));
        polys::Model m; m.v = l; m.tag.assign(l.size(), 0); m.vtag.assign(l.size(), 0);
        polys::CheckBox(p, m, f, "input"); grid_of(p, "input");
        for (size_t ci = 0; ci < cuts.size(); ++ci) {
          auto cut = [&](const polys::APoly& p, const polys::Model& m, const polys::L2& c, bool rv, std::pair<polys::APoly, polys::APoly>& out, polys::Model& mn, polys::Model& mp) {
            bool n = false, q = false; for (auto& x : m.v) { int s = polys::Side(c, x); n |= s < 0; q |= s > 0; }
            if (!n || !q) return false;
            polys::SplitModel(m, c, mn, mp);
            auto info = p.GetSplitInfo(geo::MkH(polys::Lift(f, c, 0), 1));
            out = rv ? polys::APoly(p).CreateSplitChildren(std::move(info)) : p.CreateSplitChildren(info);
            polys::CheckBox(out.first, mn, f, "negative child"); grid_of(out.first, "negative child");
            polys::CheckBox(out.second, mp, f, "positive child"); grid_of(out.second, "positive child");
            ex.Op();
            return true;
          };
          std::pair<polys::APoly, polys::APoly> a, b; polys::Model an, ap, bn, bp;
          if (!cut(p, m, cuts[ci], ci & 1, a, an, ap)) continue;
          for (size_t cj = ci % 3; cj < cuts.size(); cj += 3) { cut(a.first, an, cuts[cj], !(ci & 1), b, bn, bp); cut(a.second, ap, cuts[cj], cj & 1, b, bn, bp); }
        }
        ex.State(polys::HashM(l, fi, int(heavy)));
      });
    }
  }
  // Rounding helpers.
  ex.Section("rounding");
  std::vector<Z> nums; for (int i = -7; i <= 7; ++i) nums.push_back(i);
  for (const Z& b : {orc::Pow2(63), orc::Pow2(64), orc::Pow2(127)}) for (int e = -1; e <= 1; ++e) { nums.push_back(b + e); nums.push_back(-b + e); }
  for (size_t i = 0; i < nums.size(); ++i)
    ex.Case([&, i] { return "rounding of " + orc::Hex(nums[i]); }, [&] {
      for (auto& od : nums) for (auto& nd : nums) {
        if (od == 0 || nd == 0) continue;
        ex.Op();
        // r/nd closest to n/od from above: r*nd' with sign handling.
        Z n = nums[i] * nd, up = nd > 0 ? Ce(n, od) : Fl(n, od), dn = nd > 0 ? Fl(n, od) : Ce(n, od);
        MC_CHECK(ToZ(walnut::rational::RoundUp(ToB(nums[i]), ToB(od), ToB(nd))) == up) << "RoundUp(" << orc::Hex(nums[i]) << "," << orc::Hex(od) << "," << orc::Hex(nd) << ")";
        MC_CHECK(ToZ(walnut::rational::RoundDown(ToB(nums[i]), ToB(od), ToB(nd))) == dn) << "RoundDown(" << orc::Hex(nums[i]) << "," << orc::Hex(od) << "," << orc::Hex(nd) << ")";
        for (int m : {-2, 1, 3}) {
          Z l = nums[i] * nd, r = Z(m) * od; bool flip = (od < 0) != (nd < 0);
          MC_CHECK(walnut::rational::IsLessThan(ToB(nums[i]), ToB(od), ToB(Z(m)), ToB(nd)) == (flip ? l > r : l < r)) << "IsLessThan";
          MC_CHECK(walnut::rational::Equals(ToB(nums[i]), ToB(od), ToB(Z(m)), ToB(nd)) == (l == r)) << "Equals";
        }
      }
      ex.State(i);
    });
}
