// C05: predicates give the answer of exact geometry for every representation.
#include "geo.h"
using namespace geo;
using namespace walnut;
using mc::Explorer;
using orc::Pow2;

static std::vector<Z> PScales(bool th) {
  std::vector<Z> r = {1, -1, 3, -Pow2(63), Pow2(64) + 5};
  if (th) { r.push_back(-2); r.push_back(Pow2(127)); r.push_back(-(Pow2(128) + 1)); }
  return r;
}
static Point3 MkP3(const V& v, const Z& s) { return Point3(ToB(v.x * s), ToB(v.y * s), ToB(v.z * s)); }

void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  const std::vector<Z> sc = PScales(th);
  std::vector<P> pts;
  for (const V& v : Grid(-1, th ? 2 : 1)) for (I w : {1, 2}) pts.push_back({v, w});
  for (const V& v : {V{2, 0, 1}, V{3, -2, 2}, V{-4, 6, 2}, V{0, 0, 5}}) for (I w : {1, 3}) pts.push_back({v, w});
  ex.Section("point_equality");
  for (const P& a : pts) for (const P& b : pts) ex.Case([&] { return T(a) + " == " + T(b); }, [&] {
    bool same = Same(a, b);
    ex.State(mc::HashAdd(Hash(a), Hash(b)));
    for (const Z& s : sc) for (const Z& t : sc) {
      ex.Op();
      HomoPoint3 x = MkP(a, s), y = MkP(b, t);
      MC_CHECK((x == y) == same && (x != y) == !same) << "HomoPoint3 scales " << T(s) << " " << T(t);
      HomoPoint2 x2(x.x(), x.y(), x.w()), y2(y.x(), y.y(), y.w());
      bool same2 = a.v.x * b.w == b.v.x * a.w && a.v.y * b.w == b.v.y * a.w;
      MC_CHECK((x2 == y2) == same2 && (x2 != y2) == !same2) << "HomoPoint2 scales " << T(s) << " " << T(t);
      for (int k = 0; k < 3; ++k) {
        int c = S(W(a.v[k]) * b.w - W(b.v[k]) * a.w);
        MC_CHECK(orc::SgnI(x.CompareComponent(k, y)) == c) << "CompareComponent " << k << " scales " << T(s) << " " << T(t);
        MC_CHECK(x.IsLessThanComponent(k, y) == (c < 0)) << "IsLessThanComponent " << k;
        MC_CHECK(x.IsEquivalentComponent(k, y) == (c == 0)) << "IsEquivalentComponent " << k;
      }
      BigInt denom;
      Vector3 diff = x.Difference(y, denom);
      for (int k = 0; k < 3; ++k)
        MC_CHECK(ToZ(diff.components()[k]) * (a.w * b.w) == ToZ(denom) * (W(a.v[k]) * b.w - W(b.v[k]) * a.w)) << "Difference";
      if (b.w == 1 && t == 1) {
        Point3 q = MkP3(b.v, 1);
        MC_CHECK((x == q) == same && (q == x) == same && (x != q) == !same) << "Point3";
        MC_CHECK((x2 == Point2(q.x(), q.y())) == same2 && (Point2(q.x(), q.y()) == x2) == same2) << "Point2";
        if (a.w == 1) MC_CHECK((MkP3(a.v, s) == MkP3(b.v, s)) == same && (MkP3(a.v, s) != MkP3(b.v, s)) == !same) << "Point3 Point3";
      }
      HomoPoint3 xr = x, yr = y;
      xr.Reduce(); yr.Reduce();
      MC_CHECK(HomoPoint3StrictEq()(xr, yr) == same) << "reduced points are stored differently: " << xr << " " << yr;
      if (same) MC_CHECK(ReducedHomoPoint3Hasher()(xr) == ReducedHomoPoint3Hasher()(yr)) << "hash";
      MC_CHECK(xr == x) << "Reduce changed the point";
    }
  });
  std::vector<H> planes;
  for (const V& n : Grid(-1, 1)) if (!Zero(n)) for (I d = -2; d <= 2; ++d) planes.push_back({n, d});
  for (const V& n : Grid(-2, 2)) if ((abs(n.x) == 2 || abs(n.y) == 2 || abs(n.z) == 2) && (th || (abs(n.x) + abs(n.y) + abs(n.z)) % 2 == 0)) for (I d : {-2, 0, 1, 4}) planes.push_back({n, d});
  const std::vector<Z> hs = {1, 3, Pow2(63), Pow2(64) + 5};
  ex.Section("side_of_plane");
  for (const H& h : planes) ex.Case([&] { return T(h); }, [&] {
    for (const P& p : pts) {
      int side = Side(h, p);
      ex.State(mc::HashAdd(Hash(h), Hash(p)));
      for (const Z& s : hs) for (const Z& t : sc) {
        ex.Op();
        HalfSpace3 r = MkH(h, s);
        HomoPoint3 q = MkP(p, t);
        MC_CHECK(orc::SgnI(r.Compare(q)) == side) << "Compare " << T(p) << " scales " << T(s) << " " << T(t);
        MC_CHECK(r.IsCoincident(q) == (side == 0)) << "IsCoincident " << T(p) << " scales " << T(s) << " " << T(t);
        HalfSpace3 neg = -r;
        MC_CHECK(orc::SgnI(neg.Compare(q)) == -side) << "negated plane " << T(p);
        r.Negate();
        MC_CHECK(orc::SgnI(r.Compare(q)) == -side) << "Negate() " << T(p);
        if (p.w == 1 && t == 1) {
          Point3 e = MkP3(p.v, 1);
          MC_CHECK(orc::SgnI(MkH(h, s).Compare(e)) == side && MkH(h, s).IsCoincident(e) == (side == 0)) << "Point3 " << T(p);
        }
        if (h.n.x || h.n.y) {
          int side2 = S(W(h.n.x) * p.v.x + W(h.n.y) * p.v.y - W(h.d) * p.w);
          HalfSpace2 g(ToB(h.n.x * s), ToB(h.n.y * s), ToB(h.d * s));
          HomoPoint2 q2(q.x(), q.y(), q.w());
          MC_CHECK(orc::SgnI(g.Compare(q2)) == side2 && g.IsCoincident(q2) == (side2 == 0)) << "HalfSpace2 " << T(p) << " scales " << T(s) << " " << T(t);
          MC_CHECK(orc::SgnI((-g).Compare(q2)) == -side2) << "negated HalfSpace2 " << T(p);
          MC_CHECK(orc::SgnI((g * 5).Compare(q2)) == side2) << "scaled HalfSpace2 " << T(p);
          if (p.w == 1 && t == 1) {
            Point2 e(q.x(), q.y());
            MC_CHECK(orc::SgnI(g.Compare(e)) == side2 && g.IsCoincident(e) == (side2 == 0)) << "HalfSpace2 Point2 " << T(p);
          }
        }
      }
    }
  });
  ex.Section("plane_equality");
  for (const H& a : planes) ex.Case([&] { return T(a); }, [&] {
    for (const H& b : planes) {
      bool line = SamePlane(a, b), same = line && Dot(a.n, b.n) > 0;
      ex.State(mc::HashAdd(Hash(a), Hash(b)));
      for (const Z& s : hs) for (const Z& t : hs) {
        ex.Op();
        HalfSpace3 x = MkH(a, s), y = MkH(b, t);
        MC_CHECK((x == y) == same && (x != y) == !same) << "== " << T(b) << " scales " << T(s) << " " << T(t);
        MC_CHECK(x.IsSameOrOpposite(y) == line) << "IsSameOrOpposite " << T(b);
        MC_CHECK(x.normal().IsSameDir(y.normal()) == SameDir(a.n, b.n)) << "IsSameDir " << T(b);
        MC_CHECK(x.normal().IsSameOrOppositeDir(y.normal()) == Parallel(a.n, b.n)) << "IsSameOrOppositeDir " << T(b);
        if (Parallel(a.n, b.n)) for (int k = 0; k < 3; ++k) if (a.n[k] && b.n[k]) {
          // Position of b's plane along a's normal; the sign is the one pinned by the existing tests.
          int want = S(W(a.d) * b.n[k] - W(b.d) * a.n[k]) * S(b.n[k]);
          MC_CHECK(orc::SgnI(x.Compare(y, k)) == want) << "parallel Compare " << T(b) << " dimension " << k;
        }
        if ((a.n.x || a.n.y) && (b.n.x || b.n.y)) {
          HalfSpace2 g(x.x(), x.y(), x.d()), h(y.x(), y.y(), y.d());
          bool par = a.n.x * b.n.y == a.n.y * b.n.x, dir = par && a.n.x * b.n.x + a.n.y * b.n.y > 0;
          bool l2 = par && a.n.x * b.d == b.n.x * a.d && a.n.y * b.d == b.n.y * a.d;
          MC_CHECK((g == h) == (l2 && dir) && (g != h) == !(l2 && dir)) << "HalfSpace2 == " << T(b);
          MC_CHECK(g.HasSameLine(h) == l2) << "HasSameLine " << T(b);
          MC_CHECK(g.normal().IsSameDir(h.normal()) == dir && g.normal().IsSameOrOppositeDir(h.normal()) == par) << "Vector2 direction " << T(b);
        }
      }
    }
  });
  // Lines through pairs of points.
  std::vector<std::pair<V, V>> lines;
  {
    std::vector<V> g = Grid(0, 1);
    g.push_back({2, 0, 1}); g.push_back({0, 2, 2}); g.push_back({-1, 1, 0}); if (th) { g.push_back({3, 1, -2}); g.push_back({2, 2, 2}); }
    for (const V& a : g) for (const V& b : g) if (!(a == b)) lines.push_back({a, b});
  }
  auto mkl = [&](const std::pair<V, V>& l, const Z& s) { V d = l.second - l.first; V m = Cross(l.first, l.second); return PluckerLine(MkV(d, s), MkV(m, s)); };
  ex.Section("line_predicates");
  for (auto& l : lines) ex.Case([&] { return T(l.first) + "->" + T(l.second); }, [&] {
    V d = l.second - l.first;
    P a{l.first, 1};
    for (const Z& s : {Z(1), Z(-1), Z(3), Z(-Pow2(64))}) {
      PluckerLine r = mkl(l, s);
      MC_CHECK(r.IsValid());
      for (const P& p : pts) {
        bool on = Parallel(Diff(p, a), d);
        ex.State(mc::HashAdd(mc::HashAdd(Hash(l.first), Hash(l.second)), Hash(p)));
        for (const Z& t : sc) {
          ex.Op();
          MC_CHECK(r.IsCoincident(MkP(p, t)) == on) << "point " << T(p) << " scales " << T(s) << " " << T(t);
        }
        if (p.w == 1) MC_CHECK(r.IsCoincident(MkP3(p.v, 1)) == on) << "Point3 " << T(p);
      }
      for (const H& h : planes) {
        bool in = Side(h, a) == 0 && Side(h, P{l.second, 1}) == 0;
        for (const Z& t : {Z(1), Z(-1), Z(Pow2(64) + 1)}) { ex.Op(); MC_CHECK(r.IsCoincident(MkH(h, t)) == in) << "plane " << T(h) << " scales " << T(s) << " " << T(t); }
      }
      for (auto& k : lines) {
        V d2 = k.second - k.first;
        bool same = Parallel(d, d2) && Parallel(k.first - l.first, d);
        int sg = Dot(d, d2) > 0 ? 1 : -1;
        for (const Z& t : {Z(1), Z(-3), Z(Pow2(63))}) {
          ex.Op();
          bool want = same && sg * orc::Sgn(s) * orc::Sgn(t) > 0;
          PluckerLine o = mkl(k, t);
          MC_CHECK((r == o) == want && (r != o) == !want) << "line " << T(k.first) << "->" << T(k.second) << " scales " << T(s) << " " << T(t);
          if (same) MC_CHECK((-r == o) == !want) << "negated line";
        }
      }
    }
  });
  ex.Section("twist_direction");
  std::vector<P> tw;
  for (const V& v : {V{0, 0, 0}, V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{1, 1, 0}, V{1, 0, 1}, V{0, 1, 1}, V{1, 1, 1}, V{2, 2, 2}, V{-1, 2, 1}, V{2, 1, -1}}) tw.push_back({v, 1});
  tw.push_back({{1, 1, 1}, 2}); tw.push_back({{3, 1, -2}, 2});
  if (th) for (const V& v : {V{2, 0, 0}, V{0, 3, 1}, V{-2, -2, 1}, V{4, 2, 0}}) tw.push_back({v, 1});
  const std::vector<Z> ts = {1, -1, Pow2(63), -(Pow2(64) + 1)};
  for (const P& a : tw) for (const P& b : tw) for (const P& c : tw) ex.Case([&] { return T(a) + " " + T(b) + " " + T(c); }, [&] {
    for (int drop = 0; drop < 3; ++drop) {
      int i = (drop + 1) % 3, j = (drop + 2) % 3;
      V p = Diff(a, b), q = Diff(c, b);
      int want = S(W(p[i]) * q[j] - W(p[j]) * q[i]);
      ex.State(mc::HashAdd(mc::HashAdd(mc::HashAdd(Hash(a), Hash(b)), Hash(c)), drop));
      for (const Z& s : ts) for (const Z& t : ts) for (const Z& u : ts) {
        ex.Op();
        HomoPoint3 A = MkP(a, s), B = MkP(b, t), C = MkP(c, u);
        MC_CHECK(B.Get2DTwistDirReduced(drop, A, C) == want) << "drop " << drop << " scales " << T(s) << " " << T(t) << " " << T(u) << " got " << B.Get2DTwistDirReduced(drop, A, C) << " want " << want;
      }
      if (a.w == 1 && b.w == 1 && c.w == 1) for (const Z& s : {Z(1), Pow2(64)}) {
        Point3 A = MkP3(a.v, s), B = MkP3(b.v, s), C = MkP3(c.v, s);
        MC_CHECK(B.Get2DTwistDirReduced(drop, A, C) == want) << "Point3 drop " << drop;
        MC_CHECK(orc::SgnI(B.Get2DTwistDir(drop, A, C)) == want) << "Point3 drop " << drop;
      }
    }
  });
}
