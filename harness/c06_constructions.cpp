// C06: constructed planes, lines and intersection points are exactly incident.
#include "geo.h"
using namespace geo;
using namespace walnut;
using mc::Explorer;
using orc::Pow2;
static Point3 MkP3(const V& v, const Z& s) { return Point3(ToB(v.x * s), ToB(v.y * s), ToB(v.z * s)); }
static bool SameDirZ(const ZV& a, const ZV& b) { return ZZero(ZCross(a, b)) && ZDot(a, b) > 0; }
// Exact incidence of a real point and line: p x d == w m.
static bool OnLine(const PluckerLine& l, const HomoPoint3& p) {
  ZV c = ZCross(ToZV(p.vector_from_origin()), ToZV(l.d())), m = ToZV(l.m());
  Z w = ToZ(p.w());
  return c.x == w * m.x && c.y == w * m.y && c.z == w * m.z;
}
static bool SameHomo(const HomoPoint3& a, const HomoPoint3& b) {
  ZV x = ToZV(a.vector_from_origin()), y = ToZV(b.vector_from_origin());
  Z v = ToZ(a.w()), w = ToZ(b.w());
  return x.x * w == y.x * v && x.y * w == y.y * v && x.z * w == y.z * v;
}
static Z GcdZ(Z a, Z b) { return boost::multiprecision::gcd(a < 0 ? Z(-a) : a, b < 0 ? Z(-b) : b); }

void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  const std::vector<Z> sc = {1, -1, -3, Pow2(63)};
  std::vector<P> pts;
  for (const V& v : Grid(0, 1)) pts.push_back({v, 1});
  for (const V& v : {V{2, 0, 1}, V{0, 2, 2}, V{-1, 1, 0}, V{2, 2, 2}, V{-1, -1, -1}, V{3, 1, -2}}) pts.push_back({v, 1});
  for (const V& v : {V{1, 1, 1}, V{1, 0, 3}, V{-1, 5, 2}}) pts.push_back({v, 2});
  if (th) for (const V& v : Grid(0, 2)) if (v.x == 2 || v.y == 2 || v.z == 2) pts.push_back({v, 1});
  std::vector<H> planes;
  for (const V& n : Grid(-1, 1)) if (!Zero(n)) for (I d : {-1, 0, 2}) planes.push_back({n, d});
  for (const V& n : {V{2, 1, 0}, V{0, -3, 1}, V{1, 2, 3}, V{-2, 2, -1}}) for (I d : {0, 3}) planes.push_back({n, d});
  if (th) for (const V& n : Grid(-2, 2)) if (abs(n.x) == 2 && n.y && n.z) planes.push_back({n, 1});

  ex.Section("plane_from_three_points");
  for (const P& a : pts) for (const P& b : pts) for (const P& c : pts) ex.Case([&] { return T(a) + " " + T(b) + " " + T(c); }, [&] {
    V n = Cross(Diff(c, b), Diff(a, b));
    ex.State(mc::HashAdd(mc::HashAdd(Hash(a), Hash(b)), Hash(c)));
    auto verify = [&](const HalfSpace3& h, const HomoPoint3& A, const HomoPoint3& B, const HomoPoint3& C, const std::string& what) {
      ex.Op();
      MC_CHECK(h.IsValid() == !Zero(n)) << what << " IsValid";
      if (Zero(n)) return;
      MC_CHECK(PlaneSide(h, A) == 0 && PlaneSide(h, B) == 0 && PlaneSide(h, C) == 0) << what << ": not incident " << h;
      MC_CHECK(SameDirZ(ToZV(h.normal()), ZOf(n))) << what << ": normal " << h;
    };
    for (const Z& s : sc) for (const Z& t : sc) for (const Z& u : sc) {
      HomoPoint3 A = MkP(a, s), B = MkP(b, t), C = MkP(c, u);
      verify(HalfSpace3(A, B, C), A, B, C, "scales " + T(s) + " " + T(t) + " " + T(u));
    }
    if (a.w == 1 && b.w == 1 && c.w == 1) {
      Point3 A = MkP3(a.v, 1), B = MkP3(b.v, 1), C = MkP3(c.v, 1);
      verify(HalfSpace3(A, B, C), HomoPoint3(A), HomoPoint3(B), HomoPoint3(C), "Point3");
    }
  });
  ex.Section("plane_from_normal_and_point");
  for (const V& n : Grid(-1, 2)) for (const P& p : pts) ex.Case([&] { return T(n) + " through " + T(p); }, [&] {
    ex.State(mc::HashAdd(Hash(n), Hash(p)));
    for (const Z& s : {Z(1), Z(5), Pow2(64)}) for (const Z& t : sc) {
      ex.Op();
      HalfSpace3 h(MkV(n, s), MkP(p, t));
      MC_CHECK(h.IsValid() == !Zero(n));
      MC_CHECK(PlaneSide(h, MkP(p, t)) == 0) << "not incident, scales " << T(s) << " " << T(t);
      if (!Zero(n)) MC_CHECK(SameDirZ(ToZV(h.normal()), ZOf(n))) << "normal, scales " << T(s) << " " << T(t);
    }
  });
  ex.Section("line_from_points");
  for (const P& a : pts) for (const P& b : pts) ex.Case([&] { return T(a) + " -> " + T(b); }, [&] {
    V d = Diff(b, a);
    ex.State(mc::HashAdd(Hash(a), Hash(b)));
    auto verify = [&](const PluckerLine& l, const HomoPoint3& A, const HomoPoint3& B, const std::string& what) {
      ex.Op();
      MC_CHECK(l.IsValid() == !Zero(d)) << what;
      if (Zero(d)) return;
      MC_CHECK(OnLine(l, A) && OnLine(l, B)) << what << ": not incident " << l;
      MC_CHECK(SameDirZ(ToZV(l.d()), ZOf(d))) << what << ": direction " << l;
      for (int drop = 0; drop < 3; ++drop) {
        HalfSpace2 h = l.Project2D(drop);
        int i = (drop + 1) % 3, j = (drop + 2) % 3;
        MC_CHECK(h.IsValid() == (d[i] || d[j])) << what << ": projection dropping " << drop;
        if (!h.IsValid()) continue;
        HomoPoint2 A2 = A.DropDimension(drop), B2 = B.DropDimension(drop);
        MC_CHECK(h.Compare(A2) == 0 && h.Compare(B2) == 0) << what << ": projected points are not on the projected line, dropping " << drop;
        // The positive side is counter-clockwise of the direction.
        Z nx = ToZ(h.normal().x()), ny = ToZ(h.normal().y());
        MC_CHECK(d[i] * nx + d[j] * ny == 0 && d[i] * ny - d[j] * nx > 0) << what << ": projected half-space faces the wrong way, dropping " << drop;
        for (const P& p : pts) {
          HomoPoint2 q = MkP(p, -1).DropDimension(drop);
          V e = Diff(p, a);
          MC_CHECK(orc::SgnI(h.Compare(q)) == S(W(d[i]) * e[j] - W(d[j]) * e[i])) << what << ": side of " << T(p) << " dropping " << drop;
        }
      }
      PluckerLine r = l;
      r.Reduce();
      MC_CHECK(OnLine(r, A) && OnLine(r, B) && SameDirZ(ToZV(r.d()), ZOf(d))) << what << ": Reduce changed the line";
      Z g = 0;
      for (int k = 0; k < 3; ++k) { g = GcdZ(g, ToZ(r.d().components()[k])); g = GcdZ(g, ToZ(r.m().components()[k])); }
      MC_CHECK(g == 1) << what << ": not reduced, factor " << T(g);
      PluckerLine neg = l;
      neg.Negate();
      MC_CHECK(OnLine(neg, A) && OnLine(neg, B) && SameDirZ(ToZV(neg.d()), ZOf(d * -1))) << what << ": Negate";
    };
    for (const Z& s : sc) for (const Z& t : sc) {
      HomoPoint3 A = MkP(a, s), B = MkP(b, t);
      verify(PluckerLine(A, B), A, B, "scales " + T(s) + " " + T(t));
    }
    if (a.w == 1 && b.w == 1) {
      verify(PluckerLine(MkP3(a.v, 1), MkP3(b.v, 1)), MkP(a, 1), MkP(b, 1), "Point3");
      for (int drop = 0; drop < 3; ++drop) {
        Point2 A = MkP3(a.v, 1).DropDimension(drop), B = MkP3(b.v, 1).DropDimension(drop);
        HalfSpace2 h(A, B);
        int i = (drop + 1) % 3, j = (drop + 2) % 3;
        MC_CHECK(h.IsValid() == (d[i] || d[j]));
        for (const P& p : pts) {
          V e = Diff(p, a);
          MC_CHECK(orc::SgnI(h.Compare(MkP(p, 1).DropDimension(drop))) == S(W(d[i]) * e[j] - W(d[j]) * e[i])) << "HalfSpace2 from points: side of " << T(p) << " dropping " << drop;
        }
      }
    }
  });
  ex.Section("line_from_planes");
  const std::vector<Z> ps = {1, -1, Pow2(64) + 1};
  for (const H& a : planes) for (const H& b : planes) ex.Case([&] { return T(a) + " ^ " + T(b); }, [&] {
    V d = Cross(a.n, b.n);
    ex.State(mc::HashAdd(Hash(a), Hash(b)));
    for (const Z& s : ps) for (const Z& t : ps) {
      ex.Op();
      HalfSpace3 A = MkH(a, s), B = MkH(b, t);
      PluckerLine l(A, B);
      MC_CHECK(l.IsValid() == !Zero(d)) << "IsValid";
      if (Zero(d)) continue;
      V dd = orc::Sgn(s) * orc::Sgn(t) > 0 ? d : d * -1;
      MC_CHECK(SameDirZ(ToZV(l.d()), ZOf(dd))) << "direction " << l << " scales " << T(s) << " " << T(t);
      // A point of the line: intersect with the coordinate planes it is not parallel to.
      int found = 0;
      for (int k = 0; k < 3; ++k) if (d[k]) {
        HalfSpace3 c = HalfSpace3::GetAxisAligned(k, ToB(2), ToB(3));
        HomoPoint3 p = l.Intersect(c);
        MC_CHECK(p.IsValid()) << "intersection of " << l << " with axis plane " << k;
        MC_CHECK(PlaneSide(A, p) == 0 && PlaneSide(B, p) == 0 && PlaneSide(c, p) == 0) << "intersection point " << p << " is not on all three planes";
        MC_CHECK(OnLine(l, p)) << "intersection point is not on the line";
        ++found;
      }
      MC_CHECK(found > 0);
      MC_CHECK(l.IsCoincident(A) && l.IsCoincident(B)) << "IsCoincident(plane)";
    }
  });
  ex.Section("three_planes");
  {
    std::vector<H> few;
    for (size_t i = 0; i < planes.size(); i += (th ? 1 : 2)) few.push_back(planes[i]);
    for (const H& a : few) for (const H& b : few) ex.Case([&] { return T(a) + " ^ " + T(b); }, [&] {
      PluckerLine l(MkH(a, 1), MkH(b, -1));
      if (!l.IsValid()) return;
      for (const H& c : few) {
        ex.Op();
        ex.State(mc::HashAdd(mc::HashAdd(Hash(a), Hash(b)), Hash(c)));
        W det = Dot(Cross(a.n, b.n), c.n);
        for (const Z& s : {Z(1), Z(-Pow2(63))}) {
          HomoPoint3 p = l.Intersect(MkH(c, s));
          MC_CHECK(p.IsValid() == (det != 0)) << "with " << T(c);
          if (det == 0) continue;
          MC_CHECK(PlaneSide(MkH(a, 1), p) == 0 && PlaneSide(MkH(b, 1), p) == 0 && PlaneSide(MkH(c, 1), p) == 0) << "with " << T(c) << ": " << p;
          HomoPoint3 r = p;
          r.Reduce();
          MC_CHECK(SameHomo(r, p)) << "Reduce changed the point";
          MC_CHECK(ToZ(r.w()) > 0) << "Reduce leaves a negative denominator";
          Z g = GcdZ(GcdZ(ToZ(r.x()), ToZ(r.y())), GcdZ(ToZ(r.z()), ToZ(r.w())));
          MC_CHECK(g == 1) << "not reduced";
        }
      }
    });
  }
  ex.Section("line_meets_plane");
  for (const P& a : pts) for (const P& b : pts) if (!Same(a, b)) ex.Case([&] { return T(a) + " -> " + T(b); }, [&] {
    PluckerLine l(MkP(a, -1), MkP(b, 2));
    for (const H& h : planes) {
      ex.Op();
      ex.State(mc::HashAdd(mc::HashAdd(Hash(a), Hash(b)), Hash(h)));
      HomoPoint3 p = l.Intersect(MkH(h, 1));
      W par = Dot(h.n, Diff(b, a));
      MC_CHECK(p.IsValid() == (par != 0)) << "with " << T(h);
      if (par != 0) MC_CHECK(OnLine(l, p) && PlaneSide(MkH(h, 1), p) == 0) << "with " << T(h) << ": " << p;
      else MC_CHECK(ZZero(ToZV(p.vector_from_origin())) == (Side(h, a) == 0)) << "parallel line: zero vector iff the line is in the plane " << T(h);
    }
  });
  ex.Section("projection_and_axis_planes");
  for (const H& h : planes) for (int k = 0; k < 3; ++k) ex.Case([&] { return T(h) + " dimension " + std::to_string(k); }, [&] {
    for (const Z& s : ps) {
      HalfSpace3 r = MkH(h, s);
      if (h.n[k]) for (const P& p : pts) for (const Z& t : sc) {
        ex.Op();
        HomoPoint2 q = MkP(p, t).DropDimension(k);
        HomoPoint3 o = r.ProjectOntoPlane(q, k);
        MC_CHECK(o.IsValid() && PlaneSide(r, o) == 0) << "projection of " << T(p) << " is not on the plane: " << o;
        MC_CHECK(o.DropDimension(k) == q) << "projection of " << T(p) << " moved it: " << o;
      }
      // Extruding a 2D half-space.
      int i = (k + 1) % 3, j = (k + 2) % 3;
      HalfSpace2 g(ToB(h.n[i] * s), ToB(h.n[j] * s), ToB(h.d * s));
      HalfSpace3 e(g, k);
      for (const P& p : pts) {
        int want = S(W(h.n[i]) * p.v[i] + W(h.n[j]) * p.v[j] - W(h.d) * p.w) * orc::Sgn(s);
        MC_CHECK(PlaneSide(e, MkP(p, -1)) == want) << "extruded half-space: side of " << T(p);
        MC_CHECK(orc::SgnI(g.Compare(MkP(p, 3).DropDimension(k))) == want) << "2D side of " << T(p);
      }
      HalfSpace3 red = r;
      red.Reduce();
      for (const P& p : pts) MC_CHECK(PlaneSide(red, MkP(p, 1)) == PlaneSide(r, MkP(p, 1))) << "Reduce changed the plane: " << red;
      Z gg = GcdZ(GcdZ(ToZ(red.x()), ToZ(red.y())), GcdZ(ToZ(red.z()), ToZ(red.d())));
      MC_CHECK(gg == 1) << "plane is not reduced: " << red;
      Vector3 v = r.normal();
      v.Reduce();
      MC_CHECK(SameDirZ(ToZV(v), ToZV(r.normal()))) << "Vector3::Reduce turned the vector";
      MC_CHECK(GcdZ(GcdZ(ToZ(v.x()), ToZ(v.y())), ToZ(v.z())) == 1) << "vector is not reduced";
    }
    for (I num : {-3, 0, 1, 5}) for (I den : {1, 2, -1, -3}) for (const P& p : pts) {
      HalfSpace3 a = HalfSpace3::GetAxisAligned(k, ToB(num), ToB(den));
      // coordinate k of p compared with num / den.
      W lhs = W(p.v[k]) * den, rhs = W(num) * p.w;
      MC_CHECK(PlaneSide(a, MkP(p, -2)) == S(lhs - rhs)) << "GetAxisAligned " << num << "/" << den << " at " << T(p);
    }
  });
  ex.Section("vector_algebra");
  for (const V& a : Grid(-1, 2)) for (const V& b : Grid(-1, 2)) ex.Case([&] { return T(a) + " " + T(b); }, [&] {
    ex.State(mc::HashAdd(Hash(a), Hash(b)));
    for (const Z& s : {Z(1), Z(-Pow2(63)), Pow2(64) - 1}) {
      ex.Op();
      Vector3 x = MkV(a, s), y = MkV(b, 1);
      ZV c = ToZV(x.Cross(y)), w = ZCross(ToZV(x), ToZV(y));
      MC_CHECK(c.x == w.x && c.y == w.y && c.z == w.z) << "Cross";
      MC_CHECK(ToZ(x.Dot(y)) == ZDot(ToZV(x), ToZV(y))) << "Dot";
      MC_CHECK(ToZ(x.GetScaleSquared()) == ZDot(ToZV(x), ToZV(x))) << "GetScaleSquared";
      ZV u = ToZV(x + y), v = ToZV(x - y), n = ToZV(-x), h = ToZV(x.Hadamard(y)), q = ToZV(x.HadamardSquared());
      ZV X = ToZV(x), Y = ToZV(y);
      MC_CHECK(u.x == X.x + Y.x && u.y == X.y + Y.y && u.z == X.z + Y.z) << "+";
      MC_CHECK(v.x == X.x - Y.x && v.y == X.y - Y.y && v.z == X.z - Y.z) << "-";
      MC_CHECK(n.x == -X.x && n.y == -X.y && n.z == -X.z) << "negate";
      MC_CHECK(h.x == X.x * Y.x && h.y == X.y * Y.y && h.z == X.z * Y.z && q.x == X.x * X.x && q.y == X.y * X.y && q.z == X.z * X.z) << "Hadamard";
      x += y;
      ZV z = ToZV(x);
      MC_CHECK(z.x == u.x && z.y == u.y && z.z == u.z) << "+=";
      MC_CHECK(y.IsZero() == Zero(b));
      int f = b.x ? 0 : b.y ? 1 : b.z ? 2 : -1;
      MC_CHECK(y.GetFirstNonzeroDimension() == f) << "GetFirstNonzeroDimension";
      for (int k = 0; k < 3; ++k) {
        Vector2 d = y.DropDimension(k);
        MC_CHECK(ToZ(d.x()) == b[(k + 1) % 3] && ToZ(d.y()) == b[(k + 2) % 3]) << "DropDimension";
        Vector2 e = MkV(a, s).DropDimension(k);
        MC_CHECK(ToZ(e.Cross(d)) == ToZ(e.x()) * ToZ(d.y()) - ToZ(e.y()) * ToZ(d.x())) << "Vector2 Cross";
        MC_CHECK(ToZ(e.Dot(d)) == ToZ(e.x()) * ToZ(d.x()) + ToZ(e.y()) * ToZ(d.y())) << "Vector2 Dot";
        MC_CHECK(ToZ(e.GetPerpendicular().x()) == -ToZ(e.y()) && ToZ(e.GetPerpendicular().y()) == ToZ(e.x())) << "GetPerpendicular";
      }
      for (const P& p : pts) for (I den : {1, -2}) {
        HomoPoint3 o = MkP(p, -1).AddOffset(MkV(b, s), ToB(den));
        // p + b*s/den
        P r{p.v, p.w};
        ZV got = ToZV(o.vector_from_origin());
        Z gw = ToZ(o.w()), wd = Z(p.w) * den;
        MC_CHECK(gw != 0 && got.x * wd == gw * (Z(p.v.x) * den + b.x * s * p.w) && got.y * wd == gw * (Z(p.v.y) * den + b.y * s * p.w) && got.z * wd == gw * (Z(p.v.z) * den + b.z * s * p.w)) << "AddOffset " << T(p) << " over " << den;
      }
    }
  });
}
