// C09: measurements equal their exact geometric values.
#include <cmath>
#include "polys.h"
#include "shapes.h"
#include "walnut/mesh.h"
using namespace polys;
using mc::Explorer;
typedef boost::multiprecision::cpp_rational R;
typedef walnut::MutableConvexPolygon<> Poly;
static R Frac(const Z& n, const Z& d) { return R(n) / R(d); }
static R X(const Q2& q) { return Frac(q.x, q.w); }
static R Y(const Q2& q) { return Frac(q.y, q.w); }
static Z ZOf(const walnut::BigInt& b) { return orc::ToZ(b); }
static R Comp(const walnut::HomoPoint3& p, int i) { return Frac(ZOf(p.vector_from_origin().components()[i]), ZOf(p.w())); }

static void CheckSearches(Explorer& ex, const Poly& p, int drop, const Loop& order, const Frame& f) {
  size_t n = order.size();
  // Exact projected integer coordinates with the vertices' own weights > 0.
  std::vector<std::array<I, 3>> c;
  for (auto& q : order) { V v = f.o * q.w + f.u * q.x + f.v * q.y; c.push_back({v[(drop + 1) % 3], v[(drop + 2) % 3], q.w}); }
  auto dot = [&](I a, I b, size_t i) { return std::make_pair(W(a) * c[i][0] + W(b) * c[i][1], W(c[i][2])); };
  auto lt = [](std::pair<W, W> x, std::pair<W, W> y) { return x.first * y.second < y.first * x.second; };
  for (I a = -3; a <= 3; ++a) for (I b = -3; b <= 3; ++b) {
    if (!a && !b) continue;
    walnut::Vector2 v{orc::B(a), orc::B(b)};
    auto opp = p.GetOppositeEdgeIndicesBisect(v, drop);
    MC_CHECK(opp.first < n && opp.second < n && lt(dot(a, b, opp.first), dot(a, b, (opp.first + 1) % n)) && lt(dot(a, b, (opp.second + 1) % n), dot(a, b, opp.second)))
        << "GetOppositeEdgeIndicesBisect <" << a << "," << b << "> gives " << opp.first << "," << opp.second;
    std::vector<size_t> best, worst;
    for (size_t i = 0; i < n; ++i) {
      bool is_max = true, is_min = true;
      for (size_t j = 0; j < n; ++j) { if (lt(dot(a, b, i), dot(a, b, j))) is_max = false; if (lt(dot(a, b, j), dot(a, b, i))) is_min = false; }
      if (is_max) best.push_back(i);
      if (is_min) worst.push_back(i);
    }
    // Ties: the first of the cyclic run.
    auto first = [&](const std::vector<size_t>& s) { for (size_t i : s) if (std::find(s.begin(), s.end(), (i + n - 1) % n) == s.end()) return i; return n; };
    size_t e = p.GetExtremeIndexBisect(v, drop);
    MC_CHECK(e == first(best)) << "GetExtremeIndexBisect <" << a << "," << b << "> gives " << e << " instead of " << first(best);
    ex.Op(2);
    // Offsets: at, between and beyond vertex positions.
    std::set<std::pair<I, I>> offs;  // value num/den
    for (size_t i = 0; i < n; ++i) { auto d = dot(a, b, i); for (I k : {-1, 0, 1}) offs.insert({I(2 * d.first + k * d.second), I(2 * d.second)}); }
    for (auto& o : offs) {
      walnut::HalfSpace2 h(orc::B(a * o.second), orc::B(b * o.second), orc::B(o.first));
      auto side = [&](size_t i) { auto d = dot(a, b, i); return geo::S(d.first * o.second - W(o.first) * d.second); };
      auto ps = p.GetPosSideVertex(h, drop, opp.first, opp.second);
      auto ns = p.GetNegSideVertex(h, drop, opp.first, opp.second);
      int mx = -1, mn = 1;
      for (size_t i = 0; i < n; ++i) { mx = std::max(mx, side(i)); mn = std::min(mn, side(i)); }
      MC_CHECK(ps.first == mx && ns.first == mn) << "GetPosSideVertex/GetNegSideVertex type " << ps.first << "," << ns.first << " instead of " << mx << "," << mn;
      MC_CHECK(ps.second < n && ns.second < n) << "GetPosSideVertex/GetNegSideVertex return the vertex index " << ps.second << "," << ns.second << " of " << n << " vertices";
      if (mx > 0) MC_CHECK(side(ps.second) > 0) << "GetPosSideVertex: vertex " << ps.second << " is not inside";
      else MC_CHECK(ps.second == first(best)) << "GetPosSideVertex: closest vertex is " << first(best) << " not " << ps.second;
      if (mn < 0) MC_CHECK(side(ns.second) < 0) << "GetNegSideVertex: vertex " << ns.second << " is not outside";
      else MC_CHECK(ns.second == first(worst)) << "GetNegSideVertex: closest vertex is " << first(worst) << " not " << ns.second;
      if (mx > 0 && mn < 0) {
        auto ln = p.GetLastNegSideVertex(h, drop, ns.second, -1, ps.second);
        auto lp = p.GetLastPosSideVertex(h, drop, ns.second, ps.second, 1);
        size_t i = ns.second; while (side((i + 1) % n) <= 0) i = (i + 1) % n;
        MC_CHECK(ln.second == i && ln.first == side(i)) << "GetLastNegSideVertex gives " << ln.first << "," << ln.second << " instead of " << i;
        i = ps.second; while (side((i + 1) % n) >= 0) i = (i + 1) % n;
        MC_CHECK(lp.second == i && lp.first == side(i)) << "GetLastPosSideVertex gives " << lp.first << "," << lp.second << " instead of " << i;
      }
      ex.Op(2);
    }
  }
}
static void CheckMeasures(Explorer& ex, const Poly& p, const Loop& order, const Frame& f, bool cw, bool searches) {
  size_t n = order.size();
  R a2 = 0, cx = 0, cy = 0;
  for (size_t i = 0; i < n; ++i) {
    const Q2 &s = order[i], &t = order[(i + 1) % n];
    R c = X(s) * Y(t) - X(t) * Y(s);
    a2 += c; cx += (X(s) + X(t)) * c; cy += (Y(s) + Y(t)) * c;
  }
  MC_CHECK(a2 != 0 && (a2 < 0) == cw) << "harness: orientation";
  cx /= 3 * a2; cy /= 3 * a2;
  R want[3];
  for (int i = 0; i < 3; ++i) want[i] = R(f.o[i]) + cx * f.u[i] + cy * f.v[i];
  for (int d = 0; d < 3; ++d) {
    R area = a2 * N(f)[d] / 2;
    auto got = p.GetProjectedArea(d);
    MC_CHECK(ZOf(got.second) != 0) << "GetProjectedArea(" << d << ") has denominator 0";
    MC_CHECK(Frac(ZOf(got.first), ZOf(got.second)) == area) << "GetProjectedArea(" << d << ") is " << got.first << "/" << got.second << " instead of " << area.str();
    if (N(f)[d] == 0) continue;
    auto c2 = p.GetProjectedCentroid(d);
    MC_CHECK(ZOf(c2.w()) != 0) << "GetProjectedCentroid at infinity";
    MC_CHECK(Frac(ZOf(c2.x()), ZOf(c2.w())) == want[(d + 1) % 3] && Frac(ZOf(c2.y()), ZOf(c2.w())) == want[(d + 2) % 3])
        << "GetProjectedCentroid(" << d << ") is " << c2 << " instead of " << want[(d + 1) % 3].str() << "," << want[(d + 2) % 3].str();
  }
  auto c3 = p.GetCentroid();
  MC_CHECK(ZOf(c3.w()) != 0) << "GetCentroid at infinity";
  for (int i = 0; i < 3; ++i) MC_CHECK(Comp(c3, i) == want[i]) << "GetCentroid is " << c3;
  size_t m = p.GetMinimumIndex();
  MC_CHECK(m < n) << "GetMinimumIndex out of range";
  auto lex = [&](size_t a, size_t b) { for (int i = 0; i < 3; ++i) { R x = Comp(p.vertex(a), i), y = Comp(p.vertex(b), i); if (x != y) return x < y; } return false; };
  for (size_t i = 0; i < n; ++i) MC_CHECK(!lex(i, m)) << "GetMinimumIndex is " << m << " but vertex " << i << " is smaller";
  ex.Op(8);
  if (!searches) return;
  for (int d = 0; d < 3; ++d) if (N(f)[d]) CheckSearches(ex, p, d, order, f);
  // 3D directions.
  for (const V& v : geo::Grid(-2, 2)) {
    if (geo::Zero(v)) continue;
    size_t e = p.GetExtremeIndexBisect(geo::MkV(v, 1));
    if (geo::Parallel(v, N(f))) { MC_CHECK(e == size_t(-1)) << "GetExtremeIndexBisect of a perpendicular direction"; continue; }
    std::vector<R> d;
    for (size_t i = 0; i < n; ++i) { R s = 0; for (int k = 0; k < 3; ++k) s += Comp(p.vertex(i), k) * v[k]; d.push_back(s); }
    R best = *std::max_element(d.begin(), d.end());
    size_t w = n; for (size_t i = 0; i < n; ++i) if (d[i] == best && d[(i + n - 1) % n] != best) w = i;
    MC_CHECK(e == w) << "GetExtremeIndexBisect " << geo::T(v) << " gives " << e << " instead of " << w;
    ex.Op();
  }
}
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  auto g3 = GridLoops(3, 3), big = BigLoops(), g4 = GridLoops(4, 4);
  auto run = [&](const char* name, const std::vector<Loop>& loops, size_t step, bool searches) {
    ex.Section(name);
    size_t id = 0;
    for (size_t fi = 0; fi < Frames().size(); ++fi) for (size_t li = 0; li < loops.size(); ++li) for (int cw = 0; cw < 2; ++cw) for (size_t rot = 0; rot < loops[li].size(); ++rot) for (int wp = 0; wp < 4; ++wp) {
      ++id;
      if (step > 1 && mc::Mix(id * 3) % step) continue;
      const Frame& f = Frames()[fi];
      auto drops = Drops(f);
      int drop = drops[(li + rot + wp) % drops.size()];
      ex.Case([&, fi, li, cw, rot, wp] { std::ostringstream o; o << "polygon " << T(Order(loops[li], cw, int(rot))) << " in frame " << Frames()[fi].name << " drop " << drop << " weights " << wp; return o.str(); },
        [&] { Poly p = Make<Poly>(f, loops[li], cw, int(rot), drop, wp); Loop o = Order(loops[li], cw, int(rot)); uint64_t h = fi * 8 + wp * 2 + cw; for (auto& q : o) h = mc::HashAdd(h, q.x * 64 + q.y); ex.State(h); CheckMeasures(ex, p, o, f, cw, searches); });
    }
  };
  run("grid3", g3, th ? 1 : 6, true);
  run("grid4", g4, th ? 30 : 900, false);
  run("big", big, th ? 1 : 10, true);
  run("many_vertices", ManyLoops(), th ? 15 : 250, true);
  // Fractional vertices: quadrilaterals and pentagons with mixed denominators.
  ex.Section("fractional");
  {
    std::vector<Loop> fr;
    std::vector<Q2> pts;
    for (I w = 1; w <= 3; ++w) for (I x = 0; x <= 2; ++x) for (I y = 0; y <= 2; ++y) pts.push_back(Red(x, y, w));
    std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    for (size_t i = 0; i < pts.size(); ++i) for (size_t j = 0; j < pts.size(); ++j) for (size_t k = 0; k < pts.size(); ++k) {
      if (i > j || i > k) continue;
      if (Turn(pts[i], pts[j], pts[k]) <= 0) continue;
      fr.push_back({pts[i], pts[j], pts[k]});
      // A fourth vertex keeping it strictly convex.
      for (size_t l = (i + j + k) % 3; l < pts.size(); l += 3)
        if (l > i && Turn(pts[j], pts[k], pts[l]) > 0 && Turn(pts[k], pts[l], pts[i]) > 0 && Turn(pts[l], pts[i], pts[j]) > 0) fr.push_back({pts[i], pts[j], pts[k], pts[l]});
    }
    size_t id = 0;
    for (size_t li = 0; li < fr.size(); ++li) for (size_t fi = 0; fi < Frames().size(); ++fi) for (int wp = 0; wp < 4; ++wp) {
      ++id;
      if (mc::Mix(id) % (th ? 4 : 60)) continue;
      int cw = id & 1; int rot = int(id % fr[li].size());
      const Frame& f = Frames()[fi];
      ex.Case([&, fi, li, cw, rot, wp] { std::ostringstream o; o << "polygon " << T(Order(fr[li], cw, rot)) << " in frame " << Frames()[fi].name << " weights " << wp; return o.str(); },
              [&] { Poly p = Make<Poly>(f, fr[li], cw, rot, Drops(f)[0], wp); CheckMeasures(ex, p, Order(fr[li], cw, rot), f, cw, th); });
    }
  }
  // Meshes.
  ex.Section("meshes");
  {
    std::vector<solid::Shape> lib = solid::Library();
    std::vector<solid::Mat> maps = {{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {0, 0, 0}}, {{{1, 1, 0}, {-1, 2, 1}, {0, -1, 1}}, {1, 0, -2}}, {{{2, -1, 1}, {1, 1, 0}, {-1, 1, 3}}, {-1, 2, 0}}, {{{0, -1, 0}, {1, 0, -1}, {3, 1, 1}}, {-7, -9, -4}}};
    for (size_t i = 0; i < lib.size(); ++i) for (size_t m = 0; m < maps.size(); ++m) for (int inv = 0; inv < 2; ++inv) for (int mode = 0; mode < 12; ++mode)
      ex.Case([&, i, m, inv, mode] { std::ostringstream o; o << lib[i].name << " map " << m << " inverted " << inv << " representation " << mode; return o.str(); },
      [&] {
        solid::Shape s = solid::Mapped(lib[i], maps[m]);
        if (inv) s = solid::Inverted(s);
        // Weights: mode 0..3 uniform, others per polygon and vertex.
        std::vector<Poly> mesh;
        const I ws[] = {1, -1, 6, -35};
        I denom = mode < 6 ? 1 : mode - 3;   // divides the coordinates
        size_t q = 0;
        for (auto& face : s.faces) {
          std::vector<walnut::HomoPoint3> v;
          for (size_t k = 0; k < face.size(); ++k, ++q) {
            const V& a = face[(k + mode) % face.size()];
            I w = mode < 4 ? ws[mode] : ws[(q * 7 + mode) % 4];
            w *= denom;
            v.emplace_back(orc::B(a.x * w / denom), orc::B(a.y * w / denom), orc::B(a.z * w / denom), orc::B(w));
          }
          H h = solid::FacePlane(face);
          mesh.emplace_back(walnut::HalfSpace3(orc::B(h.n.x * denom), orc::B(h.n.y * denom), orc::B(h.n.z * denom), orc::B(h.d)), solid::DropDim(h.n, solid::Rep()), v);
        }
        R vol = 0, c[3] = {0, 0, 0};
        for (auto& face : s.faces) for (size_t k = 2; k < face.size(); ++k) {
          R d = R((long long)(geo::Dot(face[0], geo::Cross(face[k - 1], face[k]))));
          vol += d;
          for (int t = 0; t < 3; ++t) c[t] += d * (face[0][t] + face[k - 1][t] + face[k][t]) / 4;
        }
        auto g = walnut::GetCentroid(mesh);
        MC_CHECK(orc::ToZ(g.w()) != 0) << "mesh centroid at infinity";
        for (int t = 0; t < 3; ++t) MC_CHECK(Comp(g, t) == c[t] / vol / denom) << "mesh centroid is " << g << " wanted component " << t << " " << R(c[t] / vol / denom).str();
        // Farthest and topmost vertices.
        for (const V& v : geo::Grid(-2, 2)) {
          if (geo::Zero(v)) continue;
          auto far = walnut::GetFarthest(mesh, geo::MkV(v, 1));
          MC_CHECK(orc::ToZ(far.w()) != 0) << "GetFarthest gives nothing";
          W best = 0; bool any = false; R got = 0; bool is_vertex = false;
          for (int t = 0; t < 3; ++t) got += Comp(far, t) * v[t];
          for (auto& face : s.faces) for (auto& a : face) { W d = geo::Dot(a, v); if (!any || d > best) { best = d; any = true; }
            is_vertex |= Comp(far, 0) * denom == a.x && Comp(far, 1) * denom == a.y && Comp(far, 2) * denom == a.z; }
          MC_CHECK(is_vertex && got * denom == R((long long)best)) << "GetFarthest " << geo::T(v) << " gives " << far;
          ex.Op();
        }
        auto top = walnut::GetTopPoint(mesh);
        V bestv = s.faces[0][0];
        for (auto& face : s.faces) for (auto& a : face) if (std::make_tuple(a.z, a.x, a.y) > std::make_tuple(bestv.z, bestv.x, bestv.y)) bestv = a;
        MC_CHECK(orc::ToZ(top.w()) != 0 && Comp(top, 2) * denom == bestv.z) << "GetTopPoint gives " << top << " but " << geo::T(bestv) << " is as high as any vertex";
        for (auto& face : s.faces) for (auto& a : face) {
          walnut::HomoPoint3 o = geo::MkP({a, denom}, 1);
          MC_CHECK(!walnut::HomoPoint3::TopnessLt(top, o)) << "GetTopPoint gives " << top << " although " << geo::T(a) << " is above";
        }
        // Polygon sums: closed meshes have zero total projected area.
        for (int d = 0; d < 3; ++d) {
          R sum = 0;
          for (auto& p : mesh) { auto a = p.GetProjectedArea(d); sum += Frac(orc::ToZ(a.first), orc::ToZ(a.second)); }
          MC_CHECK(sum == 0) << "the projected areas of a closed mesh add up to " << sum.str();
        }
        ex.State(mc::HashAdd(mc::HashAdd(i, m), mode * 2 + inv));
      });
  }
  ex.Section("box_diagonal");
  for (I den : {1, 2, 3, 7, 1000}) for (const V& a : geo::Grid(-2, 1)) for (const V& b : geo::Grid(0, 3)) {
    if (b.x < a.x || b.y < a.y || b.z < a.z) continue;
    for (I neg : {1, -1}) ex.Case([&, a, b, den] { std::ostringstream o; o << "box " << geo::T(a) << geo::T(b) << "/" << den; return o.str(); }, [&] {
      walnut::AABB box(geo::MkV(a * neg, 1), geo::MkV(b * neg, 1), orc::B(den * neg));
      V d = b - a;
      I sq = I(geo::Dot(d, d));
      MC_CHECK(orc::ToZ(box.GetSquaredDiagonalLengthNumerator()) == sq) << "GetSquaredDiagonalLengthNumerator of " << box;
      double want = std::sqrt((double)sq) / (double)den, got = box.GetDiagonalLength();
      MC_CHECK(std::fabs(got - want) <= 1e-12 * (want + 1e-300)) << "GetDiagonalLength of " << box << " is " << got << " instead of " << want;
      ex.Op(2);
    });
  }
}
