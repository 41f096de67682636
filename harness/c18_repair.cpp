// C18: repaired facets lie on their planes, keep their vertices and stay near their input.
#include <boost/multiprecision/cpp_int.hpp>
#include "shapes.h"
#include "walnut/mesh_plane_repairer.h"
#include "walnut/nudging_plane_builder.h"
using namespace solid;
using geo::P;
using mc::Explorer;
using orc::Z;
typedef boost::multiprecision::cpp_rational Q;
struct ZPt { Z x, y, z, w; };
static ZPt Read(const walnut::HomoPoint3& p) { return {orc::ToZ(p.x()), orc::ToZ(p.y()), orc::ToZ(p.z()), orc::ToZ(p.w())}; }
static bool SamePt(const ZPt& a, const ZPt& b) { return a.x * b.w == b.x * a.w && a.y * b.w == b.y * a.w && a.z * b.w == b.z * a.w; }
static std::string T(const ZPt& p) { return "(" + orc::Hex(p.x) + "," + orc::Hex(p.y) + "," + orc::Hex(p.z) + ")/" + orc::Hex(p.w); }
static Z Eval(const walnut::HalfSpace3& h, const ZPt& p) {
  return orc::ToZ(h.normal().x()) * p.x + orc::ToZ(h.normal().y()) * p.y + orc::ToZ(h.normal().z()) * p.z - orc::ToZ(h.d()) * p.w;
}
static bool Fits(const Z& v) { return v >= -(Z(1) << 31) && v < (Z(1) << 31); }

// --- the plane builder --------------------------------------------------------
struct Step { int kind; int pt; };  // 0 unconstrained, 1 constrained, 2 ask for a large plane
static void RunBuilder(const std::vector<P>& pts, const Z& weight, const std::vector<Step>& h) {
  std::vector<walnut::HomoPoint3> real; for (auto& p : pts) real.push_back(geo::MkP(p, weight));
  walnut::NudgingPlaneBuilder b;
  std::vector<Step> acc; size_t cons = 0;
  auto text = [&] { std::ostringstream o; for (auto& s : h) { if (s.kind == 2) o << " ask"; else o << (s.kind ? " constrained" : " free") << geo::T(pts[s.pt]); } return o.str(); };
  // The three points that define the plane, in the order in which they were added.
  auto chosen = [&] {
    std::vector<int> r; size_t free = 3 - cons;
    for (auto& s : acc) { if (s.kind == 1) r.push_back(s.pt); else if (free) { r.push_back(s.pt); --free; } if (r.size() == 3) break; }
    return r;
  };
  auto normal = [&](const std::vector<int>& c) {
    // Of the triangle c0, c1, c2; the weights are positive in the model.
    V a = geo::Diff(pts[c[1]], pts[c[0]]), d = geo::Diff(pts[c[2]], pts[c[0]]);
    return geo::Cross(a, d);
  };
  auto check = [&](const walnut::HalfSpace3& plane, const char* what) {
    auto c = chosen();
    V n = normal(c);
    orc::Z pn[3] = {orc::ToZ(plane.normal().x()), orc::ToZ(plane.normal().y()), orc::ToZ(plane.normal().z())};
    for (int k : c) MC_CHECK(Eval(plane, Read(real[k])) == 0) << what << " misses " << geo::T(pts[k]) << " after" << text();
    MC_CHECK(pn[0] * n.x + pn[1] * n.y + pn[2] * n.z > 0 && pn[0] * n.y == pn[1] * n.x && pn[1] * n.z == pn[2] * n.y && pn[0] * n.z == pn[2] * n.x) << what << " has the wrong normal after" << text();
  };
  for (auto& s : h) {
    if (s.kind == 0) { b.AddUnconstrained(&real[s.pt]); if (acc.size() < 3) acc.push_back(s); }
    else if (s.kind == 1) {
      bool want = true;
      if (cons == 3) { auto c = chosen(); want = geo::Dot(normal(c), geo::Diff(pts[s.pt], pts[c[0]])) == 0; }
      bool got = b.TryAddConstrained(&real[s.pt]);
      MC_CHECK(got == want) << "adding " << geo::T(pts[s.pt]) << " last returned " << got << " in" << text();
      if (cons < 3) { acc.push_back(s); ++cons; }
    } else {
      bool got = b.HasLargePlane();
      bool want = false;
      if (acc.size() >= 3) {
        walnut::NudgingPlaneBuilder copy = b;
        const walnut::HalfSpace3 p = copy.Build();
        want = !(Fits(orc::ToZ(p.normal().x())) && Fits(orc::ToZ(p.normal().y())) && Fits(orc::ToZ(p.normal().z())) && Fits(orc::ToZ(p.d())));
      }
      MC_CHECK(got == want) << "the plane is reported as " << (got ? "large" : "small") << " after" << text();
    }
    if (acc.size() >= 3) check(b.Build(), "the plane");
  }
  if (acc.size() >= 3) { walnut::NudgingPlaneBuilder copy = b; check(std::move(copy).Build(), "the moved plane"); }
}

// The same with any points: the plane goes through three independent ones and all accepted constrained ones.
static void RunAnyBuilder(const std::vector<P>& pts, const Z& weight, const std::vector<Step>& h) {
  std::vector<walnut::HomoPoint3> real; for (auto& p : pts) real.push_back(geo::MkP(p, weight));
  walnut::NudgingPlaneBuilder b;
  std::vector<int> seen, cons;
  auto text = [&] { std::ostringstream o; for (auto& s : h) { if (s.kind == 2) o << " ask"; else o << (s.kind ? " constrained" : " free") << geo::T(pts[s.pt]); } return o.str(); };
  auto rank3 = [&](const std::vector<int>& k, V* n) {
    for (size_t a = 0; a < k.size(); ++a) for (size_t c = a + 1; c < k.size(); ++c) for (size_t d = c + 1; d < k.size(); ++d) {
      *n = geo::Cross(geo::Diff(pts[k[c]], pts[k[a]]), geo::Diff(pts[k[d]], pts[k[a]]));
      if (!geo::Zero(*n)) return true;
    }
    return false;
  };
  for (auto& s : h) {
    if (s.kind == 0) { b.AddUnconstrained(&real[s.pt]); seen.push_back(s.pt); }
    else if (s.kind == 1) {
      V n; bool want = !rank3(cons, &n) || geo::Dot(n, geo::Diff(pts[s.pt], pts[cons[0]])) == 0;
      bool got = b.TryAddConstrained(&real[s.pt]);
      MC_CHECK(got == want) << "adding " << geo::T(pts[s.pt]) << " last returned " << got << " in" << text();
      if (got) { cons.push_back(s.pt); seen.push_back(s.pt); }
    } else b.HasLargePlane();
    V n;
    if (!rank3(seen, &n)) continue;
    const walnut::HalfSpace3 plane = b.Build();
    MC_CHECK(plane.IsValid()) << "no plane after" << text();
    for (int k : cons) MC_CHECK(Eval(plane, Read(real[k])) == 0) << "the plane misses " << geo::T(pts[k]) << " after" << text();
    std::vector<int> on; for (int k : seen) if (Eval(plane, Read(real[k])) == 0) on.push_back(k);
    MC_CHECK(rank3(on, &n)) << "the plane goes through too few points after" << text();
  }
}

// --- the mesh repairer ----------------------------------------------------------
struct Input { std::vector<V> v; std::vector<std::vector<int>> f; Z den = 1; };
static std::string T(const Input& in) {
  std::ostringstream o; o << "vertices"; for (auto& v : in.v) o << " " << geo::T(v); o << " facets";
  for (auto& f : in.f) { o << " ["; for (int k : f) o << k << " "; o << "]"; }
  return o.str();
}
// `planar`: every facet is exactly planar. `near`: no vertex may move further (0: unlimited).
static void Repair(Explorer& ex, const Input& in, bool planar, I near, uint64_t h) {
  // Gives access to the identity of the vertices.
  struct R : walnut::MeshPlaneRepairer<int> { const walnut::HomoPoint3* Id(const walnut::HomoPoint3& p) { return &AddVertexInfo(p)->point; } };
  R r;
  if (h & 1) { for (auto& v : in.v) { r.AddVertex(walnut::HomoPoint3(v.x, v.y, v.z, 7)); } r.FinishFacet(3); r.Clear(); }
  auto point = [&](int k, int salt) {
    static const Z weights[4] = {1, -3, 6, orc::Pow2(70)};
    Z w = weights[mc::Mix(h * 1000 + k * 7 + salt) % ((h & 2) ? 4 : 1)];
    return walnut::HomoPoint3(orc::ToB(in.v[k].x * w), orc::ToB(in.v[k].y * w), orc::ToB(in.v[k].z * w), orc::ToB(in.den * w));
  };
  std::set<int> used;
  for (size_t f = 0; f < in.f.size(); ++f) {
    for (size_t i = 0; i < in.f[f].size(); ++i) {
      walnut::HomoPoint3 p = point(in.f[f][i], int(f));
      used.insert(in.f[f][i]);
      if ((f + i) & 1) r.AddVertex(p); else r.AddVertex(std::move(p));
    }
    r.FinishFacet(int(f));
  }
  auto all = [&] { return T(in); };
  std::map<const walnut::HomoPoint3*, int> id; std::map<int, const walnut::HomoPoint3*> back;
  MC_CHECK(r.GetUniqueVertexCount() == used.size()) << r.GetUniqueVertexCount() << " vertices were found: " << all();
  MC_CHECK(r.IsValidState()) << "invalid state: " << all();
  for (int k : used) MC_CHECK(r.HasVertex(point(k, 99))) << "vertex " << k << " is unknown: " << all();
  for (int k : used) {
    const walnut::HomoPoint3* p = r.Id(point(k, 55));
    MC_CHECK(id.emplace(p, k).second) << "vertex " << k << " shares its storage with vertex " << id[p] << ": " << all();
    back[k] = p;
  }
  MC_CHECK(r.GetUniqueVertexCount() == used.size()) << "a vertex was not recognized: " << all();
  auto out = std::move(r).FinalizeMesh();
  // Facets in, pieces out: pieces come in facet order; their boundaries add up.
  size_t f = 0; std::map<std::pair<int, int>, int> open;
  std::ostringstream sig;
  size_t pieces = 0;
  auto edge = [&](int a, int b, int s) { auto k = a < b ? std::make_pair(a, b) : std::make_pair(b, a); int& c = open[k]; c += a < b ? s : -s; if (!c) open.erase(k); };
  auto start = [&] { open.clear(); if (f < in.f.size()) for (size_t i = 0; i < in.f[f].size(); ++i) edge(in.f[f][i], in.f[f][(i + 1) % in.f[f].size()], 1); };
  start();
  while (out.HasMorePolygons()) {
    typename walnut::MeshPlaneRepairerProducer<int>::VertexIterator pos, last;
    walnut::HalfSpace3 plane(out.GetNextPolygon(pos, last));
    MC_CHECK(f < in.f.size()) << "there are more polygons than the facets allow: " << all();
    std::vector<const walnut::HomoPoint3*> ptr;
    for (; pos != last; ++pos) ptr.push_back(&*pos);
    MC_CHECK(ptr.size() >= 3) << "a polygon has " << ptr.size() << " vertices: " << all();
    MC_CHECK(plane.IsValid()) << "facet " << f << " got no plane: " << all();
    for (auto* p : ptr) {
      ZPt z = Read(*p);
      MC_CHECK(z.w != 0) << "a vertex of facet " << f << " has weight zero: " << all();
      MC_CHECK(Eval(plane, z) == 0) << "vertex " << T(z) << " of facet " << f << " is off its plane: " << all();
    }
    std::vector<int> ids;
    for (auto* p : ptr) {
      auto it = id.find(p);
      MC_CHECK(it != id.end()) << "a vertex of facet " << f << " is none of the input: " << all();
      ids.push_back(it->second);
    }
    sig << "|"; for (int k : ids) sig << k << " ";
    for (size_t i = 0; i < ids.size(); ++i) {
      edge(ids[i], ids[(i + 1) % ids.size()], -1);
      size_t at = std::find(in.f[f].begin(), in.f[f].end(), ids[i]) - in.f[f].begin();
      MC_CHECK(at < in.f[f].size()) << "a polygon of facet " << f << " contains vertex " << ids[i] << ": " << all();
    }
    // Cyclic order.
    size_t turns = 0;
    for (size_t i = 0; i < ids.size(); ++i) {
      size_t a = std::find(in.f[f].begin(), in.f[f].end(), ids[i]) - in.f[f].begin(), b = std::find(in.f[f].begin(), in.f[f].end(), ids[(i + 1) % ids.size()]) - in.f[f].begin();
      turns += b <= a;
    }
    MC_CHECK(turns == 1) << "polygon " << sig.str() << " of facet " << f << " is out of order: " << all();
    ++pieces;
    if (open.empty()) { ++f; start(); }
  }
  MC_CHECK(f == in.f.size() && open.empty()) << "the polygons " << sig.str() << " do not cover facet " << f << ": " << all();
  if (planar) {
    for (int k : used) {
      ZPt z = Read(*back[k]);
      MC_CHECK(SamePt(z, {in.v[k].x, in.v[k].y, in.v[k].z, in.den})) << "vertex " << k << " moved to " << T(z) << " although all facets are planar: " << all();
    }
  } else if (near) {
    for (int k : used) {
      ZPt z = Read(*back[k]); const Z* c[3] = {&z.x, &z.y, &z.z};
      for (int j = 0; j < 3; ++j) MC_CHECK(abs(*c[j] * in.den - in.v[k][j] * z.w) <= near * abs(z.w)) << "vertex " << k << " moved to " << T(z) << ": " << all();
    }
  }
  if (planar) MC_CHECK(pieces == in.f.size()) << "the facets were split into " << sig.str() << ": " << all();
  ex.State(mc::HashStr(T(in) + sig.str())); ex.Op();
}
static Input FromShape(const Shape& s, I scale) {
  Input r; std::map<std::array<I, 3>, int> ids;
  for (auto& f : s.faces) {
    std::vector<int> q;
    for (auto& v : f) { auto it = ids.emplace(std::array<I, 3>{v.x, v.y, v.z}, int(ids.size())); if (it.second) r.v.push_back(v * scale); q.push_back(it.first->second); }
    r.f.push_back(q);
  }
  return r;
}
static std::vector<Shape> Solids() {
  std::vector<Shape> r;
  r.push_back(Box({0, 0, 0}, {2, 2, 2}));
  r.push_back(Hull("tet", {{0, 0, 0}, {3, 0, 0}, {0, 3, 0}, {0, 0, 3}}));
  r.push_back(Prism("tri", {{0, 0, 0}, {3, 0, 0}, {0, 3, 0}}, 2));
  r.push_back(Hull("pyr", {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}, {2, 2, 3}}));
  r.push_back(Prism("pent", {{0, 0, 0}, {3, 0, 0}, {4, 2, 0}, {2, 4, 0}, {-1, 3, 0}}, 3));
  r.push_back(Prism("hex", {{1, 0, 0}, {3, 0, 0}, {4, 2, 0}, {3, 4, 0}, {1, 4, 0}, {0, 2, 0}}, 3));
  r.push_back(Hull("frustum", {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}, {1, 1, 2}, {3, 1, 2}, {3, 3, 2}, {1, 3, 2}}));
  r.push_back(Hull("cubo", {{1, 1, 0}, {-1, 1, 0}, {1, -1, 0}, {-1, -1, 0}, {1, 0, 1}, {-1, 0, 1}, {1, 0, -1}, {-1, 0, -1}, {0, 1, 1}, {0, -1, 1}, {0, 1, -1}, {0, -1, -1}}));
  r.push_back(Hull("anti", {{2, 0, 0}, {0, 2, 0}, {-2, 0, 0}, {0, -2, 0}, {2, 2, 3}, {-2, 2, 3}, {-2, -2, 3}, {2, -2, 3}}));
  r.push_back(Hull("anti6", {{4, 0, 0}, {2, 3, 0}, {-2, 3, 0}, {-4, 0, 0}, {-2, -3, 0}, {2, -3, 0}, {3, 2, 4}, {0, 4, 4}, {-3, 2, 4}, {-3, -2, 4}, {0, -4, 4}, {3, -2, 4}}));
  return r;
}
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  // Points without three on a line; several quadruples share a plane.
  static const std::vector<P> general = {{{0, 0, 0}, 1}, {{2, 0, 0}, 1}, {{0, 2, 0}, 1}, {{3, 3, 0}, 1}, {{0, 0, 1}, 1}, {{1, 1, 3}, 2}, {{2, 0, 2}, 1}};
  static const std::vector<P> big = {{{1, 0, 0}, 1}, {{-70000, 60000, 1}, 1}, {{1, 90000, 50000}, 1}, {{3, 3, 0}, 1}, {{80000, -1, 90001}, 1}, {{5, 1, 3}, 2}};
  // Points with three or four on a line.
  static const std::vector<P> lines = {{{0, 0, 0}, 1}, {{1, 0, 0}, 1}, {{2, 0, 0}, 1}, {{7, 0, 0}, 2}, {{0, 2, 0}, 1}, {{1, 1, 0}, 1}, {{0, 0, 1}, 1}};
  ex.Section("builder");
  for (int set = 0; set < 3; ++set) {
    const auto* pts = set == 2 ? &lines : set ? &big : &general;
    int m = int(pts->size()) * 2 + 1;
    for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) for (int wp = 0; wp < (th && set != 1 ? 3 : 2); ++wp)
      ex.Case([=] { std::ostringstream o; o << "point set " << set << ", first steps " << a << ", " << b << ", weights " << wp; return o.str(); }, [&ex, pts, a, b, m, wp, th, set] {
        Z weight = wp == 0 ? Z(1) : wp == 1 ? Z(-2) : orc::Pow2(66);
        auto step = [&](int k) { return k == m - 1 ? Step{2, 0} : Step{k & 1, k >> 1}; };
        std::vector<Step> h;
        std::function<void()> rec = [&] {
          // A point is used once: facets do not repeat a vertex.
          if (h.size() >= 1) { (set == 2 ? RunAnyBuilder : RunBuilder)(*pts, weight, h); ex.Op(); }
          if (h.size() == (th && wp < 2 ? 6 : 5)) return;
          for (int k = 0; k < m; ++k) {
            if (h.size() == 0 && k != a) continue;
            if (h.size() == 1 && k != b) continue;
            Step s = step(k); bool dup = false;
            for (auto& t : h) dup |= t.kind != 2 && s.kind != 2 && t.pt == s.pt;
            if (dup || (s.kind == 2 && !h.empty() && h.back().kind == 2)) continue;
            h.push_back(s); rec(); h.pop_back();
          }
        };
        rec();
      });
  }
  static const std::vector<Shape> solids = Solids();
  // Exactly planar meshes, every facet order and start vertex pattern.
  ex.Section("planar");
  static const std::vector<Shape> exact = [] { auto r = Solids(); for (auto& s : Library()) r.push_back(s); return r; }();
  for (size_t i = 0; i < exact.size(); ++i) for (uint64_t h = 0; h < (th ? 200 : 40); ++h)
    ex.Case([=] { return exact[i].name + " order " + std::to_string(h); }, [&ex, i, h] {
      Input in = FromShape(exact[i], 16); in.den = h % 3 ? 1 : 5;
      uint64_t z = mc::Mix(h + 1);
      for (size_t k = in.f.size(); k > 1; --k) { z = mc::Mix(z); std::swap(in.f[k - 1], in.f[z % k]); }
      for (auto& f : in.f) { z = mc::Mix(z); std::rotate(f.begin(), f.begin() + z % f.size(), f.end()); }
      Repair(ex, in, true, 1, h);
    });
  // Vertices in the middle of a straight edge.
  ex.Section("straight");
  for (size_t i = 0; i < 2; ++i) for (int rot = 0; rot < 5; ++rot)
    ex.Case([=] { return std::string(i ? "tall " : "") + "box with a vertex in the middle of an edge, facets rotated by " + std::to_string(rot); }, [&ex, i, rot] {
      Input in = FromShape(Box({0, 0, 0}, {2, 2, i ? 4 : 2}), 1);
      size_t m = in.v.size();
      in.v.push_back({1, 0, 0});
      for (auto& f : in.f) {
        for (size_t k = 0; k < f.size(); ++k) { V a = in.v[f[k]], b = in.v[f[(k + 1) % f.size()]]; if (a + b == V{2, 0, 0} && !a.y && !a.z && !b.y && !b.z) { f.insert(f.begin() + k + 1, int(m)); break; } }
        std::rotate(f.begin(), f.begin() + rot % f.size(), f.end());
      }
      Repair(ex, in, true, 1, 0);
    });
  // Vertices of exact solids displaced by at most one unit.
  ex.Section("rounded");
  for (size_t i = 0; i < solids.size(); ++i) for (uint64_t h = 0; h < (th ? 100 : 50); ++h)
    ex.Case([=] { return solids[i].name + " order " + std::to_string(h); }, [&ex, i, h, th] {
      Input base = FromShape(solids[i], h % 2 ? 64 : 1024); base.den = h % 3 ? 1 : 64;
      uint64_t z = mc::Mix(h + 1);
      if (h) {
        for (size_t k = base.f.size(); k > 1; --k) { z = mc::Mix(z); std::swap(base.f[k - 1], base.f[z % k]); }
        for (auto& f : base.f) { z = mc::Mix(z); std::rotate(f.begin(), f.begin() + z % f.size(), f.end()); }
      }
      // All displacements of pairs of vertices, and dense patterns.
      std::vector<V> off; for (I x = -1; x <= 1; ++x) for (I y = -1; y <= 1; ++y) for (I w = -1; w <= 1; ++w) if (x || y || w) off.push_back({x, y, w});
      for (size_t a = 0; a < base.v.size(); ++a) for (size_t b = a; b < base.v.size(); ++b) for (size_t u = 0; u < off.size(); ++u) for (size_t w = 0; w < (b == a ? 1 : off.size()); ++w) {
        if (b != a && mc::Mix(h * 100000 + a * 10000 + b * 1000 + u * 30 + w) % (th ? 10 : 23)) continue;
        Input in = base; in.v[a] = in.v[a] + off[u]; if (b != a) in.v[b] = in.v[b] + off[w];
        Repair(ex, in, false, 16, h * 31 + u);
      }
      for (uint64_t k = 0; k < (th ? 800 : 300); ++k) {
        Input in = base; uint64_t q = mc::Mix(h * 5000 + k);
        for (auto& v : in.v) { q = mc::Mix(q); v = v + V{I(q % 3) - 1, I(q / 3 % 3) - 1, I(q / 9 % 3) - 1}; }
        Repair(ex, in, false, 16, h * 31 + k);
      }
    });
  // Rounded solids with a triangle and its reverse attached to one vertex.
  ex.Section("fins");
  for (size_t i = 0; i < solids.size(); ++i) for (uint64_t h = 0; h < (th ? 60 : 24); ++h)
    ex.Case([=] { return solids[i].name + " with a fin, order " + std::to_string(h); }, [&ex, i, h, th] {
      const I unit = h % 2 ? 64 : 1024;
      Input base = FromShape(solids[i], unit); base.den = h % 3 ? 1 : 64;
      const int n = int(base.v.size()), a = int(h % n);
      V sum{0, 0, 0}; for (auto& v : base.v) sum = sum + v;
      V nn = base.v[a] * I(n) - sum;
      // The fin has to be far from containing the line of any two facets, or
      // the planes of the vertex hardly determine it.
      auto len = [](const V& d) { return std::sqrt(double(geo::Dot(d, d))); };
      std::vector<V> normals;
      for (auto& f : solids[i].faces) if (std::find(f.begin(), f.end(), V{base.v[a].x / unit, base.v[a].y / unit, base.v[a].z / unit}) != f.end()) normals.push_back(FacePlane(f).n);
      for (auto& x : normals) for (auto& y : normals) {
        V d = geo::Cross(x, y);
        if (!geo::Zero(d) && std::abs(double(geo::Dot(d, nn))) < 0.3 * len(d) * len(nn)) return;
      }
      V e = std::abs(double(nn.x)) <= std::abs(double(nn.y)) && std::abs(double(nn.x)) <= std::abs(double(nn.z)) ? V{1, 0, 0} : std::abs(double(nn.y)) <= std::abs(double(nn.z)) ? V{0, 1, 0} : V{0, 0, 1};
      auto scaled = [&](const V& d) { double l = std::sqrt(double(d.x) * d.x + double(d.y) * d.y + double(d.z) * d.z); return V{I(std::lround(d.x * double(unit) / l)), I(std::lround(d.y * double(unit) / l)), I(std::lround(d.z * double(unit) / l))}; };
      V u = geo::Cross(nn, e); u = scaled(u);
      V w = geo::Cross(scaled(nn), u); w = scaled(w);
      base.v.push_back(base.v[a] + u); base.v.push_back(base.v[a] + w);
      base.f.push_back({a, n, n + 1}); base.f.push_back({a, n + 1, n});
      uint64_t z = mc::Mix(h + 77);
      if (h) {
        for (size_t k = base.f.size(); k > 1; --k) { z = mc::Mix(z); std::swap(base.f[k - 1], base.f[z % k]); }
        for (auto& f : base.f) { z = mc::Mix(z); std::rotate(f.begin(), f.begin() + z % f.size(), f.end()); }
      }
      for (int x = 0; x < 27; ++x) {
        Input in = base; in.v[a] = in.v[a] + V{x % 3 - 1, x / 3 % 3 - 1, x / 9 - 1};
        Repair(ex, in, false, 64, h * 31 + x);
      }
      for (uint64_t k = 0; k < (th ? 800 : 200); ++k) {
        Input in = base; uint64_t q = mc::Mix(h * 5000 + k + 9);
        for (auto& v : in.v) { q = mc::Mix(q); v = v + V{I(q % 3) - 1, I(q / 3 % 3) - 1, I(q / 9 % 3) - 1}; }
        Repair(ex, in, false, 64, h * 31 + k);
      }
    });
}
