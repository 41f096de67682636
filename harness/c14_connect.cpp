// C14: boolean output is a watertight mesh with mutually consistent neighbours.
#include "boolcases.h"
using namespace solid;
using mc::Explorer;
typedef walnut::ConnectingVisitor<AnyFilter> Connector;
typedef Connector::PolygonRep CPoly;

static V Diff(const OPt& a, const OPt& b) { return V{a.x * b.w - b.x * a.w, a.y * b.w - b.y * a.w, a.z * b.w - b.z * a.w}; }
// Strict angular order around d: is the angle from u to a (counter-clockwise,
// in (0,360]) smaller than the angle from u to b?
static int AngleClass(const V& d, const V& u, const V& a) {  // 0:(0,180) 1:180 2:(180,360) 3:360
  int c = geo::S(geo::Dot(d, geo::Cross(u, a))), k = geo::S(geo::Dot(u, a));
  if (c > 0) return 0;
  if (c < 0) return 2;
  return k < 0 ? 1 : 3;
}
static int AngleCmp(const V& d, const V& u, const V& a, const V& b) {
  int x = AngleClass(d, u, a), y = AngleClass(d, u, b);
  if (x != y) return x < y ? -1 : 1;
  if (x == 1 || x == 3) return 0;
  return -geo::S(geo::Dot(d, geo::Cross(a, b)));
}
struct HalfEdge { size_t poly, index; OPt a, b; V d; V inward; };

static void CheckConnected(const std::vector<CPoly>& polys, const std::vector<OPoly>& out, const std::string& what) {
  std::vector<HalfEdge> edges;
  std::vector<size_t> first;
  for (size_t i = 0; i < polys.size(); ++i) {
    first.push_back(edges.size());
    const OPoly& p = out[i];
    for (size_t j = 0; j < p.v.size(); ++j) {
      const OPt &a = p.v[j], &b = p.v[(j + 1) % p.v.size()];
      V d = Diff(b, a);
      I g = Gcd(Gcd(d.x, d.y), d.z); d = {d.x / g, d.y / g, d.z / g};
      edges.push_back({i, j, a, b, d, geo::Cross(p.plane.n, d)});
    }
  }
  std::map<std::pair<OPt, OPt>, int> balance;
  for (auto& e : edges) { balance[{e.a, e.b}]++; balance[{e.b, e.a}]--; }
  for (auto& b : balance) MC_CHECK(b.second == 0) << what << ": a directed edge is not matched by the opposite directed edge; output " << T(out);
  std::vector<size_t> partner(edges.size());
  for (size_t k = 0; k < edges.size(); ++k) {
    const HalfEdge& e = edges[k];
    const auto& real = polys[e.poly].edge(e.index);
    MC_CHECK(&real.polygon() == &polys[e.poly] && real.edge_index() == e.index) << what << ": an edge does not know its polygon or index";
    const auto* q = real.partner();
    MC_CHECK(q != nullptr) << what << ": edge " << k << " has no neighbour; output " << T(out);
    const CPoly* qp = &q->polygon();
    MC_CHECK(qp >= polys.data() && qp < polys.data() + polys.size()) << what << ": the neighbour is not an output polygon";
    size_t qi = qp - polys.data(), qj = q->edge_index();
    MC_CHECK(qj < qp->vertex_count() && q == &qp->edge(qj)) << what << ": dangling neighbour";
    MC_CHECK(q->partner() == &real) << what << ": the neighbour relation is not mutual";
    const HalfEdge& f = edges[first[qi] + qj];
    partner[k] = first[qi] + qj;
    MC_CHECK(f.a == e.b && f.b == e.a) << what << ": the neighbour is not the opposite directed edge; output " << T(out);
    MC_CHECK(real.line() == -qp->edge(qj).line()) << what << ": the neighbour's line is not the opposite line";
    MC_CHECK(ReadPoint(real.next_vertex()) == e.b) << what << ": next_vertex";
  }
  // Pairing: turning from a polygon through the solid, the neighbour comes first.
  for (size_t k = 0; k < edges.size(); ++k) {
    const HalfEdge& e = edges[k];
    const HalfEdge& f = edges[partner[k]];
    // Midpoint of the edge.
    for (size_t m = 0; m < edges.size(); ++m) {
      if (m == k || m == partner[k]) continue;
      const HalfEdge& g = edges[m];
      if (!geo::Parallel(e.d, g.d)) continue;
      if (!geo::Zero(geo::Cross(Diff(g.a, e.a), e.d)) || !geo::Zero(geo::Cross(Diff(g.b, e.a), e.d))) continue;
      // Overlap test along e.d with exact rationals.
      auto along = [&](const OPt& p) { return std::make_pair(W(e.d.x) * p.x + W(e.d.y) * p.y + W(e.d.z) * p.z, W(p.w)); };
      auto less = [](const std::pair<W, W>& x, const std::pair<W, W>& y) { return x.first * y.second < y.first * x.second; };
      auto ga = along(g.a), gb = along(g.b);
      if (less(gb, ga)) std::swap(ga, gb);
      if (!less(ga, along(e.b)) || !less(along(e.a), gb)) continue;
      // The solid is clockwise of the polygon seen against its direction.
      int c = AngleCmp(e.d * -1, e.inward, f.inward, g.inward);
      MC_CHECK(c <= 0) << what << ": an edge is joined to a polygon that does not bound the same wedge of the solid; edge from ("
          << e.a.x << "," << e.a.y << "," << e.a.z << ")/" << e.a.w << " to (" << e.b.x << "," << e.b.y << "," << e.b.z << ")/" << e.b.w << " of polygon " << T(out[e.poly])
          << " joined to " << T(out[f.poly]) << " instead of " << T(out[g.poly]);
    }
  }
}

static void Run(Explorer& ex, const Problem& p, const Expr& e, size_t kd, const Rep& rep = Rep()) {
  if (e.parity) return;
  Tree t;
  Fill(t, p, e, rep);
  AnyFilter f = e.f();
  std::string errors;
  Connector v(f, [&](const std::string& s) { errors += s + "\n"; });
  t.Traverse(v, kd);
  MC_CHECK(errors.empty()) << e.name << ": the connector reports an open mesh: " << errors;
  v.FilterEmptyPolygons();
  // The output only refers to splitting planes that outlive the traversal.
  std::set<const walnut::HalfSpace3*> splits;
  TreeSplits(t.root, splits);
  std::vector<CPoly> polys = v.TakePolygons();
  std::vector<OPoly> out;
  for (auto& q : polys) {
    MC_CHECK(q.IsValidState()) << e.name << ": invalid output polygon " << q;
    for (size_t i = 0; i < q.vertex_count(); ++i) {
      CheckSplits(splits, q.edge(i), q.vertex(i), q.vertex((i + 1) % q.vertex_count()));
    }
    out.push_back(ReadPoly(q));
  }
  CheckSolid(ex, out, p, Wanted(p, e), e.name, false);
  CheckConnected(polys, out, e.name);
  ex.State(HashMesh(out));
}

void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  std::vector<int> canon = CanonicalVoxels();
  for (size_t m = 0; m < Maps().size(); ++m) {
    ex.Section(m ? "voxel_pairs_map" + std::to_string(m) : std::string("voxel_pairs"));
    for (int a : canon) for (int b = 1; b < 256; ++b) {
      if (!th && m && (b * 7 + a) % 12 != int(m)) continue;
      ex.Case([&] { std::ostringstream o; o << "voxel solids A=" << a << " B=" << b << " map " << m; return o.str(); }, [&] {
        Problem p = MakeProblem({Voxels(a, 2, 2, 2), Voxels(b, 2, 2, 2)}, m ? &Maps()[m] : nullptr);
        Rep r; if (m) { if (b & 1) r.weight = -2; if (a & 1) r.plane = 3; r.last_drop = b & 2; }
        for (auto& e : Exprs2()) for (size_t kd : th ? std::vector<size_t>{kNoKd, 0, 6} : std::vector<size_t>{(a + b) & 1 ? kNoKd : 4}) Run(ex, p, e, kd, r);
      });
    }
  }
  std::vector<Shape> lib = Library();
  ex.Section("single_shapes");
  for (size_t i = 0; i < lib.size(); ++i) for (int m = 0; m < 4; ++m) ex.Case([&] { return lib[i].name; }, [&] {
    Problem p = MakeProblem({lib[i]}, m ? &Maps()[m] : nullptr);
    Expr one{"identity", {0}, {0}, [] { return Pos(0); }, [](const int* a) { return a[0]; }};
    Expr inv{"inversion", {1}, {0}, [] { return Neg(0); }, [](const int* a) { return -a[0]; }};
    for (size_t kd : {kNoKd, size_t(0), size_t(6)}) { Run(ex, p, one, kd); Run(ex, p, inv, kd); }
  });
  ex.Section("shape_pairs");
  for (size_t i = 0; i < lib.size(); ++i) for (size_t j = 0; j < lib.size(); ++j) for (const V& o : geo::Grid(-1, th ? 2 : 1)) {
    if (!th && (i * 5 + j * 3 + (o.x + 1) * 9 + (o.y + 1) * 3 + o.z + 1) % 6 != 1) continue;
    ex.Case([&] { return lib[i].name + " and " + lib[j].name + " moved by " + geo::T(o); }, [&] {
      Problem p = MakeProblem({lib[i], Moved(lib[j], o)});
      for (auto& e : Exprs2()) for (size_t kd : th ? std::vector<size_t>{kNoKd, 0, 6} : std::vector<size_t>{(i + j) & 1 ? kNoKd : 3}) Run(ex, p, e, kd);
    });
  }
  // Facets divided into fans, with different vertices on the two sides of an edge.
  ex.Section("divided_facets");
  {
    const Mat four = {{{4, 0, 0}, {0, 4, 0}, {0, 0, 4}}, {0, 0, 0}};
    const std::vector<V> apexes = {{1, 3, 9}, {-1, -3, -9}, {9, -3, 1}};
    for (size_t i = 0; i < lib.size(); ++i) for (size_t k = 0; k < lib.size(); ++k) for (int mode = 0; mode < (th ? 12 : 6); ++mode) {
      size_t j = (i + k) % lib.size();
      if (!th && (k > 4 || (i + k + mode) % 2)) continue;
      V o{I(i + mode) % 3 - 1, I(k) % 2, I(mode / 2) % 3 - 1};
      ex.Case([&] { return lib[i].name + " and " + lib[j].name + " moved by " + geo::T(o) + ", facets divided, mode " + std::to_string(mode); }, [&, i, j, o, mode] {
        Problem p = MakeProblem({lib[i], Moved(lib[j], o)}, &four);
        p.s[0] = Divided(p.s[0], mode % 3, apexes[mode % 3], true);
        if (mode % 4) p.s[1] = Divided(p.s[1], (mode + 1) % 3, apexes[mode / 3 % 3], mode % 4 != 3);
        Rep r; r.rotate = mode % 3;
        for (auto& e : Exprs2()) Run(ex, p, e, mode & 1 ? kNoKd : 6, r);
      });
    }
  }
  ex.Section("three_meshes");
  std::vector<Shape> pool = {Box({0, 0, 0}, {2, 2, 2}), Box({1, 1, 1}, {3, 3, 3}), Box({0, 0, 0}, {1, 3, 2}), lib[12], Moved(lib[14], {1, 0, 0}), CornerTet({0, 0, 0}, {3, 3, 3}), Box({1, 0, 0}, {2, 1, 3}), lib[17]};
  for (size_t i = 0; i < pool.size(); ++i) for (size_t j = 0; j < pool.size(); ++j) for (size_t k = 0; k < pool.size(); ++k)
    ex.Case([&] { return "A=" + pool[i].name + " B=" + pool[j].name + " C=" + pool[k].name; }, [&] {
      Problem p = MakeProblem({pool[i], pool[j], pool[k]});
      for (auto& e : Exprs3()) for (size_t kd : th ? std::vector<size_t>{kNoKd, 0, 6} : std::vector<size_t>{(i + j + k) & 1 ? kNoKd : 6}) Run(ex, p, e, kd);
    });
  // Every number of meshes up to 12 (and some larger ones).
  ex.Section("crowds");
  for (int kind = 0; kind < kCrowds; ++kind) for (int n : {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33}) {
    if (!th && n > (kind == 2 || kind == 4 ? 9 : 17)) continue;
    ex.Case([=] { return std::to_string(n) + " meshes: " + CrowdName(kind); }, [&, kind, n] {
      for (size_t m = 0; m < (n <= 8 || th ? 2u : 1u); ++m) {
        Problem p = CrowdProblem(Crowd(kind, n), {}, m ? &Maps()[2] : nullptr);
        for (auto& e : CrowdExprs(n)) for (size_t kd : {kNoKd, size_t(6)}) { if (!th && n > 9 && kd == 6) continue; Run(ex, p, e, kd); }
      }
    });
  }
}
