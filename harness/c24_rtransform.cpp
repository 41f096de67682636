// C24: the tie-breaking perturbation orders degenerate contacts consistently.
#include "boolcases.h"
#include "walnut/r_transformation.h"
using namespace solid;
using mc::Explorer;
using orc::Z; using geo::ZV;
typedef Tree::BSPNodeRep Node;

// The documented shear with eps = 1/e: (x, y, z + y/e + x/e^2), times e^2.
static ZV Shear(const V& p, const Z& e) { return {Z(p.x) * e * e, Z(p.y) * e * e, (Z(p.z) * e + p.y) * e + p.x}; }
static int Sg(const Z& z) { return z < 0 ? -1 : z > 0; }
static ZV Minus(const ZV& a, const ZV& b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
// Two independent integer vectors with cross product a positive multiple of n.
static void Basis(const V& n, V& a, V& b) {
  a = n.x || n.y ? V{-n.y, n.x, 0} : V{1, 0, 0};
  b = geo::Cross(n, a);
}
static void Points(Explorer& ex) {
  ex.Section("points");
  auto grid = geo::Grid(-2, 2);
  for (size_t i = 0; i < grid.size(); ++i) for (I w1 : {1, 3})
    ex.Case([&, i, w1] { std::ostringstream o; o << "point " << geo::T(grid[i]) << "/" << w1; return o.str(); }, [&, i, w1] {
      for (const Z& e : {Z(64), Z(1000), orc::Pow2(70)}) for (const Z& s1 : {Z(1), Z(-1), orc::Pow2(64)}) {
        geo::P p{grid[i], w1};
        walnut::HomoPoint3 rp = walnut::RTransform(geo::MkP(p, s1), walnut::BigInt(orc::ToB(e)));
        ZV sp = Shear(p.v, e);
        Z w = orc::ToZ(rp.w());
        MC_CHECK(w != 0) << "transformed to infinity";
        // (sp / (e^2 w1)) == rp / w
        MC_CHECK(orc::ToZ(rp.x()) * e * e * p.w == sp.x * w && orc::ToZ(rp.y()) * e * e * p.w == sp.y * w && orc::ToZ(rp.z()) * e * e * p.w == sp.z * w)
            << "RTransform(" << geo::T(p) << ") is " << rp << " with 1/eps " << e;
        for (auto& q : grid) for (I w2 : {1, 2}) {
          walnut::HomoPoint3 rq = walnut::RTransform(geo::MkP({q, w2}, w2 == 2 ? Z(-5) : Z(1)), walnut::BigInt(orc::ToB(e)));
          // Reverse lexicographic order of the points is the order of the transformed z.
          V d = p.v * w2 - q * w1;
          int want = d.z ? geo::S(d.z) : d.y ? geo::S(d.y) : geo::S(d.x);
          int got = rp.CompareComponent(2, rq);
          MC_CHECK((got > 0) - (got < 0) == want) << "the order of " << geo::T(p) << " and " << geo::T(q) << "/" << w2 << " is " << got << " after the transformation, 1/eps " << e;
          ex.Op();
        }
      }
      ex.State(mc::HashAdd(i, w1));
    });
}
static void Bivectors(Explorer& ex, int r) {
  ex.Section("bivectors");
  auto grid = geo::Grid(-r, r);
  static const std::vector<Z> scales = {Z(1), orc::Pow2(63), Z(3) << 64};
  for (size_t i = 0; i < grid.size(); ++i)
    ex.Case([&, i] { return "normal " + geo::T(grid[i]); }, [&, i] {
      const V u = grid[i];
      // The plane through three transformed points, by the real code.
      auto sheared = [&](const V& n, const V& at, I e) {
        V a, b; Basis(n, a, b);
        walnut::BigInt be{int64_t(e)};
        auto R = [&](const V& p) { return walnut::RTransform(geo::MkP({p, 1}, 1), be); };
        return walnut::HalfSpace3(R(at), R(at + a), R(at + b));
      };
      const I e = 10000;
      for (size_t j = 0; j < grid.size(); ++j) {
        const V v = grid[j];
        int want;
        if (geo::Zero(u) || geo::Zero(v)) want = 0;
        else {
          // Exact normals of the sheared planes.
          V a, b, c, d; Basis(u, a, b); Basis(v, c, d);
          ZV nu = geo::ZCross(Minus(Shear(a, e), {0, 0, 0}), Shear(b, e)), nv = geo::ZCross(Shear(c, e), Shear(d, e));
          want = Sg(nu.x * nv.y - nu.y * nv.x);
          MC_CHECK((want == 0) == geo::Parallel(u, v)) << "harness: 1/eps is too small";
        }
        const Z& su = scales[(i + j) % 3]; const Z& sv = scales[(i * 7 + j / 3) % 3];
        walnut::Vector3 wu = geo::MkV(u, su), wv = geo::MkV(v, sv);
        int got = walnut::RXYCompareBivector(wu, wv);
        MC_CHECK(got == want) << "RXYCompareBivector(" << geo::T(u) << ", " << geo::T(v) << ") is " << got << ", a concrete displacement gives " << want;
        walnut::HalfSpace3 h(wv, walnut::BigInt(int64_t(j)));
        for (int pos = 0; pos < 2; ++pos) {
          int g2 = walnut::RXYCompareBivector(wu, walnut::SplitSide{&h, pos != 0});
          MC_CHECK(g2 == (pos ? -want : want)) << "RXYCompareBivector(" << geo::T(u) << ", " << (pos ? "positive" : "negative") << " side of " << geo::T(v) << ") is " << g2;
        }
        ex.Op(3);
        if (j % 16 == i % 16 && want != 9 && !geo::Zero(u) && !geo::Zero(v)) {
          walnut::HalfSpace3 ru = sheared(u, {1, 0, -2}, e), rv = sheared(v, {0, 2, 1}, e);
          int g3 = Sg(orc::ToZ(ru.x()) * orc::ToZ(rv.y()) - orc::ToZ(ru.y()) * orc::ToZ(rv.x()));
          MC_CHECK(g3 == got) << "planes through transformed points with normals " << geo::T(u) << ", " << geo::T(v) << " turn " << g3 << ", RXYCompareBivector is " << got;
        }
      }
      if (!geo::Zero(u)) {
        // Sides are kept by the transformation.
        walnut::HalfSpace3 ru = sheared(u, {1, 0, -2}, e);
        for (auto& q : geo::Grid(-2, 2)) {
          int want = geo::S(geo::Dot(u, q - V{1, 0, -2}));
          int got = geo::PlaneSide(ru, walnut::RTransform(geo::MkP({q, 1}, 1), walnut::BigInt(int64_t(e))));
          MC_CHECK(got == want) << "point " << geo::T(q) << " is on side " << want << " of the plane " << geo::T(u) << " and on side " << got << " after the transformation";
        }
      }
      ex.State(geo::Hash(u));
    });
}
// Boundary records of the partition.
struct Step { const Node* node; H h; bool pos; };
static I Ev(const H& h, const OPt& s) { W e = W(h.n.x) * s.x + W(h.n.y) * s.y + W(h.n.z) * s.z - W(h.d) * s.w; return SgnW(e); }
static std::string Name(const walnut::SplitSide& s) { std::ostringstream o; o << s; return o.str(); }
static void CheckPiece(Explorer& ex, const Node::PolygonRep& p, bool border, const std::vector<Step>& path, const std::vector<OPoly>& input, const std::string& what) {
  OPoly o = ReadPoly(p);
  size_t n = o.v.size();
  auto all = [&] { std::string s = what + ", piece " + T(o) + " of leaf"; for (auto& st : path) s += (st.pos ? " +" : " -") + geo::T(st.h); return s; };
  for (size_t i = 0; i < n; ++i) {
    const auto& e = p.const_edge(i);
    const OPt &a = o.v[i], &b = o.v[(i + 1) % n];
    walnut::SplitSide first, last, vlast;
    for (auto& st : path) {
      bool va = Ev(st.h, a) == 0, vb = Ev(st.h, b) == 0;
      walnut::SplitSide me{&st.node->split(), st.pos};
      if (va) vlast = me;
      if (va && vb) { last = me; if (!first.split) first = me; }
    }
    MC_CHECK(e.vertex_last_coincident == vlast) << "vertex " << i << " records " << Name(e.vertex_last_coincident) << ", the deepest plane through it is " << Name(vlast) << ": " << all();
    MC_CHECK(e.edge_last_coincident == last) << "edge " << i << " records " << Name(e.edge_last_coincident) << " as deepest plane instead of " << Name(last) << ": " << all();
    MC_CHECK(e.edge_first_coincident == first) << "edge " << i << " records " << Name(e.edge_first_coincident) << " as highest plane instead of " << Name(first) << ": " << all();
    // Created by a split or part of an input edge of the same plane?
    bool of_input = false;
    for (auto& q : input) {
      bool coplanar = true; for (auto& v : o.v) coplanar &= Ev(q.plane, v) == 0;
      if (!coplanar || geo::Dot(q.plane.n, o.plane.n) <= 0) continue;
      for (size_t k = 0; k < q.v.size(); ++k) {
        const OPt &c = q.v[k], &d = q.v[(k + 1) % q.v.size()];
        V cd = {d.x * c.w - c.x * d.w, d.y * c.w - c.y * d.w, d.z * c.w - c.z * d.w};
        auto on = [&](const OPt& s) { V cs = {s.x * c.w - c.x * s.w, s.y * c.w - c.y * s.w, s.z * c.w - c.z * s.w}; return geo::Parallel(cs, cd); };
        of_input |= on(a) && on(b);
      }
    }
    if (!of_input) {
      bool found = false;
      for (auto& st : path) if (e.edge_created_by.split == &st.node->split()) found = e.edge_created_by.pos_side == st.pos && Ev(st.h, a) == 0 && Ev(st.h, b) == 0;
      MC_CHECK(found) << "edge " << i << " was made by a split but records " << Name(e.edge_created_by) << ": " << all();
    }
    ex.Op();
  }
  (void)border;
}
static void Visit(Explorer& ex, const Node& node, std::vector<Step>& path, const std::vector<OPoly>& input, const std::string& what) {
  if (!node.IsLeaf()) {
    // Not reduced to a primitive normal: the traversal may cut between lattice planes.
    orc::Z x = orc::ToZ(node.split().x()), y = orc::ToZ(node.split().y()), z = orc::ToZ(node.split().z()), d = orc::ToZ(node.split().d());
    auto A = [](const orc::Z& a) { return a < 0 ? orc::Z(-a) : a; };
    orc::Z g = boost::multiprecision::gcd(boost::multiprecision::gcd(A(x), A(y)), boost::multiprecision::gcd(A(z), A(d)));
    MC_CHECK(g != 0) << "zero split plane: " << what;
    H h{{Small(x / g), Small(y / g), Small(z / g)}, Small(d / g)};
    for (int pos = 0; pos < 2; ++pos) {
      path.push_back({&node, h, pos != 0});
      Visit(ex, pos ? *node.positive_child() : *node.negative_child(), path, input, what);
      path.pop_back();
    }
    return;
  }
  for (auto& p : node.contents()) CheckPiece(ex, p, false, path, input, what);
  for (auto& p : node.border_contents()) CheckPiece(ex, p, true, path, input, what);
}
static void SplitLeaves(Node& n, const walnut::HalfSpace3& h) {
  if (n.IsLeaf()) { n.Split(h); return; }
  SplitLeaves(*n.negative_child(), h); SplitLeaves(*n.positive_child(), h);
}
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  Points(ex);
  Bivectors(ex, th ? 4 : 3);
  auto lib = Library();
  std::vector<H> menu;
  for (V n : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}}) for (I d : {0, 1, 2}) menu.push_back({n, d});
  menu.push_back({{1, 1, 0}, 2}); menu.push_back({{1, -1, 0}, 0}); menu.push_back({{0, 1, 1}, 1}); menu.push_back({{1, 0, -1}, 0});
  menu.push_back({{1, 1, 1}, 2}); menu.push_back({{1, 1, 1}, 3}); menu.push_back({{1, -1, 1}, 1}); menu.push_back({{-1, 1, 1}, 2});
  auto flip = [](H h, bool f) { return f ? H{h.n * -1, -h.d} : h; };
  ex.Section("boundaries");
  for (size_t s = 0; s < lib.size(); ++s) for (size_t a = 0; a < menu.size(); ++a) for (int fa = 0; fa < 2; ++fa)
    ex.Case([&, s, a, fa] { return lib[s].name + " first split " + geo::T(flip(menu[a], fa)); }, [&, s, a, fa] {
      std::vector<OPoly> input; for (auto& f : lib[s].faces) input.push_back(FromFace(f));
      uint64_t id = (s * 32 + a) * 2 + fa;
      for (size_t b = 0; b < menu.size(); ++b) for (size_t c = 0; c < menu.size(); ++c) {
        if (a == b || b == c || a == c) continue;
        uint64_t h = mc::Mix(id * 1024 + b * 32 + c);
        if (!th && h % 2) continue;
        std::vector<H> pl = {flip(menu[a], fa), flip(menu[b], h >> 8 & 1), flip(menu[c], h >> 9 & 1)};
        // The mesh comes before the first, second or third split.
        size_t at = h >> 10 & 3;
        Rep rep; rep.rotate = int(h >> 12 & 3);
        Tree t; BSPContentId m = t.AllocateId();
        for (size_t k = 0; k <= pl.size(); ++k) {
          if (k == at) t.AddContents(m, MakeMesh(lib[s], rep));
          if (k < pl.size()) SplitLeaves(t.root, MakePlane(pl[k], rep));
        }
        std::ostringstream what; what << lib[s].name << " splits"; for (auto& q : pl) what << " " << geo::T(q); what << ", mesh inserted before split " << at;
        std::vector<Step> path;
        Visit(ex, t.root, path, input, what.str());
        ex.State(mc::HashStr(what.str()));
      }
    });
  // Trees that the traversal itself splits, with every bound for the event based strategy.
  ex.Section("traversed");
  for (size_t s = 0; s < lib.size(); ++s) for (size_t u = 0; u < lib.size(); ++u)
    ex.Case([&, s, u] { return lib[s].name + " and " + lib[u].name; }, [&, s, u] {
      for (size_t k = 0; k < 27; ++k) for (int bound : {0, 1, 2, 3, 4, 6, 9, -1}) for (int first = -1; first < 2; ++first) {
        uint64_t h = mc::Mix((((s * 32 + u) * 27 + k) * 16 + bound + 1) * 4 + first + 1);
        if (h % (th ? 6 : 120)) continue;
        Shape b = Moved(lib[u], {I(k % 3) - 1, I(k / 3 % 3) - 1, I(k / 9) - 1});
        if (h >> 40 & 1) b = Inverted(b);
        std::vector<OPoly> input; for (auto& f : lib[s].faces) input.push_back(FromFace(f)); for (auto& f : b.faces) input.push_back(FromFace(f));
        Rep rep; rep.rotate = int(h >> 12 & 3);
        Tree t; BSPContentId x = t.AllocateId(), y = t.AllocateId();
        std::ostringstream what; what << lib[s].name << " and " << b.name << ", bound " << bound;
        if (first >= 0) { H q = flip(menu[(h >> 20) % menu.size()], first); what << ", split " << geo::T(q); SplitLeaves(t.root, MakePlane(q, rep)); }
        t.AddContents(x, MakeMesh(lib[s], rep)); t.AddContents(y, MakeMesh(b, rep));
        int op = int(h >> 30) % 3;
        Collect(t, op == 0 ? Or(Pos(x), Pos(y)) : op == 1 ? And(Pos(x), Pos(y)) : Sub(Pos(x), Pos(y)), size_t(bound));
        std::vector<Step> path;
        Visit(ex, t.root, path, input, what.str());
        ex.State(mc::HashStr(what.str()));
      }
    });
}
