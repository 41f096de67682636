// C12: partitioned space classifies every region and polygon correctly.
#include <boost/multiprecision/cpp_int.hpp>
#include "boolcases.h"
using namespace solid;
using mc::Explorer;
typedef boost::multiprecision::cpp_rational Q;
typedef Tree::BSPNodeRep Node;
struct AreaKey { BSPContentId id; H h; bool operator<(const AreaKey& o) const { return id != o.id ? id < o.id : h.n.x != o.h.n.x ? h.n.x < o.h.n.x : h.n.y != o.h.n.y ? h.n.y < o.h.n.y : h.n.z != o.h.n.z ? h.n.z < o.h.n.z : h.d < o.h.d; } };
typedef std::map<AreaKey, Q> Areas;
// Twice the area times a constant that depends on the plane only; the sign
// tells the orientation.
static Q Area(const OPoly& p) {
  int d = p.plane.n.x ? 0 : p.plane.n.y ? 1 : 2;
  Q s = 0;
  size_t n = p.v.size();
  for (size_t i = 0; i < n; ++i) {
    const OPt &a = p.v[i], &b = p.v[(i + 1) % n];
    I ac[3] = {a.x, a.y, a.z}, bc[3] = {b.x, b.y, b.z};
    W num = W(ac[(d + 1) % 3]) * bc[(d + 2) % 3] - W(ac[(d + 2) % 3]) * bc[(d + 1) % 3];
    s += Q(orc::Z(static_cast<long long>(num)), orc::Z(static_cast<long long>(W(a.w) * b.w)));
  }
  return s;
}
static H NormalForm(const H& h) { I g = Gcd(Gcd(h.n.x, h.n.y), h.n.z); return {{h.n.x / g, h.n.y / g, h.n.z / g}, h.d / g}; }
struct Step { const Node* node; H h; bool pos; };
struct World {
  Explorer* ex;
  const Problem* p;
  const Expr* e;
  std::vector<Samp> samples;                 // of the arrangement of meshes and splits
  std::vector<std::vector<int>> wind;        // per id, per sample
  Areas areas;
};
static int SideOf(const H& h, const Samp& s) { return SgnW(W(h.n.x) * s.x + W(h.n.y) * s.y + W(h.n.z) * s.z - W(h.d) * s.D); }
static int SideOf(const H& h, const OPt& s) { return SgnW(W(h.n.x) * s.x + W(h.n.y) * s.y + W(h.n.z) * s.z - W(h.d) * s.w); }
static void Visit(const World& w, const Node& node, std::vector<Step>& path, Areas& found, std::map<BSPContentId, std::vector<OPoly>>& pieces, const std::string& what) {
  if (!node.IsLeaf()) {
    MC_CHECK(node.contents().empty() && node.border_contents().empty()) << what << ": an interior node keeps polygons";
    H h = ReadPlane(node.split());
    for (int pos = 0; pos < 2; ++pos) {
      path.push_back({&node, h, pos != 0});
      Visit(w, pos ? *node.positive_child() : *node.negative_child(), path, found, pieces, what);
      path.pop_back();
    }
    return;
  }
  w.ex->Op();
  auto pathname = [&] { std::string s; for (auto& st : path) s += (st.pos ? " +" : " -") + geo::T(st.h); return s; };
  std::vector<size_t> in;
  for (size_t i = 0; i < w.samples.size(); ++i) {
    bool ok = true;
    for (auto& st : path) ok &= SideOf(st.h, w.samples[i]) == (st.pos ? 1 : -1);
    if (ok) in.push_back(i);
  }
  std::map<BSPContentId, size_t> inner, border;
  auto piece = [&](const Node::PolygonRep& p) {
    MC_CHECK(p.IsValidState() && p.vertex_count() >= 3) << what << ": invalid piece in leaf" << pathname();
    OPoly o = ReadPoly(p);
    CheckOPoly(o, what.c_str());
    found[{p.id, NormalForm(o.plane)}] += Area(o);
    pieces[p.id].push_back(o);
    return o;
  };
  for (auto& p : node.contents()) {
    OPoly o = piece(p);
    ++inner[p.id];
    for (auto& st : path) {
      bool strict = false;
      for (auto& v : o.v) { int s = SideOf(st.h, v) * (st.pos ? 1 : -1); MC_CHECK(s >= 0) << what << ": piece " << T(o) << " sticks out of leaf" << pathname(); strict |= s > 0; }
      MC_CHECK(strict) << what << ": piece " << T(o) << " on a splitting plane is kept as interior of leaf" << pathname();
    }
    MC_CHECK(p.on_node_plane.split == nullptr) << what << ": interior piece claims to be on a splitting plane";
  }
  for (auto& p : node.border_contents()) {
    OPoly o = piece(p);
    ++border[p.id];
    bool found_plane = false;
    for (auto& st : path) {
      bool strict = false;
      for (auto& v : o.v) { int s = SideOf(st.h, v) * (st.pos ? 1 : -1); MC_CHECK(s >= 0) << what << ": border piece " << T(o) << " sticks out of leaf" << pathname(); strict |= s > 0; }
      if (!strict) {
        found_plane = true;
        MC_CHECK(p.on_node_plane.split == &st.node->split()) << what << ": border piece " << T(o) << " names another splitting plane in leaf" << pathname();
        MC_CHECK(p.on_node_plane.pos_side == st.pos) << what << ": border piece " << T(o) << " names the wrong side in leaf" << pathname();
        // A piece facing the same way as the split belongs to the negative side.
        MC_CHECK((geo::Dot(o.plane.n, st.h.n) > 0) == !st.pos) << what << ": border piece " << T(o) << " is attributed to the wrong side, leaf" << pathname();
      }
    }
    MC_CHECK(found_plane) << what << ": border piece " << T(o) << " is not on the border of leaf" << pathname();
  }
  for (BSPContentId id = 0; id < w.wind.size(); ++id) {
    auto info = node.GetContentInfoForId(id);
    MC_CHECK(info.has_interior_polygons == inner[id] && info.has_border_polygons == border[id])
        << what << ": leaf" << pathname() << " counts " << info.has_interior_polygons << "+" << info.has_border_polygons << " polygons of mesh " << id << " but holds " << inner[id] << "+" << border[id];
    if (in.empty()) continue;
    bool any = false;
    for (size_t i : in) {
      int k = w.wind[id][i];
      any |= info.pwn == k;
      if (!inner[id]) MC_CHECK(info.pwn == k) << what << ": leaf" << pathname() << " has winding " << info.pwn << " for mesh " << id << " but " << k << " at " << T(w.samples[i]);
    }
    MC_CHECK(any) << what << ": leaf" << pathname() << " has winding " << info.pwn << " for mesh " << id << ", which no point of it has";
    if (inner[id]) {
      // A cell with interior polygons is not uniform.
      bool differ = false; for (size_t i : in) differ |= w.wind[id][i] != w.wind[id][in[0]];
      (void)differ;
    }
  }
}
static void CheckTree(const World& w, const Tree& t, const std::string& what) {
  std::vector<Step> path; Areas found; std::map<BSPContentId, std::vector<OPoly>> pieces;
  Visit(w, t.root, path, found, pieces, what);
  for (auto& a : w.areas) MC_CHECK(found[a.first] == a.second) << what << ": mesh " << a.first.id << " covers " << found[a.first] << " of plane " << geo::T(a.first.h) << " instead of " << a.second;
  for (auto& a : found) MC_CHECK(w.areas.count(a.first) || a.second == 0) << what << ": polygons appeared on plane " << geo::T(a.first.h);
  for (BSPContentId id = 0; id < w.wind.size(); ++id) for (size_t i = 0; i < w.samples.size(); ++i) {
    int k = Winding(pieces[id], w.samples[i]);
    MC_CHECK(k == w.wind[id][i]) << what << ": the pieces of mesh " << id << " wind " << k << " times around " << T(w.samples[i]) << " instead of " << w.wind[id][i];
  }
}
static void SplitLeaves(Node& n, const walnut::HalfSpace3& h) {
  if (n.IsLeaf()) { n.Split(h); return; }
  SplitLeaves(*n.negative_child(), h); SplitLeaves(*n.positive_child(), h);
}
static World MakeWorld(Explorer& ex, const Problem& p, const Expr& e, const std::vector<H>& planes) {
  World w{&ex, &p, &e, {}, {}, {}};
  PlaneSet ps = p.planes; for (auto& h : planes) ps = Union(ps, {Unsided(h)});
  if (!p.samples.empty()) w.samples = p.samples; else
  for (int i : Lat().Select(ps)) w.samples.push_back(Lat().samples[i]);
  size_t top = 0; for (auto i : e.id) top = std::max(top, i);
  std::vector<std::vector<OPoly>> mesh(top + 1);
  for (size_t j = 0; j < p.s.size(); ++j) {
    Shape s = e.inv[j] ? Inverted(p.s[j]) : p.s[j];
    for (auto& f : s.faces) { OPoly o = FromFace(f); mesh[e.id[j]].push_back(o); w.areas[{e.id[j], NormalForm(o.plane)}] += Area(o); }
  }
  for (auto& m : mesh) { std::vector<int> k; for (auto& s : w.samples) k.push_back(Winding(m, s)); w.wind.push_back(k); }
  return w;
}
static void Run(Explorer& ex, const Problem& p, const Expr& e, const std::vector<H>& planes, bool all_modes, const Rep& rep) {
  World w = MakeWorld(ex, p, e, planes);
  std::string name = "splits"; for (auto& h : planes) name += " " + geo::T(h);
  size_t top = 0; for (auto i : e.id) top = std::max(top, i);
  auto mesh = [&](size_t j) { return MakeMesh(e.inv[j] ? Inverted(p.s[j]) : p.s[j], rep); };
  Tree t;
  // Mode k: mesh j is inserted after (j + 1) * k mod (number of splits + 1) splits.
  size_t modes = all_modes ? planes.size() + 1 : 1;
  for (size_t k = 0; k < modes; ++k) {
    std::string what = name + ", insertion mode " + std::to_string(k);
    for (size_t i = 0; i <= top; ++i) { BSPContentId id = t.AllocateId(); MC_CHECK(id == i) << what << ": identifiers do not restart"; }
    for (size_t step = 0; step <= planes.size(); ++step) {
      for (size_t j = 0; j < p.s.size(); ++j) if (((j + 1) * k) % (planes.size() + 1) == step) {
        if ((j + k) % 2) t.AddContents(e.id[j], mesh(j));
        else for (auto& q : mesh(j)) t.AddContent(e.id[j], q);
      }
      if (step < planes.size()) SplitLeaves(t.root, MakePlane(planes[step], rep));
    }
    CheckTree(w, t, what);
    ex.State(mc::HashAdd(mc::HashStr(what), w.samples.size()));
    t.Reset();
    MC_CHECK(t.root.IsLeaf() && t.root.contents().empty() && t.root.border_contents().empty() && t.root.content_info_by_id().empty() && t.next_id() == 0 && !t.root.negative_child() && !t.root.positive_child()) << what << ": Reset leaves something behind";
  }
}
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  auto lib = Library();
  auto shift = [](Shape s, V o) { return Moved(s, o); };
  // Menus of splitting planes: coincident with faces, through edges and
  // vertices, and in general position, in both directions.
  std::vector<H> menu;
  for (V n : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}}) for (I d : {0, 1, 2}) menu.push_back({n, d});
  menu.push_back({{1, 1, 0}, 2}); menu.push_back({{1, -1, 0}, 0}); menu.push_back({{0, 1, 1}, 1}); menu.push_back({{1, 0, -1}, 0});
  menu.push_back({{1, 1, 1}, 2}); menu.push_back({{1, 1, 1}, 3}); menu.push_back({{1, -1, 1}, 1}); menu.push_back({{-1, 1, 1}, 2});
  auto flip = [](H h, bool f) { return f ? H{h.n * -1, -h.d} : h; };

  static const Expr one = {"one mesh", {0}, {0}, nullptr, nullptr};
  static const Expr inv = {"inverted mesh", {1}, {1}, nullptr, nullptr};
  static const Expr two = {"two meshes", {0, 1}, {1, 0}, nullptr, nullptr};
  static const Expr same = {"two parts of a mesh", {0, 0}, {0, 0}, nullptr, nullptr};
  // Every ordered pair of splits, inserted before, between and after them.
  ex.Section("one_mesh_two_splits");
  for (size_t s = 0; s < lib.size(); ++s) for (size_t a = 0; a < menu.size(); ++a) for (int fa = 0; fa < 2; ++fa)
    ex.Case([&, s, a, fa] { return lib[s].name + " first split " + geo::T(flip(menu[a], fa)); }, [&] {
      Problem p; p.s = {lib[s]}; p.planes = PlanesOf(lib[s]);
      const Expr& e = (s + a) % 3 ? one : inv;
      Rep rep; rep.rotate = int(a + s) % 3; if ((a + s) % 4 == 1) { rep.weight = -3; rep.plane = 5; } if ((a + s) % 4 == 2) rep.weight = orc::Pow2(64);
      for (size_t b = 0; b < menu.size(); ++b) for (int fb = 0; fb < 2; ++fb) if (b != a) Run(ex, p, e, {flip(menu[a], fa), flip(menu[b], fb)}, true, rep);
    });
  // All ordered n-tuples of a menu that is windowed by the shape's index; the
  // windows of all shapes cover the whole menu.
  auto deep = [&](const char* name, size_t depth, size_t window, size_t shapes, bool modes) {
    ex.Section(name);
    for (size_t s = 0; s < shapes; ++s) for (size_t a = 0; a < window; ++a) for (int fa = 0; fa < 2; ++fa) {
      ex.Case([&, s, a, fa] { std::ostringstream o; o << lib[s].name << " " << depth << " splits, first " << geo::T(flip(menu[(a * 3 + s) % menu.size()], fa)); return o.str(); }, [&, depth, window, modes] {
        Problem p; p.s = {lib[s]}; p.planes = PlanesOf(lib[s]);
        std::vector<size_t> k = {a}; std::vector<H> pl = {flip(menu[(a * 3 + s) % menu.size()], fa)};
        std::function<void()> go = [&] {
          if (k.size() == depth) { Run(ex, p, s & 1 ? one : inv, pl, modes, Rep()); return; }
          for (size_t b = 0; b < window; ++b) for (int fb = 0; fb < 2; ++fb) {
            if (std::find(k.begin(), k.end(), b) != k.end()) continue;
            k.push_back(b); pl.push_back(flip(menu[(b * 3 + s) % menu.size()], fb));
            go(); k.pop_back(); pl.pop_back();
          }
        };
        go();
      });
    }
  };
  deep("one_mesh_three_splits", 3, th ? menu.size() : 6, lib.size(), false);
  deep("four_splits", 4, th ? 6 : 4, lib.size(), th);
  deep("five_splits", 5, th ? 5 : 5, th ? lib.size() : 3, false);
  ex.Section("two_meshes");
  std::vector<V> offs = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, -1, 1}, {1, 1, 1}, {2, 0, 0}};
  // Quick: one shape of each kind.
  std::vector<size_t> kinds = {0, 3, 7, 12, 14, 15, 17, 25};
  if (th) { kinds.clear(); for (size_t i = 0; i < lib.size(); ++i) kinds.push_back(i); }
  for (size_t s : kinds) for (size_t t : kinds) for (size_t o = 0; o < offs.size(); ++o) {
    ex.Case([&, s, t, o] { return lib[s].name + " and " + lib[t].name + " + " + geo::T(offs[o]); }, [&] {
      Shape b = shift(lib[t], offs[o]);
      Problem p; p.s = {lib[s], b}; p.planes = Union(PlanesOf(lib[s]), PlanesOf(b));
      // Split at face planes of the meshes themselves and one more plane.
      std::vector<H> own;
      for (const Shape* q : {&lib[s], &b}) for (size_t f = 0; f < q->faces.size() && f < (th ? 4u : 2u); ++f) { H h = FacePlane(q->faces[f]); bool dup = false; for (auto& g : own) dup |= Unsided(g).n == Unsided(h).n && Unsided(g).d == Unsided(h).d; if (!dup) own.push_back(h); }
      bool more = true; for (auto& g : own) more &= !(Unsided(g).n == V{1, 1, 1} && Unsided(g).d == 2);
      if (more) own.push_back({{1, 1, 1}, 2});
      for (size_t i = 0; i < own.size(); ++i) for (size_t j = 0; j < own.size(); ++j) for (size_t k = 0; k < own.size(); ++k) {
        if (i == j || j == k || i == k) continue;
        Run(ex, p, (i + j) & 1 ? two : same, {own[i], flip(own[j], k & 1), flip(own[k], i & 1)}, true, Rep());
      }
    });
  }
  // Long chains of splits (each splits one child of the previous one), with
  // meshes inserted at several depths.
  ex.Section("chains");
  for (int kind = 0; kind < kCrowds; ++kind) for (int n : {2, 3, 5, 9, 12}) for (int mode = 0; mode < 8; ++mode) {
    if (!th && (n > 9 || (n == 9 && (kind == 2 || kind == 4)))) continue;
    ex.Case([=] { return std::to_string(n) + " meshes, " + CrowdName(kind) + ", chain of splits " + std::to_string(mode); }, [&, kind, n, mode] {
      // The planes of a chain: x, y and z in turn, at every integer and half integer.
      std::vector<H> planes; std::vector<bool> pos;
      const I end = kind == 2 ? 3 * n : kind == 5 || kind == 7 ? 2 * n : n + 3;
      for (I i = 0; i <= std::min<I>(end, 30); ++i) {
        // The chain moves towards larger x, smaller y, or both.
        if (mode % 4 != 1) { bool f = i % 3 == 1; planes.push_back(flip({{1, 0, 0}, mode & 1 ? end - i : i}, f)); pos.push_back(((mode & 1) == 0) != f); }
        if (mode % 4 == 1 || mode % 4 == 3) { bool f = i % 2; planes.push_back(flip({{0, 1, 0}, end - i}, f)); pos.push_back(f); }
        if (mode % 4 == 2 && i < 4) { planes.push_back({{0, 0, 1}, i}); pos.push_back(true); }
      }
      auto boxes = Crowd(kind, n);
      Problem p = CrowdProblem(boxes, planes);
      Expr e{"many meshes", {}, {}, nullptr, nullptr};
      for (int i = 0; i < n; ++i) { e.inv.push_back(i % 5 == 3); e.id.push_back(mode & 4 ? i : i / 2); }
      World w = MakeWorld(ex, p, e, planes);
      for (int order = 0; order < 3; ++order) {
        Tree t;
        for (int i = 0; i < n; ++i) t.AllocateId();
        Node* node = &t.root;
        for (size_t step = 0; step <= planes.size(); ++step) {
          for (int j = 0; j < n; ++j) if (step == (order == 0 ? 0 : order == 1 ? planes.size() : planes.size() * j / n)) t.AddContents(e.id[j], MakeMesh(e.inv[j] ? Inverted(p.s[j]) : p.s[j]));
          if (step == planes.size()) break;
          node->Split(MakePlane(planes[step], Rep()));
          node = pos[step] ? node->positive_child() : node->negative_child();
        }
        CheckTree(w, t, "chain, order " + std::to_string(order));
        ex.State(mc::HashAdd(kind * 64 + n, mode * 4 + order));
      }
    });
  }
}
