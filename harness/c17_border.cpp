// C17: reported cell borders are exactly the faces of the convex cell.
#include "boolcases.h"
using namespace solid;
using mc::Explorer;
namespace {
H Flip(H h, bool f) { return f ? H{h.n * -1, -h.d} : h; }
int Side(const H& h, const OPt& p) { return SgnW(W(h.n.x) * p.x + W(h.n.y) * p.y + W(h.n.z) * p.z - W(h.d) * p.w); }
bool Meet(const H& a, const H& b, const H& c, OPt& out) {
  V bc = geo::Cross(b.n, c.n), ca = geo::Cross(c.n, a.n), ab = geo::Cross(a.n, b.n);
  I w = I(geo::Dot(a.n, bc)); if (!w) return false;
  V s = bc * a.d + ca * b.d + ab * c.d;
  I g = Gcd(Gcd(s.x, s.y), Gcd(s.z, w)); if (w < 0) g = -g;
  out = {s.x / g, s.y / g, s.z / g, w / g};
  return true;
}
bool Same(const H& a, const H& b) { return a.n == b.n && a.d == b.d; }
// The two-dimensional region plane `on` intersected with {h <= 0 for h in hs},
// as the sorted set of its corners; empty when it has no area.
std::vector<OPt> Facet(const H& on, const std::vector<H>& hs) {
  std::vector<OPt> r;
  for (size_t i = 0; i < hs.size(); ++i) for (size_t j = i + 1; j < hs.size(); ++j) {
    OPt p; if (!Meet(on, hs[i], hs[j], p)) continue;
    bool ok = true; for (auto& h : hs) ok &= Side(h, p) <= 0;
    if (ok) r.push_back(p);
  }
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  if (r.size() < 3) return {};
  auto diff = [](const OPt& a, const OPt& b) { return V{a.x * b.w - b.x * a.w, a.y * b.w - b.y * a.w, a.z * b.w - b.z * a.w}; };
  bool area = false; for (size_t i = 2; i < r.size(); ++i) area |= !geo::Zero(geo::Cross(diff(r[1], r[0]), diff(r[i], r[0])));
  if (!area) return {};
  return r;
}
typedef std::map<std::vector<I>, std::vector<OPt>> Faces;  // plane -> corners
std::vector<I> Key(const H& h) { return {h.n.x, h.n.y, h.n.z, h.d}; }
std::string T(const Faces& f) { std::ostringstream o; for (auto& k : f) { o << "[" << k.first[0] << "," << k.first[1] << "," << k.first[2] << "=" << k.first[3] << ":"; for (auto& p : k.second) o << " (" << p.x << "," << p.y << "," << p.z << ")/" << p.w; o << "]"; } return o.str(); }
struct BoxCase { std::string name; V lo, hi; I denom; };
std::vector<H> Walls(const BoxCase& b) {
  std::vector<H> r;
  for (int d = 0; d < 3; ++d) {
    V n{0, 0, 0}; (d == 0 ? n.x : d == 1 ? n.y : n.z) = 1;
    I lo = d == 0 ? b.lo.x : d == 1 ? b.lo.y : b.lo.z, hi = d == 0 ? b.hi.x : d == 1 ? b.hi.y : b.hi.z;
    I g1 = Gcd(hi, b.denom), g2 = Gcd(lo, b.denom);
    r.push_back({n * (b.denom / g1), hi / g1}); r.push_back({n * -(b.denom / g2), -lo / g2});
  }
  return r;
}
// The plane in lowest terms (normal and offset together).
H Lowest(const walnut::HalfSpace3& h) {
  orc::Z c[4] = {orc::ToZ(h.x()), orc::ToZ(h.y()), orc::ToZ(h.z()), orc::ToZ(h.d())}; orc::Z g = 0;
  for (auto& z : c) g = boost::multiprecision::gcd(g, z < 0 ? orc::Z(-z) : z);
  MC_CHECK(g != 0) << "border facet with a zero plane";
  for (auto& z : c) z /= g;
  return {{Small(c[0]), Small(c[1]), Small(c[2])}, Small(c[3])};
}
template <class P>
void Read(const std::vector<P>& out, Faces& got, const std::string& what) {
  for (auto& p : out) {
    MC_CHECK(p.vertex_count() >= 3) << what << ": border polygon with " << p.vertex_count() << " vertices";
    MC_CHECK(p.IsValidState()) << what << ": invalid border polygon";
    OPoly o; for (size_t i = 0; i < p.vertex_count(); ++i) o.v.push_back(ReadPoint(p.vertex(i)));
    o.plane = Lowest(p.plane());
    CheckOPoly(o, what.c_str());
    std::vector<OPt> v = o.v; std::sort(v.begin(), v.end());
    MC_CHECK(got.emplace(Key(o.plane), v).second) << what << ": two border polygons on plane " << geo::T(o.plane);
  }
}
void CheckClosed(const std::vector<std::vector<OPt>>& loops, const std::string& what) {
  std::map<std::pair<OPt, OPt>, int> e;
  for (auto& l : loops) for (size_t i = 0; i < l.size(); ++i) { const OPt &a = l[i], &b = l[(i + 1) % l.size()]; ++e[{a, b}]; --e[{b, a}]; }
  for (auto& k : e) MC_CHECK(k.second == 0) << what << ": the border is not closed";
}
void CheckCell(Explorer& ex, const BoxCase& bc, const std::vector<H>& splits, const std::vector<bool>& side, const std::string& what) {
  Tree t; Tree::BSPNodeRep* n = &t.root;
  for (size_t i = 0; i < splits.size(); ++i) {
    Rep r; if (i == 1) r.plane = 3; if (i == 2) r.plane = orc::Pow2(64);
    n->Split(MakePlane(splits[i], r)); n = side[i] ? n->positive_child() : n->negative_child();
  }
  walnut::Vector3 lo(orc::ToB(bc.lo.x), orc::ToB(bc.lo.y), orc::ToB(bc.lo.z)), hi(orc::ToB(bc.hi.x), orc::ToB(bc.hi.y), orc::ToB(bc.hi.z));
  walnut::AABB box(lo, hi, orc::ToB(bc.denom));
  std::vector<H> cell, all = Walls(bc);
  for (size_t i = 0; i < splits.size(); ++i) { H h = Flip(splits[i], side[i]); cell.push_back(h); bool dup = false; for (auto& w : all) dup |= Same(w, h); if (!dup) all.push_back(h); }
  // The closed cell within the box; it has an interior iff it has four
  // corners off a common plane, i.e. at least four facets.
  Faces want;
  for (auto& h : all) { auto f = Facet(h, all); if (!f.empty()) want[Key(h)] = f; }
  if (want.size() < 4) want.clear();
  auto out = t.GetNodeBorder(side.begin(), side.end(), box);
  ex.Op();
  Faces got; Read(out, got, what);
  MC_CHECK(got == want) << what << ": border is " << T(got) << " instead of " << T(want);
  std::vector<std::vector<OPt>> loops;
  for (auto& p : out) { std::vector<OPt> l; for (size_t i = 0; i < p.vertex_count(); ++i) l.push_back(ReadPoint(p.vertex(i))); loops.push_back(l); }
  CheckClosed(loops, what);
  // The cell's own border, truncated to the box but without its walls.
  Faces want2;
  std::vector<H> walls = Walls(bc);
  for (size_t i = 0; i < cell.size(); ++i) {
    // On the plane of split i: within the other half-spaces and the box.
    std::vector<H> hs = walls; for (size_t j = 0; j < cell.size(); ++j) if (j != i) hs.push_back(cell[j]);
    auto f = Facet(cell[i], hs); if (!f.empty()) want2[Key(cell[i])] = f;
  }
  auto out2 = t.GetNodeBorderNoBoundWalls(side.begin(), side.end(), box);
  ex.Op();
  Faces got2; Read(out2, got2, what + " without walls");
  MC_CHECK(got2 == want2) << what << ": border without walls is " << T(got2) << " instead of " << T(want2);
  uint64_t h = 11; for (auto& k : got) { for (auto x : k.first) h = mc::HashAdd(h, x); for (auto& p : k.second) h = mc::HashAdd(mc::HashAdd(mc::HashAdd(mc::HashAdd(h, p.x), p.y), p.z), p.w); }
  ex.State(h);
}
}  // namespace
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  std::vector<H> menu;
  for (V n : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}}) for (I d : {0, 1, 2, 3}) menu.push_back({n, d});
  menu.push_back({{1, 1, 0}, 2}); menu.push_back({{1, -1, 0}, 0}); menu.push_back({{0, 1, 1}, 4}); menu.push_back({{1, 0, -1}, 1});
  menu.push_back({{1, 1, 1}, 2}); menu.push_back({{1, 1, 1}, 3}); menu.push_back({{1, -1, 1}, 1}); menu.push_back({{-1, 1, 1}, 5}); menu.push_back({{1, 2, 3}, 6}); menu.push_back({{2, -1, 1}, 0}); menu.push_back({{1, 1, -2}, 0});
  std::vector<BoxCase> boxes = {{"box 0..2", {0, 0, 0}, {2, 2, 2}, 1}, {"box (-1,0,1)..(3,1,3)", {-1, 0, 1}, {3, 1, 3}, 1}, {"box (1,1,1)/2..(3,5,4)/2", {1, 1, 1}, {3, 5, 4}, 2}};
  ex.Section("no_split");
  for (size_t b = 0; b < boxes.size(); ++b) ex.Case([&, b] { return boxes[b].name; }, [&, b] { CheckCell(ex, boxes[b], {}, {}, "root"); });
  // All sequences of splits up to a depth and both sides of each.
  auto cells = [&](const char* name, size_t depth, size_t window, size_t nboxes) {
    ex.Section(name);
    for (size_t b = 0; b < nboxes; ++b) for (size_t first = 0; first < menu.size(); ++first) for (size_t second = 0; second < (depth > 1 ? window : 1); ++second) {
      if (depth > 1 && (first + 1 + second * 5) % menu.size() == first) continue;
      ex.Case([&, b, first, second, depth] { std::ostringstream o; o << boxes[b].name << ", " << depth << " splits, first " << geo::T(menu[first]); if (depth > 1) o << ", then " << geo::T(menu[(first + 1 + second * 5) % menu.size()]); return o.str(); }, [&, b, first, second, depth, window] {
        std::vector<size_t> k = {first}; if (depth > 1) k.push_back((first + 1 + second * 5) % menu.size());
        std::function<void()> go = [&] {
          if (k.size() == depth) {
            std::vector<H> pl; for (size_t i = 0; i < k.size(); ++i) pl.push_back(Flip(menu[k[i]], (k[i] + i) % 3 == 0));
            for (int m = 0; m < 1 << depth; ++m) {
              std::vector<bool> side; std::string w = "cell"; for (size_t i = 0; i < depth; ++i) { side.push_back(m >> i & 1); w += (m >> i & 1 ? " +" : " -") + geo::T(pl[i]); }
              CheckCell(ex, boxes[b], pl, side, w);
            }
            return;
          }
          for (size_t j = 0; j < window; ++j) { size_t c = (k[0] + 1 + j * 5) % menu.size(); if (std::find(k.begin(), k.end(), c) != k.end()) continue; k.push_back(c); go(); k.pop_back(); }
        };
        go();
      });
    }
  };
  size_t n = menu.size();
  cells("one_split", 1, n, boxes.size());
  cells("two_splits", 2, n, boxes.size());
  cells("three_splits", 3, n, th ? boxes.size() : 1);
  cells("four_splits", 4, th ? n : 5, boxes.size());
  if (th) cells("five_splits", 5, 6, boxes.size());
  // Long sequences: cells with many facets, and narrowing cells of which most
  // planes are redundant.
  ex.Section("many_splits");
  std::vector<V> dirs;
  for (const V& v : geo::Grid(-2, 2)) if (Gcd(Gcd(v.x, v.y), v.z) == 1) dirs.push_back(v);
  const BoxCase big[2] = {{"box -10..10", {-10, -10, -10}, {10, 10, 10}, 1}, {"box (-3,-8,-2)..(9,7,5)", {-3, -8, -2}, {9, 7, 5}, 1}};
  for (int b = 0; b < 2; ++b) for (size_t n = 5; n <= (th ? 40u : 24u); ++n) for (int mode = 0; mode < (th ? 12 : 6); ++mode)
    ex.Case([=] { return big[b].name + ", " + std::to_string(n) + " splits, mode " + std::to_string(mode); }, [&, b, n, mode] {
      std::vector<H> pl; std::vector<bool> side;
      for (size_t i = 0; pl.size() < n && i < 400; ++i) {
        V d = dirs[(i * (5 + 2 * mode) + mode) % dirs.size()];
        I r = 0; while (r * r < 36 * geo::Dot(d, d)) ++r;  // about distance 6
        if (mode % 3 == 1) r += I(i % 4) - 1;       // some redundant
        if (mode % 3 == 2) { d = dirs[(i % 7 * 11 + mode) % dirs.size()]; r = 12 - I(i / 7) * (i % 7 < 4 ? 1 : 2); if (r <= 0) r = 1; }  // narrowing
        H h{d, r}; bool dup = false; for (auto& q : pl) dup |= Same(Unsided(q), Unsided(h)); if (dup) continue;
        bool f = (i + mode) % 2;
        pl.push_back(f ? H{d * -1, -r} : h); side.push_back(f);
      }
      CheckCell(ex, big[b], pl, side, "cell around the origin");
      // The last side is also taken the other way.
      side.back() = !side.back();
      CheckCell(ex, big[b], pl, side, "cell beyond the last plane");
      side.back() = !side.back(); side[n / 2] = !side[n / 2];
      CheckCell(ex, big[b], pl, side, "cell beyond the middle plane");
    });
}
