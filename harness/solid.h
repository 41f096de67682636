// Small polyhedra, exact winding numbers and complete sample sets, and drivers
// of the real BSP boolean pipeline. The oracle never uses walnut arithmetic.
#ifndef VERIF_SOLID_H
#define VERIF_SOLID_H
#include <deque>
#include <set>
#include <array>
#include <functional>
#include <memory>
#include <numeric>
#include <unordered_map>
#include <unordered_set>
#include "geo.h"
#include "walnut/aabb.h"
#include "walnut/bsp_tree.h"
#include "walnut/bsp_visitor.h"
#include "walnut/boolean_operation_filter.h"
#include "walnut/connecting_visitor.h"
#include "walnut/mutable_convex_polygon.h"

namespace solid {
using geo::V; using geo::H; using geo::I; using geo::W;
using walnut::BSPContentId; using walnut::BSPContentInfo;
typedef std::vector<V> Face;  // counter-clockwise seen from outside

struct Shape {
  std::string name;
  std::vector<Face> faces;
};

inline I Gcd(I a, I b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { I t = a % b; a = b; b = t; } return a; }
inline V FaceNormal(const Face& f) {
  V n{0, 0, 0};
  for (size_t i = 1; i + 1 < f.size() && geo::Zero(n); ++i) n = geo::Cross(f[i] - f[0], f[i + 1] - f[0]);
  I g = Gcd(Gcd(n.x, n.y), n.z);
  if (g) n = {n.x / g, n.y / g, n.z / g};
  return n;
}
inline H FacePlane(const Face& f) { V n = FaceNormal(f); return {n, static_cast<I>(geo::Dot(n, f[0]))}; }
// Same plane regardless of orientation, canonical sign.
inline H Unsided(H h) {
  I lead = h.n.x ? h.n.x : h.n.y ? h.n.y : h.n.z;
  if (lead < 0) { h.n = h.n * -1; h.d = -h.d; }
  return h;
}
inline bool HLess(const H& a, const H& b) {
  return std::tie(a.n.x, a.n.y, a.n.z, a.d) < std::tie(b.n.x, b.n.y, b.n.z, b.d);
}
typedef std::vector<H> PlaneSet;
inline void Canon(PlaneSet& s) {
  std::sort(s.begin(), s.end(), HLess);
  s.erase(std::unique(s.begin(), s.end(), [](const H& a, const H& b) { return a.n == b.n && a.d == b.d; }), s.end());
}
inline bool HasPlane(const PlaneSet& s, const H& h) { return std::binary_search(s.begin(), s.end(), Unsided(h), HLess); }
inline PlaneSet PlanesOf(const Shape& s) { PlaneSet r; for (auto& f : s.faces) r.push_back(Unsided(FacePlane(f))); Canon(r); return r; }
inline PlaneSet Union(PlaneSet a, const PlaneSet& b) { a.insert(a.end(), b.begin(), b.end()); Canon(a); return a; }

inline Shape Inverted(Shape s) { for (auto& f : s.faces) std::reverse(f.begin(), f.end()); s.name = "inv(" + s.name + ")"; return s; }
inline Shape Moved(Shape s, V o) { for (auto& f : s.faces) for (auto& v : f) v = v + o; s.name += "+" + geo::T(o); return s; }
inline Shape Joined(Shape a, const Shape& b) { a.faces.insert(a.faces.end(), b.faces.begin(), b.faces.end()); a.name += "&" + b.name; return a; }
struct Mat { V r[3]; V o; };
inline V Apply(const Mat& m, const V& v) { return {I(geo::Dot(m.r[0], v)) + m.o.x, I(geo::Dot(m.r[1], v)) + m.o.y, I(geo::Dot(m.r[2], v)) + m.o.z}; }
inline Shape Mapped(Shape s, const Mat& m) { for (auto& f : s.faces) for (auto& v : f) v = Apply(m, v); return s; }

// --- shapes ---------------------------------------------------------------
inline Shape Box(V a, V b) {
  Shape s; s.name = "box" + geo::T(a) + geo::T(b);
  V p[8]; for (int i = 0; i < 8; ++i) p[i] = {i & 1 ? b.x : a.x, i & 2 ? b.y : a.y, i & 4 ? b.z : a.z};
  s.faces = {{p[0], p[2], p[3], p[1]}, {p[4], p[5], p[7], p[6]}, {p[0], p[1], p[5], p[4]}, {p[2], p[6], p[7], p[3]}, {p[0], p[4], p[6], p[2]}, {p[1], p[3], p[7], p[5]}};
  return s;
}
// Boundary unit squares of a set of unit cubes; `nx` x `ny` x `nz` grid.
inline Shape Voxels(unsigned long long mask, int nx, int ny, int nz) {
  Shape s; { std::ostringstream o; o << "vox" << std::hex << mask; s.name = o.str(); }
  auto in = [&](int x, int y, int z) { return x >= 0 && y >= 0 && z >= 0 && x < nx && y < ny && z < nz && (mask >> ((z * ny + y) * nx + x) & 1); };
  for (int z = 0; z < nz; ++z) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) if (in(x, y, z)) {
    Shape b = Box({x, y, z}, {x + 1, y + 1, z + 1});
    if (!in(x, y, z - 1)) s.faces.push_back(b.faces[0]);
    if (!in(x, y, z + 1)) s.faces.push_back(b.faces[1]);
    if (!in(x, y - 1, z)) s.faces.push_back(b.faces[2]);
    if (!in(x, y + 1, z)) s.faces.push_back(b.faces[3]);
    if (!in(x - 1, y, z)) s.faces.push_back(b.faces[4]);
    if (!in(x + 1, y, z)) s.faces.push_back(b.faces[5]);
  }
  return s;
}
// Convex hull of a point set (all facets, exact).
inline Shape Hull(std::string name, const std::vector<V>& pts) {
  Shape s; s.name = name;
  std::vector<H> done;
  for (size_t i = 0; i < pts.size(); ++i) for (size_t j = 0; j < pts.size(); ++j) for (size_t k = 0; k < pts.size(); ++k) {
    if (i == j || j == k || i == k) continue;
    Face t{pts[i], pts[j], pts[k]};
    V n = FaceNormal(t);
    if (geo::Zero(n)) continue;
    H h{n, I(geo::Dot(n, pts[i]))};
    bool ok = true, dup = false;
    for (auto& p : pts) if (geo::Dot(n, p) > h.d) ok = false;
    for (auto& d : done) if (d.n == h.n && d.d == h.d) dup = true;
    if (!ok || dup) continue;
    done.push_back(h);
    std::vector<V> on;
    for (auto& p : pts) if (geo::Dot(n, p) == h.d) on.push_back(p);
    // Gift wrap in the plane.
    Face f; V cur = on[0];
    for (auto& p : on) if (std::tie(p.x, p.y, p.z) < std::tie(cur.x, cur.y, cur.z)) cur = p;
    V start = cur;
    do {
      f.push_back(cur);
      V next = cur;
      for (auto& p : on) {
        if (p == cur) continue;
        if (next == cur) { next = p; continue; }
        W c = geo::Dot(n, geo::Cross(next - cur, p - cur));
        if (c < 0 || (c == 0 && geo::Dot(p - cur, p - cur) > geo::Dot(next - cur, next - cur))) next = p;
      }
      cur = next;
    } while (!(cur == start));
    s.faces.push_back(f);
  }
  return s;
}
// All input meshes used here must be closed: every directed edge has exactly
// one opposite directed edge.
inline bool Closed(const Shape& s) {
  std::map<std::array<I, 6>, int> e;
  for (auto& f : s.faces) for (size_t i = 0; i < f.size(); ++i) {
    V a = f[i], b = f[(i + 1) % f.size()];
    e[{a.x, a.y, a.z, b.x, b.y, b.z}]++;
    e[{b.x, b.y, b.z, a.x, a.y, a.z}]--;
  }
  for (auto& p : e) if (p.second) return false;
  return true;
}

// --- exact output polygons and winding numbers -----------------------------
struct OPt { I x, y, z, w; };  // w > 0, reduced
inline bool operator==(const OPt& a, const OPt& b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
inline bool operator<(const OPt& a, const OPt& b) { return std::tie(a.x, a.y, a.z, a.w) < std::tie(b.x, b.y, b.z, b.w); }
struct OPoly { std::vector<OPt> v; H plane; };
inline std::string T(const OPoly& p) {
  std::ostringstream o; o << "{";
  for (auto& q : p.v) o << "(" << q.x << "," << q.y << "," << q.z << ")/" << q.w << " ";
  o << "|" << geo::T(p.plane) << "}"; return o.str();
}
inline std::string T(const std::vector<OPoly>& m) { std::ostringstream o; for (auto& p : m) o << T(p); return o.str(); }

inline I Small(const orc::Z& z) {
  MC_CHECK(z < (orc::Z(1) << 40) && z > -(orc::Z(1) << 40)) << "unexpectedly large reduced output number " << orc::Hex(z);
  return static_cast<I>(z);
}
// Lossless if all four fit after reduction. `scale` divides the coordinates
// (an exact uniform scale applied to the input).
inline OPt ReadPoint(const walnut::HomoPoint3& p, const orc::Z& scale = 1) {
  orc::Z x = orc::ToZ(p.x()), y = orc::ToZ(p.y()), z = orc::ToZ(p.z()), w = orc::ToZ(p.w()) * scale;
  MC_CHECK(w != 0) << "output vertex at infinity";
  if (w < 0) { x = -x; y = -y; z = -z; w = -w; }
  auto A = [](const orc::Z& a) { return a < 0 ? orc::Z(-a) : a; };
  orc::Z g = boost::multiprecision::gcd(boost::multiprecision::gcd(A(x), A(y)), boost::multiprecision::gcd(A(z), w));
  if (g > 1) { x /= g; y /= g; z /= g; w /= g; }
  return {Small(x), Small(y), Small(z), Small(w)};
}
inline H ReadPlane(const walnut::HalfSpace3& h, const orc::Z& scale = 1) {
  // n.p = d in scaled coordinates is (n*scale).q = d.
  orc::Z x = orc::ToZ(h.x()) * scale, y = orc::ToZ(h.y()) * scale, z = orc::ToZ(h.z()) * scale, d = orc::ToZ(h.d());
  auto A = [](const orc::Z& a) { return a < 0 ? orc::Z(-a) : a; };
  orc::Z g = boost::multiprecision::gcd(boost::multiprecision::gcd(A(x), A(y)), A(z));
  MC_CHECK(g != 0) << "output polygon with a zero normal";
  orc::Z gd = boost::multiprecision::gcd(g, A(d));
  x /= gd; y /= gd; z /= gd; d /= gd;
  // Input planes all have integer offsets for primitive normals.
  orc::Z gn = boost::multiprecision::gcd(boost::multiprecision::gcd(A(x), A(y)), A(z));
  MC_CHECK(gn == 1) << "output polygon is not on an input plane";
  return {{Small(x), Small(y), Small(z)}, Small(d)};
}
template <class Poly>
inline OPoly ReadPoly(const Poly& p, const orc::Z& scale = 1) {
  OPoly r;
  for (size_t i = 0; i < p.vertex_count(); ++i) r.v.push_back(ReadPoint(p.vertex(i), scale));
  r.plane = ReadPlane(p.plane(), scale);
  return r;
}
inline OPoly FromFace(const Face& f) { OPoly r; for (auto& v : f) r.v.push_back({v.x, v.y, v.z, 1}); r.plane = FacePlane(f); return r; }
inline int SgnW(W a) { return a < 0 ? -1 : a > 0; }

struct Samp { I x, y, z; I D; };  // point (x,y,z)/D
inline std::string T(const Samp& s) { std::ostringstream o; o << "(" << s.x << "," << s.y << "," << s.z << ")/" << s.D; return o.str(); }

// Winding number of a closed polygon set around a point off all its planes.
// Contribution of the faces crossed by the upward ray, half-open rules.
inline int Winding(const OPoly& p, const Samp& s) {
  if (p.plane.n.z == 0) return 0;
  // Is the plane above s?  n.q = d at (sx,sy): z = (d - nx sx - ny sy)/nz.
  W e = W(p.plane.d) * s.D - W(p.plane.n.x) * s.x - W(p.plane.n.y) * s.y - W(p.plane.n.z) * s.z;
  int above = SgnW(e) * (p.plane.n.z > 0 ? 1 : -1);
  if (above <= 0) return 0;
  int wn = 0;
  size_t n = p.v.size();
  for (size_t i = 0; i < n; ++i) {
    const OPt& a = p.v[i]; const OPt& b = p.v[i + 1 == n ? 0 : i + 1];
    bool ua = W(a.y) * s.D > W(s.y) * a.w, ub = W(b.y) * s.D > W(s.y) * b.w;
    if (ua == ub) continue;
    // det[(a,wa),(b,wb),(s,D)]
    W det = W(a.x) * (W(b.y) * s.D - W(s.y) * b.w) - W(a.y) * (W(b.x) * s.D - W(s.x) * b.w) + W(a.w) * (W(b.x) * s.y - W(s.x) * b.y);
    if (ub) { if (det > 0) ++wn; } else { if (det < 0) --wn; }
  }
  return wn;
}
inline int Winding(const std::vector<OPoly>& m, const Samp& s) { int r = 0; for (auto& p : m) r += Winding(p, s); return r; }

// --- complete sample sets ---------------------------------------------------
// Complete for the arrangement of all planes with normals in {-1,0,1}^3 and
// integer offsets, clipped to the cubes [lo,hi)^3.
class Lattice {
 public:
  static const int D = 1200;
  static const std::vector<V>& Normals() {
    static std::vector<V> n;
    if (n.empty()) for (const V& v : geo::Grid(-1, 1)) { I l = v.x ? v.x : v.y ? v.y : v.z; if (l > 0) n.push_back(v); }
    return n;
  }
  Lattice(int lo, int hi) {
    const auto& N = Normals();
    std::map<std::vector<int>, V> unit;  // floor vector -> sample of the cell
    for (int x = 0; x <= 12; ++x) for (int y = 0; y <= 12; ++y) for (int z = 0; z <= 12; ++z) {
      std::vector<V> inc;
      for (auto& n : N) if ((n.x * x + n.y * y + n.z * z) % 12 == 0) inc.push_back(n);
      std::vector<V> rays;
      for (auto& a : inc) for (auto& b : inc) {
        V c = geo::Cross(a, b);
        if (geo::Zero(c)) continue;
        I g = Gcd(Gcd(c.x, c.y), c.z); c = {c.x / g, c.y / g, c.z / g};
        bool dup = false; for (auto& r : rays) dup |= r == c;
        if (!dup) rays.push_back(c);
      }
      for (size_t i = 0; i < rays.size(); ++i) for (size_t j = i + 1; j < rays.size(); ++j) for (size_t k = j + 1; k < rays.size(); ++k) {
        if (geo::Dot(rays[i], geo::Cross(rays[j], rays[k])) == 0) continue;
        V s = V{x, y, z} * (D / 12) + rays[i] + rays[j] + rays[k];
        if (s.x <= 0 || s.y <= 0 || s.z <= 0 || s.x >= D || s.y >= D || s.z >= D) continue;
        std::vector<int> key; bool bad = false;
        for (auto& n : N) { I d = n.x * s.x + n.y * s.y + n.z * s.z; if (d % D == 0) { bad = true; break; } key.push_back(int(d >= 0 ? d / D : -((-d + D - 1) / D))); }
        if (!bad) unit.emplace(key, s);
      }
    }
    unit_cells = unit.size();
    for (const V& c : geo::Grid(lo, hi - 1)) for (auto& u : unit) {
      Samp s{c.x * D + u.second.x, c.y * D + u.second.y, c.z * D + u.second.z, D};
      samples.push_back(s);
    }
    for (auto& n : N) {
      std::vector<short> col;
      for (auto& s : samples) { I d = n.x * s.x + n.y * s.y + n.z * s.z; col.push_back(short(d >= 0 ? d / D : -((-d + D - 1) / D))); }
      cols.push_back(col);
    }
  }
  // One sample index per cell of the arrangement of `planes`.
  std::vector<int> Select(const PlaneSet& planes) const {
    std::vector<uint64_t> key(samples.size(), 0x12345);
    const auto& N = Normals();
    for (auto& h : planes) {
      int c = -1;
      for (size_t i = 0; i < N.size(); ++i) if (N[i] == h.n) c = int(i);
      MC_CHECK(c >= 0) << "plane outside of the family: " << geo::T(h);
      const short* col = cols[c].data();
      for (size_t i = 0; i < key.size(); ++i) key[i] = (key[i] ^ (col[i] >= h.d ? 0x9e37 : 0x11)) * 0x9E3779B97F4A7C15ULL + 1;
    }
    std::unordered_set<uint64_t> seen; std::vector<int> r;
    for (size_t i = 0; i < key.size(); ++i) if (seen.insert(key[i]).second) r.push_back(int(i));
    return r;
  }
  std::vector<Samp> samples;
  std::vector<std::vector<short>> cols;
  size_t unit_cells = 0;
};

// --- driving the real code --------------------------------------------------
struct Rep {            // how input numbers are represented
  orc::Z coord = 1;     // uniform scale of all coordinates
  orc::Z weight = 1;    // homogeneous weight of the vertices
  orc::Z plane = 1;     // positive scale of the plane
  int rotate = 0;       // rotation of the vertex list
  bool last_drop = false;  // use the last non-zero normal component as drop dimension
};
inline walnut::HalfSpace3 MakePlane(const H& h, const Rep& r) {
  return walnut::HalfSpace3(orc::ToB(h.n.x * r.plane), orc::ToB(h.n.y * r.plane), orc::ToB(h.n.z * r.plane), orc::ToB(h.d * r.coord * r.plane));
}
inline walnut::HomoPoint3 MakePoint(const V& v, const Rep& r) {
  orc::Z s = r.coord * r.weight;
  return walnut::HomoPoint3(orc::ToB(v.x * s), orc::ToB(v.y * s), orc::ToB(v.z * s), orc::ToB(r.weight));
}
inline int DropDim(const V& n, const Rep& r) {
  if (r.last_drop) return n.z ? 2 : n.y ? 1 : 0;
  return n.x ? 0 : n.y ? 1 : 2;
}
inline walnut::MutableConvexPolygon<> MakePoly(const Face& f, const Rep& r = Rep()) {
  std::vector<walnut::HomoPoint3> v;
  for (size_t i = 0; i < f.size(); ++i) v.push_back(MakePoint(f[(i + r.rotate) % f.size()], r));
  H h = FacePlane(f);
  return walnut::MutableConvexPolygon<>(MakePlane(h, r), DropDim(h.n, r), v);
}
typedef std::vector<walnut::MutableConvexPolygon<>> Mesh;
inline Mesh MakeMesh(const Shape& s, const Rep& r = Rep()) { Mesh m; for (auto& f : s.faces) m.push_back(MakePoly(f, r)); return m; }

typedef std::vector<BSPContentInfo> Infos;
struct AnyFilter {
  std::function<std::pair<bool, bool>(const Infos&)> f;
  std::pair<bool, bool> operator()(const Infos& c) { return f(c); }
};
template <class F> AnyFilter Any(F f) { return AnyFilter{[f](const Infos& c) mutable { return f(c); }}; }
inline AnyFilter Pos(BSPContentId id) { return Any(walnut::PolygonFilter(id)); }
inline AnyFilter Neg(BSPContentId id) { return Any(walnut::InvertedPolygonFilter(id)); }
inline AnyFilter Odd(BSPContentId id) { return Any(walnut::OddPolygonFilter(id)); }
inline AnyFilter And(AnyFilter a, AnyFilter b) { return Any(walnut::MakeIntersectionFilter(a, b)); }
inline AnyFilter Or(AnyFilter a, AnyFilter b) { return Any(walnut::MakeUnionFilter(a, b)); }
inline AnyFilter Sub(AnyFilter a, AnyFilter b) { return Any(walnut::MakeSubtractionFilter(a, b)); }
inline AnyFilter Xor(AnyFilter a, AnyFilter b) { return Any(walnut::MakeXORFilter(a, b)); }

typedef walnut::BSPTree<> Tree;
template <class P>
inline void CheckPolys(const std::vector<P>& polys) {
  for (auto& p : polys) MC_CHECK(p.IsValidState()) << "invalid output polygon " << p;
}
// The splitting planes that exist as long as the tree.
template <class Node> inline void TreeSplits(const Node& n, std::set<const walnut::HalfSpace3*>& out) {
  if (n.IsLeaf()) return;
  out.insert(&n.split());
  TreeSplits(*n.negative_child(), out);
  TreeSplits(*n.positive_child(), out);
}
// The BSP info of an output edge refers to planes that still exist, and which
// contain the edge (or its first vertex).
template <class Info, class P>
inline void CheckSplits(const std::set<const walnut::HalfSpace3*>& alive, const Info& g, const P& a, const P& b) {
  const walnut::HalfSpace3* s[4] = {g.edge_first_coincident.split, g.edge_last_coincident.split, g.edge_created_by.split, g.vertex_last_coincident.split};
  const char* name[4] = {"edge_first_coincident", "edge_last_coincident", "edge_created_by", "vertex_last_coincident"};
  for (int i = 0; i < 4; ++i) {
    if (!s[i]) continue;
    MC_CHECK(alive.count(s[i])) << name[i] << " of an output edge refers to a splitting plane that no longer exists";
    MC_CHECK(s[i]->IsCoincident(a)) << name[i] << " of an output edge is a plane that does not contain its first vertex";
    MC_CHECK(i == 3 || s[i]->IsCoincident(b)) << name[i] << " of an output edge is a plane that does not contain its end";
  }
}
inline std::vector<OPoly> Collect(Tree& tree, AnyFilter f, size_t kd = 6, const orc::Z& scale = 1) {
  walnut::CollectorVisitor<Tree::OutputPolygon, AnyFilter> v(f);
  tree.Traverse(v, kd);
  std::vector<OPoly> r;
  std::deque<walnut::HalfSpace3> kept;
  auto polys = v.TakePolygons(kept);
  MC_CHECK(v.polygons().empty());
  std::set<const walnut::HalfSpace3*> alive;
  TreeSplits(tree.root, alive);
  for (auto& h : kept) alive.insert(&h);
  for (auto& p : polys) {
    MC_CHECK(p.IsValidState()) << "invalid output polygon " << p;
    MC_CHECK(p.vertex_count() >= 3) << "output polygon with " << p.vertex_count() << " vertices";
    for (size_t i = 0; i < p.vertex_count(); ++i) CheckSplits(alive, p.bsp_edge_info(i), p.vertex(i), p.vertex((i + 1) % p.vertex_count()));
    r.push_back(ReadPoly(p, scale));
  }
  return r;
}

// Each polygon: strictly inside its plane, convex, counter-clockwise.
inline void CheckOPoly(const OPoly& p, const char* what) {
  size_t n = p.v.size();
  MC_CHECK(n >= 3) << what << ": polygon with " << n << " vertices " << T(p);
  for (auto& q : p.v) {
    W e = W(p.plane.n.x) * q.x + W(p.plane.n.y) * q.y + W(p.plane.n.z) * q.z - W(p.plane.d) * q.w;
    MC_CHECK(e == 0) << what << ": vertex off its plane in " << T(p);
  }
  auto diff = [](const OPt& a, const OPt& b) { return V{a.x * b.w - b.x * a.w, a.y * b.w - b.y * a.w, a.z * b.w - b.z * a.w}; };
  for (size_t i = 0; i < n; ++i) {
    const OPt &a = p.v[i], &b = p.v[(i + 1) % n];
    V d = diff(b, a);
    MC_CHECK(!geo::Zero(d)) << what << ": repeated vertex in " << T(p);
    for (size_t j = 0; j < n; ++j) {
      V e = diff(p.v[j], a);
      MC_CHECK(geo::Dot(p.plane.n, geo::Cross(d, e)) >= 0) << what << ": polygon is not convex and counter-clockwise " << T(p);
    }
  }
}
}  // namespace solid
#endif
