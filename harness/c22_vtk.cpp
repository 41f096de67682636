// C22: import from, export to and boolean operations through the visualization toolkit.
#include <vtkCallbackCommand.h>
#include <vtkCellArray.h>
#include <vtkPoints.h>
#include <vtkPolyData.h>
#include <vtkSmartPointer.h>
#include "boolcases.h"
#include "loops.h"
#include "walnut/boolean_operation_filter.h"
#include "walnut/vtkWalnutBooleanFilter.h"
#include "walnut/vtk_to_walnut_mesh.h"
#include "walnut/walnut_to_vtk_mesh.h"
using namespace solid;
using mc::Explorer;
using orc::Z;
typedef vtkSmartPointer<vtkPolyData> Data;
typedef std::vector<walnut::MutableConvexPolygon<>> Polys;

// Cells over 3D integer points; kind 0: polygon, 1: triangle strip.
struct Cell { int kind; std::vector<V> v; };
static std::string T(const std::vector<Cell>& c) { std::string s; for (auto& x : c) s += (x.kind ? " strip " : " polygon ") + loops::T3(x.v); return s; }
// `share`: equal points share one id. `unit`: size of an integer step. `noise`: every coordinate is off by -noise, 0 or noise.
static Data Make(const std::vector<Cell>& cells, bool share, bool dbl, double unit, int extra = 0, double noise = 0) {
  int inserted = 0;
  auto jitter = [&](int c) { return noise * (int(mc::Mix(inserted * 3 + c) % 3) - 1); };
  auto pts = vtkSmartPointer<vtkPoints>::New(); pts->SetDataType(dbl ? VTK_DOUBLE : VTK_FLOAT);
  auto polys = vtkSmartPointer<vtkCellArray>::New(); auto strips = vtkSmartPointer<vtkCellArray>::New();
  std::map<std::array<I, 3>, vtkIdType> ids;
  for (int k = 0; k < extra; ++k) pts->InsertNextPoint(99, 99, 99);
  for (auto& c : cells) {
    std::vector<vtkIdType> q;
    for (auto& v : c.v) {
      std::array<I, 3> key{v.x, v.y, v.z};
      auto it = ids.find(key);
      if (share && it != ids.end()) { q.push_back(it->second); continue; }
      ++inserted;
      q.push_back(pts->InsertNextPoint(v.x * unit + jitter(0), v.y * unit + jitter(1), v.z * unit + jitter(2))); ids[key] = q.back();
    }
    (c.kind ? strips : polys)->InsertNextCell(vtkIdType(q.size()), q.data());
  }
  Data d = Data::New(); d->SetPoints(pts);
  if (polys->GetNumberOfCells() || extra == 0) d->SetPolys(polys);
  if (strips->GetNumberOfCells()) d->SetStrips(strips);
  return d;
}
static std::vector<V> ZigZag(const std::vector<V>& f) {
  std::vector<V> r{f[0]}; size_t lo = 1, hi = f.size() - 1;
  while (lo <= hi) { r.push_back(f[lo++]); if (lo <= hi) r.push_back(f[hi--]); }
  return r;
}
static std::vector<Cell> CellsOf(const Shape& s, int style) {
  std::vector<Cell> r;
  for (size_t k = 0; k < s.faces.size(); ++k) {
    bool strip = style == 1 || (style == 2 && k % 2) || (style == 3 && s.faces[k].size() == 3);
    if (strip) r.push_back({1, ZigZag(s.faces[k])}); else r.push_back({0, s.faces[k]});
  }
  return r;
}
static Z Unit(int log) { return orc::Pow2(log); }
// The polygon with all coordinates divided by the unit.
static void CheckVertices(const Polys& out, const std::vector<V>& loop, int log, size_t k, const std::function<std::string()>& all) {
  const auto& p = out[k];
  size_t n = p.vertex_count();
  MC_CHECK(n == loop.size()) << "polygon " << k << " has " << n << " vertices: " << all();
  auto same = [&](const walnut::HomoPoint3& a, const V& b) {
    Z w = orc::ToZ(a.w()); const Z num = log >= 0 ? Unit(log) : Z(1), den = log < 0 ? Unit(-log) : Z(1);
    return orc::ToZ(a.x()) * den == b.x * num * w && orc::ToZ(a.y()) * den == b.y * num * w && orc::ToZ(a.z()) * den == b.z * num * w;
  };
  for (size_t r = 0; r < n; ++r) {
    bool ok = true;
    for (size_t i = 0; i < n && ok; ++i) ok = same(p.vertex(i), loop[(i + r) % n]);
    if (ok) {
      V nn = FaceNormal(loop);
      auto z = geo::ToZV(p.plane().normal());
      MC_CHECK(geo::ZZero(geo::ZCross(z, geo::ZOf(nn))) && geo::ZDot(z, geo::ZOf(nn)) > 0) << "polygon " << k << " has the wrong plane: " << all();
      for (size_t i = 0; i < n; ++i) MC_CHECK(p.plane().IsCoincident(p.vertex(i))) << "polygon " << k << " is off its plane: " << all();
      MC_CHECK(p.IsValidState()) << "polygon " << k << " is invalid: " << all();
      return;
    }
  }
  std::ostringstream o; for (size_t i = 0; i < n; ++i) o << p.vertex(i) << " ";
  MC_FAIL() << "polygon " << k << " is " << o.str() << " instead of " << loops::T3(loop) << ": " << all();
}
static std::vector<std::vector<V>> Triangles(const std::vector<V>& s, bool flip) {
  std::vector<std::vector<V>> r;
  for (size_t i = 0; i + 2 < s.size(); ++i) {
    std::vector<V> t{s[i], s[i + 1], s[i + 2]};
    if ((i & 1) != size_t(flip)) std::swap(t[0], t[2]);
    if (geo::Zero(FaceNormal(t))) continue;
    r.push_back(t);
  }
  return r;
}
static void CheckStrips(Explorer& ex, const std::vector<Cell>& cells, int variant) {
  static const int logs[4] = {0, -3, 5, 0};
  int log = logs[variant & 3]; bool flip = variant & 4, share = variant & 8;
  auto all = [&] { return T(cells) + (flip ? " flipped" : "") + (variant & 16 ? " with noise" : ""); };
  bool noisy = variant & 16; int grain = std::min(log, 0);
  Data d = Make(cells, share, variant & 1, std::ldexp(1.0, log), (variant & 2) ? 2 : 0, noisy ? std::ldexp(1.0, grain - 3) : 0);
  Polys out = walnut::VTKToWalnutMesh(d, noisy ? grain : (variant & 3) == 3 ? 0 : std::numeric_limits<int>::min(), flip);
  std::vector<std::vector<V>> want;
  for (int kind = 0; kind < 2; ++kind) for (auto& c : cells) if (c.kind == kind) {
    if (kind) for (auto& t : Triangles(c.v, flip)) want.push_back(t);
    else { auto l = c.v; if (flip) std::reverse(l.begin(), l.end()); want.push_back(l); }
  }
  MC_CHECK(out.size() == want.size()) << out.size() << " polygons instead of " << want.size() << ": " << all();
  for (size_t k = 0; k < out.size(); ++k) CheckVertices(out, want[k], log, k, all);
  ex.Op(1 + out.size()); ex.State(mc::HashStr(all()));
}
// Reads points and cells of exported data. Coordinates are recovered as multiples of 1/840.
struct Out { std::vector<std::array<double, 3>> pt; std::vector<std::vector<vtkIdType>> cell; };
static Out ReadData(vtkPolyData* d) {
  Out r;
  for (vtkIdType i = 0; i < d->GetNumberOfPoints(); ++i) { double c[3]; d->GetPoint(i, c); r.pt.push_back({c[0], c[1], c[2]}); }
  vtkIdType n; const vtkIdType* v;
  auto* p = d->GetPolys(); p->InitTraversal();
  while (p->GetNextCell(n, v)) r.cell.emplace_back(v, v + n);
  return r;
}
// Every point is used, no two share a position.
static void CheckPoints(const Out& o, const std::function<std::string()>& all) {
  std::vector<char> used(o.pt.size(), 0);
  for (auto& c : o.cell) {
    MC_CHECK(c.size() >= 3) << "a cell has " << c.size() << " points: " << all();
    for (auto k : c) { MC_CHECK(k >= 0 && size_t(k) < o.pt.size()) << "a cell names point " << k << ": " << all(); used[k] = 1; }
  }
  std::map<std::array<double, 3>, int> seen;
  for (size_t i = 0; i < o.pt.size(); ++i) {
    MC_CHECK(used[i]) << "point " << i << " is not used: " << all();
    auto it = seen.emplace(o.pt[i], int(i));
    MC_CHECK(it.second) << "points " << it.first->second << " and " << i << " have the same position: " << all();
  }
}
static OPoly CellPoly(const Out& o, const std::vector<vtkIdType>& c, const std::function<std::string()>& all) {
  OPoly r; std::vector<V> v12;
  for (auto k : c) {
    I q[3];
    for (int j = 0; j < 3; ++j) {
      double t = o.pt[k][j] * 840; q[j] = I(std::llround(t));
      MC_CHECK(std::abs(t - q[j]) < 1e-11) << "point " << k << " has the coordinate " << o.pt[k][j] << ": " << all();
    }
    v12.push_back({q[0], q[1], q[2]});
    I g = Gcd(Gcd(q[0], q[1]), Gcd(q[2], 840));
    r.v.push_back({q[0] / g, q[1] / g, q[2] / g, 840 / g});
  }
  V n = loops::LoopNormal(v12);
  MC_CHECK(!geo::Zero(n)) << "a cell has no area: " << all();
  I g = Gcd(Gcd(n.x, n.y), n.z); n = {n.x / g, n.y / g, n.z / g};
  r.plane = {n * 840, I(geo::Dot(n, v12[0]))};
  I h = Gcd(Gcd(r.plane.n.x, r.plane.n.y), Gcd(r.plane.n.z, r.plane.d)); r.plane = {{r.plane.n.x / h, r.plane.n.y / h, r.plane.n.z / h}, r.plane.d / h};
  return r;
}
// --- the filter -------------------------------------------------------------
static void RunFilter(Explorer& ex, const std::vector<Shape>& shapes, int op, uint64_t h) {
  Problem p = MakeProblem(shapes);
  auto all = [&] { std::string s = h & 64 ? "with noise, " : ""; s += op == 0 ? "union of" : op == 1 ? "intersection of" : "difference of"; for (auto& q : shapes) s += " " + q.name; return s; };
  auto filter = vtkSmartPointer<walnut::vtkWalnutBooleanFilter>::Take(walnut::vtkWalnutBooleanFilter::New());
  if (h & 64) filter->SetMinExponent(-4);
  if (op == 1) filter->SetOperationToIntersection(); else if (op == 2) filter->SetOperationToDifference(); else filter->SetOperationToUnion();
  for (size_t i = 0; i < shapes.size(); ++i) {
    uint64_t z = mc::Mix(h + i);
    filter->AddInputData(Make(CellsOf(shapes[i], z % 4), z & 4, z & 8, 1, z & 16 ? 1 : 0, h & 64 ? 1.0 / 64 : 0));
  }
  filter->Update();
  Out o = ReadData(filter->GetOutput());
  CheckPoints(o, all);
  std::map<std::pair<vtkIdType, vtkIdType>, int> edges;
  std::vector<OPoly> out;
  for (auto& c : o.cell) {
    for (size_t i = 0; i < c.size(); ++i) { ++edges[{c[i], c[(i + 1) % c.size()]}]; --edges[{c[(i + 1) % c.size()], c[i]}]; }
    out.push_back(CellPoly(o, c, all));
  }
  for (auto& e : edges) MC_CHECK(e.second == 0) << "the edge " << e.first.first << "-" << e.first.second << " is not matched: " << all();
  std::vector<int> want;
  for (size_t k = 0; k < p.samples.size(); ++k) {
    int a = p.in[0][k];
    for (size_t j = 1; j < shapes.size(); ++j) { int b = p.in[j][k]; a = op == 0 ? a | b : op == 1 ? a & b : (a && !b); }
    want.push_back(a);
  }
  CheckSolid(ex, out, p, want, all(), false);
  ex.State(HashMesh(out));
}
// --- export -------------------------------------------------------------------
template <class P>
static void CheckExport(Explorer& ex, const std::vector<P>& mesh, const std::function<std::string()>& all) {
  Out o = ReadData(walnut::WalnutToVTKMesh(mesh));
  CheckPoints(o, all);
  MC_CHECK(o.cell.size() == mesh.size()) << o.cell.size() << " cells for " << mesh.size() << " polygons: " << all();
  for (size_t k = 0; k < mesh.size(); ++k) {
    MC_CHECK(o.cell[k].size() == mesh[k].vertex_count()) << "cell " << k << " has " << o.cell[k].size() << " points: " << all();
    for (size_t i = 0; i < o.cell[k].size(); ++i) {
      const auto& v = mesh[k].vertex(i); const auto& q = o.pt[o.cell[k][i]];
      Z w = orc::ToZ(v.w()); const Z n[3] = {orc::ToZ(v.x()), orc::ToZ(v.y()), orc::ToZ(v.z())};
      for (int j = 0; j < 3; ++j) {
        // |q - n/w| is at most two units in the last place of a double.
        int e; double m = std::frexp(q[j], &e);
        Z mant = Z((long long)std::ldexp(m, 53)); int sh = e - 53;   // q = mant * 2^sh
        Z lhs = abs(sh >= 0 ? mant * orc::Pow2(sh) * w - n[j] : mant * w - n[j] * orc::Pow2(-sh));
        Z rhs = 2 * abs(sh >= 0 ? w * orc::Pow2(sh) : w);
        MC_CHECK(lhs <= rhs) << "vertex " << i << " of polygon " << k << " is exported as " << std::setprecision(17) << q[j] << " instead of " << orc::Hex(n[j]) << "/" << orc::Hex(w) << ": " << all();
      }
    }
  }
  ex.Op(1 + mesh.size());
}
// The corners of the facets around one vertex are one point, different exact vertices are different points.
template <class P>
static void CheckIds(const std::vector<P>& mesh, const std::string& name) {
  Out o = ReadData(walnut::WalnutToVTKMesh(mesh));
  std::map<vtkIdType, std::array<std::string, 3>> back;
  for (size_t k = 0; k < mesh.size(); ++k) for (size_t q = 0; q < mesh[k].vertex_count(); ++q) {
    walnut::HomoPoint3 z = mesh[k].vertex(q); z.Reduce();
    Z w = orc::ToZ(z.w()); Z s = w < 0 ? -1 : 1;
    std::array<std::string, 3> key{orc::Hex(orc::ToZ(z.x()) * s) + "/" + orc::Hex(w * s), orc::Hex(orc::ToZ(z.y()) * s), orc::Hex(orc::ToZ(z.z()) * s)};
    vtkIdType id = o.cell[k][q];
    MC_CHECK(back.emplace(id, key).first->second == key) << "two vertices are exported as point " << id << ": " << name;
    const auto* partner = mesh[k].edge(q).partner();
    MC_CHECK(partner) << "a facet is not connected: " << name;
    size_t j = size_t(static_cast<const P*>(&partner->polygon()) - mesh.data());
    MC_CHECK(j < mesh.size()) << "a facet is connected to a polygon outside of the mesh: " << name;
    vtkIdType other = o.cell[j][(partner->edge_index() + 1) % mesh[j].vertex_count()];
    MC_CHECK(id == other) << "one vertex is exported as points " << id << " and " << other << ": " << name;
  }
}
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  static const auto frames = loops::AllFrames();
  // Polygon cells: any loop of grid points.
  ex.Section("polygon_cells");
  for (size_t f = 0; f < frames.size(); ++f) for (int a = 0; a < 9; ++a)
    ex.Case([=] { return "frame " + frames[f].name + ", first point " + std::to_string(a); }, [&ex, f, a, th] {
      std::vector<int> q{a};
      std::function<void()> rec = [&] {
        if (q.size() >= 3) {
          uint64_t h = mc::Mix(f * 7 + 1); for (int k : q) h = mc::Mix(h * 10 + k);
          if (q.size() == 3 || h % (q.size() == 4 ? (th ? 1 : 10) : (th ? 20 : 400)) == 0) {
            loops::Loop3 l; for (int k : q) { l.push_back(loops::At(frames[f], k % 3, k / 3, 0)); }
            for (int flip = 0; flip < 2; ++flip) {
              int exp = h >> 8 & 1 ? std::numeric_limits<int>::min() : -2;
              Data d = Make({{0, l}}, h >> 9 & 1, h >> 10 & 1, 1, h >> 11 & 1, exp == -2 ? 1.0 / 16 : 0);
              Polys out = walnut::VTKToWalnutMesh(d, exp, flip);
              loops::Loop3 want = l; if (flip) std::reverse(want.begin(), want.end());
              V n = loops::LoopNormal(want);
              loops::Expect e{false, n, !geo::Zero(n), false, false};
              if (!geo::Zero(n)) {
                bool simple = loops::Simple(want, n); int drop = n.x ? 0 : n.y ? 1 : 2;
                e.oriented = simple && (loops::Monotone(want, (drop + 1) % 3) || loops::Monotone(want, (drop + 2) % 3)) && false;
                e.simple = simple;
              }
              loops::CheckPieces(ex, out, want, e);
            }
          }
        }
        if (q.size() == 5) return;
        for (int k = 0; k < 9; ++k) { if (std::find(q.begin(), q.end(), k) != q.end()) continue; q.push_back(k); rec(); q.pop_back(); }
      };
      rec();
    });
  // Strips: all sequences of points of a small set, with repeats (degenerate triangles).
  static const std::vector<V> pts = {{0, 0, 0}, {2, 0, 0}, {0, 2, 1}, {1, 1, 3}, {-1, 0, 2}, {4, 0, 0}};
  ex.Section("strips");
  for (size_t a = 0; a < pts.size(); ++a) for (size_t b = 0; b < pts.size(); ++b)
    ex.Case([=] { return "strips starting with points " + std::to_string(a) + ", " + std::to_string(b); }, [&ex, a, b, th] {
      std::vector<V> s{pts[a], pts[b]}; uint64_t h = a * 6 + b;
      CheckStrips(ex, {{1, s}}, 0);
      std::function<void()> rec = [&] {
        if (s.size() >= 3) for (int v = 0; v < 32; ++v) if ((th && (v < 16 || s.size() < 6)) || mc::Mix(h * 32 + v) % (s.size() > 4 ? 12 : 2) == 0) CheckStrips(ex, {{1, s}}, v);
        if (s.size() == (th ? 7 : 6)) return;
        uint64_t k0 = h;
        for (size_t k = 0; k < pts.size(); ++k) { s.push_back(pts[k]); h = k0 * 6 + k; rec(); s.pop_back(); }
        h = k0;
      };
      rec();
    });
  // Long strips, several strips, and strips mixed with polygons.
  ex.Section("mixed_cells");
  for (int len = 3; len <= (th ? 40 : 20); ++len) for (int mix = 0; mix < 8; ++mix)
    ex.Case([=] { return "strip of " + std::to_string(len) + " points, other cells " + std::to_string(mix); }, [&ex, len, mix] {
      std::vector<Cell> c; std::vector<V> s;
      for (int i = 0; i < len; ++i) s.push_back({i, (i & 1) * 3, (i * i) % 7});
      if (mix & 1) c.push_back({0, {{0, 0, 0}, {3, 0, 0}, {0, 3, 3}}});
      if (mix & 4) c.push_back({1, {{0, 0, 0}, {0, 3, 0}, {2, 0, 1}, {2, 3, 1}}});
      c.push_back({1, s});
      if (mix & 2) { c.push_back({0, {{1, 0, 0}, {4, 0, 0}, {4, 4, 0}, {1, 4, 0}}}); c.push_back({1, {s[2], s[1], s[0]}}); }
      for (int v = 0; v < 32; ++v) CheckStrips(ex, c, v);
    });
  // Closed meshes in every style.
  static const std::vector<Shape> lib = Library();
  ex.Section("import_solids");
  for (size_t i = 0; i < lib.size(); ++i) for (int style = 0; style < 4; ++style) for (int flip = 0; flip < 2; ++flip)
    ex.Case([=] { return lib[i].name + " style " + std::to_string(style) + (flip ? " flipped" : ""); }, [&ex, i, style, flip] {
      Problem p; p.planes = PlanesOf(lib[i]);
      std::vector<OPoly> mesh; for (auto& f : lib[i].faces) mesh.push_back(FromFace(f));
      for (int v = 0; v < 4; ++v) {
        Data d = Make(CellsOf(lib[i], style), v & 1, v & 2, 1, 0, v >= 2 ? 1.0 / 8 : 0);
        Polys out = walnut::VTKToWalnutMesh(d, v >= 2 ? -1 : std::numeric_limits<int>::min(), flip);
        std::vector<OPoly> got; for (auto& q : out) { got.push_back(ReadPoly(q)); CheckOPoly(got.back(), lib[i].name.c_str()); }
        for (int k : Lat().Select(p.planes)) {
          int w = Winding(got, Lat().samples[k]), want = Winding(mesh, Lat().samples[k]) * (flip ? -1 : 1);
          MC_CHECK(w == want) << "winding number at " << T(Lat().samples[k]) << " is " << w << " instead of " << want << ": " << lib[i].name;
        }
        ex.Op();
      }
    });
  ex.Section("export_polygons");
  for (size_t i = 0; i < lib.size(); ++i) for (int r = 0; r < 8; ++r)
    ex.Case([=] { return lib[i].name + " representation " + std::to_string(r); }, [&ex, i, r] {
      static const Z weights[8] = {1, -1, 3, -7, orc::Pow2(64), (Z(1) << 30) - 35, -orc::Pow2(90) + 1, 1};
      static const Z coords[8] = {1, 1, 1, 5, 1, (Z(1) << 30) - 1, 1, (Z(1) << 27) + 1};
      Rep rep; rep.rotate = r; rep.weight = weights[r]; rep.coord = coords[r];
      Mesh m = MakeMesh(lib[i], rep);
      CheckExport(ex, m, [&] { return lib[i].name; });
      // Cut in three, so that vertices have large reduced fractions.
      Mesh cut;
      for (auto& q : m) {
        walnut::HalfSpace3 plane(orc::ToB(3), orc::ToB(5), orc::ToB(7), orc::ToB(rep.coord * 11));
        auto info = q.GetSplitInfo(plane);
        if (!info.ShouldEmitNegativeChild() || !info.ShouldEmitPositiveChild()) { cut.push_back(q); continue; }
        auto children = std::move(q).CreateSplitChildren(std::move(info));
        cut.push_back(std::move(children.first)); cut.push_back(std::move(children.second));
      }
      // Equal vertices may come from different pieces with different representations: only the cells are compared.
      Out o = ReadData(walnut::WalnutToVTKMesh(cut));
      MC_CHECK(o.cell.size() == cut.size()) << "cells are missing: " << lib[i].name;
    });
  // The output of the connecting visitor.
  ex.Section("export_connected");
  for (size_t i = 0; i < lib.size(); ++i) for (size_t j = 0; j < lib.size(); j += th ? 1 : 4) for (int off = 0; off < (th ? 4 : 1); ++off)
    ex.Case([=] { return lib[i].name + " - " + lib[j].name + " offset " + std::to_string(off); }, [&ex, i, j, off] {
      Shape b = Moved(lib[j], off == 0 ? V{1, 0, 1} : off == 1 ? V{0, 0, 0} : off == 2 ? V{0, 1, -1} : V{1, 1, 1});
      for (int r = 0; r < 5; ++r) {
        // Large coordinates and weights: representations of one vertex convert to different doubles.
        Rep rep; if (r == 3) { rep.coord = (Z(1) << 61) - 1; rep.weight = orc::Pow2(64) + 13; rep.rotate = 1; } if (r == 4) { rep.coord = orc::Pow2(70) + 25; rep.weight = -orc::Pow2(90) + 1; rep.rotate = 2; } if (r == 1) rep.coord = (Z(1) << 40) + 5; if (r == 2) { rep.weight = -3; rep.coord = 1; }
        Tree t; BSPContentId x = t.AllocateId(), y = t.AllocateId();
        t.AddContents(x, MakeMesh(lib[i], rep)); t.AddContents(y, MakeMesh(Inverted(b), rep));
        std::string err;
        walnut::SubtractIdsFilter f({x, y});
        auto log = [&](const std::string& e) { err = e; };
        walnut::ConnectingVisitor<walnut::BooleanOperationFilter> v(f, log);
        t.Traverse(v);
        MC_CHECK(err.empty()) << "error: " << err;
        v.FilterEmptyPolygons();
        auto mesh = v.TakePolygons();
        std::vector<std::pair<int, int>> dummy;
        CheckExport(ex, mesh, [&] { return lib[i].name + " - " + b.name; });
        CheckIds(mesh, lib[i].name + " - " + b.name);
      }
    });
  // Facets that represent their vertices in different ways, which convert to different doubles.
  ex.Section("export_representations");
  for (size_t i = 0; i < lib.size(); ++i) for (int c = 0; c < 3; ++c) for (unsigned m = 0; m < (th ? 1024u : 128u); ++m)
    ex.Case([=] { return lib[i].name + " scale " + std::to_string(c) + " representations of the facets " + std::to_string(m); }, [&ex, i, c, m] {
      static const Z coords[3] = {(Z(1) << 53) + 1, (Z(1) << 55) + 4, 1};   // halfway between two doubles
      // Weights for which the multiples of the first two convert to different doubles.
      static const std::vector<Z> weights = [] {
        std::vector<Z> r{1};
        Z w("22876792454961");   // 3^28
        for (int t = 0; r.size() < 4 && t < 400; ++t, w *= -7) {
          Rep a, b; a.coord = b.coord = coords[0]; a.weight = r.back(); b.weight = w;
          if (MakePoint(V{1, 1, 1}, a).GetDoublePoint3() != MakePoint(V{1, 1, 1}, b).GetDoublePoint3()) r.push_back(w);
        }
        while (r.size() < 4) r.push_back(w *= 7);
        return r;
      }();
      Mesh mesh;
      for (size_t k = 0; k < lib[i].faces.size(); ++k) {
        Rep rep; rep.coord = coords[c]; rep.rotate = int(m % 3);
        unsigned bits = k < 10 ? m >> k & 1 : unsigned(mc::Mix(m * 64 + k) & 1);
        rep.weight = weights[m % 4 == 3 ? mc::Mix(m * 64 + k + 7) % 4 : bits ? 1 + m % 4 : 0];
        mesh.push_back(MakePoly(lib[i].faces[k], rep));
      }
      Tree t; BSPContentId x = t.AllocateId();
      t.AddContents(x, mesh);
      std::string err;
      walnut::PolygonFilter f(x);
      auto log = [&](const std::string& e) { err = e; };
      walnut::ConnectingVisitor<walnut::PolygonFilter> v(f, log);
      t.Traverse(v, m & 1 ? 6 : kNoKd);
      MC_CHECK(err.empty()) << "error: " << err;
      v.FilterEmptyPolygons();
      auto out = v.TakePolygons();
      CheckExport(ex, out, [&] { return lib[i].name; });
      CheckIds(out, lib[i].name);
    });
  // Whole filter runs.
  static const std::vector<V> offs = [] { std::vector<V> r; for (auto& v : geo::Grid(-1, 1)) r.push_back(v); return r; }();
  ex.Section("filter_pairs");
  for (size_t i = 0; i < lib.size(); ++i) for (size_t j = 0; j < lib.size(); ++j)
    ex.Case([=] { return lib[i].name + " with " + lib[j].name; }, [&ex, i, j, th] {
      for (size_t k = 0; k < offs.size(); ++k) for (int op = 0; op < 3; ++op) {
        uint64_t h = mc::Mix((i * 64 + j) * 100 + k * 3 + op);
        if (h % (th ? 4 : 40) == 0) RunFilter(ex, {lib[i], Moved(lib[j], offs[k])}, op, h >> 8);
      }
    });
  // Open inputs are reported, and produce nothing.
  ex.Section("filter_open");
  for (size_t i = 0; i < lib.size(); ++i) for (int op = 0; op < 3; ++op)
    ex.Case([=] { return lib[i].name + " without some facets, operation " + std::to_string(op); }, [&ex, i, op] {
      const Shape& s = lib[i];
      size_t n = s.faces.size();
      for (size_t a = 0; a < n; ++a) for (size_t b = a; b < n; ++b) {
        Shape open = s; open.faces.erase(open.faces.begin() + b); if (b != a) open.faces.erase(open.faces.begin() + a);
        // Are the remaining facets closed by themselves (several components)?
        std::map<std::pair<std::string, std::string>, int> e;
        for (auto& f : open.faces) for (size_t k = 0; k < f.size(); ++k) { ++e[{geo::T(f[k]), geo::T(f[(k + 1) % f.size()])}]; --e[{geo::T(f[(k + 1) % f.size()]), geo::T(f[k])}]; }
        bool closed = true; for (auto& q : e) closed &= q.second == 0;
        auto filter = vtkSmartPointer<walnut::vtkWalnutBooleanFilter>::Take(walnut::vtkWalnutBooleanFilter::New());
        if (op == 1) filter->SetOperationToIntersection(); else if (op == 2) filter->SetOperationToDifference(); else filter->SetOperationToUnion();
        MC_CHECK(filter->GetOperation() == op) << "operation";
        filter->AddInputData(Make(CellsOf(open, int(mc::Mix(a * 64 + b) % 4)), a & 1, b & 1, 1, 0, 0));
        size_t errors = 0;
        auto observer = vtkSmartPointer<vtkCallbackCommand>::New();
        observer->SetClientData(&errors);
        observer->SetCallback([](vtkObject*, unsigned long, void* data, void*) { ++*static_cast<size_t*>(data); });
        filter->AddObserver(vtkCommand::ErrorEvent, observer);
        filter->Update();
        auto which = [&] { return s.name + " without the facets " + std::to_string(a) + " and " + std::to_string(b); };
        MC_CHECK(!closed || errors == 0) << which() << ": " << errors << " errors for a closed mesh";
        if (!closed && !errors) {
          // What is left of it has to be closed.
          Out o = ReadData(filter->GetOutput());
          std::map<std::pair<vtkIdType, vtkIdType>, int> edges;
          for (auto& c : o.cell) for (size_t k = 0; k < c.size(); ++k) { ++edges[{c[k], c[(k + 1) % c.size()]}]; --edges[{c[(k + 1) % c.size()], c[k]}]; }
          for (auto& q : edges) MC_CHECK(q.second == 0) << which() << ": the output is open but no error is reported";
        }
        if (errors) MC_CHECK(filter->GetOutput()->GetNumberOfPolys() == 0) << s.name << " without the facets " << a << " and " << b << ": there is output";
        ex.Op();
      }
    });
  ex.Section("filter_many");
  for (size_t i = 0; i < lib.size(); ++i) for (int n = 0; n < 5; ++n)
    ex.Case([=] { return lib[i].name + " and " + std::to_string(n) + " more"; }, [&ex, i, n, th] {
      for (uint64_t k = 0; k < (n == 0 ? 1 : th ? 40 : 3); ++k) for (int op = 0; op < 3; ++op) {
        std::vector<Shape> s{lib[i]}; uint64_t z = mc::Mix(i * 1000 + k * 10 + n);
        for (int j = 0; j < n; ++j) {
          z = mc::Mix(z);
          if (j == 2 && z % 5 == 0) { Shape e; e.name = "nothing"; s.push_back(e); continue; }
          s.push_back(Moved(lib[z % lib.size()], offs[(z >> 20) % offs.size()]));
        }
        RunFilter(ex, s, op, z);
      }
    });
}
