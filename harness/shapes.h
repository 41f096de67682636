// The library of small closed shapes whose planes have normals in {-1,0,1}^3.
#ifndef VERIF_SHAPES_H
#define VERIF_SHAPES_H
#include "solid.h"
namespace solid {
// Corner tetrahedron at `p` with legs along (sx,0,0),(0,sy,0),(0,0,sz).
inline Shape CornerTet(V p, V s) {
  std::ostringstream o; o << "tet" << geo::T(p) << geo::T(s);
  return Hull(o.str(), {p, p + V{s.x, 0, 0}, p + V{0, s.y, 0}, p + V{0, 0, s.z}});
}
// Prism over a convex counter-clockwise loop in the plane z = 0.
inline Shape Prism(std::string name, const std::vector<V>& c, I h) {
  Shape s; s.name = name;
  Face top, bottom(c.rbegin(), c.rend());
  for (auto& v : c) top.push_back(v + V{0, 0, h});
  s.faces = {bottom, top};
  for (size_t i = 0; i < c.size(); ++i) { V a = c[i], b = c[(i + 1) % c.size()]; s.faces.push_back({a, b, b + V{0, 0, h}, a + V{0, 0, h}}); }
  return s;
}
// L shaped prism, convex facets (its non-convex caps are two rectangles).
inline std::vector<Shape> Library() {
  std::vector<Shape> r;
  r.push_back(Box({0, 0, 0}, {1, 1, 1}));
  r.push_back(Box({0, 0, 0}, {2, 2, 1}));
  r.push_back(Box({0, 0, 0}, {1, 1, 3}));
  r.push_back(Box({0, 0, 0}, {2, 2, 2}));
  for (int i = 0; i < 8; ++i) r.push_back(CornerTet({i & 1 ? 0 : 2, i & 2 ? 0 : 2, i & 4 ? 0 : 2}, {i & 1 ? 2 : -2, i & 2 ? 2 : -2, i & 4 ? 2 : -2}));
  // The two regular tetrahedra of the cube.
  r.push_back(Hull("reg0", {{0, 0, 0}, {2, 2, 0}, {2, 0, 2}, {0, 2, 2}}));
  r.push_back(Hull("reg1", {{2, 0, 0}, {0, 2, 0}, {0, 0, 2}, {2, 2, 2}}));
  r.push_back(Hull("octa", {{1, 1, 0}, {1, 1, 2}, {0, 1, 1}, {2, 1, 1}, {1, 0, 1}, {1, 2, 1}}));
  r.push_back(Hull("pyr+z", {{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {1, 1, 1}}));
  r.push_back(Hull("pyr-x", {{2, 0, 0}, {2, 2, 0}, {2, 2, 2}, {2, 0, 2}, {1, 1, 1}}));
  r.push_back(Hull("wedge", {{0, 0, 0}, {2, 0, 0}, {0, 0, 2}, {0, 2, 0}, {2, 2, 0}, {0, 2, 2}}));
  r.push_back(Hull("wedge2", {{0, 0, 0}, {2, 2, 0}, {0, 2, 0}, {0, 0, 1}, {2, 2, 1}, {0, 2, 1}}));
  r.push_back(Hull("cubo", {{1, 1, 0}, {1, 1, 2}, {0, 1, 1}, {2, 1, 1}, {1, 0, 1}, {1, 2, 1}, {0, 0, 1}, {2, 2, 1}}));
  r.push_back(Hull("roof", {{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {0, 1, 1}, {2, 1, 1}}));
  { Shape s = Joined(Box({0, 0, 0}, {3, 3, 3}), Inverted(Box({1, 1, 1}, {2, 2, 2}))); s.name = "cavity"; r.push_back(s); }
  { Shape s = Joined(Box({0, 0, 0}, {1, 1, 1}), Box({1, 1, 0}, {2, 2, 1})); s.name = "edge-touching boxes"; r.push_back(s); }
  { Shape s = Joined(Box({0, 0, 0}, {1, 1, 1}), Box({1, 1, 1}, {2, 2, 2})); s.name = "vertex-touching boxes"; r.push_back(s); }
  { Shape s = Joined(Box({0, 0, 0}, {1, 1, 1}), Box({2, 0, 0}, {3, 1, 1})); s.name = "two boxes"; r.push_back(s); }
  { Shape s = Voxels(0757, 3, 3, 1); s.name = "ring"; r.push_back(s); }
  { Shape s = Voxels(0b1011, 2, 2, 1); s.name = "L"; r.push_back(s); }
  { Shape s = Voxels(0b111101, 3, 2, 1); s.name = "U"; r.push_back(s); }
  { Shape s = Joined(CornerTet({0, 0, 0}, {2, 2, 2}), CornerTet({0, 0, 0}, {-1, -1, -1})); s.name = "bow tie"; s = Moved(s, {1, 1, 1}); r.push_back(s); }
  { Shape s; std::vector<V> c = {{1, 0, 0}, {2, 0, 0}, {3, 1, 0}, {3, 2, 0}, {2, 3, 0}, {1, 3, 0}, {0, 2, 0}, {0, 1, 0}}; s = Prism("oct", c, 1); r.push_back(s); }
  // The caps have 12 vertices, four of them in the middle of a straight side.
  { Shape s; std::vector<V> c = {{1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {4, 1, 0}, {4, 2, 0}, {4, 3, 0}, {3, 4, 0}, {2, 4, 0}, {1, 4, 0}, {0, 3, 0}, {0, 2, 0}, {0, 1, 0}}; s = Prism("oct12", c, 2); r.push_back(s); }
  return r;
}
// Meshes with more than 40 facets.
inline std::vector<Shape> BigMeshes() {
  std::vector<Shape> r;
  { Shape s = Voxels((1ull << 27) - 1, 3, 3, 3); s.name = "box of 54 facets"; r.push_back(s); }
  { Shape s = Voxels(0x5555555, 3, 3, 3); s.name = "checkerboard"; r.push_back(s); }
  { Shape s = Voxels(0757757757ull, 3, 3, 3); s.name = "tube of 96 facets"; r.push_back(s); }
  { Shape s = Voxels(0757050757ull, 3, 3, 3); s.name = "frame"; r.push_back(s); }
  return r;
}
// The facets of `s` (whose edges are multiples of 4) divided into fans. Every
// `step`th quarter point of an edge is used. The fan's first vertex is the
// extreme one of the facet in direction `apex`. With `vary`, `step` differs
// between facets, so neighbours have different vertices on their common edge.
inline Shape Divided(const Shape& s, int step, const V& apex, bool vary = false) {
  Shape r; r.name = s.name;
  int base = step, number = 0;
  for (auto& f : s.faces) {
    if (vary) { static const int steps[3] = {4, 2, 1}; step = steps[(base + number++) % 3]; }
    Face g; size_t best = 0;
    for (size_t i = 0; i < f.size(); ++i) {
      V a = f[i], d = f[(i + 1) % f.size()] - a;
      if (geo::Dot(a, apex) > geo::Dot(g.empty() ? a : g[best], apex)) best = g.size();
      g.push_back(a);
      for (int k = step; k < 4; k += step) g.push_back(a + V{d.x * k / 4, d.y * k / 4, d.z * k / 4});
    }
    std::rotate(g.begin(), g.begin() + best, g.end());
    for (size_t i = 1; i + 1 < g.size(); ++i) {
      V c = geo::Cross(g[i] - g[0], g[i + 1] - g[0]);
      if (c.x || c.y || c.z) r.faces.push_back({g[0], g[i], g[i + 1]});
    }
  }
  return r;
}
// Classes of subsets of the 2x2x2 cubes under the 48 symmetries.
inline std::vector<int> CanonicalVoxels() {
  std::vector<int> r;
  for (int m = 1; m < 256; ++m) {
    bool min = true;
    int perm[3] = {0, 1, 2};
    do for (int f = 0; f < 8; ++f) {
      int t = 0;
      for (int i = 0; i < 8; ++i) if (m >> i & 1) {
        int j = i ^ f, k = 0;
        for (int b = 0; b < 3; ++b) if (j >> perm[b] & 1) k |= 1 << b;
        t |= 1 << k;
      }
      if (t < m) min = false;
    } while (std::next_permutation(perm, perm + 3));
    if (min) r.push_back(m);
  }
  return r;
}
}  // namespace solid
#endif
