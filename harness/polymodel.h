// Exact model of one convex polygon with edge data, and its comparison with
// the real polygon.
#ifndef VERIF_POLYMODEL_H
#define VERIF_POLYMODEL_H
#include "polys.h"
#include "walnut/mutable_convex_polygon.h"
namespace polys {
typedef walnut::MutableConvexPolygon<Tag> MPoly;
typedef walnut::AABBConvexPolygon<walnut::MutableConvexPolygon<Tag>> APoly;
struct Model {             // one polygon, exactly
  Loop v;                  // in vertex order
  std::vector<int> tag;    // edge i: v[i] -> v[i+1]
  std::vector<int> vtag;
};
inline std::string T(const Model& m) { std::ostringstream o; for (size_t i = 0; i < m.v.size(); ++i) o << T(m.v[i]) << ":" << m.tag[i] << " "; return o.str(); }

// The polygon is exactly the model: cyclic order, start, edges and data.
template <class P>
inline void CheckPoly(const P& p, const Model& m, const Frame& f, bool cw, int drop, const char* what, bool data = true) {
  MC_CHECK(p.vertex_count() == m.v.size()) << what << ": has " << p.vertex_count() << " vertices instead of " << T(m);
  MC_CHECK(p.IsValidState()) << what << ": invalid polygon, wanted " << T(m);
  MC_CHECK(p.drop_dimension() == drop) << what << ": changed drop dimension";
  MC_CHECK(geo::SamePlane({N(f) * (cw ? -1 : 1), I(geo::Dot(N(f) * (cw ? -1 : 1), f.o))}, solid::ReadPlane(p.plane()))) << what << ": plane changed";
  MC_CHECK(geo::Dot(solid::ReadPlane(p.plane()).n, N(f)) * (cw ? -1 : 1) > 0) << what << ": plane flipped";
  for (size_t i = 0; i < m.v.size(); ++i) {
    MC_CHECK(SamePoint(p.vertex(i), f, m.v[i])) << what << ": vertex " << i << " is " << p.vertex(i) << ", wanted " << T(m) << " in frame " << f.name;
    MC_CHECK(p.const_edge(i).line().IsCoincident(p.vertex(i)) && p.const_edge(i).line().IsCoincident(p.vertex((i + 1) % m.v.size())))
        << what << ": edge line " << i << " misses its endpoints, wanted " << T(m);
    if (!data) continue;
    MC_CHECK(p.const_edge(i).tag == m.tag[i]) << what << ": edge " << i << " carries data of edge " << p.const_edge(i).tag << ", wanted " << T(m);
    MC_CHECK(p.const_edge(i).vtag == m.vtag[i]) << what << ": vertex " << i << " carries data of vertex " << p.const_edge(i).vtag << " wanted " << m.vtag[i];
  }
}
// Splits the model. Children follow the documented vertex order.
inline void SplitModel(const Model& m, const L2& l, Model& neg, Model& pos) {
  size_t n = m.v.size();
  std::vector<int> s; for (auto& q : m.v) s.push_back(Side(l, q));
  for (int sign : {-1, 1}) {
    Model& c = sign < 0 ? neg : pos;
    // First index of the run of this sign.
    size_t b = n;
    for (size_t i = 0; i < n; ++i) if (s[i] == sign && s[(i + n - 1) % n] != sign) { MC_CHECK(b == n) << "harness: two runs"; b = i; }
    size_t prev = (b + n - 1) % n, e = b;
    std::vector<Q2> v; std::vector<int> tag, vt;
    while (s[e % n] == sign) { v.push_back(m.v[e % n]); tag.push_back(m.tag[e % n]); vt.push_back(m.vtag[e % n]); ++e; }
    size_t after = e % n, last = (e + n - 1) % n;
    // Point before the run, where the boundary enters this side.
    Q2 in; int in_tag, in_vt;
    if (s[prev] == 0) { in = m.v[prev]; in_tag = m.tag[prev]; in_vt = m.vtag[prev]; } else { in = Meet(l, m.v[prev], m.v[b]); in_tag = m.tag[prev]; in_vt = -2; }
    Q2 out; int out_vt;
    if (s[after] == 0) { out = m.v[after]; out_vt = m.vtag[after]; } else { out = Meet(l, m.v[last], m.v[after]); out_vt = -2; }
    if (sign < 0) {
      v.push_back(out); tag.push_back(-1); vt.push_back(out_vt);
      v.push_back(in); tag.push_back(in_tag); vt.push_back(in_vt);
    } else {
      v.insert(v.begin(), in); tag.insert(tag.begin(), in_tag); vt.insert(vt.begin(), in_vt);
      v.push_back(out); tag.push_back(-1); vt.push_back(out_vt);
    }
    c.v = v; c.tag = tag; c.vtag = vt;
  }
}
inline void CheckBox(const APoly& p, const Model& m, const Frame& f, const char* what) {
  for (int d = 0; d < 3; ++d) {
    auto coord = [&](const Q2& q) { V v = f.o * q.w + f.u * q.x + f.v * q.y; return std::make_pair(v[d], q.w); };
    auto lt = [](std::pair<I, I> a, std::pair<I, I> b) { return W(a.first) * b.second < W(b.first) * a.second; };
    std::pair<I, I> mn = coord(m.v[0]), mx = mn;
    for (auto& q : m.v) { auto c = coord(q); if (lt(c, mn)) mn = c; if (lt(mx, c)) mx = c; }
    auto cmin = coord(m.v[p.min_vertex_index(d)]), cmax = coord(m.v[p.max_vertex_index(d)]);
    MC_CHECK(!lt(mn, cmin) && !lt(cmax, mx)) << what << ": cached extreme vertex index is stale in dimension " << d << " of " << T(m);
    MC_CHECK(&p.min_vertex(d) == &p.vertex(p.min_vertex_index(d)) && &p.max_vertex(d) == &p.vertex(p.max_vertex_index(d))) << what << ": extreme vertex";
    Z den = orc::ToZ(p.aabb().denom()), lo = orc::ToZ(p.aabb().min_point_num().components()[d]), hi = orc::ToZ(p.aabb().max_point_num().components()[d]);
    MC_CHECK(den > 0) << what << ": box denominator";
    // Contains the polygon and is the tightest on its grid.
    MC_CHECK(lo * mn.second <= mn.first * den && (lo + 1) * mn.second > mn.first * den) << what << ": box minimum is wrong in dimension " << d << " of " << T(m) << ": " << p.aabb();
    MC_CHECK(hi * mx.second >= mx.first * den && (hi - 1) * mx.second < mx.first * den) << what << ": box maximum is wrong in dimension " << d << " of " << T(m) << ": " << p.aabb();
  }
}
inline uint64_t HashM(const Loop& l, size_t fi, int extra) {
  uint64_t h = mc::HashAdd(fi, extra);
  for (auto& q : l) h = mc::HashAdd(mc::HashAdd(mc::HashAdd(h, q.x), q.y), q.w);
  return h;
}
inline void SetTags(MPoly& p, Model& m) {
  for (size_t i = 0; i < m.v.size(); ++i) { p.edge(i).tag = int(i); p.edge(i).vtag = int(i) + 100; m.tag.push_back(int(i)); m.vtag.push_back(int(i) + 100); }
}
}  // namespace polys
#endif
