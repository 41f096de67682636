// C10: polygon editing histories preserve the polygon they describe.
#include "polymodel.h"
using namespace polys;
using mc::Explorer;

struct St { Model m; bool cw; bool data; };   // data: the edge data is still comparable
struct Ctx { Explorer* ex; const Frame* f; int drop; std::string* hist; };
inline void Boxed(const MPoly&, const Model&, const Frame&, const char*) {}
inline void Boxed(const APoly& p, const Model& m, const Frame& f, const char* w) { CheckBox(p, m, f, w); }
static Q2 Between(const Q2& a, const Q2& b, I s, I t) {  // (s a + t b) / (s + t)
  return Red(W(a.x) * b.w * s + W(b.x) * a.w * t, W(a.y) * b.w * s + W(b.y) * a.w * t, W(a.w) * b.w * (s + t));
}
static std::array<std::pair<I, I>, 3> Lex(const Frame& f, const Q2& q) { V v = f.o * q.w + f.u * q.x + f.v * q.y; return {{{v.x, q.w}, {v.y, q.w}, {v.z, q.w}}}; }
static bool LexLt(const Frame& f, const Q2& a, const Q2& b) {
  auto p = Lex(f, a), q = Lex(f, b);
  for (int i = 0; i < 3; ++i) { W l = W(p[i].first) * q[i].second, r = W(q[i].first) * p[i].second; if (l != r) return l < r; }
  return false;
}
static void RotateModel(Model& m, size_t k) {
  std::rotate(m.v.begin(), m.v.begin() + k, m.v.end());
  std::rotate(m.tag.begin(), m.tag.begin() + k, m.tag.end());
  std::rotate(m.vtag.begin(), m.vtag.begin() + k, m.vtag.end());
}
template <class P> static void Check(const Ctx& c, const P& p, const St& s) {
  std::string w = *c.hist;
  CheckPoly(p, s.m, *c.f, s.cw, c.drop, w.c_str(), s.data);
  Boxed(p, s.m, *c.f, w.c_str());
  // The classification that downstream code derives from the caches.
  c.ex->Op();
}
struct Hist { std::string* h; size_t n; Hist(const Ctx& c, const std::string& s) : h(c.hist), n(c.hist->size()) { *h += " " + s; } ~Hist() { h->resize(n); } };
// Removes redundant vertices the way a merge may: where both neighbours lie on
// one line and the edge data allows it.
static void DropVertex(Model& m, size_t i) {
  m.v.erase(m.v.begin() + i); m.tag.erase(m.tag.begin() + i); m.vtag.erase(m.vtag.begin() + i);
}
// Cyclic comparison: rotates `m` so that it starts at the polygon's vertex 0.
template <class P> static void Align(const Ctx& c, const P& p, Model& m) {
  MC_CHECK(p.vertex_count() > 0) << *c.hist << ": empty polygon";
  for (size_t i = 0; i < m.v.size(); ++i) if (SamePoint(p.vertex(0), *c.f, m.v[i])) { RotateModel(m, i); return; }
  MC_FAIL() << "vertex 0 of " << p << " is not a vertex of " << T(m) << " after" << *c.hist;
}
template <class P> static void Walk(const Ctx& c, const P& p, const St& s, int depth, const std::vector<L2>& cuts) {
  Check(c, p, s);
  if (depth == 0) return;
  const size_t n = s.m.v.size();
  for (size_t k = 0; k < n; ++k) {
    Hist h(c, "rotate" + std::to_string(k));
    P q(p); q.RotateEdges(k);
    St t = s; RotateModel(t.m, k);
    Walk(c, q, t, depth - 1, cuts);
  }
  {
    Hist h(c, "sort");
    P q(p); q.SortVertices();
    St t = s; size_t b = 0; for (size_t i = 1; i < n; ++i) if (LexLt(*c.f, t.m.v[i], t.m.v[b])) b = i;
    RotateModel(t.m, b);
    Walk(c, q, t, depth - 1, cuts);
  }
  {
    Hist h(c, "invert");
    P q(p); q.Invert();
    St t = s; std::reverse(t.m.v.begin() + 1, t.m.v.end()); t.cw = !t.cw; t.data = false;
    Walk(c, q, t, depth - 1, cuts);
    P r(q); r.Invert();
    St back = s; Hist h2(c, "invert");
    Check(c, r, back);   // inverting twice restores the polygon
  }
  for (size_t k = 0; k < n; ++k) for (int r = 0; r < 2; ++r) {
    if (n >= 7) break;
    Hist h(c, "split" + std::to_string(k) + (r ? "/3" : "/2"));
    St t = s; Q2 mid = Between(t.m.v[k], t.m.v[(k + 1) % n], 1, r ? 2 : 1);
    t.m.v.insert(t.m.v.begin() + k + 1, mid);
    t.m.tag.insert(t.m.tag.begin() + k + 1, int(t.m.tag[k])); t.m.vtag.insert(t.m.vtag.begin() + k + 1, -2);
    P q(p); q.SplitEdge(k, Embed(*c.f, mid, r ? Z(-2) : Z(1)));
    Walk(c, q, t, depth - 1, cuts);
  }
  {
    Hist h(c, "copies");
    P q(p); P r; r = q; P u(std::move(q)); P v; v = std::move(u);
    std::vector<P> g; g.push_back(v); g.push_back(r); g.push_back(std::move(v)); g.erase(g.begin());
    std::swap(g[0], g[1]);
    Check(c, r, s); Check(c, g[0], s); Check(c, g[1], s);
    MC_CHECK(p == r && r == p && !(p != r) && g[0] == g[1]) << *c.hist << ": copies differ";
    r = r; Check(c, r, s);
    P made(p.plane(), p.drop_dimension(), p.edges()); Check(c, made, s);
    Walk(c, g[0], s, depth - 1, cuts);
  }
  // Cut into two and join again.
  for (auto& l : cuts) {
    bool an = false, ap = false;
    for (auto& q : s.m.v) { an |= Side(l, q) < 0; ap |= Side(l, q) > 0; }
    if (!an || !ap || !s.data) continue;
    auto info = p.GetSplitInfo(geo::MkH(Lift(*c.f, l, 0), 1));
    MC_CHECK(info.ShouldEmitNegativeChild() && info.ShouldEmitPositiveChild()) << *c.hist << ": crossing polygon is not split";
    auto ch = p.CreateSplitChildren(info);
    P neg(ch.first), pos(ch.second);
    St sn = s, sp = s; SplitModel(s.m, l, sn.m, sp.m);
    { Hist h(c, "cut"); Check(c, neg, sn); Check(c, pos, sp); }
    if (depth > 1) { Hist h(c, "cutneg"); Walk(c, neg, sn, depth - 2, cuts); }
    if (depth > 1) { Hist h(c, "cutpos"); Walk(c, pos, sp, depth - 2, cuts); }
    // neg: ..., out, in; the cut edge is out->in. pos: in, ..., out; the cut edge is out'->in' with in'=... reversed.
    size_t ne = sn.m.v.size() - 2, pe = sp.m.v.size() - 1;
    MC_CHECK(sn.m.v[ne] == sp.m.v[(pe + 1) % sp.m.v.size()] && sn.m.v[ne + 1] == sp.m.v[pe]) << "harness: cut edge";
    const auto& d = neg.const_edge(ne).line().d();
    for (int dim = 0; dim < 3; ++dim) {
      if (d.components()[dim].IsZero()) continue;
      for (int order = 0; order < 2; ++order) {
        Hist h(c, order ? "rejoin-pos" : "rejoin-neg");
        P a(order ? pos : neg), b(order ? neg : pos);
        bool ok = a.TryMergePolygon(dim, order ? pe : ne, b, order ? ne : pe);
        MC_CHECK(ok) << *c.hist << ": the two halves of " << T(s.m) << " do not merge";
        MC_CHECK(b.vertex_count() == 0) << *c.hist << ": merged polygon keeps edges";
        St t = s;
        // Points of the cut on the boundary: new ones are merged away again
        // because both parts of the edge carry the same data; existing
        // vertices stay unless they are collinear with equal data.
        Model m = s.m; size_t k = m.v.size();
        for (size_t i = 0; i < k; ++i) {
          Q2 pv = m.v[(i + k - 1) % k], nv = m.v[(i + 1) % k];
          if (Side(l, m.v[i]) == 0 && Turn(pv, m.v[i], nv) == 0 && m.tag[(i + k - 1) % k] == m.tag[i]) { DropVertex(m, i); --k; --i; }
        }
        t.m = m;
        Align(c, a, t.m);
        for (size_t i = 0; i < t.m.v.size(); ++i) MC_CHECK(SamePoint(a.vertex(i), *c.f, t.m.v[i])) << *c.hist << ": vertex " << i << " of " << a << " should be that of " << T(t.m);
        // Vertex data of vertices on the cut may come from either half.
        for (size_t i = 0; i < t.m.v.size() && i < a.vertex_count(); ++i) t.m.vtag[i] = a.const_edge(i).vtag;
        Check(c, a, t);
      }
      break;
    }
  }
}
// Joins polygon a with polygon b across edges ea and eb.
struct Join { Loop a, b; size_t ea, eb; };
static bool ConvexLoop(const Loop& l) {
  for (size_t i = 0; i < l.size(); ++i) {
    W t = Turn(l[i], l[(i + 1) % l.size()], l[(i + 2) % l.size()]);
    if (t < 0) return false;
    if (t == 0) {   // straight on, not back
      const Q2 &p = l[i], &q = l[(i + 1) % l.size()], &r = l[(i + 2) % l.size()];
      if ((q.x - p.x) * (r.x - q.x) + (q.y - p.y) * (r.y - q.y) < 0) return false;
    }
  }
  return true;
}
static bool Simple(const Loop& l) { for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) if (l[i] == l[j]) return false; return true; }
template <class P>
static void DoJoin(Explorer& ex, const Frame& f, const Loop& a, const Loop& b, size_t ea, size_t eb, bool cw, int drop, int wp, unsigned variant) {
  // a, b counter-clockwise; edge ea of a is edge eb of b reversed.
  // cw: reverse the vertex lists.
  size_t na = a.size(), nb = b.size();
  Loop u; std::vector<int> tags;
  // Tags: variant bit 0: all edges equal (mergeable), otherwise distinct.
  auto tag = [&](int poly, size_t i) { return variant & 1 ? 7 : int(poly * 100 + i); };
  for (size_t i = 1; i <= na - 1; ++i) { u.push_back(a[(ea + i) % na]); tags.push_back(tag(0, (ea + i) % na)); }
  // a vertices ea+1 .. ea+na-1; then vertex ea == b vertex eb+1
  std::vector<int> seam = {int(0), 0};
  for (size_t i = 1; i <= nb - 1; ++i) { u.push_back(b[(eb + i) % nb]); tags.push_back(tag(1, (eb + i) % nb)); }
  // u: edges from a: a[ea+1..] (na-1 edges), then from b: b[eb+1..] (nb-1 edges)
  bool convex = Simple(u) && ConvexLoop(u);
  Loop want = u; std::vector<int> wt = tags; std::vector<int> removed;
  if (convex && (variant & 1)) {
    // Seam vertices: index 0 (a[ea+1]) and index na-1 (b[eb+1]).
    bool r0 = Turn(u.back(), u[0], u[1]) == 0, r1 = Turn(u[na - 2], u[na - 1], u[na % u.size()]) == 0;
    if (r1) { want.erase(want.begin() + (na - 1)); wt.erase(wt.begin() + (na - 1)); }
    if (r0) { want.erase(want.begin()); wt.erase(wt.begin()); }
  }
  // Build the polygons with edge data.
  auto build = [&](const Loop& l, int poly, size_t rot) {
    MPoly p = Make<MPoly>(f, l, cw, int(rot), drop, wp, poly ? Z(3) : Z(1));
    Loop o = Order(l, cw, int(rot));
    size_t n = l.size();
    for (size_t i = 0; i < n; ++i) {
      // The edge o[i] -> o[i+1] as an edge of l.
      size_t k = (i + rot) % n;                 // Order: l[cw ? n-1-k : k]
      size_t src = cw ? (n - 1 - k) : k;        // vertex index in l
      size_t edge = cw ? (src + n - 1) % n : src;   // clockwise, the edge leads to the previous vertex
      p.edge(i).tag = tag(poly, edge); p.edge(i).vtag = 0;
    }
    return p;
  };
  auto index = [&](const P& p, const Q2& src, const Q2& dst) {
    size_t n = p.vertex_count();
    for (size_t i = 0; i < n; ++i) if (SamePoint(p.vertex(i), f, src) && SamePoint(p.vertex((i + 1) % n), f, dst)) return i;
    MC_FAIL() << "harness: edge not found"; return size_t(0);
  };
  Q2 s = a[ea], t = a[(ea + 1) % na];
  for (size_t ra = 0; ra < na; ++ra) for (size_t rb = 0; rb < nb; ++rb) {
    if ((variant >> 1) != (ra * 3 + rb) % 4 && !(variant & 64)) continue;
    P p(build(a, 0, ra)), q(build(b, 1, rb));
    P p0(p), q0(q);
    size_t ia = cw ? index(p, t, s) : index(p, s, t), ib = cw ? index(q, s, t) : index(q, t, s);
    const auto& d = p.const_edge(ia).line().d();
    for (int dim = 0; dim < 3; ++dim) {
      if (d.components()[dim].IsZero()) continue;
      P x(p), y(q);
      ex.Op();
      bool ok = x.TryMergePolygon(dim, ia, y, ib);
      MC_CHECK(ok == convex) << (ok ? "merged" : "refused to merge") << " " << T(a) << " and " << T(b) << " at " << T(s) << T(t) << " in " << f.name << (cw ? " cw" : "");
      if (!ok) { MC_CHECK(x == p0 && y == q0) << "a refused merge changed a polygon"; continue; }
      MC_CHECK(y.vertex_count() == 0) << "the other polygon still has edges";
      Model m; m.v = want; m.tag = wt; m.vtag.assign(want.size(), 0);
      if (cw) {   // reverse: edge i leads from v[i] to the previous vertex
        Model r; size_t n = want.size();
        for (size_t i = 0; i < n; ++i) { r.v.push_back(want[n - 1 - i]); r.tag.push_back(wt[(n - 1 - i + n - 1) % n]); }
        r.vtag.assign(n, 0); m = r;
      }
      std::string hist = "merge";
      Ctx c{&ex, &f, drop, &hist};
      Align(c, x, m);
      CheckPoly(x, m, f, cw, drop, "merged polygon");
      Boxed(x, m, f, "merged polygon");
      // The emptied polygon can be reused.
      y = q0;
      MC_CHECK(y == q0) << "assignment to a merged polygon";
    }
  }
}
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  auto g3 = GridLoops(3, 3), g2 = GridLoops(2, 2), g32 = GridLoops(3, 2), big = BigLoops();
  std::vector<L2> cuts;
  for (I a = -1; a <= 2; ++a) for (I b = -1; b <= 1; ++b) if (a || b) for (I k = -1; k <= 4; ++k) cuts.push_back({2 * a, 2 * b, k});
  std::vector<L2> few; for (size_t i = 0; i < cuts.size(); i += 7) few.push_back(cuts[i]);
  auto histories = [&](const char* name, const std::vector<Loop>& loops, bool boxed, int depth, size_t step, const std::vector<L2>& cs) {
    ex.Section(name);
    size_t id = 0;
    for (size_t fi = 0; fi < Frames().size(); ++fi) for (size_t li = 0; li < loops.size(); ++li) for (int cw = 0; cw < 2; ++cw) {
      ++id;
      if (step > 1 && mc::Mix(id) % step) continue;
      const Frame& f = Frames()[fi];
      int drop = Drops(f)[(li + cw) % Drops(f).size()], wp = int((li + fi + cw) % 4);
      size_t rot = (li + fi) % loops[li].size();
      ex.Case([&, fi, li, cw, drop, wp, rot] { std::ostringstream o; o << "polygon " << T(Order(loops[li], cw, int(rot))) << " in frame " << Frames()[fi].name << " drop " << drop << " weights " << wp; return o.str(); },
        [&] {
          St s; s.m.v = Order(loops[li], cw, int(rot)); s.cw = cw; s.data = true;
          MPoly p = Make<MPoly>(f, loops[li], cw, int(rot), drop, wp, wp == 2 ? Z(7) : Z(1));
          SetTags(p, s.m);
          std::string hist; Ctx c{&ex, &f, drop, &hist};
          ex.State(HashM(s.m.v, fi, drop));
          if (boxed) Walk(c, APoly(p), s, depth, cs); else Walk(c, p, s, depth, cs);
        });
    }
  };
  histories("histories_depth3", g32, false, 3, th ? 4 : 24, few);
  histories("histories_depth2", g3, false, 2, th ? 1 : 8, few);
  histories("boxed_depth3", g32, true, 3, th ? 4 : 24, few);
  histories("boxed_depth2", g3, true, 2, th ? 1 : 8, few);
  histories("cut_and_join", g3, false, 1, th ? 1 : 3, cuts);
  histories("boxed_cut_and_join", g3, true, 1, th ? 1 : 6, cuts);
  histories("boxed_big", big, true, 2, th ? 1 : 8, few);
  std::vector<L2> wide; for (I a = -1; a <= 2; ++a) for (I b = -1; b <= 1; ++b) if (a || b) for (I k = -60; k <= 60; k += 7) wide.push_back({a, b, k});
  auto many = ManyLoops();
  histories("many_vertices", many, false, 1, th ? 1 : 6, wide);
  histories("boxed_many_vertices", many, true, 1, th ? 1 : 6, wide);

  // All pairs of loops joined along an equal edge.
  auto joins = [&](const char* name, const std::vector<Loop>& la, const std::vector<Loop>& lb, size_t step) {
    ex.Section(name);
    size_t id = 0;
    for (size_t i = 0; i < la.size(); ++i) for (size_t j = 0; j < lb.size(); ++j) {
      for (size_t ea = 0; ea < la[i].size(); ++ea) for (size_t eb = 0; eb < lb[j].size(); ++eb) {
        const Loop &a = la[i], &b = lb[j];
        Q2 s = a[ea], t = a[(ea + 1) % a.size()], p = b[eb], q = b[(eb + 1) % b.size()];
        if (t.x - s.x != p.x - q.x || t.y - s.y != p.y - q.y) continue;
        ++id;
        if (step > 1 && mc::Mix(id) % step) continue;
        ex.Case([&, i, j, ea, eb, id] { std::ostringstream o; o << "join " << T(la[i]) << " edge " << ea << " with " << T(lb[j]) << " edge " << eb << " id " << id; return o.str(); },
          [&, id] {
            Loop bt; for (auto& v : b) bt.push_back({v.x + t.x - p.x, v.y + t.y - p.y, 1});
            for (int cw = 0; cw < 2; ++cw) for (unsigned var = 0; var < 2; ++var) {
              size_t k = id * 4 + cw * 2 + var;
              const Frame& f = Frames()[k % Frames().size()];
              int drop = Drops(f)[k / 10 % Drops(f).size()];
              unsigned v2 = var | unsigned(k / 7 % 4) << 1;
              if (id & 1) DoJoin<APoly>(ex, f, a, bt, ea, eb, cw, drop, int(k % 4), v2); else DoJoin<MPoly>(ex, f, a, bt, ea, eb, cw, drop, int(k % 4), v2);
              ex.State(mc::HashAdd(HashM(bt, i * 1000 + ea, int(v2)), i));
            }
          });
      }
    }
  };
  joins("join_small", g32, g32, 1);
  joins("join_grid3", g3, g3, th ? 4 : 60);

  // Joining needs the same plane and orientation: fold the second polygon.
  ex.Section("join_folded");
  for (size_t fi = 0; fi < Frames().size(); ++fi) for (size_t i = 0; i < g32.size(); ++i) for (size_t ea = 0; ea < g32[i].size(); ++ea)
    ex.Case([&, fi, i, ea] { std::ostringstream o; o << "folded join of " << T(g32[i]) << " edge " << ea << " frame " << Frames()[fi].name; return o.str(); },
      [&] {
        const Frame& f = Frames()[fi]; const Loop& a = g32[i];
        Q2 s = a[ea], t = a[(ea + 1) % a.size()];
        // A triangle on the other side of s-t with its apex off the plane by k.
        MPoly p = Make<MPoly>(f, a, false, 0, Drops(f)[0]);
        for (int k = -2; k <= 2; ++k) for (int far = 0; far < 3; ++far) {
          V S = At(f, s.x, s.y, 0), T2 = At(f, t.x, t.y, 0);
          // outward normal of the edge in frame coordinates: (dy, -dx)
          I dx = t.x - s.x, dy = t.y - s.y;
          V A = At(f, s.x + t.x + dy * (far - 1), s.y + t.y - dx * (far - 1), k);  // twice the midpoint offset, any far point
          if (far == 1) A = At(f, s.x + dy, s.y - dx, k);
          if (far == 0) A = At(f, s.x - dy, s.y + dx, k);   // folded back over the polygon
          V n = geo::Cross(T2 - S, A - S) * -1;             // triangle t, s, A
          if (geo::Zero(n)) continue;
          int drop = n.x ? 0 : n.y ? 1 : 2;
          std::vector<walnut::HomoPoint3> vs = {geo::MkP({T2, 1}, 1), geo::MkP({S, 1}, 1), geo::MkP({A, 1}, 1)};
          MPoly q(geo::MkH({n, I(geo::Dot(n, S))}, 1), drop, vs);
          bool same = geo::Zero(geo::Cross(n, N(f))) && geo::Dot(n, N(f)) > 0;
          if (same) continue;
          size_t ib = 0; while (!(q.vertex(ib) == geo::MkP({T2, 1}, 1))) ++ib;
          size_t ia = 0; while (!SamePoint(p.vertex(ia), f, s)) ++ia;
          for (int dim = 0; dim < 3; ++dim) {
            if (p.const_edge(ia).line().d().components()[dim].IsZero()) continue;
            MPoly x(p), y(q);
            ex.Op();
            MC_CHECK(!x.TryMergePolygon(dim, ia, y, ib)) << "merged across a fold, k=" << k << " far=" << far << " dim=" << dim << " " << p << " and " << q;
            MC_CHECK(x == p && y == q) << "a refused merge changed a polygon";
          }
          ex.State(mc::HashAdd(HashM(a, fi, int(ea)), k * 10 + far));
        }
      });

  // Equality.
  ex.Section("equality");
  for (size_t fi = 0; fi < Frames().size(); ++fi) for (size_t i = 0; i < g3.size(); ++i) {
    if (!th && (i + fi) % 4) continue;
    ex.Case([&, fi, i] { return "equality of " + T(g3[i]) + " frame " + Frames()[fi].name; },
      [&] {
        const Frame& f = Frames()[fi]; const Loop& a = g3[i]; size_t n = a.size();
        auto mk = [&](const Loop& l, bool cw, size_t rot, int wp, const Z& ps, int change) {
          MPoly p = Make<MPoly>(f, l, cw, int(rot), Drops(f)[(rot + wp) % Drops(f).size()], wp, ps);
          for (size_t j = 0; j < l.size(); ++j) p.edge(j).tag = int((j + rot) % l.size());
          if (change >= 0) p.edge((change + l.size() - rot % l.size()) % l.size()).tag = 999;
          return p;
        };
        auto cmp = [&](const MPoly& x, const MPoly& y, bool want, const char* what) {
          ex.Op();
          MC_CHECK((x == y) == want && (y == x) == want && (x != y) == !want && (y != x) == !want) << what << ": " << x << " and " << y << (want ? " should be equal" : " should differ");
          APoly ax(x), ay(y);
          bool same_den = ax.aabb() == ay.aabb();
          if (!want || same_den) MC_CHECK((ax == ay) == want && (ay == ax) == want) << what << " (boxed): " << x << " and " << y;
        };
        for (size_t r = 0; r < n; ++r) for (int wp = 0; wp < 4; ++wp) {
          MPoly x = mk(a, false, 0, 0, 1, -1);
          cmp(x, mk(a, false, r, wp, wp == 1 ? Z(5) : Z(1), -1), true, "rotated and rescaled");
          for (size_t ch = 0; ch < n; ++ch) cmp(x, mk(a, false, r, wp, 1, int(ch)), false, "one edge has different data");
          // Remove or move one vertex.
          for (size_t k = 0; k < n && n > 3; ++k) {
            Loop l = a; l.erase(l.begin() + k);
            bool flat = true; for (size_t j = 0; j < l.size(); ++j) flat &= Turn(l[j], l[(j + 1) % l.size()], l[(j + 2) % l.size()]) == 0;
            if (!flat) cmp(x, mk(l, false, r % l.size(), wp, 1, -1), false, "one vertex less");
          }
        }
        MPoly e1 = mk(a, false, 0, 0, 1, -1), e2(e1);
        ex.State(HashM(a, fi, 0));
      });
  }
}
