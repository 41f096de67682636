// C13: boolean operations produce exactly the set-theoretic result.
#include "boolcases.h"
using namespace solid;
using mc::Explorer;

struct Input { const Shape* s; bool inverted; BSPContentId id; };

static std::vector<OPoly> Eval(const std::vector<Input>& in, AnyFilter f, size_t kd, const Rep& rep = Rep()) {
  Tree t;
  size_t max_id = 0;
  for (auto& i : in) max_id = std::max(max_id, i.id);
  for (size_t k = 0; k <= max_id; ++k) t.AllocateId();
  for (auto& i : in) {
    Mesh m = MakeMesh(i.inverted ? Inverted(*i.s) : *i.s, rep);
    t.AddContents(i.id, m);
  }
  return Collect(t, f, kd, rep.coord);
}
static void CheckOutput(Explorer& ex, const std::vector<OPoly>& out, const PlaneSet& planes, const std::vector<Samp>& samples,
                        const std::vector<int>& want, const char* op, bool parity) {
  for (auto& p : out) {
    CheckOPoly(p, op);
    MC_CHECK(HasPlane(planes, p.plane)) << op << ": output polygon is not on an input plane " << T(p);
  }
  for (size_t i = 0; i < samples.size(); ++i) {
    int w = Winding(out, samples[i]);
    // Filters select polygons and never flip them, so an exclusive-or result is
    // defined by crossing parity.
    MC_CHECK(parity ? ((w ^ want[i]) & 1) == 0 : w == want[i]) << op << ": winding number at " << T(samples[i]) << " is " << w << " instead of " << want[i] << "; output " << T(out);
  }
  ex.Op(samples.size());
}
static const char* kOps[] = {"union", "intersection", "difference", "symmetric difference"};
static AnyFilter Op2(int op) {
  switch (op) {
    case 0: return Or(Pos(0), Pos(1));
    case 1: return And(Pos(0), Pos(1));
    case 2: return Sub(Pos(0), Neg(1));
    default: return Xor(Pos(0), Pos(1));
  }
}
static bool Want2(int op, bool a, bool b) { return op == 0 ? a || b : op == 1 ? a && b : op == 2 ? a && !b : a != b; }

void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  const size_t kNoKd = static_cast<size_t>(-1);
  std::vector<Samp> centres;  // of the cubes of [-1,3)^3
  for (const V& v : geo::Grid(-1, 2)) centres.push_back({2 * v.x + 1, 2 * v.y + 1, 2 * v.z + 1, 2});
  auto in_mask = [](int mask, const Samp& s) {
    int x = int((s.x - 1) / 2), y = int((s.y - 1) / 2), z = int((s.z - 1) / 2);
    if (s.x < 0 || s.y < 0 || s.z < 0 || x > 1 || y > 1 || z > 1) return false;
    return (mask >> ((z * 2 + y) * 2 + x) & 1) != 0;
  };
  std::vector<Mat> maps = {
    {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {0, 0, 0}},
    {{{1, 1, 0}, {-1, 2, 1}, {0, -1, 1}}, {1, 0, -2}},
    {{{2, -1, 1}, {1, 1, 0}, {-1, 1, 3}}, {-1, 2, 0}},
    {{{0, -1, 0}, {1, 0, -1}, {3, 1, 1}}, {0, 0, 0}},
  };
  auto voxel_case = [&](int a, int b, size_t map, const std::vector<size_t>& kds, const Rep& rep) {
    Shape A = Voxels(a, 2, 2, 2), B = Voxels(b, 2, 2, 2);
    std::vector<Samp> samples = centres;
    if (map) {
      A = Mapped(A, maps[map]); B = Mapped(B, maps[map]);
      for (auto& s : samples) {
        V v{s.x, s.y, s.z}; Mat m = maps[map]; m.o = m.o * s.D;
        V t = Apply(m, v); s = {t.x, t.y, t.z, s.D};
      }
    }
    PlaneSet planes = Union(PlanesOf(A), PlanesOf(B));
    for (int op = 0; op < 4; ++op) {
      std::vector<int> want;
      for (auto& s : centres) want.push_back(Want2(op, in_mask(a, s), in_mask(b, s)));
      for (size_t kd : kds) {
        auto out = Eval({{&A, false, 0}, {&B, op == 2, 1}}, Op2(op), kd, rep);
        CheckOutput(ex, out, planes, samples, want, kOps[op], op == 3);
        ex.State(HashMesh(out));
      }
    }
  };
  std::vector<int> canon = CanonicalVoxels();
  ex.Section("voxel_pairs");
  for (int a : canon) for (int b = 1; b < 256; ++b) ex.Case(
      [&] { std::ostringstream o; o << "voxel solids A=" << a << " B=" << b; return o.str(); },
      [&] { voxel_case(a, b, 0, th ? std::vector<size_t>{kNoKd, 0, 2, 6} : std::vector<size_t>{(a + b) & 1 ? kNoKd : 2}, Rep()); });
  ex.Section("voxel_pairs_sheared");
  for (size_t m = 1; m < maps.size(); ++m) for (int a : canon) for (int b = 1; b < 256; ++b) {
    if (!th && (b * 7 + a) % 6 != int(m)) continue;
    ex.Case([&] { std::ostringstream o; o << "voxel solids A=" << a << " B=" << b << " under map " << m; return o.str(); },
            [&] { Rep r; if (b & 1) r.weight = -2; if (a & 1) r.plane = 3; r.last_drop = b & 2;
                  voxel_case(a, b, m, th ? std::vector<size_t>{kNoKd, 0, 6} : std::vector<size_t>{b & 4 ? kNoKd : 1}, r); });
  }

  // All relative positions of two boxes (every interval relation per axis).
  ex.Section("two_boxes");
  {
    const int iv[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
    std::vector<Samp> cs;
    for (const V& v : geo::Grid(-1, 3)) cs.push_back({2 * v.x + 1, 2 * v.y + 1, 2 * v.z + 1, 2});
    for (int ax : {0, 1, 2, 3}) for (int ay : {0, 1, 2, 3}) for (int az : {0, 1, 2, 3}) {
      if (ax > ay || ay > az) continue;
      for (int b = 0; b < 216; ++b) ex.Case(
        [&] { std::ostringstream o; o << "boxes A=" << ax << ay << az << " B=" << b / 36 << b / 6 % 6 << b % 6; return o.str(); },
        [&] {
          const int *x = iv[b / 36], *y = iv[b / 6 % 6], *z = iv[b % 6];
          Shape A = Box({iv[ax][0], iv[ay][0], iv[az][0]}, {iv[ax][1], iv[ay][1], iv[az][1]}), B = Box({x[0], y[0], z[0]}, {x[1], y[1], z[1]});
          PlaneSet planes = Union(PlanesOf(A), PlanesOf(B));
          for (int op = 0; op < 4; ++op) {
            std::vector<int> want;
            for (auto& s : cs) {
              auto in = [&](const Shape& q) { const Face& lo = q.faces[0]; const Face& hi = q.faces[1]; return s.x > 2 * lo[0].x && s.y > 2 * lo[0].y && s.z > 2 * lo[0].z && s.x < 2 * hi[2].x && s.y < 2 * hi[2].y && s.z < 2 * hi[2].z; };
              want.push_back(Want2(op, in(A), in(B)));
            }
            for (size_t kd : {kNoKd, size_t(0), size_t(6)}) {
              if (!th && kd == 0) continue;
              auto out = Eval({{&A, false, 0}, {&B, op == 2, 1}}, Op2(op), kd);
              CheckOutput(ex, out, planes, cs, want, kOps[op], op == 3);
              ex.State(HashMesh(out));
            }
          }
        });
    }
  }

  // Oblique shapes, translated against each other.
  static Lattice lat(-2, 6);
  std::vector<Shape> lib = Library();
  for (auto& s : lib) MC_CHECK(Closed(s)) << s.name;
  auto samples_for = [&](const std::vector<const Shape*>& shapes, const PlaneSet& planes, std::vector<std::vector<int>>& in) {
    std::vector<int> idx = lat.Select(planes);
    std::vector<Samp> r;
    for (int i : idx) r.push_back(lat.samples[i]);
    for (auto* s : shapes) {
      std::vector<OPoly> m; for (auto& f : s->faces) m.push_back(FromFace(f));
      std::vector<int> w;
      for (auto& q : r) {
        int k = Winding(m, q);
        MC_CHECK(k == 0 || k == 1) << "harness: shape " << s->name << " is not simple";
        w.push_back(k);
      }
      in.push_back(w);
    }
    return r;
  };
  ex.Section("shape_pairs");
  std::vector<V> offs;
  for (const V& o : geo::Grid(-1, th ? 2 : 1)) offs.push_back(o);
  for (size_t i = 0; i < lib.size(); ++i) for (size_t j = 0; j < lib.size(); ++j) for (const V& o : offs) {
    if (!th && (i * 5 + j * 3 + (o.x + 1) * 9 + (o.y + 1) * 3 + o.z + 1) % 4 != 0) continue;
    ex.Case([&] { return lib[i].name + " and " + lib[j].name + " moved by " + geo::T(o); }, [&] {
      Shape B = Moved(lib[j], o);
      PlaneSet planes = Union(PlanesOf(lib[i]), PlanesOf(B));
      std::vector<std::vector<int>> in;
      std::vector<Samp> samples = samples_for({&lib[i], &B}, planes, in);
      for (int op = 0; op < 4; ++op) {
        std::vector<int> want;
        for (size_t k = 0; k < samples.size(); ++k) want.push_back(Want2(op, in[0][k], in[1][k]));
        for (size_t kd : th ? std::vector<size_t>{kNoKd, 0, 6} : std::vector<size_t>{(i + j) & 1 ? kNoKd : 3}) {
          auto out = Eval({{&lib[i], false, 0}, {&B, op == 2, 1}}, Op2(op), kd);
          CheckOutput(ex, out, planes, samples, want, kOps[op], op == 3);
          ex.State(HashMesh(out));
        }
      }
    });
  }

  // Nested expressions over three meshes, and several meshes under one id.
  struct Expr { const char* name; bool inv[3]; BSPContentId id[3]; std::function<AnyFilter()> f; std::function<int(int, int, int)> want; bool parity; };
  std::vector<Expr> exprs = {
    {"(A|B)-C", {0, 0, 1}, {0, 1, 2}, [] { return Sub(Or(Pos(0), Pos(1)), Neg(2)); }, [](int a, int b, int c) { return int((a || b) && !c); }, false},
    {"(A&B)^C", {0, 0, 0}, {0, 1, 2}, [] { return Xor(And(Pos(0), Pos(1)), Pos(2)); }, [](int a, int b, int c) { return (a & b) ^ c; }, true},
    {"A-(B^C) with B,C inverted", {0, 1, 1}, {2, 0, 1}, [] { return Sub(Pos(2), And(Neg(0), Neg(1))); }, [](int a, int b, int c) { return int(a && !b && !c); }, false},
    {"union ids", {0, 0, 0}, {0, 1, 2}, [] { return Any(walnut::UnionIdsFilter({0, 1, 2})); }, [](int a, int b, int c) { return a | b | c; }, false},
    {"intersect ids", {0, 0, 0}, {2, 0, 1}, [] { return Any(walnut::IntersectIdsFilter({0, 1, 2})); }, [](int a, int b, int c) { return a & b & c; }, false},
    {"subtract ids", {0, 1, 1}, {1, 2, 0}, [] { return Any(walnut::SubtractIdsFilter({1, 2, 0})); }, [](int a, int b, int c) { return int(a && !b && !c); }, false},
    {"subtract ids, first id 0", {0, 1, 1}, {0, 1, 2}, [] { return Any(walnut::SubtractIdsFilter({0, 1, 2})); }, [](int a, int b, int c) { return int(a && !b && !c); }, false},
    {"all under one id, positive", {0, 0, 0}, {0, 0, 0}, [] { return Pos(0); }, [](int a, int b, int c) { return a | b | c; }, false},
    {"all under one id, odd", {0, 0, 0}, {0, 0, 0}, [] { return Odd(0); }, [](int a, int b, int c) { return a ^ b ^ c; }, true},
    {"two under one id, minus third", {0, 0, 1}, {0, 0, 1}, [] { return Sub(Pos(0), Neg(1)); }, [](int a, int b, int c) { return int((a | b) && !c); }, false},
    // Complement: the output bounds the outside, so its winding number is one less than the indicator.
    {"complement of union, one id", {1, 1, 1}, {0, 0, 0}, [] { return Neg(0); }, [](int a, int b, int c) { return -(a | b | c); }, false},
    {"complement (A'|B'), C' ignored", {1, 1, 1}, {0, 1, 2}, [] { return Or(Neg(0), Neg(1)); }, [](int a, int b, int) { return -(a & b); }, false},
    {"complement xor", {1, 0, 0}, {0, 1, 2}, [] { return Xor(Xor(Neg(0), Pos(1)), Odd(2)); }, [](int a, int b, int c) { return -(a ^ b ^ c); }, true},
    {"only B of three", {0, 0, 0}, {0, 1, 2}, [] { return Pos(1); }, [](int, int b, int) { return b; }, false},
  };
  ex.Section("three_meshes");
  {
    std::vector<Shape> pool = {Box({0, 0, 0}, {2, 2, 2}), Box({1, 1, 1}, {3, 3, 3}), Box({0, 0, 0}, {1, 3, 2}), Moved(lib[12], {0, 0, 0}), Moved(lib[14], {1, 0, 0}), CornerTet({0, 0, 0}, {3, 3, 3}),
                               Box({1, 0, 0}, {2, 1, 3}), Moved(lib[17], {0, 0, 0})};
    for (size_t i = 0; i < pool.size(); ++i) for (size_t j = 0; j < pool.size(); ++j) for (size_t k = 0; k < pool.size(); ++k) {
      ex.Case([&] { return "A=" + pool[i].name + " B=" + pool[j].name + " C=" + pool[k].name; }, [&] {
        PlaneSet planes = Union(Union(PlanesOf(pool[i]), PlanesOf(pool[j])), PlanesOf(pool[k]));
        std::vector<std::vector<int>> in;
        std::vector<Samp> samples = samples_for({&pool[i], &pool[j], &pool[k]}, planes, in);
        for (auto& e : exprs) {
          std::vector<int> want;
          for (size_t q = 0; q < samples.size(); ++q) want.push_back(e.want(in[0][q], in[1][q], in[2][q]));
          for (size_t kd : th ? std::vector<size_t>{kNoKd, 0, 6} : std::vector<size_t>{(i + j + k) & 1 ? kNoKd : 6}) {
            auto out = Eval({{&pool[i], e.inv[0], e.id[0]}, {&pool[j], e.inv[1], e.id[1]}, {&pool[k], e.inv[2], e.id[2]}}, e.f(), kd);
            CheckOutput(ex, out, planes, samples, want, e.name, e.parity);
            ex.State(HashMesh(out));
          }
        }
      });
    }
  }
  // More than 40 facets of one mesh in a cell: splits at quarter turns.
  ex.Section("many_facets");
  {
    static const std::vector<Shape> big = BigMeshes();
    for (auto& s : big) MC_CHECK(Closed(s)) << s.name;
    for (size_t i = 0; i < big.size(); ++i) for (size_t j = 0; j < lib.size() + big.size(); ++j) for (const V& o : {V{0, 0, 0}, V{1, 0, -1}, V{-1, 2, 1}}) {
      if (!th && j < lib.size() && (i + j + o.y) % 2) continue;
      const Shape& other = j < lib.size() ? lib[j] : big[j - lib.size()];
      ex.Case([&] { return big[i].name + " and " + other.name + " moved by " + geo::T(o); }, [&] {
        Shape B = Moved(other, o);
        PlaneSet planes = Union(PlanesOf(big[i]), PlanesOf(B));
        std::vector<std::vector<int>> in;
        std::vector<Samp> samples = samples_for({&big[i], &B}, planes, in);
        for (int op = 0; op < 4; ++op) {
          std::vector<int> want;
          for (size_t k = 0; k < samples.size(); ++k) want.push_back(Want2(op, in[0][k], in[1][k]));
          for (size_t kd : th ? std::vector<size_t>{kNoKd, 0, 6} : std::vector<size_t>{kNoKd}) {
            Rep r; r.weight = j % 3 == 0 ? -2 : 1;
            auto out = Eval({{&big[i], false, 0}, {&B, op == 2, 1}}, Op2(op), kd, r);
            CheckOutput(ex, out, planes, samples, want, kOps[op], op == 3);
            ex.State(HashMesh(out));
          }
        }
      });
    }
  }
  // Coordinates beyond 64 bits and other representations.
  ex.Section("representations");
  {
    std::vector<Rep> reps;
    for (const orc::Z& c : {orc::Z(1), orc::Pow2(31), orc::Pow2(63), orc::Pow2(130)}) for (const orc::Z& w : {orc::Z(1), orc::Z(-1), orc::Z(6), orc::Z(-orc::Pow2(64))})
      for (const orc::Z& p : {orc::Z(1), orc::Z(5), orc::Pow2(64)}) for (int rot = 0; rot < 3; ++rot) { Rep r; r.coord = c; r.weight = w; r.plane = p; r.rotate = rot; r.last_drop = rot & 1; reps.push_back(r); }
    std::vector<std::pair<int, int>> pairs = {{0, 12}, {3, 13}, {12, 13}, {14, 4}, {18, 16}, {22, 17}, {25, 26}, {3, 3}};
    for (size_t r = 0; r < reps.size(); ++r) for (auto& pr : pairs) for (const V& o : {V{0, 0, 0}, V{1, 0, -1}}) ex.Case(
      [&] { std::ostringstream s; s << lib[pr.first].name << " and " << lib[pr.second].name << " moved by " << geo::T(o) << " coordinates scaled by " << orc::Hex(reps[r].coord) << " weight " << orc::Hex(reps[r].weight) << " plane scale " << orc::Hex(reps[r].plane) << " rotated " << reps[r].rotate; return s.str(); },
      [&] {
        Shape B = Moved(lib[pr.second], o);
        const Shape& A = lib[pr.first];
        PlaneSet planes = Union(PlanesOf(A), PlanesOf(B));
        std::vector<std::vector<int>> in;
        std::vector<Samp> samples = samples_for({&A, &B}, planes, in);
        for (int op = 0; op < 4; ++op) {
          std::vector<int> want;
          for (size_t k = 0; k < samples.size(); ++k) want.push_back(Want2(op, in[0][k], in[1][k]));
          auto out = Eval({{&A, false, 0}, {&B, op == 2, 1}}, Op2(op), r & 1 ? kNoKd : 0, reps[r]);
          CheckOutput(ex, out, planes, samples, want, kOps[op], op == 3);
          ex.State(HashMesh(out));
        }
      });
  }
  // Every number of meshes up to 12 (and some larger ones).
  ex.Section("crowds");
  for (int kind = 0; kind < kCrowds; ++kind) for (int n : {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 33}) {
    if (!th && n > (kind == 2 || kind == 4 ? 12 : 20)) continue;
    ex.Case([=] { return std::to_string(n) + " meshes: " + CrowdName(kind); }, [&, kind, n] {
      for (size_t m = 0; m < (n <= 9 || th ? 2u : 1u); ++m) {
        Problem p = CrowdProblem(Crowd(kind, n), {}, m ? &maps[2] : nullptr);
        for (auto& e : CrowdExprs(n)) for (size_t kd : {kNoKd, size_t(6)}) {
          Tree t; Rep r; if (m) { r.weight = -3; r.rotate = n % 4; }
          solid::Fill(t, p, e, r);
          auto out = Collect(t, e.f(), kd);
          CheckSolid(ex, out, p, Wanted(p, e), std::string(e.name) + (kd == kNoKd ? " bsp" : " kd"), e.parity);
          ex.State(HashMesh(out));
        }
      }
    });
  }
}
