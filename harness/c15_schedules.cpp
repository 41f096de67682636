// C15: the enclosed point set does not depend on splitting strategy,
// splitting planes, insertion order, vertex rotation or mesh identifiers, nor
// on what the partition was used for before.
#include "boolcases.h"
using namespace solid;
using mc::Explorer;
namespace {
H Flip(H h, bool f) { return f ? H{h.n * -1, -h.d} : h; }
// Expressions over up to three meshes with free identifiers.
struct FreeExpr { const char* name; size_t meshes; int inv[3]; std::function<AnyFilter(const BSPContentId*)> f; std::function<int(const int*)> want; bool parity; };
const std::vector<FreeExpr>& Free() {
  static const std::vector<FreeExpr> e = {
    {"union", 2, {0, 0, 0}, [](const BSPContentId* i) { return Or(Pos(i[0]), Pos(i[1])); }, [](const int* a) { return a[0] | a[1]; }, false},
    {"intersection", 2, {0, 0, 0}, [](const BSPContentId* i) { return And(Pos(i[0]), Pos(i[1])); }, [](const int* a) { return a[0] & a[1]; }, false},
    {"difference", 2, {0, 1, 0}, [](const BSPContentId* i) { return Sub(Pos(i[0]), Neg(i[1])); }, [](const int* a) { return int(a[0] && !a[1]); }, false},
    {"symmetric difference", 2, {0, 0, 0}, [](const BSPContentId* i) { return Xor(Pos(i[0]), Pos(i[1])); }, [](const int* a) { return a[0] ^ a[1]; }, true},
    {"(A|B)-C", 3, {0, 0, 1}, [](const BSPContentId* i) { return Sub(Or(Pos(i[0]), Pos(i[1])), Neg(i[2])); }, [](const int* a) { return int((a[0] || a[1]) && !a[2]); }, false},
    {"(A&B)|C", 3, {0, 0, 0}, [](const BSPContentId* i) { return Or(And(Pos(i[0]), Pos(i[1])), Pos(i[2])); }, [](const int* a) { return (a[0] & a[1]) | a[2]; }, false},
    {"union ids", 3, {0, 0, 0}, [](const BSPContentId* i) { return Any(walnut::UnionIdsFilter({i[0], i[1], i[2]})); }, [](const int* a) { return a[0] | a[1] | a[2]; }, false},
    {"intersect ids", 3, {0, 0, 0}, [](const BSPContentId* i) { return Any(walnut::IntersectIdsFilter({i[0], i[1], i[2]})); }, [](const int* a) { return a[0] & a[1] & a[2]; }, false},
    {"subtract ids", 3, {0, 1, 1}, [](const BSPContentId* i) { return Any(walnut::SubtractIdsFilter({i[0], i[1], i[2]})); }, [](const int* a) { return int(a[0] && !a[1] && !a[2]); }, false},
  };
  return e;
}
std::vector<int> WantOf(const Problem& p, const FreeExpr& e, size_t present = 3) {
  std::vector<int> w;
  for (size_t k = 0; k < p.samples.size(); ++k) { int a[3] = {0, 0, 0}; for (size_t j = 0; j < p.in.size() && j < present; ++j) a[j] = p.in[j][k]; w.push_back(e.want(a)); }
  return w;
}
void SplitLeaves(Tree::BSPNodeRep& n, const walnut::HalfSpace3& h) {
  if (n.IsLeaf()) { n.Split(h); return; }
  SplitLeaves(*n.negative_child(), h); SplitLeaves(*n.positive_child(), h);
}
void SplitLeavesKd(Tree::BSPNodeRep& n, const walnut::HalfSpace3& h, unsigned which, unsigned& i) {
  // Splits only the leaves selected by the bits of `which`: the partition is
  // not the product of its planes.
  if (n.IsLeaf()) { if (which >> (i++ % 8) & 1) n.Split(h); return; }
  SplitLeavesKd(*n.negative_child(), h, which, i); SplitLeavesKd(*n.positive_child(), h, which, i);
}
Mesh MeshOf(const Problem& p, const FreeExpr& e, size_t j, const Rep& r = Rep()) { return MakeMesh(e.inv[j] ? Inverted(p.s[j]) : p.s[j], r); }
const BSPContentId kIds[3] = {0, 1, 2};
struct Pair { size_t a, b; V o; };
}  // namespace
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  auto lib = Library();
  // Problems: contact of every degenerate kind.
  std::vector<Pair> pairs = {{0, 0, {0, 0, 0}}, {3, 3, {1, 0, 0}}, {3, 12, {0, 0, 0}}, {12, 13, {0, 0, 0}}, {14, 3, {0, 0, 0}}, {15, 16, {0, 0, 0}}, {7, 4, {1, 0, -1}}, {25, 26, {1, 0, 0}}, {17, 18, {0, 1, 0}}, {20, 0, {1, 1, 0}}, {22, 3, {0, 1, 0}}, {24, 9, {0, 0, 0}}};
  if (th) for (size_t i = 0; i < lib.size(); i += 2) pairs.push_back({i, (i * 7 + 3) % lib.size(), {I(i % 3) - 1, I(i % 2), I(i / 3 % 3) - 1}});
  auto problem = [&](const Pair& q, const Shape* third = nullptr) {
    std::vector<Shape> s = {lib[q.a], Moved(lib[q.b], q.o)};
    if (third) s.push_back(*third);
    return MakeProblem(s);
  };
  auto name = [&](const Pair& q) { return lib[q.a].name + " and " + lib[q.b].name + " + " + geo::T(q.o); };
  const Shape third = Moved(lib[14], {0, 1, 0});

  ex.Section("insertion_orders");
  {
    std::vector<Pair> tets = {{4, 7, {0, 0, 0}}, {12, 13, {0, 0, 0}}, {12, 12, {1, 0, 0}}, {11, 11, {0, 0, 0}}, {5, 12, {0, 1, 0}}};
    for (auto& q : tets) for (size_t x = 0; x < 4; ++x) for (int first = 0; first < 4; ++first) {
      ex.Case([&, q, x, first] { return name(q) + " " + Free()[x].name + ", all face orders, first face " + std::to_string(first); }, [&, q, x, first] {
        Problem p = problem(q); const FreeExpr& e = Free()[x]; std::vector<int> want = WantOf(p, e);
        Mesh A = MeshOf(p, e, 0), B = MeshOf(p, e, 1);
        MC_CHECK(A.size() == 4 && B.size() == 4) << "harness: tetrahedra expected";
        std::vector<int> oa = {0, 1, 2, 3};
        do {
          if (oa[0] != first) continue;
          std::vector<int> ob = {0, 1, 2, 3};
          do for (int mix = 0; mix < (th ? 6 : 4); ++mix) {
            // How the two sequences are interleaved.
            Tree t; t.AllocateId(); t.AllocateId();
            size_t ia = 0, ib = 0; int bits = mix == 0 ? 0x0f : mix == 1 ? 0x55 : mix == 2 ? 0xf0 : mix == 3 ? 0x33 : mix == 4 ? 0xaa : 0x69;
            std::string what = std::string(e.name) + " order";
            for (int k = 0; k < 8; ++k) {
              bool a = bits >> k & 1;
              t.AddContent(a ? 0 : 1, a ? A[oa[ia]] : B[ob[ib]]);
              what += " " + std::string(a ? "A" : "B") + std::to_string(a ? oa[ia] : ob[ib]);
              if (a) ++ia; else ++ib;
            }
            auto out = Collect(t, e.f(kIds), (oa[1] + ob[0]) & 1 ? kNoKd : 2);
            CheckSolid(ex, out, p, want, what, e.parity);
            ex.State(HashMesh(out));
          } while (std::next_permutation(ob.begin(), ob.end()));
        } while (std::next_permutation(oa.begin(), oa.end()));
      });
    }
  }

  std::vector<H> menu = {{{1, 0, 0}, 1}, {{0, 1, 0}, 0}, {{0, 0, 1}, 2}, {{1, 1, 0}, 2}, {{0, 1, -1}, 0}, {{1, 1, 1}, 2}, {{1, -1, 1}, 1}, {{1, 0, 0}, 0}, {{0, 0, 1}, 1}, {{-1, 1, 1}, 2}};
  ex.Section("pre_split");
  for (size_t q = 0; q < pairs.size(); ++q) for (size_t a = 0; a < menu.size(); ++a) for (size_t x = 0; x < Free().size(); ++x) {
    ex.Case([&, q, a, x] { return name(pairs[q]) + " " + Free()[x].name + ", first split " + geo::T(menu[a]); }, [&, q, a, x] {
      const FreeExpr& e = Free()[x];
      Problem p = problem(pairs[q], e.meshes == 3 ? &third : nullptr); std::vector<int> want = WantOf(p, e);
      for (size_t b = 0; b < menu.size(); ++b) {
        if (b == a) continue;
        for (int mode = 0; mode < 4; ++mode) {
          // The meshes are inserted before, between or after the splits.
          Tree t; for (size_t j = 0; j < e.meshes; ++j) t.AllocateId();
          for (size_t step = 0; step < 3; ++step) {
            for (size_t j = 0; j < e.meshes; ++j) if ((j * mode + (mode == 3 ? 2 : 0)) % 3 == step) t.AddContents(j, MeshOf(p, e, j));
            if (step == 0) SplitLeaves(t.root, MakePlane(Flip(menu[a], mode & 1), Rep()));
            if (step == 1) { unsigned i = 0; SplitLeavesKd(t.root, MakePlane(Flip(menu[b], mode & 2), Rep()), b % 3 == 0 ? 3 : b % 3, i); }
          }
          size_t kd = (mode + x) % 3 == 0 ? kNoKd : (mode + x) % 3 == 1 ? 0 : 6;
          std::ostringstream what; what << e.name << " second split " << geo::T(menu[b]) << " mode " << mode;
          auto out = Collect(t, e.f(kIds), kd);
          CheckSolid(ex, out, p, want, what.str(), e.parity);
          ex.State(HashMesh(out));
        }
      }
    });
  }

  // The same solids with their facets divided into fans: up to 200 facets.
  ex.Section("divided_facets");
  {
    const Mat four = {{{4, 0, 0}, {0, 4, 0}, {0, 0, 4}}, {0, 0, 0}};
    const std::vector<V> apexes = {{1, 3, 9}, {-1, -3, -9}, {9, -3, 1}, {-3, 9, 1}};
    for (size_t q = 0; q < pairs.size(); ++q) for (size_t x = 0; x < Free().size(); ++x) for (size_t a = 0; a < apexes.size(); ++a) {
      ex.Case([&, q, x, a] { return name(pairs[q]) + " " + Free()[x].name + ", facets divided from " + geo::T(apexes[a]); }, [&, q, x, a] {
        const FreeExpr& e = Free()[x];
        std::vector<Shape> sh = {lib[pairs[q].a], Moved(lib[pairs[q].b], pairs[q].o)};
        if (e.meshes == 3) sh.push_back(third);
        Problem p = MakeProblem(sh, &four); std::vector<int> want = WantOf(p, e);
        const std::vector<Shape> whole = p.s;
        for (int mode = 0; mode < (th ? 6 : 3); ++mode) for (int rot = 0; rot < 3; ++rot) {
          for (size_t j = 0; j < whole.size(); ++j) {
            int step = j == size_t(mode % 3) ? 4 : mode & 1 ? 2 : 1;
            p.s[j] = Divided(whole[j], step, apexes[(a + (mode > 2 ? j : 0)) % apexes.size()]);
          }
          Rep r; r.rotate = rot; r.last_drop = mode & 1;
          Tree t; for (size_t j = 0; j < e.meshes; ++j) t.AllocateId();
          for (size_t j = 0; j < e.meshes; ++j) t.AddContents(j, MeshOf(p, e, j, r));
          std::ostringstream what; what << e.name << " division " << mode << " rotation " << rot;
          auto out = Collect(t, e.f(kIds), rot == 2 ? 6 : kNoKd);
          CheckSolid(ex, out, p, want, what.str(), e.parity);
          ex.State(HashMesh(out));
        }
      });
    }
  }

  ex.Section("strategies_and_rotations");
  for (size_t q = 0; q < pairs.size(); ++q) for (size_t x = 0; x < Free().size(); ++x) ex.Case([&, q, x] { return name(pairs[q]) + " " + Free()[x].name; }, [&, q, x] {
    const FreeExpr& e = Free()[x];
    Problem p = problem(pairs[q], e.meshes == 3 ? &third : nullptr); std::vector<int> want = WantOf(p, e);
    for (size_t kd : {kNoKd, size_t(0), size_t(1), size_t(2), size_t(3), size_t(4), size_t(6), size_t(10), size_t(30)}) for (int ra = 0; ra < 4; ++ra) for (int rb = 0; rb < (th ? 4 : 2); ++rb) for (int rev = 0; rev < 2; ++rev) {
      Tree t; for (size_t j = 0; j < e.meshes; ++j) t.AllocateId();
      for (size_t j = 0; j < e.meshes; ++j) {
        Rep r; r.rotate = j == 0 ? ra : j == 1 ? rb : ra + rb; r.last_drop = (ra + j) & 1; if ((rb + j) % 3 == 1) { r.weight = -5; r.plane = 7; }
        Mesh m = MeshOf(p, e, j, r); if (rev) std::reverse(m.begin(), m.end());
        t.AddContents(j, std::move(m));
      }
      std::ostringstream what; what << e.name << " kd bound " << kd << " rotations " << ra << "," << rb << (rev ? " reversed" : "");
      auto out = Collect(t, e.f(kIds), kd);
      CheckSolid(ex, out, p, want, what.str(), e.parity);
      ex.State(HashMesh(out));
    }
  });

  ex.Section("identifiers");
  for (size_t q = 0; q < pairs.size(); ++q) for (size_t x = 0; x < Free().size(); ++x) ex.Case([&, q, x] { return name(pairs[q]) + " " + Free()[x].name + ", all identifier assignments"; }, [&, q, x] {
    const FreeExpr& e = Free()[x];
    Problem p = problem(pairs[q], e.meshes == 3 ? &third : nullptr); std::vector<int> want = WantOf(p, e);
    const BSPContentId pool[5] = {0, 1, 2, 4, 9};
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 5; ++k) {
      if (i == j || i == k || j == k) continue;
      if (e.meshes == 2 && k != (i == 0 || j == 0 ? (i == 1 || j == 1 ? 2 : 1) : 0)) continue;
      BSPContentId ids[3] = {pool[i], pool[j], pool[k]};
      Tree t; for (int n = 0; n < 10; ++n) t.AllocateId();
      // Meshes are inserted in the order of the permutation (i + k) % 2.
      for (size_t n = 0; n < e.meshes; ++n) { size_t j2 = (i + k) & 1 ? e.meshes - 1 - n : n; t.AddContents(ids[j2], MeshOf(p, e, j2)); }
      std::ostringstream what; what << e.name << " ids " << ids[0] << "," << ids[1] << "," << ids[2];
      auto out = Collect(t, e.f(ids), j & 1 ? kNoKd : 2);
      CheckSolid(ex, out, p, want, what.str(), e.parity);
      ex.State(HashMesh(out));
    }
  });

  // A partition that was already traversed for other expressions, and that
  // gets another mesh later, still gives every result.
  ex.Section("traversal_histories");
  const size_t depth = 3;
  const std::vector<size_t> use = {0, 1, 3, 5, 7};
  for (size_t q = 0; q < pairs.size(); ++q) for (size_t first = 0; first <= use.size() * 2; ++first) {
    ex.Case([&, q, first] { return name(pairs[q]) + ", traversal histories, first step " + std::to_string(first); }, [&, q, first] {
      Problem p = problem(pairs[q], &third);
      std::vector<std::vector<int>> want3, want2;
      for (size_t x : use) { want3.push_back(WantOf(p, Free()[x], 3)); want2.push_back(WantOf(p, Free()[x], 2)); }
      const size_t n = use.size() * 2 + 1;
      std::vector<size_t> h(depth, 0);
      for (size_t code = 0; code < n * n; ++code) {
        h[0] = first; h[1] = code % n; h[2] = code / n;
        if (h[2] == n - 1) continue;  // the last step is a traversal
        int adds = (h[0] == n - 1) + (h[1] == n - 1);
        if (adds > 1) continue;
        Tree t; t.AllocateId(); t.AllocateId(); t.AllocateId();
        for (size_t j = 0; j < 2; ++j) t.AddContents(j, MakeMesh(p.s[j]));
        bool added = false; std::string what = "history";
        for (size_t s = 0; s < depth; ++s) {
          if (h[s] == n - 1) { t.AddContents(2, MakeMesh(p.s[2])); added = true; what += " add C;"; continue; }
          const FreeExpr& e = Free()[use[h[s] / 2]];
          what += std::string(" ") + e.name + (h[s] % 2 ? " kd;" : " bsp;");
          auto out = Collect(t, e.f(kIds), h[s] % 2 ? 1 : kNoKd);
          CheckSolid(ex, out, p, added ? want3[h[s] / 2] : want2[h[s] / 2], what, e.parity);
          ex.State(HashMesh(out));
        }
      }
    });
  }

  // Many meshes: rotations and reversals of the insertion order.
  ex.Section("crowds");
  for (int kind = 0; kind < kCrowds; ++kind) for (int n : {2, 3, 4, 5, 6, 7, 8, 9, 12, 17}) {
    if (!th && n > (kind == 2 || kind == 4 ? 7 : 12)) continue;
    ex.Case([=] { return std::to_string(n) + " meshes: " + CrowdName(kind) + ", all rotations of the insertion order"; }, [&, kind, n] {
      Problem p = CrowdProblem(Crowd(kind, n));
      for (auto& e : CrowdExprs(n)) {
        std::vector<int> want = Wanted(p, e);
        for (int rot = 0; rot < n; ++rot) for (int rev = 0; rev < 2; ++rev) for (size_t kd : {kNoKd, size_t(2)}) {
          if (!th && n > 6 && (rot + rev + (kd == 2)) % 3) continue;
          Tree t; for (int i = 0; i < n; ++i) t.AllocateId();
          for (int i = 0; i < n; ++i) { int j = (rev ? n - 1 - i : i); j = (j + rot) % n; t.AddContents(e.id[j], MakeMesh(e.inv[j] ? Inverted(p.s[j]) : p.s[j])); }
          auto out = Collect(t, e.f(), kd);
          std::ostringstream what; what << e.name << " starting with mesh " << rot << (rev ? " backwards" : "") << " kd bound " << kd;
          CheckSolid(ex, out, p, want, what.str(), e.parity);
          ex.State(HashMesh(out));
        }
      }
    });
  }
}
