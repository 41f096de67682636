// C19: exclusive access tokens (deeds) against a model of ownership chains.
#include <deque>
#include "mc.h"
#include "walnut/deed.h"
using mc::Explorer;
namespace {
struct Obj : public walnut::DeedTarget {
  explicit Obj(int v) : value(v) {}
  Obj(const Obj&) = default;
  Obj(Obj&&) noexcept = default;
  Obj& operator=(const Obj&) = default;
  Obj& operator=(Obj&&) = default;
  int value;
};
const int kObjects = 3, kDeeds = 4;
// A chain of holders: every member but the last one has lent its access.
struct Chain { std::vector<int> deeds; int object = -1; };
struct Model {
  int value[kObjects]; bool alive[kObjects]; bool live[kDeeds]; int chain[kDeeds];   // chain index of a live deed
  std::vector<Chain> chains;
  int next_value = 1;
  int ChainOf(int o) const { for (size_t c = 0; c < chains.size(); ++c) if (!chains[c].deeds.empty() && chains[c].object == o) return int(c); return -1; }
  bool Lender(int d) const { return chains[chain[d]].deeds.back() != d; }
  bool HasLender(int d) const { return chains[chain[d]].deeds.front() != d; }
  int Object(int d) const { return chains[chain[d]].object; }
  void Solo(int d, int o) { Chain c; c.deeds.push_back(d); c.object = o; chains.push_back(c); chain[d] = int(chains.size()) - 1; }
  void Drop(int d) {   // leaves the chain (it is the last member)
    Chain& c = chains[chain[d]]; c.deeds.pop_back(); if (c.deeds.empty()) c.object = -1;
  }
  std::string Key() const {
    std::ostringstream o;
    for (int i = 0; i < kObjects; ++i) o << (alive[i] ? "o" : "-");
    for (int d = 0; d < kDeeds; ++d) o << (live[d] ? "d" : "-");
    std::vector<std::string> v;
    for (auto& c : chains) { if (c.deeds.empty()) continue; std::string s = "["; for (int d : c.deeds) s += char('0' + d); s += ">" + std::to_string(c.object); v.push_back(s); }
    std::sort(v.begin(), v.end()); for (auto& s : v) o << s;
    return o.str();
  }
};
struct Op { int kind, a, b; };
enum { kNewObject, kDropObject, kMoveObject, kAssignObject, kCopyObject, kCopyAssignObject, kSwapObjects,
       kNewDeed, kNullDeed, kNullPointerDeed, kDropDeed, kMoveDeed, kAssignDeed, kSwapDeeds, kLend, kReturn };
const char* const kName[] = {"create object", "destroy object", "move-construct object from", "move-assign object from", "copy-construct object from", "copy-assign object from", "swap objects",
  "take deed of object", "create null deed", "create deed of a null pointer", "destroy deed", "move-construct deed from", "move-assign deed from", "swap deeds", "lend from deed", "return deed"};
std::vector<Op> AllOps() {
  std::vector<Op> v;
  for (int a = 0; a < kObjects; ++a) { v.push_back({kNewObject, a, 0}); v.push_back({kDropObject, a, 0});
    for (int b = 0; b < kObjects; ++b) { if (a != b) { v.push_back({kMoveObject, a, b}); v.push_back({kCopyObject, a, b}); v.push_back({kSwapObjects, a, b}); } v.push_back({kAssignObject, a, b}); v.push_back({kCopyAssignObject, a, b}); } }
  for (int d = 0; d < kDeeds; ++d) {
    for (int o = 0; o < kObjects; ++o) v.push_back({kNewDeed, d, o});
    v.push_back({kNullDeed, d, 0}); v.push_back({kNullPointerDeed, d, 0}); v.push_back({kDropDeed, d, 0}); v.push_back({kReturn, d, 0});
    for (int e = 0; e < kDeeds; ++e) { if (d != e) { v.push_back({kMoveDeed, d, e}); v.push_back({kLend, d, e}); } v.push_back({kAssignDeed, d, e}); v.push_back({kSwapDeeds, d, e}); }
  }
  return v;
}
bool Legal(const Model& m, const Op& op) {
  const int a = op.a, b = op.b;
  switch (op.kind) {
    case kNewObject: return !m.alive[a];
    case kDropObject: return m.alive[a];
    case kMoveObject: case kCopyObject: return !m.alive[a] && m.alive[b];
    case kAssignObject: case kCopyAssignObject: return m.alive[a] && m.alive[b];
    case kSwapObjects: return a < b && m.alive[a] && m.alive[b];
    case kNewDeed: return !m.live[a] && m.alive[b];
    case kNullDeed: case kNullPointerDeed: return !m.live[a];
    case kDropDeed: case kReturn: return m.live[a] && !m.Lender(a);
    case kMoveDeed: case kLend: return !m.live[a] && m.live[b] && !m.Lender(b);
    case kAssignDeed: case kSwapDeeds: return m.live[a] && m.live[b] && !m.Lender(a) && !m.Lender(b);
  }
  return false;
}
void Apply(Model& m, const Op& op) {
  const int a = op.a, b = op.b;
  switch (op.kind) {
    case kNewObject: m.alive[a] = true; m.value[a] = m.next_value++; break;
    case kDropObject: { int c = m.ChainOf(a); if (c >= 0) m.chains[c].object = -1; m.alive[a] = false; break; }
    case kMoveObject: { int c = m.ChainOf(b); if (c >= 0) m.chains[c].object = a; m.alive[a] = true; m.value[a] = m.value[b]; break; }
    case kAssignObject: { int c = m.ChainOf(a), d = m.ChainOf(b); if (c >= 0) m.chains[c].object = b; if (d >= 0) m.chains[d].object = a; m.value[a] = m.value[b]; break; }
    case kCopyObject: m.alive[a] = true; m.value[a] = m.value[b]; break;
    case kCopyAssignObject: m.value[a] = m.value[b]; break;
    case kSwapObjects: { int c = m.ChainOf(a), d = m.ChainOf(b); if (c >= 0) m.chains[c].object = b; if (d >= 0) m.chains[d].object = a; std::swap(m.value[a], m.value[b]); break; }
    case kNewDeed: { m.live[a] = true; int c = m.ChainOf(b); if (c >= 0) { m.chains[c].deeds.push_back(a); m.chain[a] = c; } else m.Solo(a, b); break; }
    case kNullDeed: case kNullPointerDeed: m.live[a] = true; m.Solo(a, -1); break;
    case kDropDeed: m.Drop(a); m.live[a] = false; break;
    case kReturn: m.Drop(a); m.Solo(a, -1); break;
    case kMoveDeed: m.live[a] = true; m.chains[m.chain[b]].deeds.back() = a; m.chain[a] = m.chain[b]; m.Solo(b, -1); break;
    case kLend: m.live[a] = true; m.chains[m.chain[b]].deeds.push_back(a); m.chain[a] = m.chain[b]; break;
    case kAssignDeed: case kSwapDeeds: if (a != b) { m.chains[m.chain[a]].deeds.back() = b; m.chains[m.chain[b]].deeds.back() = a; std::swap(m.chain[a], m.chain[b]); } break;
  }
}
template <class D> struct World {
  alignas(Obj) unsigned char ob[kObjects][sizeof(Obj)];
  alignas(D) unsigned char db[kDeeds][sizeof(D)];
  Model m;
  Obj& O(int i) { return *reinterpret_cast<Obj*>(ob[i]); }
  D& T(int i) { return *reinterpret_cast<D*>(db[i]); }
  World() { for (int i = 0; i < kObjects; ++i) m.alive[i] = false, m.value[i] = 0; for (int i = 0; i < kDeeds; ++i) m.live[i] = false, m.chain[i] = -1; memset(ob, 0xAB, sizeof ob); memset(db, 0xAB, sizeof db); }
  static Obj* Get(walnut::Deed<Obj>& d) { return d.get(); }
  static Obj* Get(walnut::GenericDeed& d) { return static_cast<Obj*>(d.get()); }
  void Do(const Op& op) {
    const int a = op.a, b = op.b;
    switch (op.kind) {
      case kNewObject: new (ob[a]) Obj(m.next_value); break;
      case kDropObject: O(a).~Obj(); memset(ob[a], 0xAB, sizeof(Obj)); break;
      case kMoveObject: new (ob[a]) Obj(std::move(O(b))); break;
      case kAssignObject: { Obj& s = O(b); O(a) = std::move(s); break; }
      case kCopyObject: new (ob[a]) Obj(static_cast<const Obj&>(O(b))); break;
      case kCopyAssignObject: O(a) = static_cast<const Obj&>(O(b)); break;
      case kSwapObjects: std::swap(O(a), O(b)); break;
      case kNewDeed: new (db[a]) D(&O(b)); break;
      case kNullDeed: new (db[a]) D(); break;
      case kNullPointerDeed: new (db[a]) D(static_cast<Obj*>(nullptr)); break;
      case kDropDeed: T(a).~D(); memset(db[a], 0xAB, sizeof(D)); break;
      case kReturn: T(a).Return(); break;
      case kMoveDeed: new (db[a]) D(std::move(T(b))); break;
      case kLend: new (db[a]) D(T(b).Lend()); break;
      case kAssignDeed: { D& s = T(b); T(a) = std::move(s); break; }
      case kSwapDeeds: T(a).swap(T(b)); break;
    }
    Apply(m, op);
  }
  void Check(Explorer& ex, const std::string& w) {
    ex.Op();
    for (int d = 0; d < kDeeds; ++d) if (m.live[d]) {
      MC_CHECK(T(d).is_lender() == m.Lender(d)) << "deed " << d << (m.Lender(d) ? " lost track of having lent its object" : " is still marked as lent") << " after" << w;
      if (m.Lender(d)) continue;
      int o = m.Object(d);
      Obj* want = o < 0 ? nullptr : &O(o);
      Obj* got = Get(T(d));
      MC_CHECK(got == want) << "deed " << d << " gives access to " << Which(got) << " instead of " << Which(want) << " after" << w;
      MC_CHECK(bool(T(d)) == (o >= 0) && (T(d) == nullptr) == (o < 0) && (T(d) != nullptr) == (o >= 0)) << "emptiness of deed " << d << " after" << w;
      if (o >= 0) MC_CHECK(got->value == m.value[o]) << "deed " << d << " reads " << got->value << " instead of " << m.value[o] << " after" << w;
    }
    for (int o = 0; o < kObjects; ++o) if (m.alive[o]) MC_CHECK(O(o).value == m.value[o]) << "object " << o << " holds " << O(o).value << " instead of " << m.value[o] << " after" << w;
  }
  std::string Which(Obj* p) { if (!p) return "nothing"; for (int o = 0; o < kObjects; ++o) if (p == &O(o)) return "object " + std::to_string(o); return "an unknown address"; }
  // Everything finds its way home: deeds are destroyed last lent first, in both
  // relative orders with the objects.
  void Finish(Explorer& ex, const std::string& w, bool objects_first) {
    auto objects = [&] { for (int o = 0; o < kObjects; ++o) if (m.alive[o]) { Op op{kDropObject, o, 0}; Do(op); Check(ex, w + ", destroy object " + std::to_string(o)); } };
    if (objects_first) objects();
    for (bool again = true; again;) { again = false; for (int d = 0; d < kDeeds; ++d) if (m.live[d] && !m.Lender(d)) { Op op{kDropDeed, d, 0}; Do(op); Check(ex, w + ", destroy deed " + std::to_string(d)); again = true; } }
    // Nothing may point back at a destroyed deed: take fresh deeds of the survivors.
    if (!objects_first) { for (int o = 0; o < kObjects; ++o) if (m.alive[o]) { Op op{kNewDeed, 0, o}; Do(op); Check(ex, w + ", take a fresh deed of object " + std::to_string(o)); MC_CHECK(!T(0).is_lender()); Op dr{kDropDeed, 0, 0}; Do(dr); } objects(); }
  }
};
std::string Text(const Op& op) { std::ostringstream o; o << " [" << kName[op.kind] << " "; if (op.kind == kNewDeed || op.kind == kMoveObject || op.kind == kAssignObject || op.kind == kCopyObject || op.kind == kCopyAssignObject || op.kind == kSwapObjects || op.kind >= kMoveDeed) { if (op.kind == kReturn) o << op.a; else o << op.b << " into " << op.a; } else o << op.a; o << "]"; return o.str(); }
template <class D> void Run(Explorer& ex, const std::vector<Op>& h) {
  for (int pass = 0; pass < 2; ++pass) {
    World<D> w; std::string t;
    for (const Op& op : h) { t += Text(op); w.Do(op); }
    w.Check(ex, t);
    ex.State(mc::HashStr(w.m.Key()));
    w.Finish(ex, t, pass != 0);
  }
}
// All histories of a given depth from every model state reachable within `reach`
// operations (each reached by one shortest history).
template <class D> void Explore(Explorer& ex, const char* name, size_t reach, size_t depth) {
  ex.Section(name);
  if (!ex.Active()) return;
  std::vector<Op> ops = AllOps();
  struct Node { Model m; std::vector<Op> h; };
  std::vector<Node> q; std::set<std::string> seen;
  { World<D> w; q.push_back({w.m, {}}); seen.insert(w.m.Key()); }
  for (size_t i = 0; i < q.size(); ++i) {
    std::vector<Op> h = q[i].h; Model m = q[i].m;
    ex.Case([h] { std::string s = "history:"; for (auto& o : h) s += Text(o); return s + " and every continuation"; }, [&ex, &ops, h, m, depth] {
      std::function<void(std::vector<Op>&, const Model&, size_t)> go = [&](std::vector<Op>& g, const Model& mm, size_t d) {
        Run<D>(ex, g);
        if (d == 0) return;
        for (auto& op : ops) if (Legal(mm, op)) { Model n = mm; Apply(n, op); g.push_back(op); go(g, n, d - 1); g.pop_back(); }
      };
      std::vector<Op> g = h; go(g, m, depth);
    });
    if (h.size() >= reach) continue;
    for (auto& op : ops) if (Legal(m, op)) {
      Model n = m; Apply(n, op);
      if (!seen.insert(n.Key()).second) continue;
      std::vector<Op> g = h; g.push_back(op); q.push_back({n, g});
    }
  }
}
}  // namespace
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  Explore<walnut::Deed<Obj>>(ex, "deed", th ? 6 : 5, 2);
  Explore<walnut::GenericDeed>(ex, "generic_deed", th ? 6 : 5, th ? 2 : 1);
  // Vectors of objects and of deeds growing, shrinking, sorting.
  ex.Section("containers");
  for (int first = 0; first < 12; ++first) for (int second = 0; second < 12; ++second) ex.Case([first, second] { std::ostringstream o; o << "containers, operations " << first << "," << second << ",..."; return o.str(); }, [&ex, th, first, second] {
    const int depth = th ? 5 : 4;
    std::vector<int> h = {first, second};
    std::function<void()> go = [&] {
      {
        std::vector<Obj> v; std::vector<walnut::Deed<Obj>> d; std::vector<int> mv, md; std::string w;
        for (int i = 0; i < 3; ++i) { v.emplace_back(i); mv.push_back(i); }
        for (auto& o : v) { d.emplace_back(&o); md.push_back(o.value); }
        int next = 3;
        auto drop = [&](int val) { auto it = std::find(md.begin(), md.end(), val); if (it != md.end()) *it = -1; };
        for (int op : h) {
          w += " " + std::to_string(op);
          if (op == 0) { v.emplace_back(next); mv.push_back(next); ++next; d.emplace_back(&v.back()); md.push_back(mv.back()); }
          if (op == 1) { v.reserve(v.capacity() + 1); }
          if (op == 2) { d.reserve(d.capacity() + 1); }
          if (op == 3) { std::sort(v.begin(), v.end(), [](const Obj& a, const Obj& b) { return a.value > b.value; }); std::sort(mv.rbegin(), mv.rend()); }
          if (op == 4) { std::rotate(v.begin(), v.begin() + v.size() / 2, v.end()); std::rotate(mv.begin(), mv.begin() + mv.size() / 2, mv.end()); }
          if (op == 5) { std::reverse(d.begin(), d.end()); std::reverse(md.begin(), md.end()); }
          if (op == 6 && !d.empty()) { std::rotate(d.begin(), d.begin() + 1, d.end()); std::rotate(md.begin(), md.begin() + 1, md.end()); }
          if (op == 7 && !v.empty()) { int val = mv.back(); v.pop_back(); mv.pop_back(); drop(val); }
          if (op == 8 && !d.empty()) { d.pop_back(); md.pop_back(); }
          if (op == 9 && v.size() > 1) { int val = mv[0]; v.erase(v.begin()); mv.erase(mv.begin()); drop(val); (void)val; }
          if (op == 10) { v.insert(v.begin(), Obj(next)); mv.insert(mv.begin(), next); ++next; }
          if (op == 11) { std::sort(d.begin(), d.end(), [](const walnut::Deed<Obj>& a, const walnut::Deed<Obj>& b) { int x = a.empty() ? -1 : a->value, y = b.empty() ? -1 : b->value; return x < y; }); std::sort(md.begin(), md.end()); }
          ex.Op();
          MC_CHECK(v.size() == mv.size() && d.size() == md.size());
          for (size_t i = 0; i < v.size(); ++i) MC_CHECK(v[i].value == mv[i]) << "object " << i << " after" << w;
          for (size_t i = 0; i < d.size(); ++i) {
            if (md[i] < 0) { MC_CHECK(d[i].empty()) << "deed " << i << " of a destroyed object is not empty after" << w; continue; }
            MC_CHECK(!d[i].empty()) << "deed " << i << " lost its object after" << w;
            size_t at = std::find(mv.begin(), mv.end(), md[i]) - mv.begin();
            MC_CHECK(d[i].get() == &v[at] && d[i]->value == md[i]) << "deed " << i << " refers to another object after" << w;
          }
          ex.State(mc::HashAdd(mc::HashAdd(v.size(), d.size()), mc::HashStr(std::string(md.begin(), md.end()) + "/" + std::string(mv.begin(), mv.end()))));
        }
        // Deeds go home before the objects do.
        d.clear();
        for (auto& o : v) { walnut::Deed<Obj> f(&o); MC_CHECK(f.get() == &o && !f.is_lender()); }
      }
      if (int(h.size()) >= depth) return;
      for (int op = 0; op < 12; ++op) { h.push_back(op); go(); h.pop_back(); }
    };
    go();
  });
}
