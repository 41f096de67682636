// C16: filters equal the set expression they denote and prune soundly.
#include "solid.h"
using namespace solid;
using mc::Explorer;
namespace {
const int kVals = 5;  // pwn -2..2
struct Ex {
  std::string name;
  std::function<AnyFilter()> f;
  std::function<int(const int*)> v;  // truth for pwn per id 0..3
};
Ex Leaf(int kind, BSPContentId id) {
  static const char* n[3] = {"Pos", "Neg", "Odd"};
  Ex e; e.name = n[kind] + std::to_string(id);
  e.f = [=] { return kind == 0 ? Pos(id) : kind == 1 ? Neg(id) : Odd(id); };
  e.v = [=](const int* w) { return int(kind == 0 ? w[id] >= 1 : kind == 1 ? w[id] >= 0 : w[id] % 2 != 0); };
  return e;
}
Ex Bin(int op, const Ex& a, const Ex& b) {
  static const char* n[4] = {"&", "|", "-", "^"};
  Ex e; e.name = "(" + a.name + n[op] + b.name + ")";
  auto fa = a.f, fb = b.f; auto va = a.v, vb = b.v;
  e.f = [=] { return op == 0 ? And(fa(), fb()) : op == 1 ? Or(fa(), fb()) : op == 2 ? Sub(fa(), fb()) : Xor(fa(), fb()); };
  // The subtrahend of a subtraction is an inverted mesh: it is true where the
  // points are kept.
  e.v = [=](const int* w) { int x = va(w), y = vb(w); return op == 0 || op == 2 ? x & y : op == 1 ? x | y : x ^ y; };
  return e;
}
// One content assignment: pwn index 0..4 and polygon flags 0..3 per id.
void Check(Explorer& ex, const Ex& e, AnyFilter& f, const std::vector<unsigned char>& truth, int ids, size_t size, const int* w, const int* has) {
  Infos info(size);
  for (size_t i = 0; i < size; ++i) { info[i].pwn = w[i]; info[i].has_interior_polygons = has[i] & 1 ? 7 : 0; info[i].has_border_polygons = has[i] & 2 ? 2 : 0; }
  std::pair<bool, bool> r = f(info);
  auto at = [&](const int* v) { int k = 0; for (int i = ids - 1; i >= 0; --i) k = k * kVals + (v[i] + 2); return truth[k]; };
  int now[4] = {0, 0, 0, 0}; for (int i = 0; i < ids; ++i) now[i] = size_t(i) < size ? w[i] : 0;
  auto show = [&] { std::ostringstream o; for (size_t i = 0; i < size; ++i) o << " id" << i << ":pwn=" << w[i] << (has[i] & 1 ? ",interior" : "") << (has[i] & 2 ? ",border" : ""); return o.str(); };
  ex.Op();
  MC_CHECK(r.first == bool(at(now))) << e.name << " decides " << r.first << " for" << show();
  bool any = false; for (int i = 0; i < ids && size_t(i) < size; ++i) any |= has[i] != 0;
  if (!any) MC_CHECK(!r.second) << e.name << " expects changes although no mesh has polygons," << show();
  if (!r.second) {
    int v[4];
    std::function<void(int)> go = [&](int i) {
      if (i == ids) { MC_CHECK(at(v) == at(now)) << e.name << " prunes" << show() << " although pwn " << v[0] << "," << v[1] << "," << v[2] << "," << v[3] << " can still occur"; return; }
      if (size_t(i) < size && has[i]) for (int k = -2; k <= 2; ++k) { v[i] = k; go(i + 1); }
      else { v[i] = now[i]; go(i + 1); }
    };
    v[0] = v[1] = v[2] = v[3] = 0;
    go(0);
  }
}
// flags 4: no polygons, interior, border, both; 3: none, interior, border; 2:
// none, or one of the kinds (alternating with the winding number and the id).
void CheckAll(Explorer& ex, const Ex& e, int ids, int lo, int hi, int flags, int salt = 0) {
  std::vector<unsigned char> truth; int n = 1; for (int i = 0; i < ids; ++i) n *= kVals;
  for (int k = 0; k < n; ++k) { int v[4] = {0, 0, 0, 0}; int c = k; for (int i = 0; i < ids; ++i) { v[i] = c % kVals - 2; c /= kVals; } truth.push_back((unsigned char)e.v(v)); }
  AnyFilter f = e.f();
  int per = (hi - lo + 1) * flags;
  for (size_t size = 0; size <= size_t(ids); ++size) {
    int total = 1; for (size_t i = 0; i < size; ++i) total *= per;
    for (int k = 0; k < total; ++k) {
      int w[4], has[4]; int c = k;
      for (size_t i = 0; i < size; ++i) { w[i] = lo + c % per / flags; has[i] = c % per % flags; if (flags == 2 && has[i]) has[i] = 1 + ((w[i] + int(i) + salt) & 1); c /= per; }
      Check(ex, e, f, truth, ids, size, w, has);
    }
  }
  ex.State(mc::HashStr(e.name));
}
}  // namespace
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  std::vector<Ex> leaves;
  for (int id = 0; id < 3; ++id) for (int k = 0; k < 3; ++k) leaves.push_back(Leaf(k, id));
  std::vector<Ex> two;
  for (int op = 0; op < 4; ++op) for (auto& a : leaves) for (auto& b : leaves) two.push_back(Bin(op, a, b));
  ex.Section("single_filters");
  for (size_t i = 0; i < leaves.size(); ++i) ex.Case([&, i] { return leaves[i].name; }, [&, i] { CheckAll(ex, leaves[i], 3, -2, 2, 4); });
  ex.Section("pairs");
  for (size_t i = 0; i < two.size(); ++i) ex.Case([&, i] { return two[i].name; }, [&, i] { CheckAll(ex, two[i], 3, -2, 2, 4); });
  ex.Section("triples");
  for (size_t i = 0; i < two.size(); ++i) for (int op = 0; op < 4; ++op) ex.Case([&, i, op] { return two[i].name + " composed with every filter, operation " + std::to_string(op); }, [&, i, op] {
    for (auto& l : leaves) { CheckAll(ex, Bin(op, two[i], l), 3, -1, 1, th ? 4 : 2, op); CheckAll(ex, Bin(op, l, two[i]), 3, -1, 1, th ? 4 : 2, int(i / 3)); }
  });
  // Both sides composed: identifiers 0 and 1 on the left, any on the right.
  ex.Section("quadruples");
  for (size_t i = 0; i < two.size(); ++i) ex.Case([&, i] { return two[i].name + " composed with every pair of filters"; }, [&, i] {
    for (size_t j = 0; j < two.size(); ++j) { CheckAll(ex, Bin(int(i + j / 3) % 4, two[i], two[j]), 3, th ? -1 : 0, 1, 2, int(i + j)); }
  });
  ex.Section("id_lists");
  std::vector<std::vector<BSPContentId>> lists = {{}};
  for (size_t b = 0, n = 0; n < 4; ++n) { size_t e = lists.size(); for (; b < e; ++b) for (BSPContentId i = 0; i < 4; ++i) { auto l = lists[b]; l.push_back(i); lists.push_back(l); } }
  for (int kind = 0; kind < 3; ++kind) for (size_t i = 0; i < lists.size(); ++i) {
    auto l = lists[i];
    std::string nm = kind == 0 ? "union of ids" : kind == 1 ? "intersection of ids" : "first id minus the others"; for (auto k : l) nm += " " + std::to_string(k);
    ex.Case([nm] { return nm; }, [&, l, nm, kind, i] {
      Ex e; e.name = nm;
      e.v = [=](const int* w) {
        if (kind == 0) { for (auto k : l) if (w[k] > 0) return 1; return 0; }
        if (kind == 1) { for (auto k : l) if (w[k] <= 0) return 0; return 1; }
        if (l.empty() || w[l[0]] <= 0) return 0;
        for (size_t k = 1; k < l.size(); ++k) if (w[l[k]] < 0) return 0;
        return 1;
      };
      for (int set = 0; set < 2; ++set) {
        e.f = [=]() -> AnyFilter {
          if (!set) return kind == 0 ? Any(walnut::UnionIdsFilter(l)) : kind == 1 ? Any(walnut::IntersectIdsFilter(l)) : Any(walnut::SubtractIdsFilter(l));
          if (kind == 0) { walnut::UnionIdsFilter f(std::vector<BSPContentId>{3}); f.SetIds(l); return Any(f); }
          if (kind == 1) { walnut::IntersectIdsFilter f(std::vector<BSPContentId>{3}); f.SetIds(l); return Any(f); }
          walnut::SubtractIdsFilter f(std::vector<BSPContentId>{3}); f.SetIds(l); return Any(f);
        };
        CheckAll(ex, e, 4, -1, 1, set ? 2 : th ? 4 : 3);
      }
    });
  }
  ex.Section("id_lists_composed");
  for (int kind = 0; kind < 3; ++kind) for (size_t i = 0; i < lists.size(); ++i) {
    auto l = lists[i]; if (l.size() > 3) continue;
    bool ok = true; for (auto k : l) ok &= k < 3; if (!ok) continue;
    std::string nm = "list kind " + std::to_string(kind) + " of"; for (auto k : l) nm += " " + std::to_string(k);
    ex.Case([nm] { return nm + " composed with every filter"; }, [&, l, nm, kind] {
      Ex e; e.name = nm;
      e.v = [=](const int* w) {
        if (kind == 0) { for (auto k : l) if (w[k] > 0) return 1; return 0; }
        if (kind == 1) { for (auto k : l) if (w[k] <= 0) return 0; return 1; }
        if (l.empty() || w[l[0]] <= 0) return 0;
        for (size_t k = 1; k < l.size(); ++k) if (w[l[k]] < 0) return 0;
        return 1;
      };
      e.f = [=] { return kind == 0 ? Any(walnut::UnionIdsFilter(l)) : kind == 1 ? Any(walnut::IntersectIdsFilter(l)) : Any(walnut::SubtractIdsFilter(l)); };
      for (auto& b : leaves) for (int op = 0; op < 4; ++op) { CheckAll(ex, Bin(op, e, b), 3, -1, 1, 2, op); CheckAll(ex, Bin(op, b, e), 3, -1, 1, 2, op + int(i)); }
    });
  }
  // Long lists and large ids: every length up to 140, every id of the list
  // being the one that differs from the others.
  ex.Section("long_id_lists");
  for (int kind = 0; kind < 3; ++kind) for (size_t n = 1; n <= 140; n += n < 20 || th ? 1 : 7) for (int order = 0; order < 3; ++order)
    ex.Case([=] { return std::string(kind == 0 ? "union" : kind == 1 ? "intersection" : "difference") + " of " + std::to_string(n) + " ids, order " + std::to_string(order); }, [&, kind, n, order] {
      std::vector<BSPContentId> l;
      for (size_t i = 0; i < n; ++i) l.push_back(order == 0 ? i : order == 1 ? n - 1 - i : (i * 37 + 11) % 149);
      AnyFilter f = kind == 0 ? Any(walnut::UnionIdsFilter(l)) : kind == 1 ? Any(walnut::IntersectIdsFilter(l)) : Any(walnut::SubtractIdsFilter(l));
      const size_t size = order == 2 ? 149 : n;
      auto value = [&](const Infos& w) {
        for (size_t k = 0; k < n; ++k) {
          int p = w[l[k]].pwn;
          if (kind == 0) { if (p > 0) return true; }
          else if (kind == 1 || k == 0) { if (p <= 0) return false; }
          else if (p < 0) return false;
        }
        return kind != 0;
      };
      for (int base = -1; base <= 1; ++base) for (int odd = -1; odd <= 1; ++odd) for (int flags = 0; flags < 4; ++flags) for (size_t at = 0; at < size; ++at) for (int all = 0; all < 2; ++all) {
        Infos info(size);
        for (size_t i = 0; i < size; ++i) { info[i].pwn = base; if (all && i != at) info[i].has_interior_polygons = 3; }
        if (kind == 2) info[l[0]].pwn = 1;
        info[at].pwn = odd; info[at].has_interior_polygons = flags & 1; info[at].has_border_polygons = flags & 2;
        auto r = f(info);
        ex.Op();
        MC_CHECK(r.first == value(info)) << "id " << at << " has winding number " << odd << ", the others " << base << ": the filter says " << r.first;
        // Can the value change when the winding numbers of ids with polygons do?
        // It is monotone in each of them, so the extremes decide.
        Infos low(info), high(info);
        for (size_t i = 0; i < size; ++i) if (info[i].has_interior_polygons || info[i].has_border_polygons) { low[i].pwn = -2; high[i].pwn = 2; }
        const bool changes = value(low) != value(info) || value(high) != value(info);
        MC_CHECK(r.second || !changes) << "id " << at << " has winding number " << odd << ", the others " << base << ": pruned although the value can change";
        bool any = flags || (all && size > 1);
        if (!any) MC_CHECK(!r.second) << "changes are expected although no mesh has polygons";
      }
      ex.State(kind * 1000 + n * 3 + order);
    });
  // A visitor answers exactly as its filter.
  ex.Section("visitors");
  for (size_t i = 0; i < two.size(); ++i) ex.Case([&, i] { return "visitors of " + two[i].name; }, [&, i] {
    AnyFilter f = two[i].f();
    walnut::CollectorVisitor<Tree::OutputPolygon, AnyFilter> a(f);
    auto log = [](const std::string&) {};
    walnut::ConnectingVisitor<AnyFilter> b(f, log);
    for (int k = 0; k < 1000; ++k) {
      Infos info(3); int c = k; for (int j = 0; j < 3; ++j) { info[j].pwn = c % 10 / 2 - 2; info[j].has_border_polygons = c % 2; c /= 10; }
      auto r = f(info); ex.Op(2);
      MC_CHECK(a.IsInside(info) == r) << two[i].name << ": the collecting visitor disagrees with its filter";
      MC_CHECK(b.IsInside(info) == r) << two[i].name << ": the connecting visitor disagrees with its filter";
    }
  });
}
