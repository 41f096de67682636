// C21: sequence adapters behave like the sequence they denote.
#include <deque>
#include <list>
#include "solid.h"
#include "walnut/concat_range.h"
#include "walnut/convex_polygon_vertex_iterator.h"
#include "walnut/transform_iterator.h"
using mc::Explorer;
namespace {
template <class C> std::string Show(const C& c) { std::ostringstream o; for (auto& x : c) o << x << " "; return o.str(); }
template <class I> struct RandomAccess { static const bool value = std::is_same<typename std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag>::value; };
typedef std::vector<int> Seq;
// Everything a reader can do with a concatenation, against the plain sequence.
template <class R>
void CheckOffsets(Explorer& ex, R& r, const Seq& m, const std::string& what, std::true_type) {
  const R& c = r;
  auto it = c.begin();
  for (size_t i = 0; i <= m.size(); ++i) {
    for (size_t k = 0; i + k <= m.size(); ++k) {
      auto j = it + k; ex.Op();
      if (i + k < m.size()) {
        MC_CHECK(*j == m[i + k]) << what << ": element " << i << " + " << k << " is " << *j << " instead of " << m[i + k];
        MC_CHECK(it[k] == m[i + k]) << what << ": subscript " << k << " at element " << i << " is " << it[k] << " instead of " << m[i + k];
        int steps = 0; auto s = it; while (s != j) { ++s; ++steps; }
        MC_CHECK(size_t(steps) == k) << what << ": offset " << k << " is " << steps << " steps away";
      } else MC_CHECK(j == c.end()) << what << ": element " << i << " + " << k << " is not the end";
      auto n = (r.begin() + i) + k;
      MC_CHECK(n == j) << what << ": the mutable iterator is elsewhere than the const one";
    }
    if (i < m.size()) ++it;
  }
}
template <class R> void CheckOffsets(Explorer&, R&, const Seq&, const std::string&, std::false_type) {}
template <class R, class RA>
void CheckRange(Explorer& ex, R& r, const Seq& m, const std::string& what, RA ra) {
  const R& c = r;
  Seq got(c.begin(), c.end());
  MC_CHECK(got == m) << what << ": iterates " << Show(got) << "instead of " << Show(m);
  got.assign(r.begin(), r.end()); MC_CHECK(got == m) << what << ": mutable iteration differs";
  got.clear(); for (auto i = c.begin(); i != c.end();) got.push_back(*i++);
  MC_CHECK(got == m) << what << ": postfix iteration gives " << Show(got);
  Seq rev(m.rbegin(), m.rend());
  got.assign(c.rbegin(), c.rend()); MC_CHECK(got == rev) << what << ": reverse iteration gives " << Show(got) << "instead of " << Show(rev);
  got.assign(r.rbegin(), r.rend()); MC_CHECK(got == rev) << what << ": mutable reverse iteration gives " << Show(got);
  got.clear(); for (auto i = c.end(); i != c.begin();) { --i; got.push_back(*i.operator->()); }
  MC_CHECK(got == rev) << what << ": backward iteration gives " << Show(got) << "instead of " << Show(rev);
  got.clear(); for (auto i = r.end(); i != r.begin();) { auto old = i--; MC_CHECK(old != i) << what << ": decrement does nothing"; got.push_back(*i); }
  MC_CHECK(got == rev) << what << ": postfix backward iteration gives " << Show(got);
  MC_CHECK(size_t(std::distance(c.begin(), c.end())) == m.size()) << what << ": wrong distance";
  MC_CHECK((c.begin() == c.end()) == m.empty()) << what << ": emptiness is wrong";
  // All positions: pairwise equality, turning around.
  typedef typename R::const_iterator CI;
  std::vector<CI> pos; { CI i = c.begin(); pos.push_back(i); for (size_t k = 0; k < m.size(); ++k) { ++i; pos.push_back(i); } }
  CI e = r.end(); MC_CHECK(pos.back() == e && e == c.cend()) << what << ": stepping does not reach the end";
  typename R::iterator mi = r.begin();
  for (size_t i = 0; i < pos.size(); ++i) {
    for (size_t j = 0; j < pos.size(); ++j) { MC_CHECK((pos[i] == pos[j]) == (i == j) && (pos[i] != pos[j]) == (i != j)) << what << ": positions " << i << " and " << j << " compare wrong"; ex.Op(); }
    MC_CHECK(CI(mi) == pos[i] && mi == pos[i] && pos[i] == mi) << what << ": a converted iterator is elsewhere";
    if (i + 1 < pos.size()) { CI t = pos[i]; ++t; --t; MC_CHECK(t == pos[i]) << what << ": forth and back does not return at " << i; ++mi; }
    if (i) { CI t = pos[i]; --t; MC_CHECK(t == pos[i - 1] && *t == m[i - 1]) << what << ": decrement at " << i; ++t; MC_CHECK(t == pos[i]) << what << ": back and forth does not return at " << i; }
  }
  CheckOffsets(ex, r, m, what, ra);
}
template <class Container> Container Make(int first, int n) { Container c; for (int i = 0; i < n; ++i) c.push_back(first + i); return c; }
// Histories of Append/Prepend/Clear.
template <class Container, class Iter>
void Histories(Explorer& ex, const char* name, size_t depth) {
  typedef walnut::ConcatRange<Iter> R;
  typedef std::integral_constant<bool, RandomAccess<Iter>::value> RA;
  const int kOps = 12;
  ex.Section(name);
  for (int first = 0; first < kOps; ++first) for (int second = 0; second < kOps; ++second) ex.Case([name, first, second] { std::ostringstream o; o << name << ", histories starting with " << first << "," << second; return o.str(); }, [&ex, first, second, depth] {
    Container base[3] = {Make<Container>(10, 1), Make<Container>(20, 2), Make<Container>(30, 3)};
    // A concatenation to take ranges from: 20 21 | 10 | 30 31 32.
    R other; Seq om;
    other.Append(base[1].begin(), base[1].end()); other.Append(base[0].begin(), base[0].end()); other.Append(base[2].begin(), base[2].end());
    om = {20, 21, 10, 30, 31, 32};
    auto at = [&](size_t k) { typename R::const_iterator i = static_cast<const R&>(other).begin(); while (k--) ++i; return i; };
    std::vector<int> h = {first, second};
    std::function<void(R, Seq, std::string)> go; std::vector<std::string> n;
    auto apply = [&](int op, R& r, Seq& m, std::string& w) {
      auto range = [&](int which, Seq& s) -> std::pair<Iter, Iter> {
        Iter b = base[which].begin(), e = base[which].end(); int v = 10 * (which + 1); s.clear();
        int cnt = which + 1;
        for (int i = 0; i < cnt; ++i) s.push_back(v + i);
        return {b, e};
      };
      Seq s;
      if (op < 3) { auto p = range(op, s); r.Append(p.first, p.second); m.insert(m.end(), s.begin(), s.end()); w += " append" + std::to_string(op); }
      else if (op < 5) { auto p = range(op == 3 ? 0 : 2, s); r.Prepend(p.first, p.second); m.insert(m.begin(), s.begin(), s.end()); w += " prepend" + std::to_string(op); }
      else if (op == 5) { r.Append(base[1].end(), base[1].end()); r.Prepend(base[0].begin(), base[0].begin()); w += " empty"; }
      else if (op == 6) { r.Clear(); m.clear(); w += " clear"; }
      else {
        static const int cut[5][2] = {{0, 6}, {1, 4}, {2, 3}, {1, 5}, {4, 4}};
        const int* k = cut[op - 7]; s.assign(om.begin() + k[0], om.begin() + k[1]);
        bool pre = (op + int(m.size())) % 2;
        if (pre) { r.Prepend(at(k[0]), at(k[1])); m.insert(m.begin(), s.begin(), s.end()); } else { r.Append(at(k[0]), at(k[1])); m.insert(m.end(), s.begin(), s.end()); }
        w += std::string(pre ? " prepend[" : " append[") + std::to_string(k[0]) + "," + std::to_string(k[1]) + ")";
      }
    };
    go = [&](R r, Seq m, std::string w) {
      CheckRange(ex, r, m, w, RA());
      ex.State(mc::HashStr(Show(m)));
      if (n.size() >= depth) return;
      for (int op = 0; op < kOps; ++op) { R q = r; Seq k = m; std::string x = w; apply(op, q, k, x); n.push_back(x); go(q, k, x); n.pop_back(); }
    };
    R r; Seq m; std::string w = "history";
    CheckRange(ex, r, m, w, RA());
    apply(first, r, m, w); CheckRange(ex, r, m, w, RA());
    apply(second, r, m, w); n = {"", ""};
    go(r, m, w);
  });
}
// A transformer with state: selects one of the fields of an element.
struct Item { int f[3]; };
struct Pick { int k = 0; int& operator()(Item& i) const { return i.f[k]; } };
}  // namespace
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  Histories<std::vector<int>, std::vector<int>::iterator>(ex, "concat_vector", th ? 5 : 4);
  Histories<std::deque<int>, std::deque<int>::iterator>(ex, "concat_deque", th ? 4 : 3);
  Histories<std::list<int>, std::list<int>::iterator>(ex, "concat_list", th ? 4 : 3);
  // Writing through the iterators.
  ex.Section("concat_write");
  ex.Case([] { return std::string("assignment through every kind of iterator"); }, [&] {
    for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int k = 0; k < a + b; ++k) for (int how = 0; how < 4; ++how) {
      std::vector<int> x = Make<std::vector<int>>(1, a), y = Make<std::vector<int>>(100, b);
      walnut::ConcatRange<std::vector<int>::iterator> r; r.Append(x.begin(), x.end()); r.Append(y.begin(), y.end());
      std::string what = "write at " + std::to_string(k) + " of " + std::to_string(a) + "+" + std::to_string(b);
      if (how == 0) *(r.begin() + k) = -7;
      if (how == 1) { auto i = r.begin(); for (int s = 0; s < k; ++s) i++; *i = -7; }
      if (how == 2) { auto i = r.rbegin(); for (int s = 0; s < a + b - 1 - k; ++s) ++i; *i = -7; }
      if (how == 3) r.begin()[k] = -7;
      for (int i = 0; i < a; ++i) MC_CHECK(x[i] == (i == k ? -7 : 1 + i)) << what << ": element " << i << " is " << x[i];
      for (int i = 0; i < b; ++i) MC_CHECK(y[i] == (a + i == k ? -7 : 100 + i)) << what << ": element " << a + i << " is " << y[i];
      ex.Op(); ex.State(mc::HashAdd(mc::HashAdd(a * 4 + b, k), how));
    }
  });
  ex.Section("nested_concat");
  ex.Case([] { return std::string("concatenations of concatenations"); }, [&] {
    typedef walnut::ConcatRange<std::vector<int>::iterator> R; typedef walnut::ConcatRange<R::const_iterator> N;
    for (int a = 0; a <= 2; ++a) for (int b = 0; b <= 2; ++b) for (int c = 0; c <= 2; ++c) {
      std::vector<int> x = Make<std::vector<int>>(1, a), y = Make<std::vector<int>>(10, b), z = Make<std::vector<int>>(20, c);
      R r; r.Append(x.begin(), x.end()); r.Append(y.begin(), y.end()); r.Append(z.begin(), z.end());
      Seq m; for (auto* s : {&x, &y, &z}) m.insert(m.end(), s->begin(), s->end());
      const R& cr = r;
      for (size_t i = 0; i <= m.size(); ++i) for (size_t j = i; j <= m.size(); ++j) for (size_t k = 0; k <= m.size(); ++k) for (int pre = 0; pre < 2; ++pre) {
        auto at = [&](size_t n) { auto q = cr.begin(); while (n--) ++q; return q; };
        N o; o.Append(at(i), at(j)); Seq s(m.begin() + i, m.begin() + j), t(m.begin(), m.begin() + k);
        if (pre) { o.Prepend(at(0), at(k)); s.insert(s.begin(), t.begin(), t.end()); } else { o.Append(at(0), at(k)); s.insert(s.end(), t.begin(), t.end()); }
        std::ostringstream w; w << "lists of " << a << "," << b << "," << c << " range " << i << ".." << j << (pre ? " after" : " before") << " 0.." << k;
        CheckRange(ex, o, s, w.str(), std::true_type());
        ex.State(mc::HashStr(Show(s)));
      }
    }
  });
  ex.Section("transform");
  for (int k = 0; k < 3; ++k) for (int n = 1; n <= 5; ++n) for (int first = 0; first < 14; ++first) ex.Case([k, n, first] { std::ostringstream o; o << "field " << k << " of " << n << " items, movements starting with " << first; return o.str(); }, [&, k, n, first] {
    std::vector<Item> v(n); for (int i = 0; i < n; ++i) for (int f = 0; f < 3; ++f) v[i].f[f] = 100 * f + i;
    typedef walnut::TransformIterator<std::vector<Item>::iterator, Pick> T;
    Pick p; p.k = k;
    const size_t depth = th ? 5 : 4;
    auto check = [&](const T& t, int at, const std::string& w) {
      ex.Op();
      T b(v.begin(), p), e(v.end(), p);
      MC_CHECK(t - b == at && e - t == n - at) << w << ": position " << (t - b) << " instead of " << at;
      MC_CHECK((t == b) == (at == 0) && (t != e) == (at != n) && (t < e) == (at < n) && (t <= b) == (at == 0) && (t > b) == (at > 0) && t >= b) << w << ": comparisons";
      if (at < n) {
        MC_CHECK(*t == 100 * k + at) << w << ": reads " << *t << " instead of " << 100 * k + at;
        MC_CHECK(&*t == &v[at].f[k] && t.operator->() == &v[at].f[k]) << w << ": refers to another object";
      }
      for (int d = -at; at + d < n; ++d) MC_CHECK(t[d] == 100 * k + at + d) << w << ": subscript " << d << " reads " << t[d];
    };
    std::function<void(const T&, int, size_t, const std::string&)> go = [&](const T& t, int at, size_t d, const std::string& w) {
      check(t, at, w); ex.State(mc::HashAdd(k * 8 + n, at));
      if (d == depth) return;
      for (int op = d ? 0 : first; op < (d ? 14 : first + 1); ++op) {
        T q = t; std::string x = w + " op" + std::to_string(op);
        if (op == 0 && at < n) { T r = ++q; check(r, at + 1, x); go(q, at + 1, d + 1, x); }
        if (op == 1 && at > 0) { T r = --q; check(r, at - 1, x); go(q, at - 1, d + 1, x); }
        if (op == 2 && at < n) { T r = q++; check(r, at, x); go(q, at + 1, d + 1, x); go(r, at, d + 1, x); }
        if (op == 3 && at > 0) { T r = q--; check(r, at, x); go(q, at - 1, d + 1, x); go(r, at, d + 1, x); }
        if (op >= 4 && op < 6) { int s = op - 3; if (at + s <= n) { T r = q + s; check(q, at, x); go(r, at + s, d + 1, x); } }
        if (op >= 6 && op < 8) { int s = op - 5; if (at - s >= 0) { T r = q - s; check(q, at, x); go(r, at - s, d + 1, x); } }
        if (op >= 8 && op < 10) { int s = op - 7; if (at + s <= n) { q += s; go(q, at + s, d + 1, x); } }
        if (op >= 10 && op < 12) { int s = op - 9; if (at - s >= 0) { q -= s; go(q, at - s, d + 1, x); } }
        if (op == 12) { T r; r = q; go(r, at, d + 1, x); }
        if (op == 13) { T r(std::move(q)); go(r, at, d + 1, x); }
      }
    };
    T b(v.begin(), p); go(b, 0, 0, "from the beginning:");
    T e(v.end(), p); go(e, n, 0, "from the end:");
  });
  ex.Section("vertex_iterator");
  ex.Case([] { return std::string("vertices of polygons"); }, [&] {
    for (int n = 3; n <= 6; ++n) for (int rot = 0; rot < n; ++rot) {
      static const int px[6][6][2] = {{}, {}, {}, {{0, 0}, {2, 0}, {0, 2}}, {{0, 0}, {2, 0}, {2, 2}, {0, 2}}, {{0, 0}, {2, 0}, {3, 1}, {2, 2}, {0, 2}}};
      static const int hex[6][2] = {{1, 0}, {2, 0}, {3, 1}, {2, 2}, {1, 2}, {0, 1}};
      solid::Face f; for (int i = 0; i < n; ++i) { const int* q = n == 6 ? hex[i] : px[n][i]; f.push_back({q[0], q[1], 1}); }
      solid::Rep rep; rep.rotate = rot; rep.weight = rot & 1 ? -3 : 1;
      walnut::MutableConvexPolygon<> p = solid::MakePoly(f, rep);
      const walnut::MutableConvexPolygon<>& c = p;
      typedef walnut::ConvexPolygonVertexIterator<decltype(c.edges().begin())> It;
      It b(c.edges().begin()), e(c.edges().end());
      MC_CHECK(e - b == n) << "vertex iterator distance";
      for (int i = 0; i < n; ++i) { MC_CHECK(&b[i] == &c.vertex(i)) << "vertex iterator subscript"; auto j = b; j += i; MC_CHECK(&*j == &c.vertex(i)) << "vertex iterator"; ex.Op(); }
      size_t i = 0; for (auto j = b; j != e; ++j) MC_CHECK(&*j == &c.vertex(i++)) << "vertex iteration";
      ex.State(n * 8 + rot);
    }
  });
}
