// C25: split cost estimates stay within their documented error.
#include <cmath>
#include "mc.h"
#include "walnut/m_log_n_estimator.h"
using mc::Explorer;
typedef unsigned __int128 U;
// The largest distance between log2 and its interpolation between powers of two is 0.0860713...
static const long double kGap = 0.08607134L;
static long double Exact(size_t m, size_t n) { return m ? (long double)m * log2l((long double)n) : 0; }
static void One(Explorer& ex, walnut::MLogNEstimator& e, size_t m, size_t n) {
  size_t got = e.Estimate(m, n);
  long double v = Exact(m, n), tol = 1e-15L * v + 1e-9L;
  MC_CHECK((long double)got <= v + tol) << "Estimate(" << m << ", " << n << ") = " << got << " exceeds " << (double)v;
  MC_CHECK((long double)got > v - kGap * m - 1 - tol) << "Estimate(" << m << ", " << n << ") = " << got << " is too far below " << (double)v;
  if (m / 4 <= n) MC_CHECK(v - got <= 1 + 0.033L * v + tol) << "Estimate(" << m << ", " << n << ") = " << got << " is not within the documented error of " << (double)v;
  if (n && !(n & (n - 1))) MC_CHECK(got == size_t(m * (U)__builtin_ctzll(n))) << "Estimate(" << m << ", " << n << ") = " << got << " is not exact for a power of two";
  size_t fresh = walnut::MLogNEstimator().Estimate(m, n);
  MC_CHECK(fresh == got) << "Estimate(" << m << ", " << n << ") = " << got << " depends on the calls before, a new estimator returns " << fresh;
  ex.Op();
}
void Explore(Explorer& ex) {
  const bool th = ex.thorough;
  // Every count in a block, with every multiplier around the interesting ratios.
  ex.Section("all_small");
  const size_t N = th ? 1 << 14 : 1 << 12;
  for (size_t lo = 0; lo < N; lo += 64)
    ex.Case([lo] { return "counts " + std::to_string(lo) + " to " + std::to_string(lo + 63); }, [&, lo] {
      walnut::MLogNEstimator e;
      for (size_t n = std::max<size_t>(lo, 1); n < lo + 64; ++n) {
        size_t prev = 0;
        for (size_t m = 0; m <= 4 * n; m += (n < 1024 || th) ? 1 : 7) {
          One(ex, e, m, n);
          size_t k = e.Estimate(m, n);
          MC_CHECK(k >= prev) << "Estimate(" << m << ", " << n << ") = " << k << " decreases from " << prev << " when m grows";
          prev = k;
          if (n > 1) MC_CHECK(walnut::MLogNEstimator().Estimate(m, n - 1) <= k) << "Estimate(" << m << ", " << n << ") = " << k << " decreases when n grows";
        }
        ex.State(n);
      }
    });
  ex.Section("boundaries");
  // Counts around every power of two and the middles between them.
  for (int b = 0; b < 63; ++b)
    ex.Case([b] { return "counts around 2^" + std::to_string(b); }, [&, b] {
      std::vector<size_t> ns;
      for (size_t base : {size_t(1) << b, (size_t(1) << b) + (size_t(1) << b) / 2, (size_t(1) << b) + size_t((size_t(1) << b) * 0.4427)})
        for (int d = -3; d <= 3; ++d) if (d >= 0 || base > size_t(-d)) ns.push_back(base + d);
      std::sort(ns.begin(), ns.end());
      walnut::MLogNEstimator e;
      for (int mb = 0; mb < 58; ++mb) for (int d = -2; d <= 2; ++d) {
        size_t m = (size_t(1) << mb) + d;
        if (int64_t(m) < 0) continue;
        size_t prev = 0;
        for (size_t n : ns) {
          One(ex, e, m, n);
          size_t k = e.Estimate(m, n);
          MC_CHECK(k >= prev) << "Estimate(" << m << ", " << n << ") = " << k << " decreases when n grows";
          prev = k;
        }
      }
      ex.State(100000 + b);
    });
  // Histories of calls to one estimator (it caches the size of the last count).
  ex.Section("histories");
  std::vector<size_t> menu = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 33, 1000, 1024, 4095, 4096, 65535, 65536, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 52) + 5, size_t(1) << 60};
  for (size_t a = 0; a < menu.size(); ++a)
    ex.Case([&, a] { return "histories starting with " + std::to_string(menu[a]); }, [&, a] {
      for (size_t b : menu) for (size_t c : menu) for (size_t d : menu) {
        walnut::MLogNEstimator e;
        for (size_t n : {menu[a], b, c, d}) One(ex, e, n < 1000 ? n * 3 : 12345, n);
        ex.State(mc::HashAdd(mc::HashAdd(mc::HashAdd(a, b), c), d));
      }
      // Counting up and down as the sweep does.
      walnut::MLogNEstimator e;
      for (int dir = 0; dir < 2; ++dir) for (size_t k = 0; k < 300; ++k) { size_t n = dir ? menu[a] + 300 - k : menu[a] + k; One(ex, e, 100, n); }
    });
  ex.Section("split_cost");
  const size_t S = th ? 160 : 48;
  for (size_t n = 0; n <= S; ++n)
    ex.Case([n] { return "splits with " + std::to_string(n) + " polygons on the negative side"; }, [&, n] {
      for (size_t p = 0; p <= S; ++p) for (size_t x = 0; x <= n; ++x) for (size_t y = 0; y <= p; ++y) {
        size_t got = walnut::GetSplitCost(n, x, p, y);
        long double v = Exact(n, n - x + 1) + Exact(p, p - y + 1);
        MC_CHECK(got <= v + 1e-6L && got > v - kGap * (n + p) - 2 - 1e-6L) << "GetSplitCost(" << n << ", " << x << ", " << p << ", " << y << ") = " << got << " but the cost is " << (double)v;
        bool documented = n <= 4 * (n - x + 1) && p <= 4 * (p - y + 1);
        if (documented) MC_CHECK(v - got <= 2 + 0.033L * v + 1e-6L) << "GetSplitCost(" << n << ", " << x << ", " << p << ", " << y << ") = " << got << " is not within the error of two estimates of " << (double)v;
        MC_CHECK(got == walnut::GetSplitCost(p, y, n, x)) << "GetSplitCost(" << n << ", " << x << ", " << p << ", " << y << ") depends on the side";
        if (n > x) MC_CHECK(got >= walnut::GetSplitCost(n - 1, x, p, y)) << "GetSplitCost(" << n << ", " << x << ", " << p << ", " << y << ") is less than with a polygon less";
        if (x) MC_CHECK(got <= walnut::GetSplitCost(n, x - 1, p, y)) << "GetSplitCost(" << n << ", " << x << ", " << p << ", " << y << ") is more than with fewer excluded polygons";
        ex.Op();
      }
      ex.State(200000 + n);
    });
}
