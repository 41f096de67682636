// C28: without the compiler's 128 bit integers and overflow builtins every
// exact operation and estimate gives the same results. The build uses copies
// of the sources in which the names of those extensions are unknown; the
// explorations of C01, C02 and C25 run on that configuration.
#include <cmath>
#include "big.h"
#include "words.h"
#include "walnut/m_log_n_estimator.h"
namespace plus { 
#include "c01_bigint.cpp"
}
namespace division {
#include "c02_divide.cpp"
}
namespace cost {
#include "c25_cost.cpp"
}
void Explore(mc::Explorer& ex) {
  ex.Section("configuration");
  ex.Case([] { return std::string("the portable code is in use"); }, [&] { 
#ifndef VERIF_PORTABLE
    MC_FAIL() << "the harness was built with the compiler's extensions";
#endif
    ex.Op(); });
  plus::Explore(ex);
  division::Explore(ex);
  cost::Explore(ex);
}
