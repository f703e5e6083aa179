// The traceless types in the build with reference counting and without the memory pool.
#include "gen.hpp"
#define CHECK traceless_check
#define pinned_cases traceless_pinned
#define run_case traceless_case
#include "C23.cpp"
#undef CHECK
#undef pinned_cases
#undef run_case
#ifndef USE_ADTL_REFCOUNTING
#error "build with ENABLE_TRACELESS_REFCOUNTING"
#endif
const CheckInfo CHECK{"C29",
  "a case is one of the histories of the traceless types (programs with first-order, higher-order and index-domain types, special points, operator histories) in the library built with ENABLE_TRACELESS_REFCOUNTING=ON and ENABLE_BOOST_POOL=OFF; "
  "oracle: exact truncated power series arithmetic, structural dependencies, and the number of live variables reported by the counters, which must return to its value before the case and follow the construction, copying and destruction of variables; "
  "non-trivial: as for the default build (a program with at least 2 nonlinear operations and a nonzero derivative compared, or a special point, or an operator history with at least 4 comparisons)",
  40000, 1000000, 25, 600, {"of the build options, traceless reference counting and the missing memory pool are built here; thread sanitizer and listing-with-values builds are used by C26 and C28; activity tracking does not compile"}};
std::vector<Pinned> pinned_cases() { return {}; }
namespace {
template <class T, class RC> void counts(Gen &g, Case &c, const char *nm) {
  size_t base = RC::getNumLiveVar();
  auto is = [&](size_t k, const char *what) { c.check(RC::getNumLiveVar() == base + k, cat("live-variables-", nm), cat(nm, ": ", RC::getNumLiveVar() - base, " variables counted instead of ", k, " after ", what)); };
  {
    std::vector<std::unique_ptr<T>> v;
    for (int s = 0; s < g.range(2, 30); ++s) {
      int k = g.pick({2, 2, 2, 2, 2, 2, 1});
      if (v.empty()) k = 0;
      size_t a = v.empty() ? 0 : g.below(v.size()), b = v.empty() ? 0 : g.below(v.size());
      switch (k) {
      case 0: v.emplace_back(new T(g.real(-1, 1))); break;
      case 1: v.emplace_back(new T); *v.back() = 0.5; break;
      case 2: v.emplace_back(new T(*v[a])); break;
      case 3: *v[a] = *v[b]; break;
      case 4: *v[a] = sin(*v[b]) * *v[a] + 1.0; break;
      case 5: std::swap(v[a], v.back()); v.pop_back(); break;
      default: { std::vector<T> w(3, *v[a]); w.push_back(*v[b]); is(v.size() + 4, "filling a vector"); w.erase(w.begin()); is(v.size() + 3, "erasing an element"); }
      }
      is(v.size(), "a statement");
    }
  }
  is(0, "the end of all variables");
}
} // namespace
void run_case(Case &c) {
  Gen &g = c.g;
  size_t a = adtl::refcounter::getNumLiveVar(), b = adtl_hov::refcounter::getNumLiveVar();
  if (g.chance(1, 12)) {
    bool hov = g.coin();
    c.desc << "construction and destruction of " << (hov ? "adtl_hov" : "adtl") << " variables";
    if (hov) counts<adtl_hov::adouble, adtl_hov::refcounter>(g, c, "adtl_hov"); else counts<adtl::adouble, adtl::refcounter>(g, c, "adtl");
    c.label("live variables"); c.interesting();
  } else traceless_case(c);
  c.check(adtl::refcounter::getNumLiveVar() == a, "live-variables-adtl", cat("adtl: ", adtl::refcounter::getNumLiveVar(), " variables counted after the case, ", a, " before"));
  c.check(adtl_hov::refcounter::getNumLiveVar() == b, "live-variables-adtl_hov", cat("adtl_hov: ", adtl_hov::refcounter::getNumLiveVar(), " variables counted after the case, ", b, " before"));
}
