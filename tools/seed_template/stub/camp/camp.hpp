// Minimal stand-in for LLNL/camp (the submodule is empty in this sandbox, no network).
// Only what Umpire's host code names is provided.
#ifndef VERIF_CAMP_SHIM_HPP
#define VERIF_CAMP_SHIM_HPP
#include <cstddef>
#include <initializer_list>
#include <utility>
#ifndef CAMP_EXPAND
// Same contract as camp's: evaluate the expression once per pack element, in order.
#define CAMP_EXPAND(...)                                        \
  do {                                                          \
    (void)std::initializer_list<int>{((void)(__VA_ARGS__), 0)...}; \
  } while (false)
#endif
namespace camp {
}
#endif
