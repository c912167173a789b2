#include "hooks.h"
namespace slinky {
bool verify_skip(const char* site) {
  if (!strcmp(site, "learn_min_max")) {
    ++vf_hit_learn_min_max;
    return vf_skip_learn_min_max;
  }
  return false;
}
}  // namespace slinky
