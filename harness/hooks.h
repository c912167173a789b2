// The harness side of the hooks guarded by SLINKY_VERIFY in /repo.
#pragma once
#include <cstring>
namespace slinky {
inline bool vf_skip_learn_min_max = false;   // switch the (known unsound) inference off
inline long vf_hit_learn_min_max = 0;        // how often it was reached
}  // namespace slinky
