// Entropy seam: the library's only source of randomness is std::random_device. The definition here
// takes precedence over the one of the shared C++ library, so that the explorer owns the values.
#include <random>

#include "mc.hh"

namespace mc {
static uint32_t counter = 0;
void ResetEntropy() { counter = 0; }
uint32_t NextEntropy() {
  if (entropy) return entropy();
  uint32_t x = ++counter;   // mixed by a bijection, so that no value occurs twice
  x *= 0x9e3779b1u; x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13; x *= 0xc2b2ae35u; x ^= x >> 16;
  return x;
}
}  // namespace mc

std::random_device::result_type std::random_device::_M_getval() { return mc::NextEntropy(); }
