#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sim {
struct SynthData {
  std::string main, plain, assoc;
  std::vector<std::string> hot;   // readings worth typing
};
SynthData synthesize(uint64_t seed, const std::string& main, const std::string& plain, const std::string& assoc);
}  // namespace sim
