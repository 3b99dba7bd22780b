#pragma once
#include <stdint.h>

#include <string>
namespace model {
// The text a date/time entry stands for at an instant of the simulated clock
// (the name itself when it is not a known entry).
std::string macroValue(const std::string& name, int64_t clockNs);
// A whole civil day is skipped or repeated around this instant (a zone that crosses the date line).
bool zoneSkipsDay(int64_t clockNs);
}  // namespace model
