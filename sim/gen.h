// Seeded generation of scenarios for a property, and of faults once a fault-free execution has been measured.
#pragma once
#include "runner.h"
bool known_property(const std::string&);
Scenario generate(const std::string& property, uint64_t seed, bool thorough);
void place_faults(Scenario&, const Result& dry, uint64_t seed);
