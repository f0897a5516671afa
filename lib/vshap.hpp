// The raw generator and the seed sequence become counters: every number produced is unique, so that oracles can tell them apart.
#pragma once
#include "common/GGlobalDefines.hpp"
#include <random>
#include <vector>
namespace vsh { inline unsigned long produced, nseeds; inline std::vector<unsigned long> used; } // numbers and seeds produced so far, seeds of the generators constructed
template <> inline std::mt19937::result_type std::mt19937::operator()() { return ++vsh::produced; }
template <> inline void std::mt19937::seed(std::mt19937::result_type s) { vsh::used.push_back(s); }
template <> inline void std::seed_seq::generate<std::vector<unsigned long>::iterator>(std::vector<unsigned long>::iterator b, std::vector<unsigned long>::iterator e) { for (; b != e; ++b) *b = ++vsh::nseeds; }
