#pragma once
#include <cstdint>
#include <vector>
namespace shim {
struct Acc { uintptr_t lo, hi; int kind; };            // kind: bit 0 written, bit 1 under a lock
typedef std::vector<std::vector<Acc>> Region;          // per thread
extern std::vector<Region> regions;
extern int want_threads, order;
extern uint64_t seed;
extern unsigned switch_every;
extern bool record;
void compact(std::vector<Acc> &);
}
