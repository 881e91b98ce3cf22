// Explorer: stateless depth-first search over choice points, deviation-bounded, run on a pool of forked workers.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "env.h"

namespace mc {
// Choice points. pick: every alternative explored (free). dev: alternative 0 is the default; others cost one deviation.
int pick(int n, const char *label);
int dev(int n, const char *label);
bool devLeft();                               // another deviation may still be taken in this execution
void violate(const std::string &msg);         // records a violation of the current check (execution continues)
void countEval(uint64_t n, uint64_t states);  // bulk enumeration inside one item
void outcome(const std::string &s);           // observable outcome label, for the distinct-outcome count
void scenarioNote(const std::string &s);      // shown in samples and replays
void addState(uint64_t h);
bool thorough();
inline int tierSel(int quick, int thoro) { return thorough() ? thoro : quick; }
bool replaying();
int executionPass();                          // which run of the same prefix this is (leak measurement), 0 first
void requestRerun();                          // run the same prefix again in this process (leak measurement)

struct Phase {
    std::string name;
    std::function<void()> body;
    int boundQuick, boundThorough;            // deviation bound; -1: phase not run in that tier
    std::string bounds;                       // human readable description of the explored space
};
struct Check { std::string id; std::vector<Phase> phases; };
std::vector<Check> &registry();
struct Reg { Reg(const char *id, std::vector<Phase> ph) { registry().push_back({id, std::move(ph)}); } };

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
uint64_t hstr(const std::string &s);
extern const char *gScratch;                  // scratch directory of this process (created by the runner)
}  // namespace mc
