// Running one scenario as one simulated process, and the shape of a check.
#pragma once
#include "scenario.h"
#include <functional>
#include <set>

namespace vp {

struct Leg {
    std::string name;     // "base", "sched", ...
    char        flavor = 'F';
    Scenario    s;
};

// One generated test case: everything the legs are derived from.
struct Case {
    std::string           property;
    uint64_t              seed = 0;
    std::vector<Scenario> s;       // base scenarios
    std::map<std::string, double> par;
};
std::string to_text(const Case&);
bool        from_text(const std::string&, Case*);

struct Tally {
    uint64_t cases = 0, legs = 0, skipped = 0, nontrivial = 0;
    double   sim_seconds = 0;
    uint64_t work = 0, decisions = 0, preemptions = 0, regions = 0, par_regions = 0, accesses = 0, states = 0;
    std::map<std::string, uint64_t> faults;
    std::map<std::string, uint64_t> notes;
    std::set<uint64_t> schedules, outcomes;
    std::vector<std::string> samples;
};

// Context handed to a property's check: runs legs and collects statistics.
struct Ctx {
    std::string self;          // path of this executable
    std::string scratch;       // directory for the simulated processes
    Tally*      tally = nullptr;
    bool        thorough = false;
    uint64_t    hash = 1469598103934665603ull;   // of all records of the case
    int         legno = 0;
    std::vector<std::pair<std::string, std::string>> trace;  // leg name, scenario
    bool        bad = false;   // infrastructure problem
    std::string bad_why;
    Record run(const std::string& name, const Scenario& s, char flavor = 0);
};

struct Verdict {
    bool        violated = false;
    bool        skipped = false;   // nothing to decide in this case
    bool        nontrivial = false;
    std::string kind;      // short class of the violation
    std::string message;
    void fail(const std::string& k, const std::string& m) { if (!violated) { violated = true; kind = k; message = m; } }
};

struct Property {
    const char* id;
    Case (*gen)(uint64_t seed, const Ctx&);
    Verdict (*check)(const Case&, Ctx&);
};
const std::vector<Property>& properties();
}  // namespace vp
