// Plain data shared by the generator, the code-under-test driver (target.cpp)
// and the oracles.  Nothing here depends on the code under test.
#pragma once
#include "../sim/simrt.h"
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace vp {

using Term = std::pair<int, double>;

struct VarGroup {
    std::string      name;
    std::vector<int> dims;   // empty: scalar
    int              first = 0, n = 0;
};
struct Var {
    int  lb = 0, ub = 1;
    bool has_init = false;
    int  init = 0;
    bool fixed = false;
    int  fixv = 0;
};
// linear form over variables and named expressions
struct Lin {
    std::vector<Term> t;     // variables
    std::vector<Term> e;     // expressions
    double            c = 0;
};
struct Row {
    Lin    lin;
    int    sense = -1;       // -1: <=, 0: ==, 1: >=
    double rhs   = 0;
    int    form  = 0;        // spelling used when building the model
    int    sel_group = -1;   // >=0: built with the selection() form
    int    sel_index = -1;   // row of a two-dimensional group, -1: whole group
};
struct Inst {
    std::vector<VarGroup> vg;
    std::vector<Var>      v;
    std::vector<Lin>      ex;       // named expressions (over variables)
    std::vector<Row>      rows;
    std::vector<int>      rgroups;  // sizes of constraint groups
    Lin                   obj;
    int                   osense = 1;  // 1 minimise, -1 maximise, 0 none
    std::vector<int>      planted;     // a solution used while generating
};

// flattened row/objective (expressions substituted)
struct Flat {
    std::vector<Term> t;
    double            c = 0;
};
Flat flatten(const Inst&, const Lin&);

struct Scenario {
    std::string property;
    uint64_t    seed = 0;
    std::string path = "api";  // api | mps | app
    Inst        inst;
    std::map<std::string, double>      opt;   // option values by JSON path
    std::map<std::string, double>      par;   // check-specific parameters
    std::map<std::string, std::string> spar;
    sim::Config sim;
};

std::string to_text(const Scenario&);
bool        from_text(const std::string&, Scenario*);

// What one simulated run produced.
struct Snap {                 // at a user callback
    double time = 0;
    bool   found = false;
    double feas_obj = 0;      // in the sign of minimisation
    double aug_obj = 0;
    double dual = 0;
    uint64_t feas_hash = 0, aug_hash = 0;
    uint64_t work = 0;
    double opt_time_max = 0;
    double ga_obj = 0, ga_viol = 0;   // best augmented solution, evaluated from scratch
};
struct ArcSol {
    std::vector<int> x;
    double           objective = 0, total_violation = 0;
    bool             is_feasible = false;
};
struct Record {
    std::string end;     // "ok", "exception:<type>:<what>", "exit:<n>", "signal:<n>"
    std::vector<int>    x;
    std::vector<double> ex, cons, viol;
    double              objective = 0, total_violation = 0;
    bool                is_feasible = false;
    std::map<std::string, double>      num;   // counters and status values
    std::map<std::string, std::string> str;
    std::vector<Snap>                  snaps;
    std::vector<ArcSol>                archive;
    std::vector<std::pair<std::string, std::string>> fails;  // property, message
    std::map<std::string, std::string> files;
    std::vector<sim::Preempt>          sched;
    sim::Stats                         st;
    std::vector<sim::Race>             races;
    uint64_t                           hash() const;
};
std::string to_text(const Record&);
bool        from_text(const std::string&, Record*);

// ---- reference evaluation ------------------------------------------------
struct Ref {
    const Inst*       in = nullptr;
    std::vector<Flat> rows, ex;
    Flat              obj;
    void   init(const Inst&);
    double row_value(size_t i, const int* x) const;   // lhs - rhs
    double row_violation(size_t i, const int* x) const;
    double objective(const int* x) const;
    double total_violation(const int* x) const;
    bool   in_bounds(const int* x, std::string* why = nullptr) const;
    double min_objective(const int* x) const {        // sign of minimisation
        return (in->osense < 0 ? -1.0 : 1.0) * (in->osense == 0 ? 0 : objective(x));
    }
};
struct Brute {
    bool   done = false;      // enumeration was possible
    bool   feasible = false;
    double best = 0;          // sign of minimisation
    std::vector<int> arg;
};
double domain_size(const Inst&);
Brute  brute_force(const Ref&, const std::vector<int>& lb, const std::vector<int>& ub, double limit);

void gen_instance(sim::Rng& r, Inst* in, const std::map<std::string, double>& g);
void gen_options(sim::Rng& r, Scenario* s, const std::map<std::string, double>& g);
void gen_sim(sim::Rng& r, Scenario* s, const std::map<std::string, double>& g);
std::string var_name(const Inst&, int v);       // name used in files
std::string mps_text(const Inst&);
std::string option_json(const std::map<std::string, double>&);
uint64_t    hash_str(const std::string&, uint64_t h = 1469598103934665603ull);
std::string fmt(const char* f, ...);

// implemented in target.cpp (the only file compiled with the code under test)
void        target_run(const Scenario&, Record*);
const char* target_flavor();

}  // namespace vp
