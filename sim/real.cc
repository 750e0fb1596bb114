// Simulator B: the real clingo library with the real theory, driven in one process.
// Search orders come from clingo's seeded heuristics, threads from the controlled scheduler (sched.cc),
// stops, allocation and host call failures from the fault stream.
#include "rt.hh"
#include "sched.hh"
#include "theory.hh"

#include <csignal>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;

extern "C" {
bool __real_clingo_control_register_propagator(clingo_control_t *, clingo_propagator_t const *, void *, bool);
bool __real_clingo_propagate_control_add_clause(clingo_propagate_control_t *, clingo_literal_t const *, size_t, clingo_clause_type_t, bool *);
bool __real_clingo_propagate_control_add_literal(clingo_propagate_control_t *, clingo_literal_t *);
bool __real_clingo_propagate_init_add_clause(clingo_propagate_init_t *, clingo_literal_t const *, size_t, bool *);
bool __real_clingo_propagate_init_solver_literal(clingo_propagate_init_t const *, clingo_literal_t, clingo_literal_t *);
}

namespace {

struct Profile {
    char const *name;
    ScenCfg sc;
    int threads_pct;   // percentage of runs with several threads
    int global_pct;
    bool plain_opts;
    bool vary_opts;    // rerun with another option set and compare
    int stop_pct;      // interrupt / cancel
    int fault_pct;     // allocation / host failures
    bool cli;          // the command line tool
    int systems{1};    // several systems in one process
};

ScenCfg sc(int steps, int calls, int obj, bool assume, bool limits, bool big = false, bool malformed = false, bool degenerate = false) {
    ScenCfg c;
    c.max_steps = steps;
    c.max_calls = calls;
    c.obj_pct = obj;
    c.assumptions = assume;
    c.limits = limits;
    c.big = big;
    c.malformed = malformed;
    c.degenerate = degenerate;
    c.costs = !big && !malformed && !degenerate;
    if (degenerate) { c.max_num = 7; c.max_atoms = 12; }
    if (big) { c.max_num = 8; c.max_bool = 5; c.max_atoms = 16; }
    return c;
}
ScenCfg large(int steps, int obj) {
    auto c = sc(steps, 1, obj, steps > 1, false);
    c.large = true;
    c.max_num = 8;
    c.max_bool = 16;
    c.max_atoms = 30;
    c.costs = false;
    return c;
}
Profile const profiles[] = {
    {"large", large(1, 40), 25, 40, false, false, 5, 0, false},
    {"large-multi", large(3, 30), 25, 30, false, false, 5, 0, false},
    {"single", sc(1, 1, 30, false, false), 0, 30, false, false, 0, 0, false},
    {"objective", sc(1, 1, 100, false, false), 0, 0, false, false, 0, 0, false},
    {"global", sc(1, 1, 100, false, false), 0, 100, false, false, 0, 0, false},
    {"multi", sc(4, 2, 40, true, true), 0, 40, false, false, 0, 0, false},
    {"threads", sc(1, 1, 40, false, false), 100, 40, false, false, 0, 0, false},
    {"threads-multi", sc(3, 2, 40, true, true), 100, 40, false, false, 0, 0, false},
    {"stop", sc(3, 3, 30, true, true), 0, 40, false, false, 100, 0, false},
    {"threads-stop", sc(2, 3, 30, true, true), 100, 40, false, false, 100, 0, false},
    {"fault", sc(2, 2, 40, true, false), 0, 40, false, false, 20, 100, false},
    {"threads-fault", sc(2, 2, 40, true, false), 100, 40, false, false, 20, 100, false},
    {"malformed", sc(2, 1, 40, false, false, false, true), 0, 40, false, false, 0, 50, false},
    {"degenerate", sc(1, 1, 100, false, false, false, false, true), 0, 20, false, false, 0, 0, false},
    {"cli", sc(1, 1, 60, false, true), 25, 40, false, false, 0, 0, true},
    {"cli-fail", sc(1, 1, 60, false, true, false, true), 25, 40, false, false, 30, 60, true},
    {"systems", sc(2, 2, 40, true, true), 15, 40, false, false, 20, 0, false, 3},
    {"systems-fault", sc(2, 2, 40, true, false), 0, 40, false, false, 20, 60, false, 3},
    {"big", sc(1, 1, 50, false, false, true), 0, 30, false, false, 0, 0, false},
};
Profile const *find_profile(std::string const &n) {
    for (auto const &p : profiles) {
        if (n == p.name) { return &p; }
    }
    return nullptr;
}

// ---------------------------------------------------------------- state of the run
struct Wrap { clingo_propagator_t prop; void *data; };
RunCtx *C = nullptr;
struct LastCheck { bool clauses{false}; std::vector<int> truth; };
struct Sys { // one control with its theory; the threads of a system share it
    Scenario S;
    LpxOptions O;
    Judge *J{nullptr};
    ClauseOracle *CO{nullptr};
    Wrap W{};
    clingo_propagator_t hooks{};
    clingolpx_theory_t *TH{nullptr};
    clingo_control_t *CTL{nullptr};
    int NT{1};
    bool faulted{false}; // a fault has fired or a callback has failed
    bool cb_failed{false}; // a callback has failed
    uint64_t callbacks{0}, stop_at{UINT64_MAX};
    uint64_t pivots_done{0}, pivots_total{0};
    uint64_t cb_clauses[8]{};  // clauses added in the current callback, per thread
    uint64_t bound_clauses{0}; // search clauses of the call with a literal that is not false
    uint64_t false_clauses{0}; // conflicts, or bounds propagated into a conflict
    double sum_p{0}, sum_b{0};
    std::map<std::string, int> theory_names;
    std::vector<int> bool_lits; // solver literals of the Booleans
    LastCheck last_check[8];
    bool async_ok{false};
    std::vector<std::string> args;
    HostMode mode;
};
constexpr int MAX_SYS = 3;
Sys systems[MAX_SYS];
int n_sys = 1;
#define X (static_cast<Sys *>(sched::user))
#define S (X->S)
#define O (X->O)
#define J (X->J)
#define CO (X->CO)
#define W (X->W)
#define hooks (X->hooks)
#define TH (X->TH)
#define CTL (X->CTL)
#define NT (X->NT)
#define faulted (X->faulted)
#define cb_failed (X->cb_failed)
#define callbacks (X->callbacks)
#define stop_at (X->stop_at)
#define pivots_done (X->pivots_done)
#define pivots_total (X->pivots_total)
#define cb_clauses (X->cb_clauses)
#define bound_clauses (X->bound_clauses)
#define false_clauses (X->false_clauses)
#define sum_p (X->sum_p)
#define sum_b (X->sum_b)
#define theory_names (X->theory_names)
#define bool_lits (X->bool_lits)
#define last_check (X->last_check)
#define async_ok (X->async_ok)
thread_local uint64_t fired = 0; // faults of the thread
thread_local uint64_t fired_before = 0;
uint64_t api_calls = 0, api_fail_at = UINT64_MAX;
uint64_t entered = 0, arm_at = 0, arm_nth = 0; // calls into the theory
bool arm_alloc = false;
uint64_t hash_salt = 0;
constexpr uint64_t STEP_LIMIT = 60000000;     // accesses within one callback (largest seen: below 3 million)
constexpr uint64_t RUN_LIMIT = 200000000;     // accesses within one run (largest seen: 16 million)
constexpr uint64_t CALLBACK_LIMIT = 30000;    // callbacks of one run (largest seen: 6000)

struct InLpx {
    InLpx() { ++rt::in_lpx; sched::release(); }
    ~InLpx() { sched::hold(); --rt::in_lpx; }
};
struct OutLpx { // host code called from the theory
    int old;
    OutLpx() : old{rt::in_lpx} { rt::in_lpx = 0; sched::hold(); }
    ~OutLpx() { sched::release(); rt::in_lpx = old; }
};
struct Blocking { // host code called from the command line tool that calls back
    int old;
    Blocking() : old{rt::in_lpx} { rt::in_lpx = 0; }
    ~Blocking() { rt::in_lpx = old; }
};
struct Enter { // simulator code around a callback
    Enter() { sched::point(); sched::hold(); }
    ~Enter() { sched::release(); sched::point(); }
};

void budget(char const *what) {
    // called at the start of every callback
    C->where(what);
    fired_before = fired;
    if (++entered == arm_at) { // fault within this callback
        if (arm_alloc) { rt::alloc_fail_at = rt::alloc_count + arm_nth; } else { api_fail_at = api_calls + arm_nth; }
    }
    sched::budget(STEP_LIMIT);
}
void over_budget() {
    J->endless("callback-does-not-end", fmt("%s did not return within %lu steps", C->slot->where, STEP_LIMIT));
    finish_run();
}
void cb_end() {
    // A failing callback makes the host throw; while it unwinds it may call back once more, and a second failure
    // there terminates the process within the host. Hence, memory is back when the failing callback returns.
    if (faulted) { rt::alloc_armed = false; }
    uint64_t d = sched::used();
    sched::budget(INT64_MAX);
    if (d > C->slot->cnt[CNT_max_cb_steps]) { C->slot->cnt[CNT_max_cb_steps] = d; }
    C->slot->cnt[CNT_lpx_steps] = C->slot->cnt[CNT_max_run_steps] = rt::steps;
}
void cb_result(char const *what, bool r) {
    if (!r) { faulted = cb_failed = J->quiet = true; }
    else if (fired != fired_before) { J->res("C11", "error-swallowed", fmt("%s reported success although a call it depends on failed", what)); }
}
bool interrupting = false; // the host ends the process if the search has not begun yet
void tick() { // stop faults between callbacks
    C->slot->cnt[CNT_max_callbacks] = ++callbacks;
    if (callbacks > CALLBACK_LIMIT || rt::steps > RUN_LIMIT) {
        auto msg = fmt("search over a small program exceeds %lu callbacks or %lu steps", CALLBACK_LIMIT, RUN_LIMIT);
        J->endless("search-does-not-end", msg);
        finish_run();
    }
    if (callbacks == stop_at) {
        C->ev("interrupt before callback %lu", callbacks);
        C->count(CNT_fault_interrupt);
        if (J->cli) { interrupting = true; raise(SIGINT); interrupting = false; } else { clingo_control_interrupt(CTL); }
    }
}
bool fact_of(clingo_assignment_t const *ass, int l) {
    bool f = false, t = false;
    if (!clingo_assignment_has_literal(ass, l)) { return false; }
    return clingo_assignment_is_fixed(ass, l, &f) && f && clingo_assignment_is_true(ass, l, &t) && t;
}
int truth_of(clingo_assignment_t const *ass, int l) {
    bool t = false;
    if (!clingo_assignment_has_literal(ass, l)) { return 0; }
    if (clingo_assignment_is_true(ass, l, &t) && t) { return 1; }
    if (clingo_assignment_is_false(ass, l, &t) && t) { return -1; }
    return 0;
}

// ---------------------------------------------------------------- callbacks
bool lookup(clingo_control_t *c, std::string const &name, clingo_literal_t &lit) {
    clingo_symbol_t s = 0;
    clingo_symbolic_atoms_t const *at = nullptr;
    clingo_symbolic_atom_iterator_t it = 0;
    bool valid = false;
    return clingo_parse_term(name.c_str(), nullptr, nullptr, 0, &s) && clingo_control_symbolic_atoms(c, &at) && clingo_symbolic_atoms_find(at, s, &it) &&
           clingo_symbolic_atoms_is_valid(at, it, &valid) && valid && clingo_symbolic_atoms_literal(at, it, &lit);
}

bool h_init(clingo_propagate_init_t *init, void *) {
    Enter enter;
    C->count(CNT_init_calls);
    clingo_theory_atoms_t const *at = nullptr;
    clingo_propagate_init_theory_atoms(init, &at);
    TheoryReader rd(at, theory_names);
    bool ok = rd.read([&](int l) { int r = 0; __real_clingo_propagate_init_solver_literal(init, l, &r); return r; }, CO->cons, CO->obj);
    CO->dyn.clear();
    bool_lits.assign(S.bools.size(), 0);
    for (size_t i = 0; i < S.bools.size(); ++i) {
        clingo_literal_t l = 0;
        if (lookup(CTL, S.bools[i].name, l)) { __real_clingo_propagate_init_solver_literal(init, l, &bool_lits[i]); }
    }
    for (auto &x : last_check) { x = {}; }
    C->ev("init: %zu constraints%s", CO->cons.size(), ok ? "" : " (malformed)");
    budget("init");
    bool r = false;
    {
        InLpx in;
        r = W.prop.init(init, W.data);
    }
    cb_end();
    C->ev("init -> %d", static_cast<int>(r));
    if (r && !ok) { J->res("C11", "malformed-accepted", "a statement that cannot be interpreted was accepted: " + S.bad_text); }
    cb_result("init", r);
    return r;
}
bool h_propagate(clingo_propagate_control_t *ctl, clingo_literal_t const *ch, size_t n, void *) {
    Enter enter;
    tick();
    auto id = clingo_propagate_control_thread_id(ctl);
    C->count(CNT_propagate_calls);
    std::string l;
    for (size_t i = 0; i < n && l.size() < 1000; ++i) { l += fmt(" %d", ch[i]); }
    auto const *ass = clingo_propagate_control_assignment(ctl);
    C->ev("T%u propagate @%u:%s", id, clingo_assignment_decision_level(ass), l.c_str());
    cb_clauses[id] = 0;
    budget("propagate");
    bool r = false;
    {
        InLpx in;
        r = W.prop.propagate(ctl, ch, n, W.data);
    }
    cb_end();
    if (!r) { C->ev("T%u propagate failed", id); }
    cb_result("propagate", r);
    return r;
}
void h_undo(clingo_propagate_control_t const *ctl, clingo_literal_t const *ch, size_t n, void *) {
    Enter enter;
    C->count(CNT_undo_calls);
    J->undone = true;
    auto id = clingo_propagate_control_thread_id(ctl);
    C->ev("T%u undo (%zu)", id, n);
    budget("undo");
    W.prop.undo(ctl, ch, n, W.data);
    cb_end();
}
bool lpx_values(uint32_t id, std::map<int, V> &sol) {
    for (auto const &[name, v] : J->by_key) {
        clingo_symbol_t s = 0;
        if (!clingo_parse_term(name.c_str(), nullptr, nullptr, 0, &s)) { continue; }
        size_t idx = 0;
        if (!clingolpx_lookup_symbol(TH, s, &idx) || !clingolpx_assignment_has_value(TH, id, idx)) { continue; }
        clingolpx_value_t val{};
        clingolpx_assignment_get_value(TH, id, idx, &val);
        char const *str = nullptr;
        V x;
        if (!clingo_symbol_string(val.symbol, &str) || !parse_value(str, x)) { return false; }
        sol[v] = x;
    }
    return true;
}
bool h_check(clingo_propagate_control_t *ctl, void *) {
    Enter enter;
    tick();
    auto id = clingo_propagate_control_thread_id(ctl);
    C->count(CNT_check_calls);
    auto const *ass = clingo_propagate_control_assignment(ctl);
    bool total = clingo_assignment_is_total(ass);
    std::string tl;
    {
        for (size_t i = 0, e = clingo_assignment_size(ass); i < e && tl.size() < 1000; ++i) {
            clingo_literal_t l = 0;
            clingo_assignment_at(ass, i, &l);
            uint32_t lv = 0;
            clingo_assignment_level(ass, l, &lv);
            int t = truth_of(ass, l);
            tl += t != 0 ? fmt(" %d@%u", l * t, lv) : fmt(" ?%d", l);
        }
    }
    C->ev("T%u check @%u%s%s", id, clingo_assignment_decision_level(ass), total ? " total" : "", tl.c_str());
    cb_clauses[id] = 0;
    budget("check");
    bool r = false;
    {
        InLpx in;
        r = W.prop.check(ctl, W.data);
    }
    cb_end();
    cb_result("check", r);
    if (!r) { C->ev("T%u check failed", id); return r; }
    if (total && NT > 1) {
        auto &lc = last_check[id];
        lc.clauses = lc.clauses || cb_clauses[id] > 0;
        lc.truth.clear();
        for (auto l : bool_lits) { lc.truth.push_back(l == 0 ? 0 : truth_of(ass, l)); }
    }
    if (total && cb_clauses[id] == 0) {
        C->count(CNT_total_checked);
        auto tr = [&](int l) { return truth_of(ass, l); };
        if (!CO->consistent(tr)) {
            J->res("C06", "accepted-infeasible", "a total assignment was accepted although its active constraints are infeasible");
        } else {
            std::map<int, V> sol;
            if (NT == 1 && lpx_values(id, sol)) {
                CO->completions(tr, false, [&](std::vector<Cons> const &cs, Lin const &) {
                    for (auto const &c : cs) {
                        bool known = true;
                        for (auto const &[v, a] : c.lin.co) { known = known && sol.count(v) > 0; }
                        if (known && !holds(eval(c.lin, sol), c.rel)) {
                            J->res("C06", "values-violate", "values exposed after accepting a total assignment violate an active constraint");
                        }
                    }
                });
            }
        }
    }
    return r;
}
bool h_decide(clingo_id_t id, clingo_assignment_t const *ass, clingo_literal_t fallback, void *, clingo_literal_t *out) {
    Enter enter;
    tick();
    C->count(CNT_decide_calls);
    budget("decide");
    bool r = false;
    {
        InLpx in;
        r = W.prop.decide(id, ass, fallback, W.data, out);
    }
    cb_end();
    C->ev("T%u decide %d -> %d", id, fallback, r ? *out : 0);
    cb_result("decide", r);
    if (!r) { return r; }
    // all propagators are done here: the theory has accepted the assignment
    C->count(CNT_fixpoints);
    if (!CO->relaxed_feasible([&](int l) { return truth_of(ass, l); })) {
        J->res("C06", "accepted-infeasible", "the constraints of the true literals are infeasible but the search goes on");
    }
    if (*out != fallback && *out != -fallback) { J->res("C12", "decide", fmt("heuristic answered %d to the proposal %d", *out, fallback)); }
    return r;
}

bool api_fault(char const *name) {
    if (rt::in_lpx <= 0) { return false; }
    ++api_calls;
    if (api_calls != api_fail_at) { return false; }
    C->ev("host call %s fails", name);
    C->count(CNT_fault_api);
    faulted = true;
    ++fired;
    clingo_set_error((api_calls & 1) != 0 ? clingo_error_bad_alloc : clingo_error_runtime, "injected failure");
    return true;
}

} // namespace

// ---------------------------------------------------------------- host seam
extern "C" {
bool __wrap_clingo_control_register_propagator(clingo_control_t *c, clingo_propagator_t const *p, void *data, bool seq) {
    if (api_fault("control_register_propagator")) { return false; }
    OutLpx out;
    if (CO == nullptr) { return __real_clingo_control_register_propagator(c, p, data, seq); }
    W = {*p, data};
    hooks = {p->init != nullptr ? h_init : nullptr, p->propagate != nullptr ? h_propagate : nullptr, p->undo != nullptr ? h_undo : nullptr,
             p->check != nullptr ? h_check : nullptr, p->decide != nullptr ? h_decide : nullptr};
    return __real_clingo_control_register_propagator(c, &hooks, nullptr, seq);
}
bool __wrap_clingo_propagate_control_add_clause(clingo_propagate_control_t *ctl, clingo_literal_t const *cl, size_t n, clingo_clause_type_t ty, bool *res) {
    if (api_fault("add_clause")) { return false; }
    OutLpx out;
    auto id = clingo_propagate_control_thread_id(ctl);
    auto const *ass = clingo_propagate_control_assignment(ctl);
    C->count(CNT_clauses);
    ++cb_clauses[id];
    std::string l;
    size_t open = 0, fal = 0;
    for (size_t i = 0; i < n; ++i) {
        int t = truth_of(ass, cl[i]);
        l += fmt(" %d%s", cl[i], t > 0 ? "+" : t < 0 ? "-" : "");
        open += t == 0;
        fal += t < 0;
    }
    bool dyn = n == 1 && CO->dyn.count({id, std::abs(cl[0])}) > 0;
    if (!dyn && fal < n) { ++bound_clauses; }
    if (fal == n) { C->count(CNT_conflicts); ++false_clauses; }
    CO->check_clause(id, cl, n, [&](int x) { return fact_of(ass, x); }, "search");
    bool r = __real_clingo_propagate_control_add_clause(ctl, cl, n, ty, res);
    C->ev("T%u add clause {%s } -> %d", id, l.c_str(), r ? static_cast<int>(*res) : -1);
    return r;
}
bool __wrap_clingo_propagate_control_add_literal(clingo_propagate_control_t *ctl, clingo_literal_t *lit) {
    if (api_fault("add_literal")) { return false; }
    OutLpx out;
    bool r = __real_clingo_propagate_control_add_literal(ctl, lit);
    auto id = clingo_propagate_control_thread_id(ctl);
    if (r) { CO->new_dyn(id, *lit); }
    C->ev("T%u add literal %d", id, r ? *lit : 0);
    return r;
}
bool __wrap_clingo_propagate_init_add_clause(clingo_propagate_init_t *in, clingo_literal_t const *cl, size_t n, bool *res) {
    if (api_fault("init add_clause")) { return false; }
    OutLpx out;
    C->count(CNT_init_clauses);
    auto const *ass = clingo_propagate_init_assignment(in);
    std::string l;
    for (size_t i = 0; i < n; ++i) { l += fmt(" %d", cl[i]); }
    CO->check_clause(0, cl, n, [&](int x) { return fact_of(ass, x); }, "preparation");
    bool r = __real_clingo_propagate_init_add_clause(in, cl, n, res);
    C->ev("init add clause {%s } -> %d", l.c_str(), r ? static_cast<int>(*res) : -1);
    return r;
}
// The pivots of the theory are counted where they happen.
__attribute__((weak)) void __real__ZN7Tableau5pivotEjjR7IntegerS1_(void *, unsigned, unsigned, void *, void *);
void __wrap__ZN7Tableau5pivotEjjR7IntegerS1_(void *t, unsigned i, unsigned j, void *a, void *d) {
    __real__ZN7Tableau5pivotEjjR7IntegerS1_(t, i, j, a, d);
    ++pivots_done;
}
// The host hashes symbols by address. Hashes become a function of the content and of the run.
size_t __wrap_clingo_symbol_hash(clingo_symbol_t s) {
    OutLpx out;
    return mix64(hash_str(sym_str(s)) ^ hash_salt);
}
// host calls that can fail
#define F1(name, A)                                                                                                    \
    bool __real_clingo_##name(A a);                                                                                    \
    bool __wrap_clingo_##name(A a) { if (api_fault(#name)) { return false; } OutLpx out; return __real_clingo_##name(a); }
#define F2(name, A, B)                                                                                                 \
    bool __real_clingo_##name(A a, B b);                                                                               \
    bool __wrap_clingo_##name(A a, B b) { if (api_fault(#name)) { return false; } OutLpx out; return __real_clingo_##name(a, b); }
#define F3(name, A, B, D)                                                                                              \
    bool __real_clingo_##name(A a, B b, D c);                                                                          \
    bool __wrap_clingo_##name(A a, B b, D c) { if (api_fault(#name)) { return false; } OutLpx out; return __real_clingo_##name(a, b, c); }
#define F4(name, A, B, D, E)                                                                                           \
    bool __real_clingo_##name(A a, B b, D c, E d);                                                                     \
    bool __wrap_clingo_##name(A a, B b, D c, E d) { if (api_fault(#name)) { return false; } OutLpx out; return __real_clingo_##name(a, b, c, d); }
typedef clingo_propagate_control_t *PC;
typedef clingo_propagate_init_t *PI;
typedef clingo_theory_atoms_t const *TA;
typedef clingo_literal_t L;
typedef char const *CS;
F2(propagate_control_add_watch, PC, L)
F2(propagate_control_propagate, PC, bool *)
F2(propagate_init_add_watch, PI, L)
F2(propagate_init_propagate, PI, bool *)
F2(propagate_init_freeze_literal, PI, L)
F3(propagate_init_solver_literal, clingo_propagate_init_t const *, L, L *)
F2(propagate_init_theory_atoms, clingo_propagate_init_t const *, TA *)
F2(theory_atoms_size, TA, size_t *)
F3(theory_atoms_atom_term, TA, clingo_id_t, clingo_id_t *)
F4(theory_atoms_atom_elements, TA, clingo_id_t, clingo_id_t const **, size_t *)
F3(theory_atoms_atom_literal, TA, clingo_id_t, L *)
F3(theory_atoms_atom_has_guard, TA, clingo_id_t, bool *)
F4(theory_atoms_atom_guard, TA, clingo_id_t, CS *, clingo_id_t *)
F4(theory_atoms_element_tuple, TA, clingo_id_t, clingo_id_t const **, size_t *)
F4(theory_atoms_element_condition, TA, clingo_id_t, L const **, size_t *)
F3(theory_atoms_element_condition_id, TA, clingo_id_t, L *)
F3(theory_atoms_term_type, TA, clingo_id_t, clingo_theory_term_type_t *)
F3(theory_atoms_term_number, TA, clingo_id_t, int *)
F3(theory_atoms_term_name, TA, clingo_id_t, CS *)
F4(theory_atoms_term_arguments, TA, clingo_id_t, clingo_id_t const **, size_t *)
F3(assignment_is_false, clingo_assignment_t const *, L, bool *)
F3(assignment_is_true, clingo_assignment_t const *, L, bool *)
F3(assignment_level, clingo_assignment_t const *, L, uint32_t *)
F2(symbol_create_string, CS, clingo_symbol_t *)
F3(symbol_create_id, CS, bool, clingo_symbol_t *)
F3(model_extend, clingo_model_t *, clingo_symbol_t const *, size_t)
F4(model_symbols, clingo_model_t const *, clingo_show_type_bitset_t, clingo_symbol_t *, size_t)
F3(model_symbols_size, clingo_model_t const *, clingo_show_type_bitset_t, size_t *)
F2(symbol_to_string_size, clingo_symbol_t, size_t *)
F3(symbol_to_string, clingo_symbol_t, char *, size_t)
F2(symbol_string, clingo_symbol_t, CS *)
F2(program_builder_init, clingo_control_t *, clingo_program_builder_t **)
F1(program_builder_begin, clingo_program_builder_t *)
F1(program_builder_end, clingo_program_builder_t *)
F2(program_builder_add, clingo_program_builder_t *, clingo_ast_t *)
}

namespace {

// ---------------------------------------------------------------- driver
bool read_model(clingo_model_t const *m, ReportedModel &r) {
    r = {};
    r.val.assign(S.bools.size(), false);
    r.thread = 0;
    clingo_id_t tid = 0;
    clingo_model_thread_id(m, &tid);
    r.thread = tid;
    if (!clingo_model_optimality_proven(m, &r.proven)) { return false; }
    size_t n = 0;
    if (!clingo_model_symbols_size(m, clingo_show_type_atoms, &n)) { return false; }
    std::vector<clingo_symbol_t> syms(n);
    if (!clingo_model_symbols(m, clingo_show_type_atoms, syms.data(), n)) { return false; }
    for (auto s : syms) {
        auto t = sym_str(s);
        for (size_t i = 0; i < S.bools.size(); ++i) {
            if (S.bools[i].name == t) { r.val[i] = true; }
        }
    }
    if (!clingo_model_symbols_size(m, clingo_show_type_theory, &n)) { return false; }
    syms.resize(n);
    if (!clingo_model_symbols(m, clingo_show_type_theory, syms.data(), n)) { return false; }
    for (auto s : syms) {
        char const *nm = nullptr;
        clingo_symbol_t const *as = nullptr;
        size_t na = 0;
        if (clingo_symbol_type(s) != clingo_symbol_type_function || !clingo_symbol_name(s, &nm) || !clingo_symbol_arguments(s, &as, &na) || na != 2) { continue; }
        char const *v = nullptr;
        if (strcmp(nm, "__lpx") == 0) {
            if (!clingo_symbol_string(as[1], &v)) { continue; }
            r.lpx.emplace_back(sym_str(as[0]), v);
        } else if (strcmp(nm, "__lpx_objective") == 0) {
            int b = 0;
            if (!clingo_symbol_string(as[0], &v) || !clingo_symbol_number(as[1], &b)) { continue; }
            r.has_obj = true;
            r.obj = v;
            r.bounded = b != 0;
        }
    }
    return true;
}

struct CallState {
    int cancel_after{0};
    bool cancelled{false};
    uint64_t models{0};
    bool have_stats{false};
    double step_p{0}, step_b{0}, acc_p{0}, acc_b{0};
    bool model_error{false};
    std::vector<ReportedModel> *reported{nullptr};
};

bool stat(clingo_statistics_t const *st, char const *key, double &out) {
    uint64_t root = 0, k = 0, v = 0;
    return clingo_statistics_root(st, &root) && clingo_statistics_map_at(st, root, "Simplex", &k) && clingo_statistics_map_at(st, k, key, &v) && clingo_statistics_value_get(st, v, &out);
}

template <class F> bool model_event(clingo_model_t *m, CallState &cs, bool *goon, F const &call) {
    C->count(CNT_on_model_calls);
    if (O.global) { // the objective becomes known to other threads before the call returns
        ReportedModel rm;
        if (read_model(m, rm)) { J->announce(rm); }
    }
    budget("on_model");
    bool r = false;
    {
        InLpx in;
        r = call();
    }
    cb_end();
    cb_result("on_model", r);
    if (!r) {
        C->ev("on_model failed");
        cs.model_error = true;
        return false;
    }
    ReportedModel rm;
    if (!read_model(m, rm)) { return false; }
    // When committing models, parallel solvers of the host check assignments again but report the values they had
    // before even if clauses added by the check changed them (see DESIGN.md). Such calls are not judged any further.
    if (NT > 1 && last_check[rm.thread].clauses) {
        auto &lc = last_check[rm.thread];
        bool stale = false;
        for (size_t i = 0; i < lc.truth.size(); ++i) { stale = stale || (lc.truth[i] != 0 && (lc.truth[i] > 0) != rm.val[i]); }
        if (stale) { C->ev("the host reports a stale model"); C->count(CNT_stale_models); J->tainted = true; }
        lc.clauses = false;
    }
    J->on_model(rm);
    J->check_index(TH, rm);
    if (cs.reported != nullptr) { cs.reported->push_back(rm); }
    ++cs.models;
    *goon = true;
    if (cs.cancel_after > 0 && static_cast<int>(cs.models) >= cs.cancel_after) {
        *goon = false;
        cs.cancelled = true;
        C->ev("stop after %lu models", cs.models);
        C->count(CNT_fault_cancel);
    }
    return true;
}

// event handling around a call reporting the event to the theory
template <class F> bool event(clingo_solve_event_type_t type, void *event, CallState &cs, bool *goon, F const &call) {
    Enter enter;
    *goon = true;
    if (type == clingo_solve_event_type_model) { return model_event(static_cast<clingo_model_t *>(event), cs, goon, call); }
    if (type == clingo_solve_event_type_statistics) {
        auto **st = static_cast<clingo_statistics_t **>(event);
        budget("on_statistics");
        bool r = false;
        {
            InLpx in;
            r = call();
        }
        cb_end();
        cb_result("on_statistics", r);
        if (!r) { C->ev("on_statistics failed"); return false; }
        cs.have_stats = stat(st[0], "Pivots", cs.step_p) && stat(st[0], "Bounds propagated", cs.step_b) && stat(st[1], "Pivots", cs.acc_p) && stat(st[1], "Bounds propagated", cs.acc_b);
        if (!cs.have_stats) { J->res("C14", "missing", "statistics are missing"); }
    }
    return true;
}
bool on_event(clingo_solve_event_type_t type, void *ev, void *data, bool *goon) {
    return event(type, ev, *static_cast<CallState *>(data), goon, [=] {
        return type == clingo_solve_event_type_model ? clingolpx_on_model(TH, static_cast<clingo_model_t *>(ev))
                                                     : clingolpx_on_statistics(TH, static_cast<clingo_statistics_t **>(ev)[0], static_cast<clingo_statistics_t **>(ev)[1]);
    });
}

void judge_stats(CallState const &cs) {
    if (!cs.have_stats) { return; }
    C->count(CNT_stats_checked);
    sum_p += cs.step_p;
    sum_b += cs.step_b;
    C->count(CNT_pivots, static_cast<uint64_t>(cs.step_p));
    C->count(CNT_bounds_propagated, static_cast<uint64_t>(cs.step_b));
    C->ev("stats: pivots %g/%g bounds %g/%g (clauses %lu)", cs.step_p, cs.acc_p, cs.step_b, cs.acc_b, bound_clauses);
    auto lo = static_cast<double>(bound_clauses), hi = static_cast<double>(O.bounds != 0 ? bound_clauses + false_clauses : bound_clauses);
    if (cs.step_b < lo || cs.step_b > hi) { J->res("C14", "bounds-propagated", fmt("statistics report %g propagated bounds but %g to %g bound clauses were added", cs.step_b, lo, hi)); }
    pivots_total += pivots_done;
    C->count(CNT_pivots_counted, pivots_done);
    if (pivots_total > 0 && cs.step_p != static_cast<double>(pivots_done)) { J->res("C14", "pivots", fmt("statistics report %g pivots but %lu were made", cs.step_p, pivots_done)); }
    if (cs.acc_p != sum_p || cs.acc_b != sum_b) { J->res("C14", "accumulation", fmt("accumulated statistics are %g pivots, %g bounds but the steps sum up to %g, %g", cs.acc_p, cs.acc_b, sum_p, sum_b)); }
}

void quiet_logger(clingo_warning_t, char const *m, void *) { C->ev("clingo: %s", m); }

int mode_bits(bool yield, bool async) { return (yield ? clingo_solve_mode_yield : 0) | (async ? clingo_solve_mode_async : 0); }

[[noreturn]] void harness_error(char const *what) {
    C->where(what);
    if (C->trace) { fprintf(C->out, "harness: %s (%s)\n", what, clingo_error_message() != nullptr ? clingo_error_message() : ""); fflush(C->out); }
    _exit(96);
}

// Options in varying order and spelling; values that cannot be understood in between must be rejected and change nothing.
bool configure(LpxOptions const &o, bool rejects) {
    auto &ch = C->ch;
    auto set = [&](char const *k, std::string v) {
        if (ch.chance(HOST, 1, 8)) { v[0] = static_cast<char>(toupper(v[0])); }
        if (ch.chance(HOST, 1, 8)) { for (auto &c : v) { c = static_cast<char>(toupper(c)); } }
        bool r = clingolpx_configure(TH, k, v.c_str());
        if (!r) { C->ev("configure %s=%s failed", k, v.c_str()); J->res("C12", "configure", fmt("option %s=%s was rejected", k, v.c_str())); if (strcmp(k, "objective") == 0) { J->res("C05", "configure", fmt("option %s=%s was rejected", k, v.c_str())); } }
        return r;
    };
    static char const *truth[2][3] = {{"no", "off", "0"}, {"yes", "on", "1"}};
    auto flag = [&](bool x) { return std::string(truth[x ? 1 : 0][ch.chance(HOST, 1, 4) ? ch.draw(HOST, 3) : static_cast<uint32_t>(x)]); };
    static char const *bad[][2] = {{"objective", "globe"}, {"objective", "global,"}, {"objective", "global,x"}, {"objective", "global,1/0"}, {"objective", ""}, {"objective", "global;1"}, {"objective", "loc"},
                                   {"objective", "local,1"}, {"objective", "global,1,2"}, {"objective", "global,1.5"}, {"objective", "global,ee"}, {"select", "matched"}, {"select", ""}, {"select", "conf"}, {"store", "all"}, {"store", "partially"},
                                   {"store", ""}, {"propagate-bounds", "some"}, {"propagate-bounds", "yes"}, {"propagate-conflicts", "maybe"}, {"propagate-conflicts", "2"}, {"strict", "yess"}, {"strict", ""},
                                   {"strictness", "yes"}, {"", "yes"}, {"propagate", "full"}, {"objectives", "local"}};
    auto attempt = [&] {
        if (!rejects || !ch.chance(FAULT, 1, 4)) { return; }
        auto const &[k, v] = bad[ch.draw(FAULT, sizeof(bad) / sizeof(*bad))];
        C->count(CNT_fault_malformed);
        bool r = clingolpx_configure(TH, k, v);
        C->ev("configure %s=%s -> %d", k, v, static_cast<int>(r));
        if (r) { J->res("C11", "option-accepted", fmt("option %s=%s was accepted", k, v)); }
    };
    bool has_objective = o.global || ch.chance(HOST, 1, 4);
    uint32_t first = ch.draw(HOST, 6);
    for (uint32_t i = 0; i < 6; ++i) {
        attempt();
        bool r = true;
        switch ((first + i) % 6) {
            case 0: r = set("strict", flag(S.strict)); break;
            case 1: r = set("propagate-conflicts", flag(o.conflicts)); break;
            case 2: r = set("propagate-bounds", o.bnd()); break;
            case 3: r = set("select", o.sel()); break;
            case 4: r = set("store", o.sto()); break;
            default: if (has_objective) { r = set("objective", o.global ? "global" + (o.step_text.empty() ? std::string() : "," + o.step_text) : "local"); }
        }
        if (!r) { return false; }
    }
    attempt();
    if (rejects && !S.strict && ch.chance(FAULT, 1, 8)) { // an infinitesimal step needs strict mode
        C->count(CNT_fault_malformed);
        bool r = clingolpx_configure(TH, "objective", "global,e");
        bool v = r && clingolpx_validate_options(TH);
        C->ev("configure objective=global,e -> %d %d", static_cast<int>(r), static_cast<int>(v));
        if (v) { J->res("C11", "option-accepted", "objective=global,e was accepted without strict mode"); }
        if (!set("objective", o.global ? "global" + (o.step_text.empty() ? std::string() : "," + o.step_text) : "local")) { return false; }
    }
    return true;
}

void generate(RunCtx &ctx, Profile const &P) {
    C = &ctx;
    ctx.where("generation");
    S = Gen(ctx.ch, P.sc).run();
    bool has_obj = false;
    for (auto const &o : S.objs) { has_obj = has_obj || o.step >= 0; }
    O = LpxOptions::draw(ctx.ch, S.strict, has_obj, P.global_pct, P.plain_opts);
    NT = ctx.ch.draw(HOST, 100) < static_cast<uint32_t>(P.threads_pct) ? 2 + static_cast<int>(ctx.ch.draw(HOST, 4) == 3) : 1;
    if (P.cli) {
        auto &call = S.calls[0][0];
        call.ext.clear();
        call.assume.clear();
    }
    auto text = S.text();
    ctx.slot->prog = ctx.slot->prog * 31 + hash_str(text);
    auto sample = std::string(ctx.slot->sample) + fmt("%s%% %s, %d thread(s)\n", text.substr(0, 1200).c_str(), O.text().c_str(), NT);
    snprintf(ctx.slot->sample, sizeof(ctx.slot->sample), "%s", sample.c_str());
    ctx.ev("%s%% %s, %d thread(s)", text.c_str(), O.text().c_str(), NT);
    if (NT == 2) { ctx.count(CNT_threads2); }
    if (NT == 3) { ctx.count(CNT_threads3); }
    if (S.nsteps() > 1) { ctx.count(CNT_multi_steps); }
    J = new Judge(ctx, S, O, NT);
    J->cli = P.cli;
    J->systems = n_sys;
    CO = new ClauseOracle(ctx, *J);
    theory_names.clear();
    for (auto const &[k, v] : J->by_key) { theory_names[k] = v; }
    async_ok = NT > 1 || P.stop_pct == 100;
}
void start_scheduler(RunCtx &ctx) {
    sched::over_budget = over_budget;
    sched::on_deadlock = [](std::string const &w) {
        J->endless("deadlock", "all threads are blocked: " + w);
        finish_run();
    };
    sched::on_race = [](std::string const &w) { C->violation("C08", "data-race", w); if (n_sys > 1) { C->violation("C21", "data-race", w); } };
    sched::on_switch = [](int a, int b) { C->ev("-- thread %d -> %d", a, b); };
    sched::draw = [](uint32_t n) { return C->ch.draw(SCHED, n); };
    bool several = NT > 1 || n_sys > 1;
    int intensity = several || async_ok ? static_cast<int>(ctx.ch.draw(SCHED, 6)) : 0;
    bool acc = (several || async_ok) && ctx.ch.chance(SCHED, 1, 2);
    sched::init(intensity, acc, several);
    hash_salt = ctx.ch.draw(HOST, 1u << 16);
}

// solver configuration
void host_args(RunCtx &ctx, std::vector<std::string> &args) {
    auto &ch = ctx.ch;
    bool conf_eq = false;
    args.push_back(fmt("--seed=%u", ch.draw(HOST, 1000)));
    if (ch.chance(HOST, 2, 3)) { args.push_back(ch.chance(HOST, 1, 2) ? "--rand-freq=1" : "--rand-freq=0.4"); }
    if (ch.chance(HOST, 1, 2)) { args.push_back("--sign-def=rnd"); args.push_back("--sign-fix"); }
    if (ch.chance(HOST, 1, 3)) { args.push_back(fmt("--restarts=F,%u", 1 + ch.draw(HOST, 3))); }
    if (ch.chance(HOST, 1, 5)) { conf_eq = true; static char const *c[] = {"tweety", "trendy", "frumpy", "crafty", "jumpy", "handy"}; args.push_back(std::string("--configuration=") + c[ch.draw(HOST, 6)]); }
    if (ch.chance(HOST, 1, 6)) { args.push_back("--heuristic=Berkmin"); }
    if (ch.chance(HOST, 1, 8)) { args.push_back("--lookahead=atom"); }
    if (ch.chance(HOST, 1, 8)) { args.push_back("--save-progress"); }
    auto mode = HostMode::All;
    if (!J->cli && !O.global && ch.chance(HOST, 1, 2)) {
        uint32_t k = ch.draw(HOST, 8);
        if (!S.project.empty()) { mode = HostMode::Project; }
        else if (!S.costs.empty()) { mode = S.nsteps() > 1 || S.calls[0].size() > 1 ? HostMode::All : k < 4 ? HostMode::Opt : k < 7 ? HostMode::OptN : HostMode::Enum; }
        else if (k < 2 && (NT == 1 || (S.nsteps() == 1 && S.calls[0].size() == 1))) { mode = k == 0 ? HostMode::Brave : HostMode::Cautious; }
    }
    X->mode.k = mode;
    switch (mode) {
        case HostMode::Brave: args.push_back("--enum-mode=brave"); break;
        case HostMode::Cautious: args.push_back("--enum-mode=cautious"); break;
        case HostMode::Project:
            args.push_back("--project=project");
            if (!S.costs.empty()) { args.push_back("--opt-mode=ignore"); }
            break;
        case HostMode::Enum: X->mode.bound = static_cast<long>(ch.draw(HOST, 6)) - 1; args.push_back(fmt("--opt-mode=enum,%ld", X->mode.bound)); break;
        case HostMode::Opt:
        case HostMode::OptN: {
            // (core guided strategies of the host do not end on some programs, with or without a theory)
            static char const *st[] = {"bb,lin", "bb,hier", "bb,inc", "bb,dec"};
            args.push_back(mode == HostMode::Opt ? "--opt-mode=opt" : "--opt-mode=optN");
            args.push_back(std::string("--opt-strategy=") + st[ch.draw(HOST, 4)]);
            break;
        }
        default: if (!S.costs.empty() || ch.chance(HOST, 1, 8)) { args.push_back("--opt-mode=ignore"); }
    }
    J->mode = J->mode_all = X->mode;
    if (mode != HostMode::Brave && mode != HostMode::Cautious && ch.chance(HOST, 1, 4)) { args.push_back("--enum-mode=record"); }
    if (ch.chance(HOST, 1, 3)) { args.push_back(fmt("--sat-prepro=%u", 1 + ch.draw(HOST, 2))); }
    // The equivalence preprocessing of the host maps conjunctive conditions of theory elements to wrong literals (see
    // DESIGN.md). With explicit settings other than 0, as some configurations have them, it crashes on some programs.
    bool no_eq = ch.chance(HOST, 1, 4);
    if (S.conjunctive_conditions() || no_eq || conf_eq) { args.push_back("--eq=0"); }
    if (NT > 1) { args.push_back(fmt("-t%d%s", NT, ch.chance(HOST, 1, 4) ? ",split" : "")); if (ch.chance(HOST, 1, 3)) { args.push_back("--integrate=gp,1024"); } if (ch.chance(HOST, 1, 3)) { args.push_back("--distribute=all,4"); } }
}

void arm(Choice &ch) {
    bool late = ch.chance(FAULT, 2, 3);
    uint64_t at = 1 + ch.draw(FAULT, 1u << (1 + ch.draw(FAULT, 12)));
    if (late) {
        arm_at = 3 + ch.draw(FAULT, 1u << (1 + ch.draw(FAULT, 6)));
        arm_nth = 1 + ch.draw(FAULT, 1u << (1 + ch.draw(FAULT, 4)));
        at = UINT64_MAX;
    }
    if (ch.chance(FAULT, 1, 2)) {
        arm_alloc = true;
        rt::alloc_armed = true;
        rt::alloc_fail_at = at;
        rt::alloc_sticky = ch.chance(FAULT, 1, 4);
        rt::on_alloc_fault = [] { if (!faulted) { C->ev("allocation %lu of the theory fails", rt::alloc_count); } faulted = true; ++fired; C->count(CNT_fault_alloc); };
    } else {
        api_fail_at = at;
    }
}


// ---------------------------------------------------------------- command line tool
struct Cli {
    clingo_application_t app{};
    void *data{nullptr};
    clingo_ast_callback_t ast{nullptr};
    void *ast_data{nullptr};
    clingo_solve_event_callback_t notify{nullptr};
    void *notify_data{nullptr};
    CallState cs;
    std::vector<ReportedModel> reported;
    bool main_called{false}, main_failed{false};
    size_t unprinted{SIZE_MAX}; // the first model whose printing failed
} cli;

template <class F> bool app_call(char const *what, F const &f) {
    Enter enter;
    C->where(what);
    if (strcmp(what, "main") != 0) { budget(what); }
    auto before = fired;
    bool r = false;
    {
        InLpx in;
        r = f();
    }
    cb_end();
    fired_before = before;
    C->ev("%s -> %d", what, static_cast<int>(r));
    return r;
}
bool cli_main(clingo_control_t *ctl, char const *const *files, size_t n, void *) {
    CTL = ctl;
    cli.main_called = true;
    bool r = app_call("main", [=] { return cli.app.main(ctl, files, n, cli.data); });
    cli.main_failed = !r;
    if (!r) { faulted = cb_failed = J->quiet = true; }
    return r;
}
bool cli_printer(clingo_model_t const *m, clingo_default_model_printer_t p, void *pd, void *) {
    auto before = fired;
    bool r = app_call("printer", [=] { return cli.app.printer(m, p, pd, cli.data); });
    if (cb_failed && cli.unprinted == SIZE_MAX) { cli.unprinted = cli.reported.size(); } // the host prints models although passing them to the theory failed
    if (fired != before && cli.unprinted == SIZE_MAX) { cli.unprinted = cli.reported.size() - 1; }
    return r;
}
bool cli_register(clingo_options_t *o, void *) { return app_call("register_options", [=] { return cli.app.register_options(o, cli.data); }); }
bool cli_validate(void *) { return app_call("validate_options", [=] { return cli.app.validate_options(cli.data); }); }
char const *cli_name(void *) { return cli.app.program_name(cli.data); }
char const *cli_version(void *) { return cli.app.version(cli.data); }
unsigned cli_limit(void *) { return cli.app.message_limit(cli.data); }
void cli_logger(clingo_warning_t c, char const *m, void *) { cli.app.logger(c, m, cli.data); }
bool cli_ast(clingo_ast_t *a, void *) {
    InLpx in;
    budget("rewrite");
    bool r = cli.ast(a, cli.ast_data);
    cb_end();
    return r;
}
bool cli_event(clingo_solve_event_type_t type, void *ev, void *, bool *goon) {
    bool dummy = true;
    return event(type, ev, cli.cs, goon, [&] { return cli.notify == nullptr || cli.notify(type, ev, cli.notify_data, &dummy); });
}
} // namespace

int lpx_app_main(int argc, char **argv);
extern "C" {
int __real_clingo_main(clingo_application_t *app, char const *const *arguments, size_t size, void *data);
int __wrap_clingo_main(clingo_application_t *app, char const *const *arguments, size_t size, void *data) {
    cli.app = *app;
    cli.data = data;
    static clingo_application_t shim;
    shim = {app->program_name != nullptr ? cli_name : nullptr, app->version != nullptr ? cli_version : nullptr, app->message_limit != nullptr ? cli_limit : nullptr,
            app->main != nullptr ? cli_main : nullptr, app->logger != nullptr ? cli_logger : nullptr, app->printer != nullptr ? cli_printer : nullptr,
            app->register_options != nullptr ? cli_register : nullptr, app->validate_options != nullptr ? cli_validate : nullptr};
    Blocking out;
    return __real_clingo_main(&shim, arguments, size, nullptr);
}
bool __real_clingolpx_create(clingolpx_theory_t **theory);
bool __wrap_clingolpx_create(clingolpx_theory_t **theory) {
    bool r = __real_clingolpx_create(theory);
    if (r) { TH = *theory; }
    return r;
}
bool __real_clingo_ast_parse_files(char const *const *files, size_t size, clingo_ast_callback_t cb, void *data, clingo_control_t *control, clingo_logger_t logger, void *logger_data, unsigned limit);
bool __wrap_clingo_ast_parse_files(char const *const *files, size_t size, clingo_ast_callback_t cb, void *data, clingo_control_t *control, clingo_logger_t logger, void *logger_data, unsigned limit) {
    if (api_fault("ast_parse_files")) { return false; }
    cli.ast = cb;
    cli.ast_data = data;
    Blocking out;
    return __real_clingo_ast_parse_files(files, size, cli_ast, nullptr, control, logger, logger_data, limit);
}
bool __real_clingo_control_ground(clingo_control_t *c, clingo_part_t const *parts, size_t n, clingo_ground_callback_t cb, void *data);
bool __wrap_clingo_control_ground(clingo_control_t *c, clingo_part_t const *parts, size_t n, clingo_ground_callback_t cb, void *data) {
    if (api_fault("control_ground")) { return false; }
    Blocking out;
    return __real_clingo_control_ground(c, parts, n, cb, data);
}
bool __real_clingo_control_solve(clingo_control_t *c, clingo_solve_mode_bitset_t mode, clingo_literal_t const *ass, size_t n, clingo_solve_event_callback_t notify, void *data, clingo_solve_handle_t **handle);
bool __wrap_clingo_control_solve(clingo_control_t *c, clingo_solve_mode_bitset_t mode, clingo_literal_t const *ass, size_t n, clingo_solve_event_callback_t notify, void *data, clingo_solve_handle_t **handle) {
    if (rt::in_lpx <= 0) { return __real_clingo_control_solve(c, mode, ass, n, notify, data, handle); }
    if (api_fault("control_solve")) { return false; }
    cli.notify = notify;
    cli.notify_data = data;
    C->where("solve");
    J->begin_call(0, S.calls[0][0]);
    C->count(CNT_solves);
    Blocking out;
    return __real_clingo_control_solve(c, mode, ass, n, cli_event, nullptr, handle);
}
bool __real_clingo_solve_handle_get(clingo_solve_handle_t *h, clingo_solve_result_bitset_t *res);
bool __wrap_clingo_solve_handle_get(clingo_solve_handle_t *h, clingo_solve_result_bitset_t *res) {
    if (api_fault("solve_handle_get")) { return false; }
    Blocking out;
    return __real_clingo_solve_handle_get(h, res);
}
bool __real_clingo_solve_handle_close(clingo_solve_handle_t *h);
void _exit(int code) {
    if (interrupting) { interrupting = false; C->ev("the host exits"); C->count(CNT_host_terminated); finish_run(); }
    syscall(SYS_exit_group, code);
    __builtin_unreachable();
}
void _Exit(int code) { _exit(code); }
// the files read are in memory, which the host does not find if it follows the links to them
char *canonicalize_file_name(char const *path) { return strncmp(path, "/proc/self/fd/", 14) == 0 ? strdup(path) : realpath(path, nullptr); }
bool __wrap_clingo_solve_handle_close(clingo_solve_handle_t *h) {
    Blocking out;
    return __real_clingo_solve_handle_close(h);
}
}

namespace {
int memory_file(std::string const &text) {
    int fd = memfd_create("program", 0);
    if (fd < 0 || write(fd, text.data(), text.size()) != static_cast<ssize_t>(text.size()) || lseek(fd, 0, SEEK_SET) != 0) { harness_error("memfd"); }
    int r = fcntl(fd, F_DUPFD, 60);
    close(fd);
    return r;
}
std::vector<std::string> split_tokens(std::string const &l) {
    std::vector<std::string> r;
    std::string c;
    bool str = false, esc = false;
    for (char x : l) {
        if (x == '"' && !esc) { str = !str; }
        esc = str && x == '\\' && !esc;
        if (x == ' ' && !str) { if (!c.empty()) { r.push_back(c); } c.clear(); continue; }
        c += x;
    }
    if (!c.empty()) { r.push_back(c); }
    std::sort(r.begin(), r.end());
    return r;
}
struct Block { long number{0}; std::vector<std::string> atoms, values; std::string opt; bool has_opt{false}; bool complete{false}; };

void run_cli(RunCtx &ctx, Profile const &P) {
    auto &ch = ctx.ch;
    auto const &call = S.calls[0][0];
    ctx.count(CNT_cli_runs);
    // arguments
    std::vector<std::string> args{"clingo-lpx"};
    host_args(ctx, args);
    args.push_back(std::to_string(call.limit));
    if (ch.chance(HOST, 1, 3)) { args.push_back("--stats=2"); }
    if (S.strict) { args.push_back("--strict"); }
    if (O.conflicts) { args.push_back("--propagate-conflicts"); }
    if (O.bounds != 0 || ch.chance(HOST, 1, 4)) { args.push_back(std::string("--propagate-bounds=") + O.bnd()); }
    if (O.select != 0 || ch.chance(HOST, 1, 4)) { args.push_back(std::string("--select=") + O.sel()); }
    if (O.store != 0 || ch.chance(HOST, 1, 4)) { args.push_back(std::string("--store=") + O.sto()); }
    if (O.global) { args.push_back("--objective=global" + (O.step_text.empty() ? std::string() : "," + O.step_text)); }
    else if (ch.chance(HOST, 1, 4)) { args.push_back("--objective=local"); }
    for (auto &a : args) { // values of options are not case sensitive
        auto eq = a.find('=');
        bool own = a.rfind("--select=", 0) == 0 || a.rfind("--store=", 0) == 0 || a.rfind("--propagate-bounds=", 0) == 0 || a.rfind("--objective=", 0) == 0;
        if (own && ch.chance(HOST, 1, 6)) { std::transform(a.begin() + static_cast<long>(eq), a.end(), a.begin() + static_cast<long>(eq), [](char c) { return static_cast<char>(toupper(c)); }); }
    }
    uint32_t quiet = ch.draw(HOST, 8);
    if (quiet == 6) { args.push_back("-q1"); }
    if (quiet == 7) { args.push_back("-q"); }
    // faults
    bool must_fail = S.bad_step >= 0, stop_run = ch.draw(FAULT, 100) < static_cast<uint32_t>(P.stop_pct), full = false;
    size_t room = 0;
    int missing = -1;
    if (ch.draw(FAULT, 100) < static_cast<uint32_t>(P.fault_pct)) {
        uint32_t k = ch.draw(FAULT, 8);
        static char const *bad[] = {"--objective=globe", "--objective=global,", "--objective=global,x", "--objective=global,1/0", "--objective=", "--select=matched", "--store=all", "--propagate-bounds=some",
                                    "--strict=3", "--no-such-option", "--select=", "--objective=global;1"};
        if (k == 5) { args.emplace_back(bad[ch.draw(FAULT, 12)]); must_fail = true; ctx.count(CNT_fault_malformed); }
        else if (k == 6) { missing = static_cast<int>(ch.draw(FAULT, 2)); must_fail = true; ctx.count(CNT_fault_file); }
        else if (k == 7) { full = true; room = ch.draw(FAULT, 1u << (1 + ch.draw(FAULT, 11))); ctx.count(CNT_fault_disk); }
        else { arm(ch); }
    }
    if (stop_run) { stop_at = callbacks + 1 + ch.draw(FAULT, 1u << (1 + ch.draw(FAULT, 7))); }
    // program in one or two files or on standard input
    auto text = S.step_text(0);
    uint32_t show = ch.draw(HOST, 6);
    if (show == 3) { text += "#show c/1.\n"; }
    if (show == 4) { text += "#show.\n"; }
    if (show == 5) { text += "#show t(X,\"a b\",-X) : c(X).\n"; }
    if (show >= 3 && ctx.trace) { ctx.ev("shows %s", show == 3 ? "c/1" : show == 4 ? "nothing" : "t(X,\"a b\",-X) : c(X), too"); }
    std::vector<std::string> files{text};
    if (ch.chance(HOST, 1, 3)) {
        size_t cut = 0;
        for (uint32_t i = 0, e = ch.draw(HOST, 8); i < e; ++i) { auto p = text.find(".\n", cut); if (p == std::string::npos) { break; } cut = p + 2; }
        files = {text.substr(0, cut), text.substr(cut)};
    }
    for (size_t i = 0; i < files.size(); ++i) {
        if (missing == static_cast<int>(i) || (missing == 1 && files.size() == 1)) { args.push_back("/nonexistent/program.lp"); if (files.size() > 1 || missing == 0) { continue; } }
        int fd = memory_file(files[i]);
        if (i == 0 && ch.chance(HOST, 1, 4)) { dup2(fd, 0); args.push_back("-"); } else { args.push_back(fmt("/proc/self/fd/%d", fd)); }
    }
    std::string al;
    std::vector<char *> av;
    for (auto &a : args) { av.push_back(a.data()); al += " " + a; }
    av.push_back(nullptr);
    ctx.ev("%s%s", al.c_str(), full ? fmt(" > device with %zu bytes", room).c_str() : "");
    int out = memory_file("");
    dup2(out, 1);
    if (!ctx.trace) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
    if (full) {
        std::signal(SIGXFSZ, SIG_IGN);
        rlimit rl{room, room};
        setrlimit(RLIMIT_FSIZE, &rl);
    }
    std::signal(SIGABRT, [](int) { if (cb_failed && rt::in_lpx == 0) { C->ev("the host terminates"); C->count(CNT_host_terminated); finish_run(); } });
    cli.cs.reported = &cli.reported;
    int code = 0;
    {
        InLpx in;
        budget("start");
        try { code = lpx_app_main(static_cast<int>(av.size()) - 1, av.data()); }
        catch (...) { code = -1; } // main() itself ends with an exception: the process terminates, which is no exit code
    }
    sched::budget(INT64_MAX);
    rt::alloc_armed = false;
    api_fail_at = UINT64_MAX;
    fflush(stdout);
    std::string o;
    {
        struct ::stat sb {};
        fstat(out, &sb);
        o.resize(static_cast<size_t>(sb.st_size));
        if (pread(out, o.data(), o.size(), 0) != static_cast<ssize_t>(o.size())) { harness_error("pread"); }
    }
    // times are the only part of the output that is not determined by the seed
    std::vector<std::string> lines;
    for (size_t i = 0; i < o.size();) {
        auto e = o.find('\n', i);
        auto l = o.substr(i, e == std::string::npos ? std::string::npos : e - i);
        lines.push_back(l);
        i = e == std::string::npos ? o.size() : e + 1;
    }
    bool truncated = !o.empty() && o.back() != '\n';
    std::vector<Block> blocks;
    std::string verdict;
    std::string models;
    long pivots = -1, bounds = -1;
    for (size_t i = 0; i < lines.size(); ++i) {
        auto const &l = lines[i];
        if (l.rfind("Answer: ", 0) == 0) {
            Block b;
            b.number = strtol(l.c_str() + 8, nullptr, 10);
            if (i + 3 < lines.size() && lines[i + 2] == "Assignment:") {
                b.atoms = split_tokens(lines[i + 1]);
                b.values = split_tokens(lines[i + 3]);
                b.complete = i + 4 < lines.size() || !truncated;
                i += 3;
                if (i + 1 < lines.size() && lines[i + 1].rfind("Optimization: ", 0) == 0) {
                    b.has_opt = true;
                    b.opt = lines[++i].substr(14);
                    b.complete = i + 1 < lines.size() || !truncated;
                }
            }
            blocks.push_back(b);
        }
        if (l == "SATISFIABLE" || l == "UNSATISFIABLE" || l == "UNKNOWN") { verdict = l; }
        if (l.rfind("Models       : ", 0) == 0) { models = l.substr(15); }
        auto key = [&](char const *k, long &v) { auto p = l.find(k); if (p != std::string::npos && l.find(':', p) != std::string::npos) { v = strtol(l.c_str() + l.find(':', p) + 1, nullptr, 10); } };
        key("Pivots", pivots);
        key("Bounds propagated", bounds);
    }
    auto &judge = *J;
    bool stopped = stop_at != UINT64_MAX && callbacks >= stop_at;
    ctx.ev("exit code %d, %zu answers printed, %zu reported, %s, models %s", code, blocks.size(), cli.reported.size(), verdict.c_str(), models.c_str());
    if (judge.call == nullptr) { judge.call = &S.calls[0][0]; }
    int base = code & ~1;
    bool claims = base == 0 || base == 10 || base == 20 || base == 30; // no failure
    if (code == 1 && !cli.main_called) { claims = false; } // rejected options
    bool fault_fired = ctx.slot->cnt[CNT_fault_alloc] + ctx.slot->cnt[CNT_fault_api] > 0;
    auto bad = [&](char const *kind, std::string const &m) { judge.res("C15", kind, m); };
    if (claims && !stopped) {
        if (fault_fired) { bad("failure-hidden", fmt("exit code %d although a call the tool depends on failed", code)); }
        if (must_fail && !(S.bad_step >= 0 && code == 20 && missing < 0 && !ctx.slot->cnt[CNT_fault_malformed])) { bad("failure-hidden", fmt("exit code %d although the input cannot be processed%s%s", code, S.bad_step >= 0 ? ": " : "", S.bad_text.c_str())); }
        if (cli.main_failed) { bad("failure-hidden", fmt("exit code %d although the main function failed", code)); }
    }
    bool failing = fault_fired || must_fail || full;
    if (!claims && !failing && !stopped) { bad("spurious-failure", fmt("exit code %d without a failure", code)); }
    if (fault_fired || must_fail || cli.main_failed) { ctx.count(CNT_errors_reported, claims ? 0 : 1); }
    // answers: complete unless the run says it failed
    size_t want = quiet == 7 ? 0 : quiet == 6 ? std::min<size_t>(1, cli.reported.size()) : cli.reported.size();
    for (size_t i = 0; i < blocks.size(); ++i) {
        auto const &b = blocks[i];
        if (!claims && (full || i >= cli.unprinted || (quiet == 6 && cli.unprinted != SIZE_MAX))) { break; } // what is printed once printing failed has no meaning
        size_t k = quiet == 6 ? cli.reported.size() - 1 : i;
        if (k >= cli.reported.size() || i >= want) { bad("invented-answer", fmt("answer %ld was printed but not reported", b.number)); break; }
        auto const &m = cli.reported[k];
        if (!b.complete) {
            if (claims || !(full || fault_fired || stopped)) { bad("incomplete-answer", fmt("answer %ld is printed incompletely, exit code %d", b.number, code)); }
            continue;
        }
        if ((claims || NT == 1) && b.number != static_cast<long>(k) + 1) { bad("numbering", fmt("answer %zu is printed as answer %ld", k + 1, b.number)); }
        std::vector<std::string> atoms, values;
        for (size_t j = 0; j < S.bools.size(); ++j) { 
            if (!m.val[j]) { continue; }
            auto const &n = S.bools[j].name;
            bool c = n.rfind("c(", 0) == 0;
            if (show < 3 || show == 5 || (show == 3 && c)) { atoms.push_back(n); }
            if (show == 5 && c) { auto x = n.substr(2, n.size() - 3); atoms.push_back("t(" + x + ",\"a b\"," + (x == "0" ? "" : "-") + x + ")"); }
        }
        for (auto const &[n, v] : m.lpx) { values.push_back(n + "=" + v); }
        std::sort(atoms.begin(), atoms.end());
        std::sort(values.begin(), values.end());
        std::string opt = m.has_obj ? m.obj + (m.bounded ? " [bounded]" : " [unbounded]") : "";
        if (b.atoms != atoms || b.values != values) { bad("wrong-answer", fmt("answer %ld is printed with other atoms or values than reported", b.number)); }
        if (b.has_opt != m.has_obj || b.opt != opt) { bad("wrong-objective", fmt("answer %ld is printed with objective '%s' instead of '%s'", b.number, b.opt.c_str(), opt.c_str())); }
    }
    if (claims && blocks.size() < want) { bad("lost-answer", fmt("%zu of %zu answers were printed, exit code %d", blocks.size(), want, code)); }
    if (claims && !failing && cli.main_called) {
        bool sat = base == 10 || base == 30, unsat = base == 20, exhausted = base == 20 || base == 30;
        bool interrupted = stopped || (code & 1) != 0;
        judge.end_call(sat, unsat, exhausted, interrupted);
        auto v = sat ? "SATISFIABLE" : unsat ? "UNSATISFIABLE" : "UNKNOWN";
        if (verdict != v) { bad("verdict", fmt("exit code %d but '%s' is printed", code, verdict.c_str())); }
        // (with several threads, the number printed by the host is not reliable)
        if (NT == 1 && strtoul(models.c_str(), nullptr, 10) != cli.reported.size()) { bad("verdict", fmt("%zu models were reported but '%s' are printed", cli.reported.size(), models.c_str())); }
        if (cli.cs.have_stats) {
            judge_stats(cli.cs);
            if (pivots >= 0 && pivots != static_cast<long>(cli.cs.acc_p)) { judge.res("C14", "printed", fmt("%ld pivots printed instead of %g", pivots, cli.cs.acc_p)); }
            if (bounds >= 0 && bounds != static_cast<long>(cli.cs.acc_b)) { judge.res("C14", "printed", fmt("%ld bounds printed instead of %g", bounds, cli.cs.acc_b)); }
        }
    }
    if (code == -1 && !fault_fired) { bad("exception", "main ends with an exception"); }
    ctx.slot->nontrivial = failing || (ctx.slot->cnt[CNT_models] > 0 && ctx.slot->cnt[CNT_conflicts] > 0);
    ctx.slot->sched = NT > 1 ? sched::sched_hash : ctx.slot->hash;
    ctx.count(CNT_context_switches, sched::switches);
    ctx.count(CNT_preemptions, sched::preemptions);
    ctx.count(CNT_lock_waits, sched::lock_waits);
    ctx.count(CNT_races_checked, sched::raced);
    ctx.ev("done");
}

void prepare(RunCtx &ctx, Profile const &P) {
    X->args = {"0", "--stats=2"};
    host_args(ctx, X->args);
    std::string al;
    for (auto const &a : X->args) { al += " " + a; }
    ctx.ev("clingo%s", al.c_str());
}
void drive(RunCtx &ctx, Profile const &P) { // one system from its creation to its end
    auto &judge = *J;
    auto &ch = ctx.ch;
    std::vector<char const *> av;
    for (auto const &a : X->args) { av.push_back(a.c_str()); }
    bool stop_run = ch.draw(FAULT, 100) < static_cast<uint32_t>(P.stop_pct);
    bool fault_run = ch.draw(FAULT, 100) < static_cast<uint32_t>(P.fault_pct);
    if (fault_run) { arm(ch); }
    // The host may call back once more from a context in which it cannot report failures; it then ends the process.
    std::signal(SIGABRT, [](int) { if (cb_failed && rt::in_lpx == 0) { C->ev("the host terminates"); C->count(CNT_host_terminated); finish_run(); } });

    if (!clingo_control_new(av.data(), av.size(), quiet_logger, nullptr, 20, &CTL)) { harness_error("control_new"); }
    bool ok = true;
    {
        InLpx in;
        budget("create");
        ok = clingolpx_create(&TH);
    }
    if (!ok) { if (!faulted) { judge.res("C11", "spurious-error", "creating the theory failed without a fault"); } finish_run(); }
    {
        InLpx in;
        ok = configure(O, P.sc.malformed) && clingolpx_validate_options(TH);
        if (ok) {
            budget("register");
            ok = clingolpx_register(TH, CTL);
        }
    }
    char const *err = nullptr;
    bool failed = !ok;
    int n_solve = 0;
    bool vary = NT > 1 && ch.chance(HOST, 1, 4);
    for (int st = 0; st < S.nsteps() && !failed; ++st) {
        auto part = fmt("s%d", st);
        auto body = S.step_text(st);
        clingo_part_t parts[2] = {{"base", nullptr, 0}, {part.c_str(), nullptr, 0}};
        if (!clingo_control_add(CTL, part.c_str(), nullptr, 0, body.c_str()) || !clingo_control_ground(CTL, st == 0 ? parts : parts + 1, st == 0 ? 2 : 1, nullptr, nullptr)) {
            if (!S.bad_ground || S.bad_step != st) { harness_error("ground"); }
            ctx.count(CNT_errors_reported);
            ctx.ev("grounding fails");
            failed = true;
            break;
        }
        {
            InLpx in;
            if (!clingolpx_prepare(TH, CTL)) { judge.res("C11", "spurious-error", "clingolpx_prepare failed"); }
        }
        for (auto const &call : S.calls[st]) {
            for (auto const &[v, x] : call.ext) {
                clingo_literal_t lit = 0;
                if (S.bools[v].step > st || !lookup(CTL, S.bools[v].name, lit)) { continue; }
                bool r = x == 3 ? clingo_control_release_external(CTL, lit)
                                : clingo_control_assign_external(CTL, lit, x == 0 ? clingo_truth_value_false : x == 1 ? clingo_truth_value_true : clingo_truth_value_free);
                if (!r) { harness_error("external"); }
            }
            std::vector<clingo_literal_t> ass;
            bool dropped = false;
            for (auto const &l : call.assume) {
                clingo_literal_t lit = 0;
                if (!lookup(CTL, S.bools[l.v].name, lit)) { // the host dropped the atom because it is false
                    if (l.neg) { continue; }
                    dropped = true;
                    break;
                }
                ass.push_back(l.neg ? -lit : lit);
            }
            if (dropped) { judge.mean.apply(call); continue; }
            clingo_configuration_t *cf = nullptr;
            clingo_id_t root = 0, k = 0;
            if (!clingo_control_configuration(CTL, &cf) || !clingo_configuration_root(cf, &root) || !clingo_configuration_map_at(cf, root, "solve.models", &k) ||
                !clingo_configuration_value_set(cf, k, std::to_string(X->mode.k == HostMode::All ? call.limit : 0).c_str())) { harness_error("models"); }
            if (NT > 1 && vary) { // the number of threads may change between calls
                auto n = 1 + ch.draw(HOST, static_cast<uint32_t>(NT));
                if (!clingo_configuration_map_at(cf, root, "solve.parallel_mode", &k) || !clingo_configuration_value_set(cf, k, std::to_string(n).c_str())) { harness_error("threads"); }
                ctx.ev("%u thread(s)", n);
                ctx.count(CNT_thread_changes);
            }
            CallState cs;
            stop_at = UINT64_MAX;
            if (stop_run && ch.chance(FAULT, 1, 2)) {
                if (ch.chance(FAULT, 1, 2)) {
                    stop_at = callbacks + 1 + ch.draw(FAULT, 1u << (1 + ch.draw(FAULT, 7)));
                } else {
                    cs.cancel_after = 1 + static_cast<int>(ch.draw(FAULT, 4));
                }
            }
            int mode = ch.chance(HOST, 1, 4) ? 1 : 0;
            if (async_ok && ch.chance(HOST, 1, 3)) { mode += 2; }
            bool yield = (mode & 1) != 0, async = mode > 1;
            int cancel_at = -1; // scheduling points of the main thread until it cancels
            if (stop_run && async && ch.chance(FAULT, 1, 2)) { cancel_at = static_cast<int>(ch.draw(FAULT, 1u << (1 + ch.draw(FAULT, 7)))); }
            judge.begin_call(st, call);
            bound_clauses = false_clauses = pivots_done = 0;
            ctx.count(CNT_solves);
            if (X->mode.k != HostMode::All) { ctx.count(CNT_host_modes); }
            ctx.where("solve");
            clingo_solve_handle_t *h = nullptr;
            clingo_solve_result_bitset_t res = 0;
            bool r = clingo_control_solve(CTL, static_cast<clingo_solve_mode_bitset_t>(mode_bits(yield, async)), ass.data(), ass.size(), on_event, &cs, &h);
            if (r && cancel_at >= 0) {
                for (int i = 0; i < cancel_at; ++i) {
                    bool ready = false;
                    clingo_solve_handle_wait(h, 0, &ready);
                    if (ready) { break; }
                    sched_yield();
                }
                ctx.ev("cancel");
                ctx.count(CNT_fault_cancel);
                cs.cancelled = true;
                r = clingo_solve_handle_cancel(h);
            } else if (r && yield) {
                while (r) {
                    clingo_model_t const *m = nullptr;
                    r = clingo_solve_handle_resume(h) && clingo_solve_handle_model(h, &m);
                    if (!r || m == nullptr) { break; }
                    ReportedModel rm;
                    sched::Hold hold;
                    if (read_model(m, rm)) { judge.check_index(TH, rm); }
                }
            }
            if (r) { r = clingo_solve_handle_get(h, &res); }
            if (!r) { err = clingo_error_message(); ctx.ev("solve failed: %s", err != nullptr ? err : ""); }
            if (h != nullptr) {
                bool c = clingo_solve_handle_close(h);
                if (!c && r) { err = clingo_error_message(); r = false; ctx.ev("closing failed: %s", err != nullptr ? err : ""); }
            }
            ++n_solve;
            if (!r) {
                failed = true;
                ctx.count(CNT_errors_reported);
                if (!faulted && S.bad_step < 0) { judge.res("C11", "spurious-error", fmt("solve failed without a fault: %s", err != nullptr ? err : "")); }
                break;
            }
            if (cb_failed && NT > 1 && (cs.cancelled || (stop_at != UINT64_MAX && callbacks >= stop_at))) { failed = true; break; } // the host discards errors of stopped threads
            if (cb_failed && cs.cancelled) { failed = true; break; }
            if (cb_failed) { judge.res("C11", "error-swallowed", "a failing callback did not make solving fail"); }
            if (S.bad_step >= 0 && S.bad_step <= st && !faulted && (res & clingo_solve_result_unsatisfiable) == 0) {
                judge.res("C11", "malformed-accepted", "solving succeeded although the program contains " + S.bad_text);
            }
            bool interrupted = (res & clingo_solve_result_interrupted) != 0 || cs.cancelled;
            if (stop_at != UINT64_MAX && callbacks >= stop_at) { interrupted = true; }
            judge.end_call((res & clingo_solve_result_satisfiable) != 0, (res & clingo_solve_result_unsatisfiable) != 0, (res & clingo_solve_result_exhausted) != 0, interrupted);
            judge_stats(cs);
        }
    }
    if (!faulted && failed && S.bad_step < 0 && n_solve == 0) { judge.res("C11", "spurious-error", "registration failed without a fault"); }
    if (faulted && !failed) { ctx.ev("fault had no visible effect"); }
    rt::alloc_armed = false;
    api_fail_at = UINT64_MAX;
    ctx.where("destroy");
    clingo_control_free(CTL);
    if (!clingolpx_destroy(TH)) { judge.res("C11", "destroy", "destroying the theory failed"); }
    W.data = nullptr;
    TH = nullptr; // what only the dead theory refers to is lost
    if (faulted) { ctx.slot->nontrivial = true; }
}

void run(RunCtx &ctx) {
    auto const &P = *find_profile(ctx.profile);
    sched::user = &systems[0];
    if (P.systems > 1) { n_sys = P.systems - static_cast<int>(ctx.ch.draw(HOST, 3) != 0); }
    for (int i = 0; i < n_sys; ++i) {
        sched::user = &systems[i];
        generate(ctx, P);
    }
    sched::user = &systems[0];
    start_scheduler(ctx);
    if (P.cli) { run_cli(ctx, P); return; }
    for (int i = 0; i < n_sys; ++i) {
        sched::user = &systems[i];
        prepare(ctx, P);
    }
    // further systems in threads of their own
    static RunCtx *rc = &ctx;
    pthread_t th[MAX_SYS];
    for (int i = 1; i < n_sys; ++i) {
        sched::user = &systems[i];
        pthread_create(&th[i], nullptr, [](void *) -> void * { drive(*rc, *find_profile(rc->profile)); return nullptr; }, nullptr);
    }
    sched::user = &systems[0];
    drive(ctx, P);
    for (int i = 1; i < n_sys; ++i) { pthread_join(th[i], nullptr); }
    size_t n = 0, bytes = 0;
    rt::leaked(n, bytes);
    if (n > 0) {
        auto msg = fmt("%zu blocks (%zu bytes) are lost after everything has been released", n, bytes);
        ctx.violation("C11", "leak", msg);
        if (n_sys > 1) { ctx.violation("C21", "leak", msg); }
    }
    ctx.slot->nontrivial = ctx.slot->nontrivial != 0 || (ctx.slot->cnt[CNT_models] > 0 && ctx.slot->cnt[CNT_conflicts] > 0);
    ctx.slot->sched = NT > 1 || n_sys > 1 ? sched::sched_hash : ctx.slot->hash;
    ctx.count(CNT_context_switches, sched::switches);
    ctx.count(CNT_preemptions, sched::preemptions);
    ctx.count(CNT_lock_waits, sched::lock_waits);
    ctx.count(CNT_races_checked, sched::raced);
    ctx.ev("done");
}

bool known(std::string const &p) { return find_profile(p) != nullptr; }

} // namespace

int main(int argc, char **argv) { return runner_main(argc, argv, "simb", run, known); }
