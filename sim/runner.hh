// Seeded batch runner: one forked process per simulated run, replay, minimisation.
#pragma once
#include "base.hh"

#include <map>
#include <set>

namespace sim {

#define SIM_COUNTERS(X)                                                                                                \
    X(models) X(solves) X(propagate_calls) X(check_calls) X(undo_calls) X(decide_calls) X(init_calls) X(on_model_calls)                                     \
    X(clauses) X(clauses_oracle) X(init_clauses) X(conflicts) X(fixpoints_checked) X(total_checked) X(values_checked) X(lps)                          \
    X(optima_checked) X(unbounded) X(strict_models) X(objective_models) X(dyn_literals) X(global_runs) X(answers_compared)                            \
    X(multi_steps) X(threads2) X(threads3) X(restarts) X(backjumps) X(random_jumps) X(deferred_clauses) X(learnt) X(shared_clauses)                                    \
    X(context_switches) X(preemptions) X(lock_waits) X(races_checked) X(fault_alloc) X(fault_api) X(fault_interrupt) X(fault_cancel) X(fault_limit)     \
    X(fault_unwind) X(fault_malformed) X(fault_file) X(fault_disk) X(errors_reported) X(fault_delay_share) X(fault_drop_share) X(fault_dup_report) X(fault_reorder)                                 \
    X(lpx_steps) X(sim_events) X(pivots) X(bounds_propagated) X(stats_checked) X(index_queries) X(option_sets) X(cli_runs) X(thread_changes) X(max_cb_steps) X(max_callbacks) X(max_run_steps)              \
    X(sat_calls) X(unsat_calls) X(stopped_calls) X(skipped) X(host_terminated) X(stale_models) X(fixpoints) X(pivots_counted) X(host_modes)

enum Counter {
#define X(n) CNT_##n,
    SIM_COUNTERS(X)
#undef X
        NCOUNTER
};

struct Viol {
    char prop[8];
    char kind[48];
    char msg[1024];
};

struct Slot {
    uint32_t done;
    uint32_t nviol;
    Viol viol[24];
    uint64_t hash;
    uint64_t sched;
    uint64_t prog;
    uint32_t nontrivial;
    uint64_t cnt[NCOUNTER];
    char where[256]; // last location, for crashes
    char sample[1500];
    StreamBuf st;
};

struct RunCtx {
    Choice ch;
    Slot *slot{nullptr};
    bool trace{false};
    FILE *out{stdout}; // of the trace
    std::string profile;
    void violation(char const *prop, char const *kind, std::string const &msg);
    void ev(char const *f, ...) __attribute__((format(printf, 2, 3))); // logged and hashed event
    void count(Counter c, uint64_t n = 1) { slot->cnt[c] += n; }
    void where(char const *w) { strncpy(slot->where, w, sizeof(slot->where) - 1); }
};

extern RunCtx *g;

using RunFn = void (*)(RunCtx &ctx);
int runner_main(int argc, char **argv, char const *simname, RunFn fn, bool (*known_profile)(std::string const &));
[[noreturn]] void finish_run(); // ends the current run immediately (from anywhere)

} // namespace sim
