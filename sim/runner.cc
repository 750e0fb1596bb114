#include "rt.hh"
#include "runner.hh"

#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

RunCtx *g = nullptr;

static char const *counter_names[] = {
#define X(n) #n,
    SIM_COUNTERS(X)
#undef X
};

void RunCtx::violation(char const *prop, char const *kind, std::string const &msg) {
    ev("VIOLATION %s %s: %s", prop, kind, msg.c_str());
    for (uint32_t i = 0; i < slot->nviol; ++i) {
        if (strcmp(slot->viol[i].prop, prop) == 0) { return; }
    }
    if (slot->nviol < 24) {
        auto &v = slot->viol[slot->nviol];
        snprintf(v.prop, sizeof(v.prop), "%s", prop);
        snprintf(v.kind, sizeof(v.kind), "%s", kind);
        snprintf(v.msg, sizeof(v.msg), "%s", msg.c_str());
        ++slot->nviol;
    }
}

void RunCtx::ev(char const *f, ...) {
    char buf[3000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof(buf), f, ap);
    va_end(ap);
    slot->hash = hash_bytes(buf, strlen(buf), slot->hash * 31 + 7);
    ++slot->cnt[CNT_sim_events];
    if (trace) {
        if (getenv("SIM_STEPS") != nullptr) { fprintf(out, "[%lu] ", rt::steps); }
        fputs(buf, out);
        fputc('\n', out);
        fflush(out);
    }
}

void finish_run() {
    if (g->trace) { fflush(g->out); }
    g->slot->done = 1;
    _exit(0);
}

namespace {

double now() {
    timespec ts{};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

struct Outcome {
    bool crash{false};
    bool harness{false};
    std::string detail;
    std::vector<Viol> viols;
    uint64_t hash{0};
};

struct Input {
    bool replay{false};
    uint64_t seed{0};
    std::vector<uint32_t> st[NSTREAM];
};

void reset_slot(Slot *s) {
    for (auto &l : s->st.len) { l = 0; }
    memset(s, 0, offsetof(Slot, st));
    s->hash = 14695981039346656037ull;
}

Outcome execute(RunFn fn, Slot *slot, std::string const &profile, Input const &in, bool trace) {
    reset_slot(slot);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        rlimit rl{60, 60}; // the simulator ends runs by their number of steps long before
        setrlimit(RLIMIT_CPU, &rl);
        rlimit ra{4ul << 30, 4ul << 30};
        setrlimit(RLIMIT_AS, &ra);
        alarm(200); // only threads blocked outside the scheduler get here: a harness failure
        rlimit rc{0, 0};
        setrlimit(RLIMIT_CORE, &rc);
        if (!trace) {
            int fd = open("/dev/null", O_WRONLY);
            if (getenv("SIM_STDERR") == nullptr) { dup2(fd, 2); }
            dup2(fd, 1);
        }
        RunCtx ctx;
        ctx.slot = slot;
        ctx.trace = trace;
        if (trace) { ctx.out = fdopen(dup(1), "w"); }
        ctx.profile = profile;
        ctx.ch.replay = in.replay;
        ctx.ch.out = &slot->st;
        if (in.replay) {
            for (int i = 0; i < NSTREAM; ++i) { ctx.ch.in[i] = in.st[i]; }
        } else {
            ctx.ch.seed(in.seed);
        }
        g = &ctx;
        fn(ctx);
        finish_run();
    }
    int st = 0;
    Outcome r;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    for (uint32_t i = 0; i < slot->nviol; ++i) { r.viols.push_back(slot->viol[i]); }
    r.hash = slot->hash;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 96)) {
        r.harness = true;
        r.detail = fmt("harness failure %d at %s", WEXITSTATUS(st), slot->where);
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        r.harness = true;
        r.detail = fmt("blocked at %s", slot->where);
    } else if (slot->done == 0 && r.viols.empty()) {
        r.crash = true;
        r.detail = WIFSIGNALED(st) ? fmt("killed by signal %d (%s) at %s", WTERMSIG(st), strsignal(WTERMSIG(st)), slot->where)
                                   : fmt("process exit %d at %s", WEXITSTATUS(st), slot->where);
    }
    return r;
}

// the violation of an outcome that concerns property prop; a crash concerns every property
bool concerns(Outcome const &o, std::string const &prop, std::string &kind, std::string &msg) {
    if (o.crash) {
        kind = "crash";
        msg = o.detail;
        return true;
    }
    for (auto const &v : o.viols) {
        if (prop == v.prop || prop == "ALL") {
            kind = v.kind;
            msg = fmt("[%s] ", v.prop) + v.msg;
            return true;
        }
    }
    return false;
}

std::string jstr(std::string const &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') { r += "\\n"; }
        else if (c < 32 || c > 126) { r += fmt("\\u%04x", c); }
        else { r += static_cast<char>(c); }
    }
    return r + "\"";
}

Input recorded(Slot const *s) {
    Input in;
    in.replay = true;
    for (int i = 0; i < NSTREAM; ++i) { in.st[i].assign(s->st.data[i], s->st.data[i] + s->st.len[i]); }
    return in;
}

struct Shrinker {
    RunFn fn;
    Slot *slot;
    std::string profile, prop, kind;
    double deadline;
    uint64_t tries{0};
    bool ok(Input const &in, Input *used) {
        ++tries;
        auto o = execute(fn, slot, profile, in, false);
        std::string k, m;
        if (o.harness || !concerns(o, prop, k, m) || k != kind) { return false; }
        if (used != nullptr) {
            *used = recorded(slot);
            for (auto &st : used->st) {
                while (!st.empty() && st.back() == 0) { st.pop_back(); }
            }
        }
        return true;
    }
    static size_t size(Input const &in) {
        size_t r = 0;
        for (auto const &s : in.st) { r += s.size(); }
        return r;
    }
    static bool better(Input const &a, Input const &b) {
        if (size(a) != size(b)) { return size(a) < size(b); }
        for (int i = 0; i < NSTREAM; ++i) {
            if (a.st[i] != b.st[i]) { return a.st[i] < b.st[i]; }
        }
        return false;
    }
    Input run(Input best) {
        for (auto &st : best.st) {
            while (!st.empty() && st.back() == 0) { st.pop_back(); }
        }
        bool progress = true;
        auto attempt = [&](Input const &c) {
            if (now() > deadline) { return false; }
            Input u;
            if (ok(c, &u) && better(u, best)) {
                best = u;
                progress = true;
                return true;
            }
            return false;
        };
        // whole streams first
        for (int s : {FAULT, SCHED, HOST}) {
            Input c = best;
            if (!c.st[s].empty()) { c.st[s].clear(); attempt(c); }
        }
        while (progress && now() < deadline) {
            progress = false;
            for (int s : {SCHED, FAULT, HOST, PROG}) {
                // truncate / delete chunks
                for (size_t len = std::max<size_t>(best.st[s].size() / 2, 1); len >= 1; len /= 2) {
                    for (size_t i = 0; i + len <= best.st[s].size() && now() < deadline;) {
                        Input c = best;
                        c.st[s].erase(c.st[s].begin() + static_cast<long>(i), c.st[s].begin() + static_cast<long>(i + len));
                        if (!attempt(c)) {
                            c = best;
                            bool any = false;
                            for (size_t k = i; k < i + len; ++k) { any = any || c.st[s][k] != 0; c.st[s][k] = 0; }
                            if (!any || !attempt(c)) { i += len; }
                        }
                    }
                    if (len == 1) { break; }
                }
                // minimise values
                for (size_t i = 0; i < best.st[s].size() && now() < deadline; ++i) {
                    while (best.st[s].size() > i && best.st[s][i] > 0) {
                        Input c = best;
                        c.st[s][i] /= 2;
                        if (attempt(c)) { continue; }
                        c = best;
                        c.st[s][i] -= 1;
                        if (!attempt(c)) { break; }
                    }
                }
            }
        }
        return best;
    }
};

void write_replay(std::string const &path, char const *simname, std::string const &profile, std::string const &prop, std::string const &kind,
                  std::string const &msg, uint64_t hash, Input const &in, std::string const &extra) {
    std::ofstream f(path);
    f << "sim=" << simname << "\nprofile=" << profile << "\nproperty=" << prop << "\nkind=" << kind << "\nhash=" << hash << "\n";
    static char const *names[] = {"PROG", "HOST", "SCHED", "FAULT"};
    for (int i = 0; i < NSTREAM; ++i) {
        f << names[i] << ":";
        for (auto v : in.st[i]) { f << " " << v; }
        f << "\n";
    }
    f << "---\n" << extra << "message: " << msg << "\n";
}

bool read_replay(std::string const &path, std::map<std::string, std::string> &kv, Input &in) {
    std::ifstream f(path);
    if (!f) { return false; }
    in.replay = true;
    std::string l;
    static char const *names[] = {"PROG:", "HOST:", "SCHED:", "FAULT:"};
    while (std::getline(f, l) && l != "---") {
        bool str = false;
        for (int i = 0; i < NSTREAM; ++i) {
            if (l.rfind(names[i], 0) == 0) {
                std::istringstream is(l.substr(strlen(names[i])));
                uint32_t v = 0;
                while (is >> v) { in.st[i].push_back(v); }
                str = true;
            }
        }
        if (auto p = l.find('='); !str && p != std::string::npos) { kv[l.substr(0, p)] = l.substr(p + 1); }
    }
    return true;
}

template <class T> T *shared(size_t n = 1) {
    void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<T *>(p);
}

struct RunRec { uint64_t sched, prog, hash; uint32_t nontrivial, ran; };
struct Control {
    volatile uint64_t found; // lowest run index with a violation (+1)
    volatile uint32_t harness;
    char harness_msg[512];
    uint64_t other;          // runs violating only other properties
    char other_msg[512];
};

} // namespace

int runner_main(int argc, char **argv, char const *simname, RunFn fn, bool (*known)(std::string const &)) {
    if (getenv("SIM_NOASLR") == nullptr) {
        int p = personality(0xffffffff);
        setenv("SIM_NOASLR", "1", 1);
        if (p != -1 && (p & ADDR_NO_RANDOMIZE) == 0 && personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
    }
    std::map<std::string, std::string> opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0) {
            if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) { opt[a.substr(2)] = argv[++i]; }
            else { opt[a.substr(2)] = "1"; }
        }
    }
    auto geti = [&](char const *k, uint64_t d) { return opt.count(k) != 0 ? strtoull(opt[k].c_str(), nullptr, 10) : d; };
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    if (opt.count("replay") != 0) {
        std::map<std::string, std::string> kv;
        Input in;
        if (!read_replay(opt["replay"], kv, in)) { fprintf(stderr, "cannot read %s\n", opt["replay"].c_str()); return 2; }
        auto *slot = shared<Slot>();
        auto o = execute(fn, slot, kv["profile"], in, opt.count("trace") != 0);
        std::string k, m;
        auto prop = opt.count("property") != 0 ? opt["property"] : kv["property"];
        if (o.harness) { printf("HARNESS %s\n", o.detail.c_str()); return 2; }
        if (!concerns(o, prop, k, m)) { printf("not reproduced: no violation of %s\n", prop.c_str()); return 0; }
        bool same = k == kv["kind"] && std::to_string(o.hash) == kv["hash"];
        printf("VIOLATION property=%s replay=%s\nkind: %s\nmessage: %s\n%s\n", prop.c_str(), opt["replay"].c_str(), k.c_str(), m.c_str(),
               same ? "reproduced exactly" : "reproduced, but with a different event history");
        return same ? 1 : 3;
    }
    auto profile = opt["profile"];
    if (!known(profile)) { fprintf(stderr, "unknown profile %s\n", profile.c_str()); return 2; }
    uint64_t seed = geti("seed", 1), runs = geti("runs", 1000), first = geti("first", 0);
    double limit = static_cast<double>(geti("time", 3600));
    int workers = static_cast<int>(geti("workers", 8));
    auto prop = opt.count("property") != 0 ? opt["property"] : std::string("ALL");
    auto run_seed = [&](uint64_t i) { return mix64(seed * 1000003 + hash_str(profile)) ^ mix64(i + 77); };
    if (opt.count("one") != 0) {
        auto *slot = shared<Slot>();
        Input in;
        in.seed = run_seed(geti("one", 0));
        auto o = execute(fn, slot, profile, in, opt.count("trace") != 0);
        printf("run %s hash %016lx sched %016lx%s%s\n", opt["one"].c_str(), o.hash, slot->sched, o.crash ? " CRASH " : o.harness ? " HARNESS " : "", o.detail.c_str());
        for (auto const &v : o.viols) { printf("  %s %s: %s\n", v.prop, v.kind, v.msg); }
        for (int c = 0; c < NCOUNTER; ++c) { if (opt.count("counters") != 0 && slot->cnt[c] != 0) { printf("  %s=%lu\n", counter_names[c], slot->cnt[c]); } }
        return o.crash || !o.viols.empty() ? 1 : 0;
    }
    double t0 = now();
    auto *recs = shared<RunRec>(runs + 1);
    auto *ctl = shared<Control>();
    auto *totals = shared<uint64_t>(static_cast<size_t>(workers) * NCOUNTER);
    auto *slots = shared<Slot>(static_cast<size_t>(workers));
    auto *samples = shared<char>(static_cast<size_t>(workers) * 1500);
    bool all = opt.count("digest") != 0 || opt.count("keep-going") != 0;
    uint64_t start = 0;
    std::string gate_msg;
    auto search = [&]() {
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            auto *slot = slots + w;
            for (uint64_t i = start + static_cast<uint64_t>(w); i < runs; i += static_cast<uint64_t>(workers)) {
                if (now() - t0 > limit || ctl->harness > 20 || (!all && ctl->found != 0 && i + 1 > ctl->found)) { break; }
                Input in;
                in.seed = run_seed(first + i);
                auto o = execute(fn, slot, profile, in, false);
                recs[i] = {slot->sched, slot->prog, slot->hash, slot->nontrivial, 1};
                for (int c = 0; c < NCOUNTER; ++c) {
                    auto &t = totals[static_cast<size_t>(w) * NCOUNTER + static_cast<size_t>(c)];
                    if (c == CNT_max_cb_steps || c == CNT_max_callbacks || c == CNT_max_run_steps) { t = std::max(t, slot->cnt[c]); } else { t += slot->cnt[c]; }
                }
                if (samples[static_cast<size_t>(w) * 1500] == 0 && slot->sample[0] != 0 && slot->nontrivial != 0) { memcpy(samples + static_cast<size_t>(w) * 1500, slot->sample, 1500); }
                if (o.harness) {
                    if (__sync_fetch_and_add(&ctl->harness, 1) == 0) { snprintf(ctl->harness_msg, sizeof(ctl->harness_msg), "run %lu: %s", i, o.detail.c_str()); }
                    continue;
                }
                std::string k, m;
                if (concerns(o, prop, k, m)) {
                    if (opt.count("keep-going") != 0) {
                        dprintf(1, "run %lu: %s %s\n", i, k.c_str(), m.c_str());
                    }
                    while (true) {
                        uint64_t f = ctl->found;
                        if (f != 0 && f <= i + 1) { break; }
                        if (__sync_bool_compare_and_swap(&ctl->found, f, i + 1)) { break; }
                    }
                } else if (!o.viols.empty()) {
                    if (__sync_fetch_and_add(&ctl->other, 1) == 0) { snprintf(ctl->other_msg, sizeof(ctl->other_msg), "run %lu: [%s] %s %.400s", i, o.viols[0].prop, o.viols[0].kind, o.viols[0].msg); }
                }
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    for (auto p : pids) {
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { return false; }
    }
    return true;
    };
    if (!search()) { printf("HARNESS worker died\n"); return 2; }
    double wall = now() - t0;
    if (opt.count("digest") != 0) {
        for (uint64_t i = 0; i < runs; ++i) { printf("%lu %016lx %016lx\n", i, recs[i].hash, recs[i].sched); }
        return 0;
    }
    std::set<uint64_t> scheds, progs, hashes;
    uint64_t ran = 0, nontriv = 0;
    std::set<uint64_t> nontrivial_distinct;
    for (uint64_t i = 0; i < runs; ++i) {
        if (recs[i].ran == 0) { continue; }
        ++ran;
        scheds.insert(recs[i].sched);
        progs.insert(recs[i].prog);
        hashes.insert(recs[i].hash);
        if (recs[i].nontrivial != 0) { ++nontriv; nontrivial_distinct.insert(recs[i].hash); }
    }
    std::ostringstream js;
    js << "{\"sim\": " << jstr(simname) << ", \"profile\": " << jstr(profile) << ", \"seed\": " << seed << ", \"runs\": " << ran << ", \"wall_s\": " << fmt("%.2f", wall)
       << ", \"runs_per_hour\": " << static_cast<uint64_t>(static_cast<double>(ran) / wall * 3600) << ", \"distinct_histories\": " << hashes.size()
       << ", \"distinct_schedules\": " << scheds.size() << ", \"distinct_programs\": " << progs.size() << ", \"nontrivial\": " << nontriv
       << ", \"distinct_nontrivial\": " << nontrivial_distinct.size() << ", \"other_property_violations\": " << ctl->other << ", \"counters\": {";
    bool firstc = true;
    for (int c = 0; c < NCOUNTER; ++c) {
        uint64_t t = 0;
        for (int w = 0; w < workers; ++w) {
            auto x = totals[static_cast<size_t>(w) * NCOUNTER + static_cast<size_t>(c)];
            t = c == CNT_max_cb_steps || c == CNT_max_callbacks || c == CNT_max_run_steps ? std::max(t, x) : t + x;
        }
        if (t == 0) { continue; }
        js << (firstc ? "" : ", ") << jstr(counter_names[c]) << ": " << t;
        firstc = false;
    }
    js << "}, \"samples\": [";
    firstc = true;
    for (int w = 0; w < workers && w < 2; ++w) {
        if (samples[static_cast<size_t>(w) * 1500] != 0) {
            js << (firstc ? "" : ", ") << jstr(samples + static_cast<size_t>(w) * 1500);
            firstc = false;
        }
    }
    js << "]";
    int rc = 0;
    auto path = opt.count("replay-out") != 0 ? opt["replay-out"] : fmt("/tmp/%s-%s.replay", prop.c_str(), profile.c_str());
    // A violation counts if it repeats, and replays from its file in fresh processes.
    auto replays = [&]() {
        auto cmd = fmt("/proc/%d/exe", getpid());
        char exe[4096];
        ssize_t el = readlink(cmd.c_str(), exe, sizeof(exe) - 1);
        exe[el > 0 ? el : 0] = 0;
        fflush(stdout);
        for (int rep = 0; rep < 2; ++rep) {
            pid_t p = fork();
            if (p == 0) {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1);
                unsetenv("SIM_NOASLR");
                execl(exe, exe, "--replay", path.c_str(), nullptr);
                _exit(127);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { return false; }
        }
        return true;
    };
    auto gate = [&](uint64_t i) {
        auto *slot = slots;
        Input in;
        in.seed = run_seed(first + i);
        auto o1 = execute(fn, slot, profile, in, false);
        auto rec = recorded(slot);
        auto o2 = execute(fn, slot, profile, in, false);
        std::string k, m, k2, m2;
        if (!concerns(o1, prop, k, m) || !concerns(o2, prop, k2, m2) || o1.hash != o2.hash || k != k2) {
            gate_msg = fmt("run %lu does not repeat (%s / %s)", i, k.c_str(), k2.c_str());
            return false;
        }
        Shrinker sh{fn, slot, profile, prop, k, now() + static_cast<double>(geti("shrink", 25))};
        size_t before = Shrinker::size(rec);
        if (!sh.ok(rec, nullptr)) {
            gate_msg = fmt("run %lu does not replay from its recorded choices", i);
            return false;
        }
        Input small = sh.run(rec);
        bool done = false;
        for (int attempt = 0; attempt < 2 && !done; ++attempt) {
            if (attempt == 1) { small = rec; }
            auto o = execute(fn, slot, profile, small, false);
            if (!concerns(o, prop, k, m)) { continue; }
            write_replay(path, simname, profile, prop, k, m, o.hash, small, fmt("found: seed %lu run %lu; minimised from %zu to %zu choices in %lu attempts\n", seed, first + i, before, Shrinker::size(small), sh.tries));
            done = replays();
        }
        if (!done) {
            gate_msg = fmt("run %lu does not replay in a fresh process", i);
            return false;
        }
        // append the human readable trace of the minimised run
        int pfd[2];
        if (pipe(pfd) == 0) {
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                dup2(pfd[1], 1);
                close(pfd[0]);
                execute(fn, slot, profile, small, true);
                _exit(0);
            }
            close(pfd[1]);
            std::string tr;
            char buf[4096];
            ssize_t n = 0;
            while ((n = read(pfd[0], buf, sizeof(buf))) > 0 && tr.size() < 400000) { tr.append(buf, static_cast<size_t>(n)); }
            close(pfd[0]);
            waitpid(p, nullptr, 0);
            std::ofstream(path, std::ios::app) << "trace:\n" << tr;
        }
        printf("FOUND kind=%s replay=%s\n%s\n", k.c_str(), path.c_str(), m.c_str());
        js << ", \"violation\": {\"kind\": " << jstr(k) << ", \"message\": " << jstr(m) << ", \"replay\": " << jstr(path) << "}";
        return true;
    };
    if (opt.count("keep-going") == 0) {
        for (int round = 0; round < 10 && ctl->found != 0; ++round) {
            if (gate(ctl->found - 1)) { rc = 1; break; }
            printf("note: %s\n", gate_msg.c_str());
            start = ctl->found;
            ctl->found = 0;
            if (!search()) { break; }
        }
        if (rc == 0 && !gate_msg.empty()) { printf("HARNESS %s\n", gate_msg.c_str()); rc = 2; }
    }
    if (rc == 0 && ctl->harness != 0) {
        printf("HARNESS %s\n", ctl->harness_msg);
        rc = 2;
    }
    if (ctl->other != 0) {
        printf("note: %lu runs violated only other properties, first %s\n", ctl->other, ctl->other_msg);
        js << ", \"other_first\": " << jstr(ctl->other_msg);
    }
    js << "}\n";
    if (opt.count("out") != 0) { std::ofstream(opt["out"]) << js.str(); } else { printf("%s", js.str().c_str()); }
    fflush(stdout);
    return rc;
}

} // namespace sim
