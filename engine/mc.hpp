// mc.hpp - a small stateless explicit explorer ("model checker") for sequential real code.
//
// A harness body is a function of a Ctx.  Every nondeterministic decision (an input byte, an operation, an
// operating-system answer, ...) is taken by Ctx::choose(n) (all n alternatives are explored) or Ctx::dev(n)
// (alternative 0 is the default, every other one costs one deviation of the family's deviation budget).
// The explorer enumerates *every* complete sequence of choices in depth-first order, re-executing the body
// from scratch for each one, so the set of executions of a family is finite and covered completely; no
// sampling, no time cap.  The work is split over forked workers by a hash of the first choices.
//
// Each execution calls the real code and compares it with a reference model written in the harness.
//   ctx.state(h)       registers a distinct canonical state (input/abstract state of the system)
//   ctx.transition()   counts a call of the real code whose result was compared
//   ctx.outcome(h)     registers a distinct observed outcome (vacuity indicator)
//   ctx.fail(...)      reports a violation (the choice sequence is the counterexample)
//   ctx.known(id,...)  reports a listed known finding (execution continues)
// Crashes (ASan, signals, uncaught exceptions) and hangs are attributed through the choice vector that is
// mirrored in shared memory, replayed alone in a fresh process, and only then reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <string_view>
#include <vector>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 29;
    return h;
}
inline uint64_t hash_bytes(void const* p, std::size_t n, uint64_t h = 0x1234567)
{
    auto c = static_cast<unsigned char const*>(p);
    while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = mix(h, v); c += 8; n -= 8; }
    uint64_t v = n; for (; n; --n, ++c) v = (v << 8) | *c;
    return mix(h, v);
}
inline uint64_t hash(std::string_view s, uint64_t h = 0x1234567) { return hash_bytes(s.data(), s.size(), h); }

constexpr unsigned MAXCH = 4096;

struct Slot   // one per worker, shared
{
    volatile uint32_t n;              // choices taken so far in the current execution
    uint16_t choice[MAXCH];
    std::atomic<uint64_t> executions, transitions, progress;
    std::atomic<uint32_t> done;       // 1: finished, 2: violation stored
    char msg[8192];
};

struct Table  // lock-free set of 64-bit hashes
{
    std::atomic<uint64_t> count;
    std::atomic<uint64_t> saturated;
    uint64_t mask;
    std::atomic<uint64_t> slots[1];
    void add(uint64_t h)
    {
        if (!h) h = 1;
        uint64_t i = h & mask;
        for (unsigned probe = 0; probe < 256; ++probe, i = (i + 1) & mask) {
            uint64_t cur = slots[i].load(std::memory_order_relaxed);
            if (cur == h) return;
            if (cur == 0) {
                if (slots[i].compare_exchange_strong(cur, h)) { count.fetch_add(1, std::memory_order_relaxed); return; }
                if (cur == h) return;
            }
        }
        saturated.store(1);
    }
};

inline void* shm(std::size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return p;
}
inline Table* make_table(unsigned bits)
{
    auto* t = static_cast<Table*>(shm(sizeof(Table) + (std::size_t(1) << bits) * 8));
    t->mask = (uint64_t(1) << bits) - 1;
    return t;
}

struct Skip {};
struct Failure { std::string msg; };
struct Divergence { std::string msg; };

struct Known { std::string id, text; uint64_t count; };

struct KnownShm { std::atomic<uint32_t> used; std::atomic<uint64_t> count; char id[64]; char text[1024]; };
constexpr unsigned MAXKNOWN = 32;

class Ctx
{
public:
    // ---- used by harness bodies
    unsigned choose(unsigned n, char const* = "")
    {
        if (n == 0) throw Failure{"harness error: choose(0)"};
        unsigned const c = take(n, 0);
        if (!assigned_) {
            prod_ *= n; hash_ = mix(hash_, c);
            if (prod_ >= split_) {
                assigned_ = true;
                mine_ = hash_ % workers_ == worker_;
                if (!mine_ && workers_ > 1) throw Skip{};
            }
        }
        return c;
    }
    bool flag(char const* l = "") { return choose(2, l) != 0; }
    template<class T> T const& pick(std::vector<T> const& v, char const* l = "") { return v[choose(unsigned(v.size()), l)]; }
    // deviation-bounded choice: never throws (usable below noexcept frames)
    unsigned dev(unsigned n, char const* = "")
    {
        if (n <= 1) return 0;
        if (pos_ >= prefix_.size() && devs_ >= dev_bound_) n = 1;   // budget exhausted: forced default
        else if (pos_ < prefix_.size() && devs_ >= dev_bound_) n = 1;
        unsigned const c = take(n, 1);
        if (c) ++devs_;
        return c;
    }
    unsigned deviations() const { return devs_; }
    void state(uint64_t h) { if (counting()) states_->add(h); }
    void state(std::string_view s) { if (counting()) states_->add(hash(s)); }
    void outcome(uint64_t h) { if (counting()) outcomes_->add(h); }
    void outcome(std::string_view s) { if (counting()) outcomes_->add(hash(s)); }
    void transition(uint64_t n = 1) { if (counting()) trans_ += n; }
    bool tracing() const { return tracing_; }
    // free text that explains the execution; only evaluated for samples and replays
    template<class F> void note(F f)
    {
        if (!tracing_) return;
        std::string const t = f() + '\n';
        trace_ += t;
        if (trace_shm_) {   // survives a crash of this process
            for (char c : t) { if (trace_len_ + 1 >= trace_cap_) break; trace_shm_[trace_len_++] = c ? c : '?'; }
            trace_shm_[trace_len_] = 0;
        }
    }
    [[noreturn]] void fail(std::string msg) { throw Failure{std::move(msg)}; }
    void check(bool ok, char const* what) { if (!ok) fail(what); }
    template<class F> void check(bool ok, F what) { if (!ok) fail(std::string(what())); }
    void known(char const* id, std::string text)
    {
        if (!counting()) return;
        for (unsigned i = 0; i < MAXKNOWN; ++i) {
            uint32_t u = known_[i].used.load();
            if (u == 0) {
                uint32_t z = 0;
                if (known_[i].used.compare_exchange_strong(z, 1)) {
                    snprintf(known_[i].id, sizeof known_[i].id, "%s", id);
                    snprintf(known_[i].text, sizeof known_[i].text, "%s", text.c_str());
                    known_[i].used.store(2);
                    known_[i].count.fetch_add(1);
                    return;
                }
                u = known_[i].used.load();
            }
            while (u == 1) u = known_[i].used.load();
            if (!strcmp(known_[i].id, id)) { known_[i].count.fetch_add(1); return; }
        }
    }
    // ---- engine side
    void start(std::vector<uint16_t> const& prefix)
    {
        expected_.assign(arity_.begin(), arity_.begin() + std::ptrdiff_t(std::min(arity_.size(), prefix.size())));
        prefix_ = prefix; pos_ = 0; devs_ = 0; diverged_.clear(); prod_ = 1; hash_ = 77; assigned_ = false; mine_ = true;
        arity_.clear(); taken_.clear(); kind_.clear(); devsb_.clear(); trace_.clear(); trans_ = 0;
        if (slot_) slot_->n = 0;
    }
    bool mine_at_end() { return assigned_ ? mine_ : (hash_ % workers_ == worker_ || workers_ == 1); }
    bool counting() const { return true; }
    unsigned worker_ = 0, workers_ = 1; uint64_t split_ = 256; unsigned dev_bound_ = 0;
    bool tracing_ = false; std::string trace_; char* trace_shm_ = nullptr; std::size_t trace_len_ = 0, trace_cap_ = 0;
    Slot* slot_ = nullptr; Table* states_ = nullptr; Table* outcomes_ = nullptr; KnownShm* known_ = nullptr;
    uint64_t trans_ = 0;
    std::vector<uint16_t> prefix_, taken_; std::vector<uint32_t> arity_, expected_; std::vector<uint8_t> kind_; std::vector<uint16_t> devsb_;
private:
    unsigned take(unsigned n, uint8_t kind)
    {
        unsigned c = 0;
        if (pos_ < prefix_.size()) {
            c = prefix_[pos_];
            if (c >= n || (pos_ < expected_.size() && expected_[pos_] != n)) {
                diverged_ = "the same choices led to a different choice point";
                if (c >= n) c = 0;
            }
        }
        if (slot_ && pos_ < MAXCH) { slot_->choice[pos_] = uint16_t(c); slot_->n = pos_ + 1; }
        if (pos_ + 1 >= MAXCH) throw Failure{"harness error: too many choices"};
        ++pos_;
        taken_.push_back(uint16_t(c)); arity_.push_back(n); kind_.push_back(kind); devsb_.push_back(uint16_t(devs_));
        return c;
    }
    std::size_t pos_ = 0; unsigned devs_ = 0; uint64_t prod_ = 1, hash_ = 77; bool assigned_ = false, mine_ = true;
public:
    std::string diverged_;
};

using Body = std::function<void(Ctx&)>;

struct Family
{
    std::string name;       // unique in the harness
    std::string bounds;     // human description of alphabet and bound
    Body body;
    unsigned dev_bound = 0;
    unsigned workers = 0;   // 0: default
    bool exhaustive = true;
};

inline std::string json_escape(std::string_view s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

// Runs one execution; returns 0 ok, 1 skipped, 2 failure (msg)
inline int run_one(Ctx& ctx, Body const& body, std::vector<uint16_t> const& prefix, std::string& msg)
{
    ctx.start(prefix);
    try { body(ctx); }
    catch (Skip const&) { return 1; }
    catch (Failure const& f) { msg = f.msg; return 2; }
    catch (std::exception const& e) { msg = std::string("uncaught exception: ") + e.what(); return 2; }
    catch (char const* e) { msg = std::string("uncaught exception: ") + e; return 2; }
    if (!ctx.diverged_.empty()) { msg = "NONDETERMINISM: " + ctx.diverged_; return 2; }
    return 0;
}

// Next prefix in depth-first order, or false at the end.  Deviation choices are only advanced in budget.
inline bool next_prefix(Ctx const& ctx, std::vector<uint16_t>& prefix)
{
    std::size_t i = ctx.taken_.size();
    while (i--) {
        if (ctx.taken_[i] + 1u < ctx.arity_[i]) {
            if (ctx.kind_[i] == 1 && ctx.taken_[i] == 0 && ctx.devsb_[i] + 1u > ctx.dev_bound_) continue;
            prefix.assign(ctx.taken_.begin(), ctx.taken_.begin() + std::ptrdiff_t(i));
            prefix.push_back(uint16_t(ctx.taken_[i] + 1));
            return true;
        }
    }
    return false;
}

struct Result
{
    std::string family, bounds;
    uint64_t executions = 0, transitions = 0, states = 0, outcomes = 0, saturated = 0; unsigned dev_bound = 0;
    std::vector<std::string> samples;
    bool violated = false; std::string msg; std::vector<uint16_t> choices; std::string trace;
    bool exhaustive = true;
    int history_worker = -1, history_workers = 0;
    double wall = 0;
};

class Explorer
{
public:
    unsigned workers = 8;
    double hang_limit = 30, hang_limit_alone = 200;
    unsigned table_bits = 23;
    KnownShm* known = static_cast<KnownShm*>(shm(sizeof(KnownShm) * MAXKNOWN));

    Result explore(Family const& f)
    {
        double const t0 = now();
        Result r; r.family = f.name; r.bounds = f.bounds; r.dev_bound = f.dev_bound; r.exhaustive = f.exhaustive;
        unsigned const K = f.workers ? f.workers : workers;
        auto* states = make_table(table_bits); auto* outcomes = make_table(20);
        auto* slots = static_cast<Slot*>(shm(sizeof(Slot) * (K + 1)));
        std::vector<pid_t> pids(K);
        fflush(nullptr);
        for (unsigned k = 0; k < K; ++k) {
            pid_t p = fork();
            if (p < 0) { perror("fork"); exit(3); }
            if (p == 0) { worker(f, k, K, slots[k], states, outcomes); _exit(0); }
            pids[k] = p;
        }
        std::vector<uint64_t> last(K, 0); std::vector<double> lastt(K, now());
        unsigned alive = K; int bad = -1; std::string why;
        std::vector<bool> gone(K, false);
        while (alive) {
            bool any = false;
            for (unsigned k = 0; k < K; ++k) {
                if (gone[k]) continue;
                int st; pid_t w = waitpid(pids[k], &st, WNOHANG);
                if (w == pids[k]) {
                    gone[k] = true; --alive; any = true;
                    if (slots[k].done.load() == 2 && bad < 0) { bad = int(k); why = slots[k].msg; }
                    else if (slots[k].done.load() != 1 && bad < 0) {
                        bad = int(k);
                        why = WIFSIGNALED(st) ? std::string("crash: signal ") + std::to_string(WTERMSIG(st))
                                              : std::string("crash: exit status ") + std::to_string(WEXITSTATUS(st));
                    }
                    continue;
                }
                uint64_t pr = slots[k].progress.load();
                if (pr != last[k]) { last[k] = pr; lastt[k] = now(); }
                else if (now() - lastt[k] > hang_limit && bad < 0) {
                    // replay alone before calling it a hang
                    std::vector<uint16_t> ch(slots[k].choice, slots[k].choice + slots[k].n);
                    std::string m, tr;
                    int rc = replay_isolated(f, ch, m, tr, hang_limit_alone);
                    if (rc != 0) { bad = int(k); why = rc == 3 ? "hang: no progress for " + std::to_string(int(hang_limit_alone)) + " s alone" : m; kill(pids[k], SIGKILL); }
                    else lastt[k] = now() + 600;   // merely slow
                }
            }
            if (bad >= 0) {
                for (unsigned k = 0; k < K; ++k) if (!gone[k]) { kill(pids[k], SIGKILL); waitpid(pids[k], nullptr, 0); gone[k] = true; --alive; }
                break;
            }
            if (!any) usleep(2000);
        }
        for (unsigned k = 0; k < K; ++k) { r.executions += slots[k].executions.load(); r.transitions += slots[k].transitions.load(); }
        r.states = states->count.load(); r.outcomes = outcomes->count.load(); r.saturated = states->saturated.load();
        if (bad >= 0) {
            std::vector<uint16_t> ch(slots[bad].choice, slots[bad].choice + slots[bad].n);
            std::string m, tr;
            int rc = replay_isolated(f, ch, m, tr, hang_limit_alone);
            if (rc == 0) {
                // Not reproduced alone: state left in the process by the preceding executions may matter.
                // Re-run the same deterministic sequence of executions and require the same failure.
                unsigned const kk = bad; std::vector<uint16_t> ch2; std::string why2;
                if (!rerun_history(f, kk, K, ch2, why2) || ch2 != ch) {
                    fprintf(stderr, "UNREPRODUCIBLE: family %s: %s\n", f.name.c_str(), why.c_str());
                    exit(4);
                }
                r.history_worker = int(kk); r.history_workers = int(K);
                m = why + " (only after the preceding executions of the same process: state leaks from one use to the next)";
            }
            r.violated = true; r.choices = ch; r.trace = tr;
            r.msg = m.empty() ? why : m;
        }
        else samples(f, r);
        munmap(states, sizeof(Table) + (std::size_t(1) << table_bits) * 8);
        munmap(slots, sizeof(Slot) * (K + 1));
        r.wall = now() - t0;
        return r;
    }

    // Runs worker k of K again from the start; true when it fails, with the choices it failed at.
    bool rerun_history(Family const& f, unsigned k, unsigned K, std::vector<uint16_t>& ch, std::string& why)
    {
        auto* states = make_table(table_bits); auto* outcomes = make_table(20);
        auto* slot = static_cast<Slot*>(shm(sizeof(Slot)));
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) { worker(f, k, K, *slot, states, outcomes); _exit(0); }
        double const t0 = now(); int st = 0; bool failed = false;
        for (;;) {
            if (waitpid(p, &st, WNOHANG) == p) {
                failed = slot->done.load() != 1;
                why = slot->done.load() == 2 ? slot->msg : "crash";
                break;
            }
            if (now() - t0 > 300) { kill(p, SIGKILL); waitpid(p, &st, 0); break; }
            usleep(1000);
        }
        ch.assign(slot->choice, slot->choice + slot->n);
        munmap(states, sizeof(Table) + (std::size_t(1) << table_bits) * 8);
        munmap(slot, sizeof(Slot));
        return failed;
    }

    // 0 ok, 2 failure/crash, 3 hang; runs in a fresh process, with tracing
    int replay_isolated(Family const& f, std::vector<uint16_t> const& ch, std::string& msg, std::string& trace, double limit)
    {
        auto* buf = static_cast<char*>(shm(1 << 20));
        auto* states = make_table(12); auto* outcomes = make_table(12);
        auto* kn = static_cast<KnownShm*>(shm(sizeof(KnownShm) * MAXKNOWN));
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            Ctx ctx; ctx.states_ = states; ctx.outcomes_ = outcomes; ctx.known_ = kn; ctx.dev_bound_ = f.dev_bound; ctx.tracing_ = true;
            ctx.trace_shm_ = buf + (1 << 19); ctx.trace_cap_ = 1 << 19;
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            std::string m;
            int rc = run_one(ctx, f.body, ch, m);
            snprintf(buf, 1 << 19, "%s", m.c_str());
            _exit(rc == 2 ? 42 : 0);
        }
        double const t0 = now(); int st = 0; int rc = -1;
        while (rc < 0) {
            pid_t w = waitpid(p, &st, WNOHANG);
            if (w == p) {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) rc = 0;
                else {
                    rc = 2;
                    msg = buf;
                    if (msg.empty()) msg = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "crash: the process ended (sanitizer report or abort), status " + std::to_string(WEXITSTATUS(st));
                }
            }
            else if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); rc = 3; msg = "hang"; }
            else usleep(1000);
        }
        trace = buf + (1 << 19);
        munmap(buf, 1 << 20);
        return rc;
    }

private:
    void worker(Family const& f, unsigned k, unsigned K, Slot& slot, Table* states, Table* outcomes)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Ctx ctx; ctx.worker_ = k; ctx.workers_ = K; ctx.slot_ = &slot; ctx.states_ = states; ctx.outcomes_ = outcomes;
        ctx.known_ = known; ctx.dev_bound_ = f.dev_bound;
        std::vector<uint16_t> prefix; std::string msg;
        for (;;) {
            int rc = run_one(ctx, f.body, prefix, msg);
            slot.progress.fetch_add(1, std::memory_order_relaxed);
            if (rc == 2) {
                snprintf(slot.msg, sizeof slot.msg, "%s", msg.c_str());
                slot.done.store(2);
                _exit(0);
            }
            if (rc == 0 && ctx.mine_at_end()) {
                slot.executions.fetch_add(1, std::memory_order_relaxed);
                slot.transitions.fetch_add(ctx.trans_, std::memory_order_relaxed);
            }
            if (!next_prefix(ctx, prefix)) break;
        }
        slot.done.store(1);
    }
    void samples(Family const& f, Result& r)
    {
        // three executions written out: first, and two reached by following large choices
        for (unsigned pass = 0; pass < 3; ++pass) {
            fflush(nullptr);
            auto* buf = static_cast<char*>(shm(1 << 16));
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                auto* st = make_table(12); auto* oc = make_table(12); auto* kn = static_cast<KnownShm*>(shm(sizeof(KnownShm) * MAXKNOWN));
                Ctx ctx; ctx.states_ = st; ctx.outcomes_ = oc; ctx.known_ = kn; ctx.dev_bound_ = f.dev_bound; ctx.tracing_ = true;
                std::vector<uint16_t> prefix; std::string m;
                run_one(ctx, f.body, prefix, m);
                for (unsigned step = 0; pass && step < ctx.taken_.size() && step < 200; ++step) {
                    // deterministic walk: at each point take alternative (arity-1)*pass/3 or so
                    prefix.assign(ctx.taken_.begin(), ctx.taken_.begin() + step);
                    unsigned n = ctx.arity_[step];
                    unsigned c = ctx.kind_[step] ? (step == pass && f.dev_bound ? n - 1 : ctx.taken_[step]) : (pass == 1 ? n / 2 : n - 1 - (step % 2 && n > 1 ? 1 : 0));
                    prefix.push_back(uint16_t(c));
                    run_one(ctx, f.body, prefix, m);
                }
                snprintf(buf, 1 << 16, "%s", ctx.trace_.c_str());
                _exit(0);
            }
            int st; waitpid(p, &st, 0);
            if (buf[0]) { std::string s = buf; if (s.size() > 900) s = s.substr(0, 900) + "..."; bool dup = false; for (auto& o : r.samples) dup |= o == s; if (!dup) r.samples.push_back(s); }
            munmap(buf, 1 << 16);
        }
    }
};

// main() of every harness:  harness OUT.json REPLAYDIR [--replay FILE]
//   families are built by mc_families(tier) which the harness defines.
struct Tier { bool thorough; };

inline int main_impl(int ac, char** av, std::vector<Family> (*families)(Tier))
{
    std::string out, replay_dir, replay_file; unsigned workers = 8; std::string only;
    bool thorough = false;
    if (char const* t = getenv("VERIF_TIER")) thorough = !strcmp(t, "thorough");
    for (int i = 1; i < ac; ++i) {
        std::string a = av[i];
        if (a == "--replay" && i + 1 < ac) replay_file = av[++i];
        else if (a == "--out" && i + 1 < ac) out = av[++i];
        else if (a == "--replay-dir" && i + 1 < ac) replay_dir = av[++i];
        else if (a == "--tier" && i + 1 < ac) thorough = !strcmp(av[++i], "thorough");
        else if (a == "--workers" && i + 1 < ac) workers = unsigned(atoi(av[++i]));
        else if (a == "--only" && i + 1 < ac) only = av[++i];
    }
    Explorer ex; ex.workers = workers; if (thorough) ex.table_bits = 27;
    if (!replay_file.empty()) {
        FILE* fp = fopen(replay_file.c_str(), "r"); if (!fp) { perror("replay"); return 3; }
        char line[65536]; std::string fam; std::vector<uint16_t> ch; bool th = thorough; int hk = -1, hK = 0;
        while (fgets(line, sizeof line, fp)) {
            std::string l = line; while (!l.empty() && l.back() == '\n') l.pop_back();
            if (l.rfind("family ", 0) == 0) fam = l.substr(7);
            else if (l.rfind("tier ", 0) == 0) th = l == "tier thorough";
            else if (l.rfind("history ", 0) == 0) sscanf(l.c_str() + 8, "%d %d", &hk, &hK);
            else if (l.rfind("choices", 0) == 0) { char* p = line + 7; for (;;) { char* e; long v = strtol(p, &e, 10); if (e == p) break; ch.push_back(uint16_t(v)); p = e; } }
        }
        fclose(fp);
        for (auto& f : families(Tier{th})) if (f.name == fam) {
            if (hk >= 0) {
                std::vector<uint16_t> ch2; std::string why;
                bool const again = ex.rerun_history(f, unsigned(hk), unsigned(hK), ch2, why) && ch2 == ch;
                printf("%s\n", again ? why.c_str() : "no violation on this tree");
                return again ? 1 : 0;
            }
            std::string m, tr; int rc = ex.replay_isolated(f, ch, m, tr, 120);
            printf("%s\n%s\n", tr.c_str(), rc ? m.c_str() : "no violation on this tree");
            return rc ? 1 : 0;
        }
        fprintf(stderr, "unknown family %s\n", fam.c_str()); return 3;
    }
    std::vector<Result> rs; std::string violation;
    double const t0 = now();
    for (auto& f : families(Tier{thorough})) {
        if (!only.empty() && f.name != only) continue;
        auto r = ex.explore(f);
        fprintf(stderr, "  %-34s exec=%-9llu trans=%-10llu states=%-9llu outcomes=%-7llu %.2fs%s\n", r.family.c_str(), (unsigned long long)r.executions, (unsigned long long)r.transitions, (unsigned long long)r.states, (unsigned long long)r.outcomes, r.wall, r.violated ? "  VIOLATED" : "");
        rs.push_back(r);
        if (r.violated) {
            std::string path = replay_dir + "/" + r.family + ".replay";
            if (FILE* fp = fopen(path.c_str(), "w")) {
                fprintf(fp, "family %s\ntier %s\nchoices", r.family.c_str(), thorough ? "thorough" : "quick");
                for (auto c : r.choices) fprintf(fp, " %u", unsigned(c));
                if (r.history_worker >= 0) fprintf(fp, "\nhistory %d %d", r.history_worker, r.history_workers);
                fprintf(fp, "\n# %s\n", r.msg.c_str());
                std::string tr = r.trace; for (auto& c : tr) if (c == '\0') c = '?';
                fprintf(fp, "# trace:\n%s\n", tr.c_str());
                fclose(fp);
            }
            violation = path;
            fprintf(stderr, "  --> %s\n%s\n", r.msg.c_str(), r.trace.c_str());
            break;
        }
    }
    if (!out.empty()) if (FILE* fp = fopen(out.c_str(), "w")) {
        fprintf(fp, "{\"families\": [");
        bool first = true;
        for (auto& r : rs) {
            fprintf(fp, "%s\n {\"family\": \"%s\", \"bounds\": \"%s\", \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"states_saturated\": %s, \"distinct_outcomes\": %llu, \"deviation_bound\": %u, \"exhaustive\": %s, \"wall_s\": %.3f, \"samples\": [",
                first ? "" : ",", json_escape(r.family).c_str(), json_escape(r.bounds).c_str(), (unsigned long long)r.executions, (unsigned long long)r.transitions, (unsigned long long)r.states, r.saturated ? "true" : "false", (unsigned long long)r.outcomes, r.dev_bound, r.exhaustive && !r.violated ? "true" : "false", r.wall);
            for (std::size_t i = 0; i < r.samples.size(); ++i) fprintf(fp, "%s\"%s\"", i ? ", " : "", json_escape(r.samples[i]).c_str());
            fprintf(fp, "]}"); first = false;
        }
        fprintf(fp, "],\n \"known\": [");
        first = true;
        for (unsigned i = 0; i < MAXKNOWN; ++i) if (ex.known[i].used.load() == 2) {
            fprintf(fp, "%s{\"id\": \"%s\", \"text\": \"%s\", \"count\": %llu}", first ? "" : ", ", json_escape(ex.known[i].id).c_str(), json_escape(ex.known[i].text).c_str(), (unsigned long long)ex.known[i].count.load());
            first = false;
        }
        fprintf(fp, "],\n \"violation\": \"%s\", \"message\": \"%s\", \"wall_s\": %.3f}\n", json_escape(violation).c_str(), rs.empty() ? "" : json_escape(rs.back().violated ? rs.back().msg : "").c_str(), now() - t0);
        fclose(fp);
    }
    return violation.empty() ? 0 : 1;
}

} // namespace mc

#define MC_MAIN(fn) int main(int ac, char** av) { return mc::main_impl(ac, av, fn); }
