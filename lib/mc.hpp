// Bounded exhaustive exploration runtime shared by every harness in /verif.
//
// A harness is a plain program that enumerates cases (operation sequences, inputs, schedules, fault points)
// in a fixed deterministic order and calls mc::run_case() for each. The runtime forks one process per core,
// deals the cases out by ordinal number, catches failed expectations, unexpected exceptions, signals
// (assert, SIGSEGV, ...) and CPU hangs, and merges what the shards measured into one JSON file.
// A case is identified by suite:ordinal and can be re-run alone with --only suite:ordinal.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Failed {
    std::string msg;
};

struct Stop {};

using u64 = std::uint64_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline u64 hcat(u64 a, u64 b) { return mix(a * 31 + b + 0x1234567); }

inline u64 hstr(const std::string &s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; }
    return mix(h);
}

struct G {
    std::string tier = "quick", out, only_suite, suite = "main";
    bool thorough = false;
    long only = -1, upto = -1;
    int shard = 0, nshards = 1;
    bool child = false;
    long ordinal = -1;                 // in current suite
    volatile long global_case = 0;
    long cases = 0, transitions = 0, nontrivial = 0;
    std::unordered_set<u64> states, outcomes;
    bool capped = false;
    std::map<std::string, long> counters, suite_cases;
    std::vector<std::pair<std::string, std::string>> samples;   // suite, text
    std::map<std::string, int> suite_samples;
    struct Fail { std::string suite; long ordinal; std::string desc, msg; };
    std::vector<Fail> fails;
    int max_fails = 12;
    std::string cur_desc;
    const char *suite_c = "main";
    double t0 = 0;
    int hang_s = 45;
    bool disabled = false;             // ignore statistics calls
};

inline G g;

// where each shard is, readable by the parent even if the shard is killed
struct Pos { char suite[120]; long ordinal; };
inline Pos *pos_page = nullptr;

inline double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' or c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') { o += "\\n"; }
        else if (c == '\t') { o += "\\t"; }
        else if (c < 32 or c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else { o += c; }
    }
    return o + "\"";
}

// ---------------------------------------------------------------- crash handling
inline char crash_path[512];

inline void crash_note(const char *what) {
    // async-signal-safe enough: plain write of suite, ordinal and reason
    char buf[640];
    int n = snprintf(buf, sizeof buf, "%s %ld %s\n", g.suite_c, g.ordinal, what);
    if (crash_path[0]) {
        FILE *f = fopen(crash_path, "w");
        if (f) { fwrite(buf, 1, n, f); fclose(f); }
    }
    (void) !write(2, buf, n);
}

inline void on_signal(int sig) {
    signal(sig, SIG_DFL);
    char b[64];
    snprintf(b, sizeof b, "crash-signal-%d(%s)", sig, sig == SIGABRT ? "abort/assert" : sig == SIGSEGV ? "segv" : "fault");
    crash_note(b);
    _exit(42);
}

inline volatile long last_tick_case = -1;
inline volatile int same_ticks = 0;

inline void on_tick(int) {
    if (g.global_case == last_tick_case) {
        if (++same_ticks >= g.hang_s / 2) {
            crash_note("hang(cpu-time-limit)");
            _exit(43);
        }
    } else {
        last_tick_case = g.global_case;
        same_ticks = 0;
    }
}

// code that allocates without end fails in its own process, before the machine runs out of memory
#if defined(__has_feature) && __has_feature(address_sanitizer)
#ifndef MC_ASAN_OPTIONS
#define MC_ASAN_OPTIONS ""
#endif
extern "C" inline __attribute__((used, visibility("default"))) const char *__asan_default_options() { return MC_ASAN_OPTIONS "hard_rss_limit_mb=2500"; }
inline void limit_memory() {}
#else
inline void limit_memory() {
    rlimit l{2500ul << 20, 2500ul << 20};
    setrlimit(RLIMIT_DATA, &l);
}
#endif

inline void arm() {
    limit_memory();
    static char alt[1 << 16];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) { sigaction(s, &sa, nullptr); }
    signal(SIGPROF, on_tick);
    itimerval it{};
    it.it_interval.tv_sec = 2;
    it.it_value.tv_sec = 2;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// ---------------------------------------------------------------- statistics
inline void state(u64 h) {
    if (g.disabled) { return; }
    if (g.states.size() < 4000000) { g.states.insert(h); } else { g.capped = true; }
}

inline void outcome(u64 h) {
    if (g.disabled) { return; }
    if (g.outcomes.size() < 4000000) { g.outcomes.insert(hcat(h, hstr(g.suite))); } else { g.capped = true; }
}

inline void transition(long n = 1) { g.transitions += n; }

inline void nontrivial() { ++g.nontrivial; }

inline void count(const std::string &k, long n = 1) { g.counters[k] += n; }

inline void suite(const std::string &name) {
    static std::set<std::string> keep;
    g.suite = *keep.insert(name).first;
    g.suite_c = keep.find(name)->c_str();
    g.ordinal = -1;
    if (pos_page) {
        snprintf(pos_page[g.shard].suite, sizeof pos_page[0].suite, "%s", g.suite_c);
        pos_page[g.shard].ordinal = -1;
    }
}

template<typename... A>
[[noreturn]] inline void fail(const A &... a) {
    std::ostringstream os;
    os.precision(17);
    (os << ... << a);
    throw Failed{os.str()};
}

template<typename... A>
inline void require(bool c, const A &... a) {
    if (not c) { fail(a...); }
}

template<typename X, typename Y, typename... A>
inline void require_eq(const X &x, const Y &y, const A &... a) {
    if (not (x == y)) { fail(a..., ": got ", x, ", expected ", y); }
}

inline bool close_to(double a, double b, double rel = 1e-9, double abs_tol = 1e-7) {
    if (std::isnan(a) or std::isnan(b)) { return std::isnan(a) and std::isnan(b); }
    if (std::isinf(a) or std::isinf(b)) { return a == b; }
    return std::fabs(a - b) <= abs_tol + rel * std::max(std::fabs(a), std::fabs(b));
}

template<typename... A>
inline void require_close(double x, double y, const A &... a) {
    if (not close_to(x, y)) { fail(a..., ": got ", x, ", expected ", y); }
}

// ---------------------------------------------------------------- cases
// true if the next case belongs to this process; the ordinal is consumed either way
inline bool mine() {
    ++g.ordinal;
    ++g.global_case;
    if (g.upto >= 0 and g.suite == g.only_suite and g.ordinal > g.upto) { throw Stop{}; }
    if (g.only >= 0) { return g.suite == g.only_suite and g.ordinal == g.only; }
    if (not g.only_suite.empty() and g.upto < 0 and g.suite != g.only_suite) { return false; }
    const bool own = static_cast<int>(mix(static_cast<u64>(g.ordinal)) % g.nshards) == g.shard;
    if (own and pos_page) { pos_page[g.shard].ordinal = g.ordinal; }
    return own;
}

template<typename Desc, typename Body>
inline void exec(const Desc &desc, const Body &body) {
    ++g.cases;
    ++g.suite_cases[g.suite];
    if (g.only >= 0) {
        g.cur_desc = desc();
        std::cerr << "CASE " << g.suite << ":" << g.ordinal << " " << g.cur_desc << std::endl;
    }
    std::string msg;
    bool bad = false;
    try {
        body();
    } catch (const Failed &f) {
        bad = true;
        msg = f.msg;
    } catch (const Stop &) {
        throw;
    } catch (const std::exception &e) {
        bad = true;
        msg = std::string{"unexpected exception "} + typeid(e).name() + ": " + e.what();
    } catch (...) {
        bad = true;
        msg = "unexpected exception of unknown type";
    }
    if (bad) {
        g.fails.push_back({g.suite, g.ordinal, desc(), msg});
        if (g.only >= 0) { std::cerr << "FAIL " << msg << std::endl; }
        if (static_cast<int>(g.fails.size()) >= g.max_fails) { throw Stop{}; }
    } else if (g.suite_samples[g.suite] < 2 and (g.ordinal % 97 == 13 or g.suite_samples[g.suite] == 0)) {
        ++g.suite_samples[g.suite];
        g.samples.emplace_back(g.suite, desc());
    }
}

template<typename Desc, typename Body>
inline void run_case(const Desc &desc, const Body &body) {
    if (mine()) { exec(desc, body); }
}

// odometer over a mixed-radix vector; f(vector<int>)
template<typename F>
inline void product(const std::vector<int> &radix, const F &f) {
    for (int r : radix) { if (r <= 0) { return; } }
    std::vector<int> v(radix.size(), 0);
    while (true) {
        f(static_cast<const std::vector<int> &>(v));
        std::size_t i = 0;
        for (; i < v.size(); ++i) {
            if (++v[i] < radix[i]) { break; }
            v[i] = 0;
        }
        if (i == v.size()) { return; }
    }
}

template<typename T>
inline std::string show(const std::vector<T> &v) {
    std::ostringstream os;
    os << "[";
    for (std::size_t i = 0; i < v.size(); ++i) { os << (i ? "," : "") << v[i]; }
    os << "]";
    return os.str();
}

// ---------------------------------------------------------------- process driver
inline void dump_shard(const std::string &path) {
    std::ofstream o(path + ".bin", std::ios::binary);
    auto w = [&](u64 x) { o.write(reinterpret_cast<const char *>(&x), 8); };
    w(g.states.size());
    for (u64 x : g.states) { w(x); }
    w(g.outcomes.size());
    for (u64 x : g.outcomes) { w(x); }
    std::ofstream j(path + ".txt");
    j << "cases " << g.cases << "\ntransitions " << g.transitions << "\nnontrivial " << g.nontrivial
            << "\ncapped " << g.capped << "\n";
    for (auto &[k, v] : g.counters) { j << "counter " << v << " " << k << "\n"; }
    for (auto &[k, v] : g.suite_cases) { j << "suite " << v << " " << k << "\n"; }
    for (auto &[s, t] : g.samples) { j << "sample " << jstr(s) << "\t" << jstr(t) << "\n"; }
    for (auto &f : g.fails) {
        j << "fail " << jstr(f.suite) << "\t" << f.ordinal << "\t" << jstr(f.desc) << "\t" << jstr(f.msg) << "\n";
    }
    j << "done\n";
}

inline int main_(int argc, char **argv, const std::function<void()> &body) {
    int jobs = 8;
    int run_shard = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string{argv[++i]}; };
        if (a == "--tier") { g.tier = val(); }
        else if (a == "--out") { g.out = val(); }
        else if (a == "--jobs") { jobs = std::stoi(val()); }
        else if (a == "--hang") { g.hang_s = std::stoi(val()); }
        else if (a == "--only") {
            auto s = val();
            auto p = s.rfind(':');
            g.only_suite = s.substr(0, p);
            g.only = std::stol(s.substr(p + 1));
        } else if (a == "--suite") {
            g.only_suite = val();
        } else if (a == "--upto") {       // replay a whole shard prefix: suite:ordinal
            auto s = val();
            auto p = s.rfind(':');
            g.only_suite = s.substr(0, p);
            g.upto = std::stol(s.substr(p + 1));
        } else if (a == "--shard") { run_shard = std::stoi(val()); }
    }
    g.thorough = g.tier == "thorough";
    g.nshards = jobs;
    g.t0 = now();
    if (g.only >= 0) {
        g.nshards = 1;
        arm();
        if (not g.out.empty()) { snprintf(crash_path, sizeof crash_path, "%s", (g.out + ".crash").c_str()); }
        try { body(); } catch (const Stop &) {}
        if (g.cases == 0) { std::cerr << "no such case" << std::endl; return 3; }
        return g.fails.empty() ? 0 : 1;
    }
    pos_page = static_cast<Pos *>(mmap(nullptr, sizeof(Pos) * jobs, PROT_READ | PROT_WRITE,
            MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (int s = 0; s < jobs; ++s) { snprintf(pos_page[s].suite, sizeof pos_page[s].suite, "main"); pos_page[s].ordinal = -1; }
    std::vector<pid_t> pids;
    for (int s = 0; s < jobs; ++s) {
        if (run_shard >= 0 and s != run_shard) { continue; }
        std::cout.flush();
        std::cerr.flush();
        pid_t p = fork();
        if (p == 0) {
            g.shard = s;
            g.child = true;
            std::string base = g.out + ".shard" + std::to_string(s);
            snprintf(crash_path, sizeof crash_path, "%s.crash", base.c_str());
            arm();
            try { body(); } catch (const Stop &) {}
            dump_shard(base);
            _exit(0);
        }
        pids.push_back(p);
    }
    for (pid_t p : pids) {
        int st;
        waitpid(p, &st, 0);
    }
    // merge
    long cases = 0, transitions = 0, nontrivial = 0;
    bool capped = false;
    std::vector<u64> states, outcomes;
    std::map<std::string, long> counters, suites;
    std::vector<std::string> samples;
    std::vector<std::string> fails, crashes;
    for (int s = 0; s < jobs; ++s) {
        if (run_shard >= 0 and s != run_shard) { continue; }
        std::string base = g.out + ".shard" + std::to_string(s);
        bool done = false;
        {
            std::ifstream t(base + ".txt");
            std::string line;
            while (std::getline(t, line)) {
                std::istringstream is(line);
                std::string k;
                is >> k;
                long n;
                if (k == "cases") { is >> n; cases += n; }
                else if (k == "transitions") { is >> n; transitions += n; }
                else if (k == "nontrivial") { is >> n; nontrivial += n; }
                else if (k == "capped") { is >> n; capped |= n != 0; }
                else if (k == "counter" or k == "suite") {
                    is >> n;
                    std::string name;
                    std::getline(is >> std::ws, name);
                    (k == "suite" ? suites : counters)[name] += n;
                } else if (k == "sample") {
                    auto p = line.find('\t');
                    samples.push_back("{\"suite\":" + line.substr(7, p - 7) + ",\"case\":" + line.substr(p + 1) + "}");
                } else if (k == "fail") {
                    std::vector<std::string> parts;
                    std::string rest = line.substr(5), cur;
                    std::istringstream rs(rest);
                    while (std::getline(rs, cur, '\t')) { parts.push_back(cur); }
                    if (parts.size() == 4) {
                        fails.push_back("{\"suite\":" + parts[0] + ",\"ordinal\":" + parts[1] + ",\"desc\":" + parts[2]
                                + ",\"msg\":" + parts[3] + ",\"shard\":" + std::to_string(s) + "}");
                    }
                } else if (k == "done") { done = true; }
            }
        }
        if (not done) {
            std::ifstream c(base + ".crash");
            std::string cs, what;
            long ord = -1;
            if (c >> cs >> ord) { std::getline(c >> std::ws, what); } else {
                what = "the process died (killed, or a sanitizer stopped it)";
                cs = pos_page[s].suite;
                ord = pos_page[s].ordinal;
            }
            crashes.push_back("{\"suite\":" + jstr(cs) + ",\"ordinal\":" + std::to_string(ord) + ",\"desc\":\"\",\"msg\":"
                    + jstr(what) + ",\"crash\":true,\"shard\":" + std::to_string(s) + "}");
        } else {
            std::ifstream b(base + ".bin", std::ios::binary);
            auto rd = [&]() { u64 x = 0; b.read(reinterpret_cast<char *>(&x), 8); return x; };
            for (auto *v : {&states, &outcomes}) {
                u64 n = rd();
                auto old = v->size();
                v->resize(old + n);
                b.read(reinterpret_cast<char *>(v->data() + old), n * 8);
            }
        }
        for (auto ext : {".txt", ".bin", ".crash"}) { unlink((base + ext).c_str()); }
    }
    auto uniq = [](std::vector<u64> &v) {
        std::sort(v.begin(), v.end());
        return static_cast<long>(std::unique(v.begin(), v.end()) - v.begin());
    };
    std::ofstream o(g.out);
    o << "{\"cases\":" << cases << ",\"transitions\":" << transitions << ",\"nontrivial\":" << nontrivial
            << ",\"states\":" << uniq(states) << ",\"outcomes\":" << uniq(outcomes) << ",\"capped\":"
            << (capped ? "true" : "false") << ",\"jobs\":" << jobs;
    auto dump_map = [&](const char *name, const std::map<std::string, long> &m) {
        o << ",\"" << name << "\":{";
        bool first = true;
        for (auto &[k, v] : m) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
        o << "}";
    };
    dump_map("counters", counters);
    dump_map("suites", suites);
    auto dump_list = [&](const char *name, const std::vector<std::string> &v, std::size_t lim) {
        o << ",\"" << name << "\":[";
        for (std::size_t i = 0; i < v.size() and i < lim; ++i) { o << (i ? "," : "") << v[i]; }
        o << "]";
    };
    dump_list("samples", samples, 40);
    dump_list("fails", fails, 200);
    dump_list("crashes", crashes, 64);
    o << ",\"wall_s\":" << now() - g.t0 << "}\n";
    o.close();
    return fails.empty() and crashes.empty() ? 0 : 1;
}

}  // namespace mc
