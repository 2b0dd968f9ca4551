// M03: value iteration and policy iteration find an optimal policy of every small decision process (and stop at once
// when asked to). M04 (--viterbi): the Viterbi search finds a most probable path of every small trellis.
#include <cmath>
#include <limits>
#include <numeric>
#include <tuple>
#include <vector>

#include "learning/algorithms/value_iteration.hpp"
#include "learning/algorithms/policy_iteration.hpp"
#include "learning/algorithms/viterbi.hpp"

#include "mc.hpp"

using namespace map_matching_2;

using Policy = std::vector<std::pair<std::size_t, std::size_t>>;

static std::string show(const Policy &p) {
    std::ostringstream os;
    os << "[";
    for (auto &[a, b] : p) { os << " " << a << ":" << b; }
    os << " ]";
    return os.str();
}

// M03 -----------------------------------------------------------------------------------------------------------
struct Act { int to; double reward; bool skip; };      // to < 0: done

struct Mdp {
    std::vector<std::vector<Act>> s;

    std::string str() const {
        std::ostringstream os;
        for (std::size_t i = 0; i < s.size(); ++i) {
            os << "s" << i << "{";
            for (auto &a : s[i]) { os << " " << (a.to < 0 ? "done" : "s" + std::to_string(a.to)) << "/" << a.reward << (a.skip ? "/skip" : ""); }
            os << " } ";
        }
        return os.str();
    }

    bool acyclic() const {
        const int n = static_cast<int>(s.size());
        std::vector<int> col(n, 0);
        std::function<bool(int)> dfs = [&](int v) {
            col[v] = 1;
            for (auto &a : s[v]) {
                if (a.to < 0) { continue; }
                if (col[a.to] == 1 or (col[a.to] == 0 and not dfs(a.to))) { return false; }
            }
            col[v] = 2;
            return true;
        };
        for (int i = 0; i < n; ++i) { if (col[i] == 0 and not dfs(i)) { return false; } }
        return true;
    }
};

struct Env {
    using state_type = std::size_t;
    using action_type = std::size_t;
    using reward_type = double;
    using result_type = std::tuple<state_type, action_type, reward_type, bool>;

    const Mdp &m;
    long abort_at = -1, aborts = 0, steps = 0;
    bool began = false;
    state_type state = 99;
    std::vector<std::int64_t> internal;
    const std::size_t special_actions = 2;

    explicit Env(const Mdp &m) : m{m} {}
    void init() { began = true; }
    state_type reset() { return state = 0; }

    std::vector<action_type> actions() {
        mc::require(began, "actions() before init()");
        std::vector<action_type> a;
        for (std::size_t i = 0; i < m.s.at(state).size(); ++i) { a.push_back(i + 2); }
        return a;
    }

    result_type step(action_type action) {
        ++steps;
        const auto &a = m.s.at(state).at(action - 2);
        const state_type next = a.to < 0 ? m.s.size() : static_cast<state_type>(a.to);
        state = next;
        return {next, a.skip ? 1 : action, a.reward, a.to < 0};
    }

    const std::vector<std::int64_t> &state2internal(state_type st) {
        internal.assign({-7, static_cast<std::int64_t>(st)});
        return internal;
    }
    std::int64_t action2internal(action_type a) const { return a == 0 ? -1 : a == 1 ? -2 : static_cast<std::int64_t>(a) - 2; }
    bool abort() { return abort_at >= 0 and aborts++ >= abort_at; }
};

struct Best {
    double value = -1e18;
    std::vector<std::pair<double, Policy>> all;
};

static void brute(const Mdp &m, int st, double value, double factor, const Policy &p, Best &b) {
    for (std::size_t a = 0; a < m.s[st].size(); ++a) {
        const auto &act = m.s[st][a];
        Policy q = p;
        if (not act.skip) { q.emplace_back(st, a); } else if (not q.empty()) { q.push_back(Policy::value_type{q.back()}); }
        const double v = value + factor * act.reward;
        if (act.to < 0) {
            b.value = std::max(b.value, v);
            b.all.emplace_back(v, q);
        } else {
            brute(m, act.to, v, factor * 0.99, q, b);
        }
    }
}

template<template<typename> typename Alg>
static void check_alg(const char *name, const Mdp &m, const Best &b, const matching::settings &settings) {
    Env env{m};
    Alg<Env> alg{env, settings};
    const auto p = alg();
    mc::transition(env.steps);
    bool optimal = false;
    double got = -1e18;
    for (auto &[v, q] : b.all) { if (q == p) { got = std::max(got, v); } }
    optimal = got >= b.value - 2e-3;
    mc::require(optimal, name, " returned ", show(p), " of value ", got, ", the optimum is ", b.value);
}

static void mdp_case(const Mdp &m, const matching::settings &settings) {
    Best b;
    brute(m, 0, 0, 1, {}, b);
    check_alg<learning::value_iteration>("value iteration", m, b, settings);
    check_alg<learning::policy_iteration>("policy iteration", m, b, settings);
    mc::state(mc::hstr(m.str()));
    u_int64_t worse = 0;
    for (auto &[v, q] : b.all) { worse += v < b.value - 2e-3; }
    if (worse) { mc::nontrivial(); }
    mc::outcome(mc::hcat(static_cast<mc::u64>(std::llround(b.value * 1000)), b.all.size() * 64 + worse));
}

// acts[i]: number of actions of state i
static void mdp_suite(const std::string &name, const std::vector<int> &acts, const std::vector<double> &rewards, bool skips, bool aborts) {
    mc::suite(name);
    const int n = static_cast<int>(acts.size());
    const int R = static_cast<int>(rewards.size());
    std::vector<int> radix;
    for (int i = 0; i < n; ++i) { for (int a = 0; a < acts[i]; ++a) { radix.push_back(n * R * (skips ? 2 : 1)); } }
    matching::settings settings;
    mc::product(radix, [&](const std::vector<int> &v) {
        if (not mc::mine()) { return; }
        Mdp m;
        std::size_t k = 0;
        for (int i = 0; i < n; ++i) {
            m.s.emplace_back();
            for (int a = 0; a < acts[i]; ++a) {
                int x = v[k++];
                const double r = rewards[x % R];
                x /= R;
                const int t = x % n;       // n-1 other states or done
                x /= n;
                m.s.back().push_back({t == n - 1 ? -1 : t < i ? t : t + 1, r, x == 1});
            }
        }
        if (not m.acyclic()) { return; }
        mc::exec([&] { return m.str(); }, [&] {
            if (not aborts) { mdp_case(m, settings); return; }
            // a stop request at any point ends the search at once, without a half finished policy
            auto stop = [&](auto make, const char *alg) {
                long total;
                {
                    Env env{m};
                    env.abort_at = 1l << 40;
                    (void) make(env);
                    total = env.aborts;
                }
                for (long at = 0; at < total; ++at) {
                    Env env{m};
                    env.abort_at = at;
                    const auto p = make(env);
                    mc::require(p.empty(), alg, ": stopped at ", at, " of ", total, ", but a policy ", show(p), " was returned");
                    mc::require(env.aborts <= at + 2, alg, ": went on after the stop request at ", at);
                    mc::transition();
                    mc::outcome(mc::hcat(at, total));
                }
            };
            stop([&](Env &e) { return learning::value_iteration<Env>{e, settings}(); }, "value iteration");
            stop([&](Env &e) { return learning::policy_iteration<Env>{e, settings}(); }, "policy iteration");
            mc::state(mc::hstr(m.str()));
        });
    });
}

// M04 -----------------------------------------------------------------------------------------------------------
struct Trellis {
    using action_type = std::int64_t;
    const action_type no_action = -1;
    std::vector<std::vector<double>> o;
    std::vector<std::vector<std::vector<double>>> t;
    long abort_at = -1, aborts = 0;

    const auto &observations() const { return o; }
    const auto &transitions() const { return t; }
    bool abort() { return abort_at >= 0 and aborts++ >= abort_at; }

    std::string str() const {
        std::ostringstream os;
        for (std::size_t i = 0; i < o.size(); ++i) {
            os << "t" << i << "{obs " << mc::show(o[i]) << " trans";
            for (auto &g : t[i]) { os << " " << mc::show(g); }
            os << "} ";
        }
        return os.str();
    }
};

static double prob_of(const Trellis &e, std::size_t first, const std::vector<std::size_t> &sel) {
    double p = first == 0 ? e.t[0][sel[0]][0] : std::log(1.0 / static_cast<double>(e.t[first].size()));
    p += e.o[first][sel[0]];
    for (std::size_t i = first + 1; i < e.o.size(); ++i) {
        p += e.t[i][sel[i - first]][sel[i - first - 1]] + e.o[i][sel[i - first]];
    }
    return p;
}

static void viterbi_case(const Trellis &e0) {
    Trellis e = e0;
    matching::settings settings;
    const auto p = learning::viterbi<Trellis>{e, settings}();
    std::size_t first = 0;
    while (first < e.o.size() and e.o[first].empty()) { ++first; }
    double best = -std::numeric_limits<double>::infinity();
    std::size_t paths = 0;
    if (first < e.o.size()) {
        std::vector<int> radix;
        for (std::size_t i = first; i < e.o.size(); ++i) { radix.push_back(static_cast<int>(e.o[i].size())); }
        mc::product(radix, [&](const std::vector<int> &v) {
            best = std::max(best, prob_of(e, first, std::vector<std::size_t>(v.begin(), v.end())));
            ++paths;
        });
    }
    mc::transition(static_cast<long>(paths));
    mc::state(mc::hstr(e.str()));
    if (best == -std::numeric_limits<double>::infinity()) {
        mc::require(p.empty(), "no possible path, but a policy was returned: ", show(p));
        mc::outcome(1);
        return;
    }
    mc::require_eq(p.size(), e.o.size() - first, "every point from the first with a state on is covered exactly once, policy size");
    std::vector<std::size_t> sel;
    for (std::size_t i = 0; i < p.size(); ++i) {
        mc::require_eq(p[i].first, first + i, "position of a policy entry");
        mc::require(p[i].second < e.o[first + i].size(), "selected state exists");
        sel.push_back(p[i].second);
    }
    mc::require_close(prob_of(e, first, sel), best, "log probability of the path ", show(p));
    if (paths > 1) { mc::nontrivial(); }
    mc::outcome(mc::hcat(mc::hstr(show(p)), paths));
}

static void trellis_suite(const std::string &name, const std::vector<int> &sizes, const std::vector<double> &obs, const std::vector<double> &trans) {
    mc::suite(name);
    std::vector<int> radix;
    int prev = 0;
    for (std::size_t t = 0; t < sizes.size(); ++t) {
        for (int g = 0; g < sizes[t]; ++g) {
            radix.push_back(static_cast<int>(obs.size()));
            if (t > 0) { for (int s = 0; s < prev; ++s) { radix.push_back(static_cast<int>(trans.size())); } }
        }
        prev = sizes[t];
    }
    mc::product(radix, [&](const std::vector<int> &v) {
        if (not mc::mine()) { return; }
        Trellis e;
        std::size_t k = 0;
        int prev = 0;
        for (std::size_t t = 0; t < sizes.size(); ++t) {
            e.o.emplace_back();
            e.t.emplace_back();
            for (int g = 0; g < sizes[t]; ++g) {
                e.o.back().push_back(obs[v[k++]]);
                std::vector<double> row;
                if (t == 0) { row.push_back(std::log(1.0 / sizes[0])); }
                else { for (int s = 0; s < prev; ++s) { row.push_back(trans[v[k++]]); } }
                e.t.back().push_back(std::move(row));
            }
            prev = sizes[t];
        }
        mc::exec([&] { return e.str(); }, [&] {
            viterbi_case(e);
            Trellis c = e;
            c.abort_at = 1l << 40;
            matching::settings settings;
            (void) learning::viterbi<Trellis>{c, settings}();
            for (long at = 0; at < c.aborts; ++at) {
                Trellis a = e;
                a.abort_at = at;
                const auto p = learning::viterbi<Trellis>{a, settings}();
                mc::require(p.empty(), "stopped at ", at, " of ", c.aborts, ", but a policy was returned: ", show(p));
            }
        });
    });
}

int main(int argc, char **argv) {
    bool viterbi = false;
    for (int i = 1; i < argc; ++i) { viterbi |= std::string{argv[i]} == "--viterbi"; }
    return mc::main_(argc, argv, [&] {
        const bool th = mc::g.thorough;
        const double inf = -std::numeric_limits<double>::infinity();
        if (viterbi) {
            const std::vector<double> o{-1, -2}, t{inf, -0.5, -2};
            // every combination of layer sizes, empty layers included
            for (int len = 1; len <= (th ? 4 : 3); ++len) {
                mc::product(std::vector<int>(len, 3), [&](const std::vector<int> &v) {
                    std::string n = "layers";
                    for (int x : v) { n += "-" + std::to_string(x); }
                    const bool big = len == 4 and std::accumulate(v.begin(), v.end(), 0) > 7;
                    trellis_suite(n, v, big ? std::vector<double>{-1} : o, big ? std::vector<double>{inf, -1} : len == 4 ? std::vector<double>{inf, -0.5} : t);
                });
            }
            trellis_suite("layers-2-3-2", {2, 3, 2}, {-1}, th ? t : std::vector<double>{inf, -0.5});
            trellis_suite("layers-3-3", {3, 3}, {-1, -4}, {inf, -0.5});
            trellis_suite("long-1s", {1, 1, 1, 1, 1}, o, t);
            trellis_suite("long-2s", {2, 2, 2, 2}, {-1}, th ? t : std::vector<double>{inf, -0.5});
            if (th) { trellis_suite("layers-3-3-3", {3, 3, 3}, {-1}, {inf, -0.5}); }
            return;
        }
        mdp_suite("s1", {3}, {0, -1, -3}, false, false);
        mdp_suite("s3", {2, 2, 2}, {0, -1, -3}, false, false);
        mdp_suite("s4-few", {2, 2, 1, 1}, {-1, -3}, false, false);
        mdp_suite("s5-lines", {2, 1, 1, 1, 1}, {-1, -3}, false, false);
        mdp_suite("s5-deep", {2, 2, 1, 1, 1}, {-1}, false, false);
        mdp_suite("skips", {2, 2, 1}, {0, -2}, true, false);
        mdp_suite("stop", {2, 2, 2}, {-1}, false, true);
        mdp_suite("stop-s4", {2, 1, 1, 1}, {-1, -3}, false, true);
        mdp_suite("s4", {2, 2, 2, 2}, {-1, -3}, false, false);
        mdp_suite("s3-wide", {3, 3, 2}, {-1, -2}, false, false);
        mdp_suite("skips-wide", {2, 2, 2}, {-1, -2}, true, false);
        if (th) {
            mdp_suite("s6-lines", {2, 1, 1, 1, 1, 1}, {-1, -4}, false, false);
            mdp_suite("s4-more", {2, 2, 2, 1}, {0, -1, -3}, false, false);
            mdp_suite("s5-wide", {2, 2, 2, 2, 2}, {-1}, false, false);
            mdp_suite("s4-mixed", {3, 2, 2, 1}, {-1, -3}, false, false);
            mdp_suite("skips-s4", {2, 2, 1, 1}, {-1, -2}, true, false);
        }
    });
}
