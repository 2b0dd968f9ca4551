// C02: the comparator pairs ground truths and matches, and writes and sums up one row per pair, for every order of arrival.
#include <fstream>
#include <set>

#include "compare/comparator/comparator_forwarder_data.hpp"
#include "compare/comparator/comparator_forwarder_matches.hpp"
#include "compare/comparator/comparator_forwarder_compares.hpp"

#include "io/results/track/csv_track_exporter.hpp"

#include "mc.hpp"

using namespace map_matching_2;

using Multi = MM2_EAGER_MULTI_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);
using Track = MM2_MULTI_TRACK(MM2_CARTESIAN);
using Lines = std::vector<std::vector<std::pair<double, double>>>;

static std::string dir, file;

static Multi multi(const Lines &l) {
    std::vector<typename Multi::rich_line_type> r;
    for (auto &w : l) {
        typename Multi::line_type line;
        for (auto &[x, y] : w) { line.emplace_back(typename Multi::line_type::value_type{x, y}); }
        r.emplace_back(typename Multi::rich_line_type{std::move(line)});
    }
    return Multi{std::move(r)};
}

// ground truths of a, b, c, d and matches of a, b, c, d, x
static const std::vector<std::pair<std::string, Lines>> GROUND{
        {"a", {{{0, 0}, {30, 0}, {30, 30}}}}, {"b, \"the\" second", {{{0, 0}, {50, 0}}, {{60, 0}, {60, 40}}}}, {"c", {}}, {"d", {{{5, 5}, {5, 45}, {25, 45}}}}};
static const std::vector<std::pair<std::string, Lines>> MATCH{
        {"a", {{{0, 0}, {30, 0}, {60, 0}}}}, {"b, \"the\" second", {{{0, 0}, {50, 0}}, {{60, 0}, {60, 40}}}}, {"c", {{{0, 0}, {10, 0}}}}, {"d", {}}, {"x", {{{1, 1}, {2, 2}}}}};

static std::vector<std::vector<std::string>> read_rows() {
    std::ifstream in(file);
    std::vector<std::vector<std::string>> rows;
    std::vector<std::string> row{""};
    bool quoted = false, any = false;
    for (char c; in.get(c);) {
        any = true;
        if (quoted) {
            if (c == '"') { if (in.peek() == '"') { in.get(c); row.back() += c; } else { quoted = false; } } else { row.back() += c; }
        } else if (c == '"') { quoted = true; }
        else if (c == ',') { row.emplace_back(); }
        else if (c == '\n') { rows.push_back(row); row = {""}; any = false; }
        else { row.back() += c; }
    }
    mc::require(not quoted and not any, "the last row is cut off");
    return rows;
}

struct Row {
    std::map<std::string, std::string> text;
    double match_length = 0, truth_length = 0, correct_fraction, error_fraction, correct, added, missed;
    std::size_t match_points = 0, truth_points = 0;
};

// what one pair gives, by the comparison itself
static Row row_of(const std::string &id, const Lines &truth, const Lines &match) {
    const Multi t = multi(truth), m = multi(match);
    const geometry::line_comparator<Multi> cmp;
    const auto r = cmp.compare(t, m);
    Row x{.correct_fraction = r.correct_fraction, .error_fraction = r.error_fraction, .correct = r.correct, .added = r.error_added, .missed = r.error_missed};
    if (t.has_length()) { x.truth_length = t.length(); }
    if (m.has_length()) { x.match_length = m.length(); }
    x.truth_points = t.sizes();
    x.match_points = m.sizes();
    x.text = {{"id", id}, {"match", m.wkt()}, {"ground_truth", t.wkt()}, {"match_length", std::to_string(x.match_length)}, {"ground_truth_length", std::to_string(x.truth_length)},
            {"correct_fraction", std::to_string(x.correct_fraction)}, {"error_fraction", std::to_string(x.error_fraction)}, {"correct", std::to_string(x.correct)},
            {"error_added", std::to_string(x.added)}, {"error_missed", std::to_string(x.missed)}};
    const auto segments = [](const auto &ss) {
        using Model = geometry::models<typename Multi::point_type>;
        typename Model::template multi_line_type<typename Model::template line_type<>> l;
        for (const auto &s : ss) { l.emplace_back(typename Model::template line_type<>{s.first(), s.second()}); }
        return geometry::to_wkt(l);
    };
    x.text.emplace("corrects", segments(r.corrects));
    x.text.emplace("error_adds", segments(r.error_adds));
    x.text.emplace("error_misses", segments(r.error_misses));
    x.text.emplace("duration", "time");
    return x;
}

static const std::vector<std::string> COLUMNS[] = {
        {"id", "match", "ground_truth", "match_length", "ground_truth_length", "correct_fraction", "error_fraction", "correct", "error_added", "error_missed"},
        {"error_missed", "ground_truth", "id", "correct"},
};

struct Opt { bool ignore, verbose; unsigned threads; int columns; };

// with this, instead of the columns of the option
static std::vector<std::string> custom;

static double number(const std::string &s, const std::string &key) {
    const auto i = s.find(key);
    mc::require(i != std::string::npos, "sum has no ", key);
    return std::stod(s.substr(i + key.size()));
}

static void pair_case(const std::vector<int> &events, const Opt &o) {
    const auto &cols = custom.empty() ? COLUMNS[o.columns] : custom;
    std::string columns;
    for (auto &c : cols) { columns += (columns.empty() ? "" : ",") + c; }
    std::ostringstream printed;
    auto *old = std::cout.rdbuf(printed.rdbuf());
    {
        const compare::comparator_output_settings out{file, columns, false, o.verbose};
        auto comparator = std::make_unique<compare::comparator>(out, o.threads);
        comparator->start();
        {
            compare::settings s;
            s.ignore_non_existent = o.ignore;
            compare::comparator_forwarder_data data{*comparator, s};
            compare::comparator_forwarder_compares compares{data};
            compare::comparator_forwarder_matches matches{data};
            for (int e : events) {
                const bool truth = e < static_cast<int>(GROUND.size());
                const auto &[id, lines] = truth ? GROUND[e] : MATCH[e - GROUND.size()];
                if (truth) { compares.pass(Track{id, multi(lines)}); } else { matches.pass(Track{id, multi(lines)}); }
                mc::transition();
            }
            data.finish();
            comparator->stop();
        }
        comparator->join();
        comparator.reset();
    }
    std::cout.rdbuf(old);
    std::multiset<std::vector<std::string>> want, got;
    double n = 0, correct = 0, added = 0, missed = 0, cf = 0, ef = 0, ml = 0, tl = 0;
    std::size_t mp = 0, tp = 0;
    for (int e : events) {
        if (e >= static_cast<int>(GROUND.size())) { continue; }
        const auto &[id, truth] = GROUND[e];
        Lines match;
        bool found = false;
        for (int f : events) { if (f >= static_cast<int>(GROUND.size()) and MATCH[f - GROUND.size()].first == id) { match = MATCH[f - GROUND.size()].second; found = true; } }
        if (not found and o.ignore) { continue; }
        const Row r = row_of(id, truth, match);
        std::vector<std::string> line;
        for (auto &c : cols) { const auto f = r.text.find(c); line.push_back(f == r.text.end() ? "" : f->second); }
        want.insert(line);
        ++n; correct += r.correct; added += r.added; missed += r.missed; cf += r.correct_fraction; ef += r.error_fraction;
        ml += r.match_length; tl += r.truth_length; mp += r.match_points; tp += r.truth_points;
        if (found) { mc::nontrivial(); }
    }
    auto rows = read_rows();
    if (rows.empty()) {
        mc::require(want.empty(), "no rows, want ", want.size());
    } else {
        mc::require(rows[0] == cols, "header");
        for (std::size_t i = 1; i < rows.size(); ++i) {
            mc::require_eq(rows[i].size(), cols.size(), "fields of a row");
            for (std::size_t k = 0; k < cols.size(); ++k) {
                auto &x = rows[i][k];
                if (cols[k] != "duration") { continue; }
                mc::require(not x.empty() and x.find_first_not_of("0123456789.e-+") == std::string::npos and std::stod(x) >= 0, "duration ", x);
                x = "time";
            }
        }
        for (std::size_t i = 1; i < rows.size(); ++i) { got.insert(rows[i]); }
        for (auto &w : want) { mc::require(got.count(w) == want.count(w), "row of ", w[custom.empty() and cols[0] != "id" ? 2 : 0], " is not there once as it should be, rows ", rows.size() - 1); }
        mc::require_eq(got.size(), want.size(), "rows");
    }
    const std::string text = printed.str();
    if (not o.verbose) { mc::require(text.empty(), "nothing is printed if not asked to"); }
    else if (n > 0) {
        const auto i = text.find("Compares count:");
        mc::require(i != std::string::npos, "no sum printed");
        const std::string sum = text.substr(i);
        const auto is = [&](const char *key, double want, double tol) {
            const double x = number(sum, key);
            mc::require(std::isinf(want) ? std::isinf(x) : std::fabs(x - want) <= tol, "sum: ", key, " ", x, " want ", want);
        };
        is("Compares count: ", n, 0);
        is("ground truths points: ", static_cast<double>(tp), 0);
        is("matches points: ", static_cast<double>(mp), 0);
        is("ground truths length: ", tl, 0.006);
        is("matches length: ", ml, 0.006);
        is("mean correct fraction: ", cf / n, 6e-6);
        is("mean error fraction: ", ef / n, 6e-6);
        is("correct length: ", correct, 0.006);
        is("errors added: ", added, 0.006);
        is("errors missed: ", missed, 0.006);
        // all pairs together as if they were one
        const double we = added + missed == 0 ? 0 : tl > 0 ? (added + missed) / tl : INFINITY;
        is("weighted mean error fraction: ", we, 6e-6);
        is("weighted mean correct fraction: ", we == 0 ? 1 : tl > 0 and ml > 0 ? correct / std::max(tl, ml) : 0, 6e-6);
        std::size_t lines = 0;
        for (auto p = text.find("Comparison "); p != std::string::npos; p = text.find("Comparison ", p + 1)) { ++lines; }
        mc::require_eq(lines, want.size(), "printed comparisons");
    }
    mc::outcome(mc::hcat(want.size(), mc::hstr(want.empty() ? "" : want.begin()->front())));
}

// every sequence of columns, for files of compares; files of tracks
static void columns(bool deep) {
    std::vector<std::string> names = COLUMNS[0];
    for (const char *n : {"duration", "corrects", "error_adds", "error_misses", "speed", " id"}) { names.push_back(n); }
    const std::vector<int> all{0, 1, 2, 3, 4, 5, 6, 7, 8}, some{5, 1, 4, 0};
    for (int n = 1; n <= 3; ++n) {
        mc::suite("columns/" + std::to_string(n));
        mc::product(std::vector<int>(n, static_cast<int>(names.size())), [&](const std::vector<int> &v) {
            if (n == 3 and not deep and (v[0] + 5 * v[1] + 3 * v[2]) % 8) { return; }
            custom.clear();
            for (int i : v) { custom.push_back(names[i]); }
            for (int k = 0; k < 2; ++k) {
                mc::run_case([&] { std::string s; for (auto &c : custom) { s += c + ","; } return s + " options " + std::to_string(k); }, [&] {
                    mc::state(mc::hcat(mc::hstr(mc::show(v)), k));
                    pair_case(k ? some : all, Opt{k == 1, k == 0, 1, 0});
                });
            }
        });
    }
    custom.clear();
    mc::suite("tracks");
    const int kinds = static_cast<int>(GROUND.size() + MATCH.size());
    for (int n = 0; n <= (deep ? 4 : 3); ++n) {
        mc::product(std::vector<int>(n, kinds), [&](const std::vector<int> &v) {
            mc::run_case([&] { return mc::show(v); }, [&] {
                std::vector<std::vector<std::string>> want;
                {
                    io::results::csv_track_exporter<> e{file};
                    e.start();
                    for (int i : v) {
                        const auto &[id, lines] = i < static_cast<int>(GROUND.size()) ? GROUND[i] : MATCH[i - GROUND.size()];
                        const Track t{id, multi(lines)};
                        if (want.empty()) { want.push_back({"id", "track"}); }
                        want.push_back({id, multi(lines).wkt()});
                        e.pass(e.parse_result(t));
                        mc::transition();
                    }
                    e.stop();
                    e.join();
                }
                const auto rows = read_rows();
                if (want.empty()) { mc::require(rows.size() <= 1, "rows of no tracks"); } else { mc::require(rows == want, "rows of the tracks, ", rows.size(), " of ", want.size()); }
                mc::outcome(mc::hstr(mc::show(v)));
            });
        });
    }
}

int main(int argc, char **argv) {
    bool cols = false;
    for (int i = 1; i < argc; ++i) { cols |= std::string{argv[i]} == "--columns"; }
    return mc::main_(argc, argv, [&] {
        char tmp[] = "/tmp/mc_pairing_XXXXXX";
        if (not mkdtemp(tmp)) { std::abort(); }
        dir = tmp;
        file = dir + "/out.csv";
        if (cols) {
            columns(mc::g.thorough);
            unlink(file.c_str());
            rmdir(dir.c_str());
            return;
        }
        const int all = static_cast<int>(GROUND.size() + MATCH.size()), most = mc::g.thorough ? 6 : 5;
        const Opt opts[] = {{false, true, 1, 0}, {true, false, 2, 1}, {false, true, 2, 0}, {true, true, 1, 1}};
        // every sequence of different arrivals
        for (int n = 0; n <= most; ++n) {
            mc::suite("arrivals/" + std::to_string(n));
            mc::product(std::vector<int>(n, all), [&](const std::vector<int> &v) {
                if (std::set<int>(v.begin(), v.end()).size() != v.size()) { return; }
                for (int k = 0; k < 4; ++k) {
                    if (n == most and k >= 2) { continue; }
                    mc::run_case([&] { return mc::show(v) + " options " + std::to_string(k); }, [&] { mc::state(mc::hcat(mc::hstr(mc::show(v)), k)); pair_case(v, opts[k]); });
                }
            });
        }
        // as the program does: all ground truths in every order, then all matches in every order
        mc::suite("all");
        std::vector<int> g{0, 1, 2, 3}, m{4, 5, 6, 7, 8};
        do {
            do {
                std::vector<int> v = g;
                v.insert(v.end(), m.begin(), m.end());
                mc::run_case([&] { return mc::show(v); }, [&] { mc::state(mc::hstr(mc::show(v))); pair_case(v, opts[v[0] % 4]); });
            } while (std::next_permutation(m.begin(), m.end()));
        } while (std::next_permutation(g.begin(), g.end()));
        unlink(file.c_str());
        rmdir(dir.c_str());
    });
}
