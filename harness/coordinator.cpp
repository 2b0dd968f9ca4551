// Q01: the task coordinator under every schedule up to a bound on deviations from the default schedule.
// Q02 (--chain): the pipeline of matcher and comparator: workers that pass their results on to writers with one thread.
#include <fstream>
#include <unistd.h>

#include "sched.hpp"

// semaphore operations are scheduling points as well
#include <semaphore>
namespace std {
    template<ptrdiff_t N = __gnu_cxx::__int_traits<int>::__max>
    class mc_counting_semaphore : public counting_semaphore<N> {
    public:
        using counting_semaphore<N>::counting_semaphore;
        void acquire() { sched::point(); counting_semaphore<N>::acquire(); }
        bool try_acquire() { sched::point(); return counting_semaphore<N>::try_acquire(); }
        void release(ptrdiff_t n = 1) { sched::point(); counting_semaphore<N>::release(n); sched::point(); }
    };
    using mc_binary_semaphore = mc_counting_semaphore<1>;
}
#define counting_semaphore mc_counting_semaphore
#define binary_semaphore mc_binary_semaphore

#include "util/coordinator.hpp"
#include "io/results/csv_results_exporter.hpp"
#include "io/results/results_output_printer.hpp"

using namespace map_matching_2;

struct Log {
    std::vector<int> started, ended;
    int running = 0, max_running = 0;
    int accepted = 0, max_open = 0;
    bool joined = false, after_join = false;
};

static Log lg;

struct Tasks : util::coordinator<int> {
    unsigned failing;
    Tasks(unsigned threads, unsigned queue, unsigned failing) : util::coordinator<int>{threads, queue}, failing{failing} {}
    Tasks(unsigned threads, unsigned failing) : util::coordinator<int>{threads}, failing{failing} {}

    void execute(int &&task) override {
        lg.started.push_back(task);
        lg.after_join |= lg.joined;
        lg.max_running = std::max(lg.max_running, ++lg.running);
        sched::point();
        --lg.running;
        lg.ended.push_back(task);
        if (failing >> task & 1) { throw std::runtime_error{"task failed"}; }
    }
};

struct Conf { unsigned threads; unsigned queue; int tasks; unsigned failing; bool late; };

static std::string name_of(const Conf &c) {
    return "threads" + std::to_string(c.threads) + "-queue" + (c.queue ? std::to_string(c.queue) : "default") + "-tasks" + std::to_string(c.tasks)
            + (c.failing ? "-failing" + std::to_string(c.failing) : "") + (c.late ? "-late" : "");
}

static void tasks_suite(const Conf &c, int budget) {
    const unsigned qs = c.queue ? c.queue : c.threads == 1 ? 1 : 2 * c.threads;
    sched::explore(name_of(c), budget, [&] {
        lg = {};
        auto go = [&](Tasks &t) {
            if (not c.late) { t.start(); }
            for (int i = 0; i < c.tasks; ++i) {
                if (i % 2) { t.queue(int{i}); } else { const int k = i; t.queue(k); }
                ++lg.accepted;
                lg.max_open = std::max(lg.max_open, lg.accepted - static_cast<int>(lg.ended.size()));
            }
            if (c.late) { t.start(); }
            t.stop();
            t.join();
            lg.joined = true;
        };
        if (c.queue) { Tasks t{c.threads, c.queue, c.failing}; go(t); } else { Tasks t{c.threads, c.failing}; go(t); }
    }, [&] {
        auto s = lg.started;
        mc::require(not lg.after_join, "a task ran after join() had returned");
        if (c.threads == 1) {
            for (int i = 0; i < static_cast<int>(s.size()); ++i) { mc::require_eq(s[i], i, "one thread works in queue order: task at position ", i); }
        }
        mc::require_eq(s.size(), lg.ended.size(), "tasks ended");
        std::sort(s.begin(), s.end());
        std::string got = mc::show(s);
        mc::require_eq(static_cast<int>(s.size()), c.tasks, "number of executed tasks, executed ", got);
        for (int i = 0; i < c.tasks; ++i) { mc::require_eq(s[i], i, "every task once, executed ", got); }
        mc::require(lg.max_running <= static_cast<int>(c.threads), "no more tasks at once than threads: ", lg.max_running);
        mc::require(lg.max_open <= static_cast<int>(2 * qs + 1), "open tasks are bounded by the queue sizes: ", lg.max_open, " > ", 2 * qs + 1);
        mc::outcome(mc::hstr(mc::show(lg.started) + mc::show(lg.ended) + std::to_string(lg.max_running) + "," + std::to_string(lg.max_open)));
        if (not sched::taken.empty() and sched::schedule().find("default") == std::string::npos) { mc::nontrivial(); }
    });
}

// ---- pipeline like matcher and comparator: the writers live in the owner of the workers
static std::string file;

struct Row { int task; };

struct Writer : io::results::csv_results_exporter<Row> {
    using base = io::results::csv_results_exporter<Row>;
    Writer(const std::string &f) : base{f, "id,square"} {}
    void pass(Row &&r) { this->queue(std::move(r)); }
    void execute(Row &&r) override {
        mc::require_eq(lg.running, 0, "rows are written one after the other");
        ++lg.running;
        sched::point();
        this->write_result({std::to_string(r.task), std::to_string(r.task * r.task)});
        --lg.running;
        lg.ended.push_back(r.task);
    }
};

struct Printer : io::results::results_output_printer<Row> {
    using base = io::results::results_output_printer<Row>;
    Printer() : base{false, false} {}
    void pass(Row &&r) { this->queue(std::move(r)); }
    void execute(Row &&r) override { lg.started.push_back(r.task); }
};

struct Owner : util::coordinator<int> {
    Writer writer;
    Printer printer;
    unsigned failing;
    Owner(unsigned threads, unsigned failing) : util::coordinator<int>{threads}, writer{file}, failing{failing} {
        printer.start();
        writer.start();
    }
    ~Owner() override {
        printer.stop();
        writer.stop();
        printer.join();
        writer.join();
    }
    void execute(int &&task) override {
        if (failing >> task & 1) { throw std::runtime_error{"task failed"}; }
        printer.pass(Row{task});
        writer.pass(Row{task});
    }
};

static void chain_suite(unsigned threads, int tasks, unsigned failing, int budget) {
    sched::explore("chain-threads" + std::to_string(threads) + "-tasks" + std::to_string(tasks) + "-failing" + std::to_string(failing), budget, [&] {
        lg = {};
        auto o = std::make_unique<Owner>(threads, failing);
        o->start();
        for (int i = 0; i < tasks; ++i) { o->queue(int{i}); }
        o->stop();
        o->join();
        o.reset();
    }, [&] {
        std::vector<int> want;
        for (int i = 0; i < tasks; ++i) { if (not(failing >> i & 1)) { want.push_back(i); } }
        auto w = lg.ended, p = lg.started;
        if (threads == 1) {
            mc::require_eq(mc::show(w), mc::show(want), "one thread: rows in queue order");
        }
        std::sort(w.begin(), w.end());
        std::sort(p.begin(), p.end());
        mc::require_eq(mc::show(w), mc::show(want), "every finished task is written once");
        mc::require_eq(mc::show(p), mc::show(want), "every finished task is printed once");
        std::ifstream in(file);
        std::vector<std::string> lines, rows;
        for (std::string l; std::getline(in, l);) { lines.push_back(l); }
        if (want.empty()) {
            mc::require(lines.empty(), "no rows without results");
        } else {
            mc::require_eq(lines.size(), want.size() + 1, "lines in the file");
            mc::require_eq(lines[0], std::string{"id,square"}, "header first");
            for (std::size_t i = 1; i < lines.size(); ++i) {
                mc::require_eq(lines[i], std::to_string(lg.ended[i - 1]) + "," + std::to_string(lg.ended[i - 1] * lg.ended[i - 1]), "row ", i);
            }
        }
        mc::outcome(mc::hstr(mc::show(lg.started) + mc::show(lg.ended)));
        if (sched::schedule().find("default") == std::string::npos) { mc::nontrivial(); }
    });
}

int main(int argc, char **argv) {
    bool chain = false;
    for (int i = 1; i < argc; ++i) { chain |= std::string{argv[i]} == "--chain"; }
    return mc::main_(argc, argv, [&] {
        const int x = mc::g.thorough ? (chain ? 1 : 2) : (chain ? 0 : 1);
        if (chain) {
            char dir[] = "/tmp/mc_chain_XXXXXX";
            if (not mkdtemp(dir)) { std::abort(); }
            file = std::string{dir} + "/out.csv";
            chain_suite(1, 1, 0, 2);
            chain_suite(1, 2, 0, 1 + x);
            chain_suite(2, 2, 0, 1 + x);
            chain_suite(2, 3, 2, 1);
            unlink(file.c_str());
            rmdir(dir);
            return;
        }
        tasks_suite({1, 1, 0, 0, false}, 3 + x);
        tasks_suite({1, 1, 1, 0, false}, 3 + x);
        tasks_suite({1, 0, 2, 0, false}, 2 + x);
        tasks_suite({1, 2, 3, 2, false}, 2);
        tasks_suite({1, 2, 2, 0, true}, 2 + x);
        tasks_suite({2, 1, 2, 0, false}, 2);
        tasks_suite({2, 0, 3, 0, false}, 2);
        tasks_suite({2, 2, 3, 1, false}, 2);
        tasks_suite({3, 1, 3, 0, false}, 2);
        sched::spurious = true;
        tasks_suite({1, 2, 2, 1, true}, 1 + x);
        tasks_suite({2, 1, 3, 2, false}, 1 + x);
    });
}
