// S02: worker coordination drains, runs every task once, bounds its backlog, terminates.
#include "core/sim.hpp"

#include <algorithm>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>

#include <boost/thread.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <semaphore>

#include "util/coordinator.hpp"

namespace {

    using sim::u64;

    struct Task {
        int id{-1};
        int work{0};
        bool fail{false};
    };

    struct Book {
        std::vector<int> runs, order;
        int running{0}, max_running{0}, accepted{0}, finished{0}, max_backlog{0}, failed{0};
    };

    class Sink : public map_matching_2::util::coordinator<Task> {
    public:
        Sink(Book &b, unsigned threads) : coordinator{threads}, _b{b} {}
        Sink(Book &b, unsigned threads, unsigned q) : coordinator{threads, q}, _b{b} {}
        Sink *next{nullptr};

    private:
        Book &_b;

        void execute(Task &&task) override {
            Task t = std::move(task);
            {
                sim::Quiet q;
                _b.runs.at(static_cast<std::size_t>(t.id))++;
                _b.order.push_back(t.id);
                _b.max_running = std::max(_b.max_running, ++_b.running);
            }
            for (int i = 0; i < t.work; ++i) sim::yield_point();
            if (next and not t.fail) next->queue(Task{t.id, 0, false});
            {
                sim::Quiet q;
                --_b.running;
                ++_b.finished;
                if (t.fail) ++_b.failed;
            }
            if (t.fail) {
                if (t.id % 2) throw std::runtime_error{"task failed"};
                throw 42;
            }
        }
    };

    void run(sim::Ctx &c) {
        const int threads = static_cast<int>(c.param("threads", 1, 4));
        const int own_queue = static_cast<int>(c.param("own_queue", 0, 1));
        const int qsize = own_queue ? static_cast<int>(c.param("queue", 1, 6)) : (threads == 1 ? 1 : 2 * threads);
        const int producers = static_cast<int>(c.param("producers", 1, 3));
        const int tasks = static_cast<int>(c.param("tasks", 0, 14));
        const int fail_pct = static_cast<int>(c.param("fail_class", 0, 3));  // 0 none, 1 few, 2 half, 3 nearly all
        const int late_start = static_cast<int>(c.param("late_start", 0, 1));
        const int chain = static_cast<int>(c.param("chain", 0, 1));
        const int foreign_stop = static_cast<int>(c.param("foreign_stop", 0, 1));
        const int maxwork = static_cast<int>(c.param("work", 0, 6));

        sim::Rng r = c.rng("s02");
        sim::Sched s;
        s.pct = r.chance(0.3);
        s.p_switch = r.chance(0.2) ? 0.0 : 0.05 + 0.6 * r.unit();
        s.p_mem = r.chance(0.5) ? 0.0 : 0.0002 + 0.01 * r.unit();
        s.p_spurious = r.chance(0.5) ? 0.0 : 0.1;
        s.p_stall = r.chance(0.6) ? 0.0 : 0.02;
        s.stall_ns = 3'000'000;
        s.max_steps = 6'000'000;
        const double pf[] = {0.0, 0.15, 0.5, 0.9};

        std::vector<Task> all;
        std::vector<std::vector<int>> per(static_cast<std::size_t>(producers));
        for (int p = 0; p < producers; ++p) {
            for (int i = 0; i < tasks; ++i) {
                Task t{static_cast<int>(all.size()), static_cast<int>(r.below(static_cast<u64>(maxwork) + 1)), r.chance(pf[fail_pct])};
                all.push_back(t);
                if (c.keep(static_cast<u64>(t.id))) per[static_cast<std::size_t>(p)].push_back(t.id);
            }
        }
        int total = 0;
        for (auto &v : per) total += static_cast<int>(v.size());

        auto book = std::make_unique<Book>();
        auto book2 = std::make_unique<Book>();
        book->runs.assign(all.size() + 1, 0);
        book2->runs.assign(all.size() + 1, 0);

        sim::start_sched(s);
        {
            auto second = std::make_unique<Sink>(*book2, 1u, 4u);
            auto first = own_queue
                    ? std::make_unique<Sink>(*book, static_cast<unsigned>(threads), static_cast<unsigned>(qsize))
                    : std::make_unique<Sink>(*book, static_cast<unsigned>(threads));
            if (chain) { first->next = second.get(); second->start(); }

            const bool late = late_start and total <= qsize;
            if (not late) first->start();
            std::vector<std::unique_ptr<std::thread>> ps;
            for (int p = 0; p < producers; ++p) {
                ps.push_back(std::make_unique<std::thread>([&, p] {
                    for (int id : per[static_cast<std::size_t>(p)]) {
                        if (id % 3) first->queue(Task{all[static_cast<std::size_t>(id)]});
                        else { const Task t = all[static_cast<std::size_t>(id)]; first->queue(t); }
                        sim::Quiet q;
                        ++book->accepted;
                        book->max_backlog = std::max(book->max_backlog, book->accepted - book->finished);
                    }
                }));
            }
            for (auto &p : ps) p->join();
            if (late) { first->start(); sim::count("probe:late-start"); }
            std::unique_ptr<std::thread> stopper;
            if (foreign_stop) {
                stopper = std::make_unique<std::thread>([&] { sim::yield_point(); first->stop(); });
                sim::count("probe:foreign-stop");
            } else {
                first->stop();
            }
            first->join();

            for (int p = 0; p < producers; ++p) {
                for (int id : per[static_cast<std::size_t>(p)]) {
                    const int n = book->runs[static_cast<std::size_t>(id)];
                    sim::check(n >= 1, "task-lost", "join returned although an accepted task never ran (threads " +
                            std::to_string(threads) + ", failed tasks " + std::to_string(book->failed) + ")");
                    sim::check(n == 1, "task-repeated", "a task ran " + std::to_string(n) + " times");
                }
            }
            sim::check(book->running == 0, "early-join", "join returned while a task was still running");
            sim::check(book->finished == total, "early-join", "join returned with " + std::to_string(book->finished) + " of " + std::to_string(total) + " tasks finished");
            if (stopper) stopper->join();
            first.reset();
            if (chain) {
                second->stop();
                second->join();
                for (int p = 0; p < producers; ++p) {
                    for (int id : per[static_cast<std::size_t>(p)]) {
                        const int want = all[static_cast<std::size_t>(id)].fail ? 0 : 1;
                        sim::check(book2->runs[static_cast<std::size_t>(id)] == want, "task-lost",
                                "the downstream stage saw a task " + std::to_string(book2->runs[static_cast<std::size_t>(id)]) + " times instead of " + std::to_string(want));
                    }
                }
                sim::check(book2->max_running <= 1, "too-many-workers", "single worker stage ran tasks in parallel");
                if (threads == 1) {
                    std::vector<int> want;
                    for (int id : book->order) if (not all[static_cast<std::size_t>(id)].fail) want.push_back(id);
                    sim::check(want == book2->order, "order", "single worker stage reordered its tasks");
                }
                sim::count("probe:chain");
            }
        }
        sim::stop_sched();

        sim::check(book->max_running <= threads, "too-many-workers", std::to_string(book->max_running) + " tasks ran at once with " + std::to_string(threads) + " workers");
        sim::check(book->max_backlog <= 2 * qsize + 1, "backlog-unbounded",
                std::to_string(book->max_backlog) + " accepted tasks were unfinished with a queue of " + std::to_string(qsize));
        if (threads == 1) {
            for (int p = 0; p < producers; ++p) {
                std::vector<int> got;
                for (int id : book->order) if (std::find(per[static_cast<std::size_t>(p)].begin(), per[static_cast<std::size_t>(p)].end(), id) != per[static_cast<std::size_t>(p)].end()) got.push_back(id);
                sim::check(got == per[static_cast<std::size_t>(p)], "order", "a single worker ran one producer's tasks out of order");
            }
        }
        if (book->max_running > 1) sim::count("probe:parallel-tasks");
        if (book->max_backlog > qsize) sim::count("probe:queue-filled");
        if (book->failed >= qsize) sim::count("probe:failures-exceed-capacity");
        sim::count("tasks", static_cast<u64>(total));
        sim::count("failed-tasks", static_cast<u64>(book->failed));
        if (total > 1) sim::nontrivial();
    }

    sim::Register reg{"S02", run, "util::coordinator, Boost.Thread pool/queue/future, libstdc++ semaphore",
            "task bodies; pthread mutex/condvar/futex/clock simulated"};

}
