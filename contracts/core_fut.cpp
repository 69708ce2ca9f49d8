// real:core
// Contracts of the future based continuations (continuation, continuation_as_seq) and of the timeouts of continuations.
#include "core.hpp"
using namespace vc;
namespace
{
typedef std::chrono::high_resolution_clock clk;
typedef std::future<long> FL;
int ndone; bool done_[4], exc[4]; long val[4];
std::promise<long>* prm[4];
#define pr(i) (*prm[i])
std::shared_ptr<sched<>> S;
void fulfil(int i) { done_[i] = true; if (exc[i]) pr(i).set_exception(std::make_exception_ptr(boom{i})); else pr(i).set_value(val[i]); }
void setup(int n)
{
    S = make<>();
    for (int i = 0; i < n; ++i) { prm[i] = new std::promise<long>(); val[i] = verif_nondet_long("value"); exc[i] = verif_nondet_bool("exception"); done_[i] = false; }
}
void check_future(FL& f, int i)
{
    A(f.valid() && ba::is_ready(f), "future continuation: every future is ready when the done-callback runs");
    long v = 0; int id = -1;
    try { v = f.get(); } catch (boom& b) { id = b.id; }
    A(exc[i] ? id == i : (id < 0 && v == val[i]), "future continuation: the done-callback gets each future in its position");
}
ba::any_continuation& front() { A(ba::get_continuations().size() == 1, "future continuation: one continuation is registered"); return ba::get_continuations().front(); }
void run_to_end(int n)
{
    ba::any_continuation& c = front();
    // the futures get ready in any order, a worker looks after the continuation at any time
    for (int k = 0; k < n; ++k)
    {
        bool all = true; for (int i = 0; i < n; ++i) all = all && done_[i];
        A(all || !c.is_ready(), "future continuation: not ready before all futures are");
        A(ndone == 0, "future continuation: no done-callback before all futures are ready");
        int left = 0; for (int i = 0; i < n; ++i) if (!done_[i]) ++left;
        if (left == 0) break;
        int w = verif_choice(left, "next future");
        for (int i = 0; i < n; ++i) if (!done_[i] && w-- == 0) { fulfil(i); break; }
    }
    A(c.is_ready(), "future continuation: ready when all futures are");
    A(c.is_ready(), "future continuation: stays ready");
    A(ndone == 0, "future continuation: the done-callback is called by the worker");
    c();
    A(ndone == 1, "future continuation: done-callback exactly once");
    verif_cover("end");
}
}
extern "C" void check_futures_one()
{
    setup(1);
    ba::create_continuation([](std::tuple<FL> t) { ++ndone; check_future(std::get<0>(t), 0); }, pr(0).get_future());
    run_to_end(1);
}
extern "C" void check_futures_two()
{
    setup(2);
    ba::create_continuation([](std::tuple<FL, FL> t) { ++ndone; check_future(std::get<0>(t), 0); check_future(std::get<1>(t), 1); }, pr(0).get_future(), pr(1).get_future());
    run_to_end(2);
}
extern "C" void check_futures_three_job()
{
    setup(3);
    ba::create_continuation_job<ba::any_callable>([](std::tuple<FL, FL, FL> t) { ++ndone; check_future(std::get<0>(t), 0); check_future(std::get<1>(t), 1); check_future(std::get<2>(t), 2); },
        pr(0).get_future(), pr(1).get_future(), pr(2).get_future());
    run_to_end(3);
}
static void fseq(int n, bool job)
{
    setup(n);
    std::vector<FL> v;
    for (int i = 0; i < n; ++i) v.push_back(pr(i).get_future());
    auto cb = [n](std::vector<FL>&& t) { ++ndone; A(t.size() == (std::size_t)n, "future continuation: one future per element"); for (int i = 0; i < n; ++i) check_future(t[i], i); };
    if (job) ba::create_continuation_job<ba::any_callable>(cb, std::move(v)); else ba::create_continuation(cb, std::move(v));
    run_to_end(n);
}
extern "C" void check_futures_seq_none() { fseq(0, false); }
extern "C" void check_futures_seq_two() { fseq(2, false); }
extern "C" void check_futures_seq_three_job() { fseq(3, true); }
// tasks: posted to the pool of the worker, each once
namespace
{
int runs[4];
struct task : ba::continuation_task<long>
{
    int id; explicit task(int i) : ba::continuation_task<long>("t"), id(i) {}
    void operator()() { ++runs[id]; auto r = this->this_task_result(); done_[id] = true; if (exc[id]) r.set_exception(std::make_exception_ptr(boom{id})); else r.set_value(val[id]); }
};
}
extern "C" void check_futures_of_tasks()
{
    setup(2);
    ba::create_continuation([](std::tuple<FL, FL> t) { ++ndone; check_future(std::get<0>(t), 0); check_future(std::get<1>(t), 1); }, task(0), task(1));
    ba::any_continuation& c = front();
    std::size_t n = S->jobs.size();
    A(n == 2 && runs[0] + runs[1] == 0, "future continuation: every task is posted");
    bool first = verif_nondet_bool("second job first");
    A(!c.is_ready(), "future continuation: not ready before all futures are");
    S->run(first ? 1 : 0);
    A(!c.is_ready(), "future continuation: not ready before all futures are");
    S->run(first ? 0 : 1);
    A(runs[0] == 1 && runs[1] == 1, "future continuation: every task runs once");
    A(c.is_ready(), "future continuation: ready when all futures are");
    c();
    A(ndone == 1, "future continuation: done-callback exactly once");
    verif_cover("end");
}
// timeouts: the worker finds the continuation ready once the duration elapsed, never before
extern "C" void check_futures_timeout()
{
    setup(2);
    long d = verif_nondet_range("milliseconds", 1, 1000000);
    auto t0 = clk::now();
    ba::create_continuation_timeout([](std::tuple<FL, FL> t) { ++ndone; A(std::get<0>(t).valid() && std::get<1>(t).valid(), "future continuation: futures are handed over after a timeout"); A(ba::is_ready(std::get<0>(t)) == done_[0] && ba::is_ready(std::get<1>(t)) == done_[1], "future continuation: after a timeout exactly the finished futures are ready"); },
        std::chrono::milliseconds(d), pr(0).get_future(), pr(1).get_future());
    auto t1 = clk::now();
    if (verif_nondet_bool("first done")) fulfil(0);
    if (verif_nondet_bool("second done")) fulfil(1);
    auto t2 = clk::now();
    bool r = front().is_ready();
    auto t3 = clk::now();
    bool all = done_[0] && done_[1];
    if (t2 - t1 >= std::chrono::milliseconds(d)) A(r, "continuation timeout: ready once the duration elapsed");
    if (t3 - t0 < std::chrono::milliseconds(d)) A(r == all, "continuation timeout: not ready before the duration elapsed");
    if (all) A(r, "future continuation: ready when all futures are");
    if (r) { front()(); A(ndone == 1, "future continuation: done-callback exactly once"); }
    verif_cover("end");
}
extern "C" void check_futures_seq_timeout()
{
    setup(2);
    long d = verif_nondet_range("milliseconds", 1, 1000000);
    std::vector<FL> v; v.push_back(pr(0).get_future()); v.push_back(pr(1).get_future());
    auto t0 = clk::now();
    ba::create_continuation_timeout([](std::vector<FL>&& t) { ++ndone; A(t.size() == 2 && ba::is_ready(t[0]) == done_[0] && ba::is_ready(t[1]) == done_[1], "future continuation: after a timeout exactly the finished futures are ready"); },
        std::chrono::milliseconds(d), std::move(v));
    auto t1 = clk::now();
    if (verif_nondet_bool("first done")) fulfil(0);
    if (verif_nondet_bool("second done")) fulfil(1);
    auto t2 = clk::now();
    bool r = front().is_ready();
    auto t3 = clk::now();
    bool all = done_[0] && done_[1];
    if (t2 - t1 >= std::chrono::milliseconds(d)) A(r, "continuation timeout: ready once the duration elapsed");
    if (t3 - t0 < std::chrono::milliseconds(d)) A(r == all, "continuation timeout: not ready before the duration elapsed");
    if (all) A(r, "future continuation: ready when all futures are");
    if (r) { front()(); A(ndone == 1, "future continuation: done-callback exactly once"); }
    verif_cover("end");
}
// an interrupted continuation is ready at once: nothing waits for its subtasks any more
extern "C" void check_futures_interrupted()
{
    S = make<>();
    auto st = std::make_shared<ba::detail::interrupt_state>();
    ba::get_interrupt_state<>(st, true);
    prm[0] = new std::promise<long>(); val[0] = 1; exc[0] = false;
    ba::create_continuation([](std::tuple<FL> t) { ++ndone; }, pr(0).get_future());
    A(!front().is_ready(), "future continuation: not ready before all futures are");
    std::promise<boost::thread*> p; std::shared_future<boost::thread*> f(p.get_future());
    st->interrupt(f);
    A(front().is_ready(), "future continuation: an interrupted continuation is ready");
    verif_cover("end");
}
