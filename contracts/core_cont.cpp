// real:core
// Contracts of callback_continuation / continuation_task / continuation_result (the join of subtasks).
// Interference: posted subtasks run on other threads at any access to a shared variable (vf_env).
#include "core.hpp"
using namespace vc;
namespace
{
std::shared_ptr<sched<>> S;
std::size_t next_;          // posted jobs started so far
int ndone;
enum { VALUE, EXCEPTION, LATER, THROWS };
int kind[4]; long val[4]; int runs[4]; int completed[4];
std::shared_ptr<ba::continuation_result<long>> held[4];
void complete(int id, ba::continuation_result<long> const& r, int how)
{
    completed[id] = 1;
    if (how == VALUE) r.set_value(val[id]); else r.set_exception(std::make_exception_ptr(boom{id}));
}
// a subtask: completes with a value / an exception, throws, or completes later from elsewhere
struct task : ba::continuation_task<long>
{
    int id;
    explicit task(int i) : ba::continuation_task<long>("t"), id(i) {}
    void operator()()
    {
        auto r = this->this_task_result();
        ++runs[id];
        A(runs[id] == 1, "continuation: a subtask runs at most once");
        if (kind[id] == THROWS) { completed[id] = 1; throw boom{id}; }
        if (kind[id] == LATER) held[id] = std::make_shared<ba::continuation_result<long>>(r);
        else complete(id, r, kind[id]);
    }
};
void step(bool all)
{
    if (next_ < S->jobs.size() && (all || verif_nondet_bool("another thread runs the posted subtask now"))) { std::size_t i = next_++; S->run(i); }
}
void late(int i, bool all)
{
    if (held[i] && (all || verif_nondet_bool("the pending subtask completes now"))) { auto h = held[i]; held[i].reset(); complete(i, *h, VALUE); }
}
void run_some(bool all) { step(all); step(all); step(all); late(0, all); late(1, all); late(2, all); }
int kinds = 3;       // kinds of completion explored for posted subtasks
void check_slot(ba::expected<long>& e, int id)
{
    if (kind[id] == VALUE || kind[id] == LATER) { A(!e.has_exception() && e.get() == val[id], "continuation: the done-callback gets each subtask's value in its position"); }
    else
    {
        int got = -1;
        try { e.get(); } catch (boom& b) { got = b.id; }
        A(got == id, "continuation: the done-callback gets each subtask's exception in its position");
    }
}
int N;
void on_all()
{
    ++ndone;
    for (int i = 0; i < N; ++i) A(completed[i], "continuation: done-callback only after all subtasks");
}
void setup(int n, bool last_inline)
{
    N = n;
    S = make<>();
    for (int i = 0; i < n; ++i)
    {
        kind[i] = verif_choice((last_inline && i == n - 1) ? (kinds == 3 ? 4 : kinds) : kinds, "kind(0 value,1 exception,2 completes later,3 throws)");
        val[i] = verif_nondet_long("value");
    }
    verif_env(true);
}
void finish(int times = 1)
{
    verif_env(false);
    run_some(true); run_some(true);
    A(ndone == times, "continuation: done-callback exactly once");
    for (int i = 0; i < N; ++i) A(runs[i] == 1, "continuation: every subtask is executed");
    verif_cover("end");
}
typedef ba::expected<long> EL;
}
extern "C" void vf_env();

extern "C" void check_join_one()
{
    setup(1, true);
    ba::create_callback_continuation([](std::tuple<EL> r) { on_all(); check_slot(std::get<0>(r), 0); }, task(0));
    finish();
}
extern "C" void check_join_two()
{
    setup(2, true);
    ba::create_callback_continuation([](std::tuple<EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); }, task(0), task(1));
    finish();
}
extern "C" void check_join_two_job()
{
    setup(2, true);
    ba::create_callback_continuation_job<ba::any_callable>([](std::tuple<EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); }, task(0), task(1));
    finish();
}
extern "C" void check_join_three()
{
    kinds = 2;
    setup(3, true);
    ba::create_callback_continuation([](std::tuple<EL, EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); check_slot(std::get<2>(r), 2); }, task(0), task(1), task(2));
    finish();
}
extern "C" void check_join_tuple_of_two()
{
    setup(2, true);
    ba::create_callback_continuation([](std::tuple<EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); },
        std::tuple<EL, EL>(), std::make_tuple(task(0), task(1)));
    finish();
}
extern "C" void check_join_tuple_of_three_job()
{
    kinds = 2;
    setup(3, true);
    ba::create_callback_continuation_job<ba::any_callable>([](std::tuple<EL, EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); check_slot(std::get<2>(r), 2); },
        std::tuple<EL, EL, EL>(), std::make_tuple(task(0), task(1), task(2)));
    finish();
}
static void seq(int n)
{
    setup(n, true);
    std::vector<task> v;
    for (int i = 0; i < n; ++i) v.push_back(task(i));
    ba::create_callback_continuation([n](std::vector<EL> r) {
        on_all();
        A(r.size() == (std::size_t)n, "continuation: one result per subtask");
        for (int i = 0; i < n; ++i) check_slot(r[i], i);
    }, std::move(v));
    finish();
}
extern "C" void check_join_vector_of_none() { seq(0); }
extern "C" void check_join_vector_of_one() { seq(1); }
extern "C" void check_join_vector_of_two() { seq(2); }
extern "C" void check_join_vector_of_three() { kinds = 2; seq(3); }
// a top level continuation: the result goes to a callback which is set after the subtask was started
static void top(bool force, int n)
{
    setup(1, !force);
    auto c = force ? ba::top_level_callback_continuation_force_post<long>(task(0)) : ba::top_level_callback_continuation<long>(task(0));
    A(c.is_ready() == false, "continuation: not ready before its result was handed over");
    c.on_done([](std::tuple<EL>&& r) { on_all(); check_slot(std::get<0>(r), 0); });
    finish();
    A(c.is_ready(), "continuation: ready after its result was handed over");
}
extern "C" void check_top_level() { top(false, 1); }
extern "C" void check_top_level_force_post() { top(true, 1); }
extern "C" void check_top_level_job_two()
{
    setup(2, true);
    auto c = ba::top_level_callback_continuation_job<long, ba::any_callable>(task(0));
    kind[1] = 0; runs[1] = completed[1] = 1;
    c.on_done([](std::tuple<EL>&& r) { on_all(); check_slot(std::get<0>(r), 0); });
    finish();
}
// continuations given as subtasks: a join over continuations
extern "C" void check_join_of_continuations()
{
    setup(2, true);
    auto a = ba::top_level_callback_continuation<long>(task(0));
    auto b = ba::top_level_callback_continuation<long>(task(1));
    ba::create_callback_continuation([](std::tuple<EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); }, std::move(a), std::move(b));
    finish();
}
extern "C" void check_join_vector_of_continuations()
{
    kinds = 2;
    setup(2, true);
    std::vector<ba::detail::callback_continuation<long>> v;
    v.push_back(ba::top_level_callback_continuation<long>(task(0)));
    v.push_back(ba::top_level_callback_continuation<long>(task(1)));
    ba::create_callback_continuation([](std::vector<EL> r) { on_all(); A(r.size() == 2, "continuation: one result per subtask"); check_slot(r[0], 0); check_slot(r[1], 1); }, std::move(v));
    finish();
}
// nested: the result of the outer task is set in the done-callback of an inner join
namespace
{
struct outer : ba::continuation_task<long>
{
    void operator()()
    {
        auto tr = this->this_task_result();
        ba::create_callback_continuation([tr](std::tuple<EL, EL> r) {
            try { tr.set_value(std::get<0>(r).get() / 2 + std::get<1>(r).get() / 2); } catch (...) { tr.set_exception(std::current_exception()); }
        }, task(0), task(1));
    }
};
}
extern "C" void check_nested()
{
    kinds = 2;
    setup(2, true);
    auto c = ba::top_level_callback_continuation<long>(outer());
    c.on_done([](std::tuple<EL>&& r) {
        on_all();
        bool ok0 = kind[0] == VALUE || kind[0] == LATER, ok1 = kind[1] == VALUE || kind[1] == LATER;
        if (ok0 && ok1) { A(!std::get<0>(r).has_exception() && std::get<0>(r).get() == val[0] / 2 + val[1] / 2, "continuation: nested result"); }
        else A(std::get<0>(r).has_exception(), "continuation: nested exception");
    });
    finish();
}
// no thread scheduler of the requested job type: the one of any_callable is used
extern "C" void check_join_other_job_type()
{
    setup(2, true);
    ba::create_callback_continuation_job<ba::any_loggable>([](std::tuple<EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); }, task(0), task(1));
    finish();
}
// the join counter for any number of subtasks: exactly the last of the n+1 parties hands over the result.
// The other parties may have incremented the counter any number of times before.
namespace
{
typedef ba::detail::callback_continuation_as_seq<long>::subtask_finished SF;
SF* sf; long total, arrived; int handed, by_me; bool me_counted;
void others()
{
    long d = verif_nondet_range("other parties arrive", 0, 1000001);
    verif_assume(d <= total - arrived);
    if (d == 0) return;
    arrived += d;
    long before = (long)*(std::size_t*)&sf->m_ready_futures;
    *(std::size_t*)&sf->m_ready_futures = (std::size_t)(before + d);
    if (before + d == total + 1) ++handed;     // one of them was the last
}
void party(bool callback)
{
    total = verif_nondet_range("subtasks", 0, 1000000);
    sf = new SF(0, false, false);
    auto& v = sf->m_futures._M_impl;
    char* mem = (char*)::operator new(16);
    v._M_start = (EL*)mem; v._M_finish = v._M_end_of_storage = v._M_start + total;
    auto cb = [](std::vector<EL>&& r) {
        ++by_me;
        A(arrived == total, "continuation: handed over only after all parties arrived");
        new std::vector<EL>(std::move(r));
    };
    if (!callback) { verif_assume(total > 0); sf->m_done = cb; }
    // the others: the subtasks (all but this one) and, if this one is a subtask, the thread that sets the callback
    if (!callback) {}
    verif_env(true);
    others();
    if (callback) sf->on_done(cb); else sf->done();
    verif_env(false);
    // the rest arrives
    long rest = total - arrived;
    arrived = total;
    long before = (long)*(std::size_t*)&sf->m_ready_futures;
    if (rest > 0 && before + rest == total + 1) ++handed;
    *(std::size_t*)&sf->m_ready_futures = (std::size_t)(before + rest);
    A(before + rest == total + 1, "continuation: every party is counted once");
    A(handed + by_me == 1, "continuation: exactly one party hands over the result, for any number of subtasks");
    verif_cover("end");
}
}
extern "C" void check_counter_subtask() { party(false); }
extern "C" void check_counter_callback() { party(true); }
// continuation_result without a done-callback: the promise gets it
extern "C" void check_result_promise()
{
    auto p = std::make_shared<std::promise<long>>();
    auto f = p->get_future();
    ba::continuation_result<long> r(p, std::function<void(EL)>());
    long v = verif_nondet_long("value");
    bool ex = verif_nondet_bool("exception");
    if (ex) r.set_exception(std::make_exception_ptr(boom{3})); else r.set_value(v);
    long got = 0; int id = 0;
    try { got = f.get(); } catch (boom& b) { id = b.id; }
    A(ex ? id == 3 : got == v, "continuation: result delivered through the promise");
    verif_cover("end");
}
extern "C" void check_result_promise_void()
{
    auto p = std::make_shared<std::promise<void>>();
    auto f = p->get_future();
    ba::continuation_result<void> r(p, std::function<void(ba::expected<void>)>());
    bool ex = verif_nondet_bool("exception");
    if (ex) r.set_exception(std::make_exception_ptr(boom{3})); else r.set_value();
    bool ok = false; int id = 0;
    try { f.get(); ok = true; } catch (boom& b) { id = b.id; }
    A(ex ? id == 3 : ok, "continuation: result delivered through the promise");
    verif_cover("end");
}
static int vdone; static int vid;
extern "C" void check_result_callback_void()
{
    ba::continuation_result<void> r0(std::shared_ptr<std::promise<void>>(), [](ba::expected<void> e) { ++vdone; try { e.get(); vid = 1; } catch (boom& b) { vid = b.id; } });
    ba::continuation_result<void> r(r0);
    if (verif_nondet_bool("moved")) r = std::move(r0);
    bool ex = verif_nondet_bool("exception");
    if (ex) r.set_exception(std::make_exception_ptr(boom{3})); else r.set_value();
    A(vdone == 1 && vid == (ex ? 3 : 1), "continuation: result delivered to the done-callback");
    verif_cover("end");
}
// lambda tasks
extern "C" void check_lambda_task()
{
    bool ex = verif_nondet_bool("throws"); long v = verif_nondet_long("value");
    auto t = ba::make_lambda_continuation_wrapper([ex, v]() -> long { if (ex) throw boom{4}; return v; }, "x");
    long got = 0; int id = 0, n = 0;
    t.set_done_func([&](EL e) { ++n; try { got = e.get(); } catch (boom& b) { id = b.id; } });
    t();
    A(n == 1 && (ex ? id == 4 : got == v), "continuation: a lambda task delivers its result or exception once");
    verif_cover("end");
}
extern "C" void check_lambda_task_void()
{
    bool ex = verif_nondet_bool("throws");
    auto t = ba::make_lambda_continuation_wrapper([ex]() { if (ex) throw boom{4}; }, "x");
    int id = 0, n = 0;
    t.set_done_func([&](ba::expected<void> e) { ++n; try { e.get(); } catch (boom& b) { id = b.id; } });
    t();
    A(n == 1 && (ex ? id == 4 : id == 0), "continuation: a lambda task delivers its result or exception once");
    verif_cover("end");
}
extern "C" void check_top_level_lambda()
{
    setup(0, true);
    long v = verif_nondet_long("value");
    auto c = ba::top_level_callback_continuation<long>(ba::make_top_level_lambda_continuation<long>([v](ba::continuation_result<long> r) { r.set_value(v); }, "x"));
    c.on_done([v](std::tuple<EL>&& r) { on_all(); A(std::get<0>(r).get() == v, "continuation: value of a top level lambda"); });
    finish();
}
extern "C" void check_ready_continuation()
{
    setup(0, true);
    long v = verif_nondet_long("value");
    auto c = ba::make_ready_continuation<long>(v, "x");
    c.on_done([v](std::tuple<EL>&& r) { on_all(); A(std::get<0>(r).get() == v, "continuation: value of a ready continuation"); });
    finish();
}

// inside an interruptible task: all subtasks are posted as interruptible
static void with_state() { ba::get_interrupt_state<>(std::make_shared<ba::detail::interrupt_state>(), true); }
extern "C" void check_join_two_interruptible()
{
    kinds = 2; setup(2, false); with_state();
    ba::create_callback_continuation([](std::tuple<EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); }, task(0), task(1));
    finish();
}
extern "C" void check_join_tuple_interruptible()
{
    kinds = 2; setup(2, false); with_state();
    ba::create_callback_continuation([](std::tuple<EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); },
        std::tuple<EL, EL>(), std::make_tuple(task(0), task(1)));
    finish();
}
extern "C" void check_join_vector_interruptible() { kinds = 2; with_state(); seq(2); }
// a posted subtask whose operator() throws
extern "C" void check_join_posted_throws()
{
    setup(2, true);
    kind[0] = THROWS;
    ba::create_callback_continuation([](std::tuple<EL, EL> r) { on_all(); check_slot(std::get<0>(r), 0); check_slot(std::get<1>(r), 1); }, task(0), task(1));
    finish();
}
extern "C" void vf_env() { if (sf) others(); else if (S) run_some(false); }
