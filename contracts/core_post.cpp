// real:core
// Contracts of post_future / interruptible_post_future (P13) and post_callback / interruptible_post_callback (P14).
// The pool and the callback scheduler are contract schedulers: a posted job is executed exactly once, later, by a worker.
#include "core.hpp"
#include <boost/asynchronous/post.hpp>
using namespace vc;
namespace
{
enum { VALUE, THROWS, INTERRUPTED, ABORTED };
int where;            // 0: the thread that posts, 1: a worker of the pool, 2: the thread of the callback scheduler
int runs, calls;
int kind; long val;
std::size_t prio, cbprio;
template <class J> struct pool
{
    typedef J job_type;
    std::shared_ptr<sched<J>> s;
    void post(J j, std::size_t p = 0) const { s->post(std::move(j), p); }
    ba::any_interruptible interruptible_post(J j, std::size_t p = 0) const { ++*ints; return s->interruptible_post(std::move(j), p); }
    std::shared_ptr<int> ints = std::make_shared<int>(0);
};
// objects of the user: how many (copies) are alive, how many were destroyed by the pool
struct track { int live = 0, pool = 0; };
struct owned
{
    track* t;
    explicit owned(track* x) : t(x) { ++t->live; }
    owned(owned&& o) noexcept : t(o.t) { o.t = nullptr; }
    owned(owned const& o) : t(o.t) { if (t) ++t->live; }
    owned& operator=(owned&& o) noexcept { std::swap(t, o.t); return *this; }
    owned& operator=(owned const& o) { owned x(o); std::swap(t, x.t); return *this; }
    ~owned() { if (t) { --t->live; if (where == 1) ++t->pool; } }
};
// the work of the user, executed once
struct work : owned
{
    using owned::owned;
    void enter() const
    {
        ++runs;
        A(runs == 1, "post: the task runs at most once");
        A(where == 1, "post: the task runs in the pool");
        if (kind == THROWS) throw boom{7};
        if (kind == INTERRUPTED) throw boost::thread_interrupted();
        if (kind == ABORTED) throw ba::task_aborted_exception();
    }
};
struct vwork : work { using work::work; void operator()() { enter(); } };
struct lwork : work { using work::work; long operator()() { enter(); return val; } };
struct mo { long v; explicit mo(long x) : v(x) {} mo(mo&& o) noexcept : v(o.v) { o.v = -1; } mo& operator=(mo&& o) noexcept { v = o.v; o.v = -1; return *this; } mo() : v(-2) {} };
struct mwork : work { using work::work; mo operator()() { enter(); return mo(val); } };
// a task which could also be sent to another process
struct slwork : lwork { using lwork::lwork; typedef int serializable_type; std::string get_task_name() const { return "s"; } template <class Ar> void serialize(Ar&, unsigned) {} };
int ckind; std::shared_ptr<ba::continuation_result<long>> held; std::shared_ptr<ba::continuation_result<void>> vheld;
enum { CVALUE, CEXC, CTHROWS, CLATER, CLATEREXC };
struct ctask : ba::continuation_task<long>
{
    void operator()()
    {
        auto r = this->this_task_result();
        if (ckind == CTHROWS) throw boom{8};
        if (ckind >= CLATER) { held = std::make_shared<ba::continuation_result<long>>(r); return; }
        if (ckind == CVALUE) r.set_value(val); else r.set_exception(std::make_exception_ptr(boom{8}));
    }
};
struct cvtask : ba::continuation_task<void>
{
    void operator()()
    {
        auto r = this->this_task_result();
        if (ckind == CTHROWS) throw boom{8};
        if (ckind >= CLATER) { vheld = std::make_shared<ba::continuation_result<void>>(r); return; }
        if (ckind == CVALUE) r.set_value(); else r.set_exception(std::make_exception_ptr(boom{8}));
    }
};
template <class J> struct cwork_ : work { using work::work; auto operator()() { enter(); return ba::top_level_callback_continuation_job<long, J>(ctask()); } };
typedef cwork_<ba::any_callable> cwork; typedef cwork_<ba::any_loggable> cwork_log;
struct scwork : cwork { using cwork::cwork; typedef int serializable_type; std::string get_task_name() const { return "s"; } template <class Ar> void serialize(Ar&, unsigned) {} };
// a task which returns a future based continuation: its subtask is posted to the pool, the worker asks for its end
template <class J> struct fwork_ : work { using work::work; typedef int fut; auto operator()() { enter(); return ba::top_level_continuation_job<long, J>(ctask()); } };
typedef fwork_<ba::any_callable> fwork; typedef fwork_<ba::any_loggable> fwork_log;
struct fvwork : work { using work::work; typedef int fut; auto operator()() { enter(); return ba::top_level_continuation<void>(cvtask()); } };
template <class W, class = void> struct is_fut : std::false_type {}; template <class W> struct is_fut<W, std::void_t<typename W::fut>> : std::true_type {};
bool aborted; std::shared_ptr<ba::detail::interrupt_state> ist;
struct cvwork : work { using work::work; ba::detail::callback_continuation<void> operator()() { enter(); return ba::top_level_callback_continuation<void>(cvtask()); } };

template <class J> void install(std::shared_ptr<sched<J>> s)
{
    ba::any_weak_scheduler<J> w = ba::detail::lockable_weak_scheduler<sched<J>>(s);
    ba::get_thread_scheduler<J>(w, true);
}
// what a worker does after each job: look after the waiting continuations (single_thread_scheduler.hpp, verified there)
void continuations()
{
    auto& c = ba::get_continuations();
    for (auto it = c.begin(); it != c.end();)
    {
        if (it->is_ready()) { ba::any_continuation a(std::move(*it)); it = c.erase(it); a(); }
        else ++it;
    }
}
void finish_later()
{
    where = 1;
    if (held) { auto h = held; held.reset(); if (ckind == CLATER) h->set_value(val); else h->set_exception(std::make_exception_ptr(boom{8})); }
    if (vheld) { auto h = vheld; vheld.reset(); if (ckind == CLATER) h->set_value(); else h->set_exception(std::make_exception_ptr(boom{8})); }
    continuations();
}
void common(int cont)
{
    kind = verif_choice(cont ? 2 : 4, "task(0 returns,1 throws,2 interrupted,3 aborted)");
    if (cont == 2) { static const int k[] = {CVALUE, CEXC, CLATER, CLATEREXC}; ckind = k[verif_choice(4, "continuation(0 value,1 exception,2 later value,3 later exception)")]; }
    else if (cont) ckind = verif_choice(5, "continuation(0 value,1 exception,2 throws,3 later value,4 later exception)");
    val = verif_nondet_long("value");
    prio = (std::size_t)verif_nondet_range("prio", 0, 100);
    cbprio = (std::size_t)verif_nondet_range("cb_prio", 0, 100);
}
// an interruptible task: the worker announces its state to the continuations created by the task (interruptible_job.hpp)
void interruptible_begin(bool fut) { if (fut) { ist = std::make_shared<ba::detail::interrupt_state>(); ist->run(); ba::get_interrupt_state<>(ist, true); } }
void interruptible_end(bool fut) { if (fut) { ist->complete(); ba::get_interrupt_state<>(std::shared_ptr<ba::detail::interrupt_state>(), true); } }
void interrupt(int& subs)
{
    aborted = true;
    std::promise<boost::thread*> t; std::shared_future<boost::thread*> sf(t.get_future());
    ist->interrupt(sf);
    A(subs == 1, "post: the pending subtask of an interrupted task is interrupted");
}
// runs the subtask of a future based continuation, unless the task is interrupted before
template <class P> void subtask(P& p, bool intr)
{
    where = 1;
    if (intr && verif_nondet_bool("interrupted before the subtask runs")) { interrupt(p.s->subs_interrupted); return; }
    p.s->run(1);
    if (ckind >= CLATER && intr && verif_nondet_bool("interrupted before the subtask completes")) interrupt(p.s->subs_interrupted);
}
template <class Sch> void posted(Sch& p, bool intr)
{
    A(p.s->jobs.size() == 1, "post: exactly one job is posted");
    A(p.s->prios[0] == prio, "post: the job is posted with the given priority");
    A(*p.ints == (intr ? 1 : 0), "post: an interruptible task is posted as such");
    A(runs == 0, "post: nothing runs before a worker takes the job");
}
bool cont_ok() { return kind == 0 && (ckind == CVALUE || ckind == CLATER); }
int expected_id() { return kind == THROWS ? 7 : 8; }
// the result which arrives: 0 value, 1 exception of the user, 2 task_aborted, 3 other
template <class Get> int outcome(Get g, int& id)
{
    id = 0;
    try { g(); return 0; }
    catch (boom& b) { id = b.id; return 1; }
    catch (ba::task_aborted_exception&) { return 2; }
    catch (boost::thread_interrupted&) { return 4; }
    catch (...) { return 3; }
}
void run_job(pool<ba::any_callable>& p) { where = 1; p.s->run(0); where = 0; }
template <class J> void run_job(pool<J>& p) { where = 1; p.s->run(0); where = 0; }
template <class W, class J, bool Intr, bool Cont> void future_test()
{
    make<>();   // no continuations, no scheduler
    pool<J> p; p.s = std::make_shared<sched<J>>(); p.s->jobs.reserve(4);
    install<J>(p.s);
    constexpr bool Fut = is_fut<W>::value;
    common(Fut ? 2 : Cont);
    track dead;
    typedef decltype(ba::post_future(p, W(&dead), "t", prio)) F;
    F f;
    if constexpr (Intr) { auto t = ba::interruptible_post_future(p, W(&dead), "t", prio); f = std::move(std::get<0>(t)); }
    else f = ba::post_future(p, W(&dead), "t", prio);
    posted(p, Intr);
    A(f.valid() && !ba::is_ready(f), "post_future: not ready before the task ran");
    A(dead.live > 0, "post: the task object lives until it was executed");
    interruptible_begin(Fut && Intr);
    run_job(p);
    interruptible_end(Fut && Intr);
    A(runs == 1, "post: the task runs exactly once");
    if constexpr (Cont) continuations();
    if (Fut && kind == 0)
    {
        A(!ba::is_ready(f), "post_future: not ready before the continuation is");
        A(p.s->jobs.size() == 2, "post: the subtask of the continuation is posted");
        subtask(p, Intr);
        continuations();
    }
    if (Cont && kind == 0 && ckind >= CLATER && !aborted) { A(!ba::is_ready(f), "post_future: not ready before the continuation is"); finish_later(); }
    A(ba::is_ready(f), "post_future: the future is ready after the task");
    int id; long got = 0;
    int o = outcome([&] {
        if constexpr (std::is_void_v<decltype(f.get())>) f.get();
        else if constexpr (std::is_same_v<decltype(f.get()), mo>) got = f.get().v;
        else got = f.get(); }, id);
    if (aborted) A(o == 2, "post_future: an interrupted task yields task_aborted_exception");
    else if (Cont)
    {
        if (cont_ok()) { A(o == 0 && (std::is_void_v<decltype(f.get())> || got == val), "post_future: the future holds the value of the task"); }
        else A(o == 1 && id == expected_id(), "post_future: the future holds the exception of the task");
    }
    else if (kind == VALUE) { A(o == 0 && (std::is_void_v<decltype(f.get())> || got == val), "post_future: the future holds the value of the task"); }
    else if (kind == THROWS) A(o == 1 && id == 7, "post_future: the future holds the exception of the task");
    else A(o == 2, "post_future: an interrupted task yields task_aborted_exception");
    A(p.s->jobs.size() == (Fut && kind == 0 ? 2 : 1), "post: exactly one job is posted");
    A(!Cont || ba::get_continuations().empty(), "post: no continuation is left behind");
    if (aborted && held) finish_later();
    verif_cover("end");
}
}
typedef ba::any_callable AC; typedef ba::any_loggable AL;
extern "C" void check_P13_value() { future_test<lwork, AC, false, false>(); }
extern "C" void check_P13_void() { future_test<vwork, AC, false, false>(); }
extern "C" void check_P13_move_only() { future_test<mwork, AC, false, false>(); }
extern "C" void check_P13_cont() { future_test<cwork, AC, false, true>(); }
extern "C" void check_P13_cont_void() { future_test<cvwork, AC, false, true>(); }
extern "C" void check_P13_value_int() { future_test<lwork, AC, true, false>(); }
extern "C" void check_P13_void_int() { future_test<vwork, AC, true, false>(); }
extern "C" void check_P13_cont_int() { future_test<cwork, AC, true, true>(); }
extern "C" void check_P13_cont_void_int() { future_test<cvwork, AC, true, true>(); }
extern "C" void check_P13_value_log() { future_test<lwork, AL, false, false>(); }
extern "C" void check_P13_void_log() { future_test<vwork, AL, false, false>(); }
extern "C" void check_P13_cont_log() { future_test<cwork_log, AL, false, true>(); }

extern "C" void check_P13_fcont() { future_test<fwork, AC, false, true>(); }
extern "C" void check_P13_fcont_void() { future_test<fvwork, AC, false, true>(); }
extern "C" void check_P13_fcont_int() { future_test<fwork, AC, true, true>(); }
extern "C" void check_P13_fcont_void_int() { future_test<fvwork, AC, true, true>(); }
extern "C" void check_P13_fcont_log() { future_test<fwork_log, AL, false, true>(); }
extern "C" void check_P13_move_only_int() { future_test<mwork, AC, true, false>(); }
extern "C" void check_P13_serializable() { future_test<slwork, AC, false, false>(); }
extern "C" void check_P13_serializable_int() { future_test<slwork, AC, true, false>(); }
extern "C" void check_P13_serializable_cont() { future_test<scwork, AC, false, true>(); }
extern "C" void check_P13_serializable_cont_int() { future_test<scwork, AC, true, true>(); }
extern "C" void check_P13_value_log_int() { future_test<lwork, AL, true, false>(); }
extern "C" void check_P13_cont_log_int() { future_test<cwork_log, AL, true, true>(); }
// ---- post_callback ------------------------------------------------------------------------------------------------
namespace
{
struct cb : owned
{
    using owned::owned;
    template <class R> void operator()(ba::expected<R> e) const
    {
        ++calls;
        A(calls == 1, "post_callback: the callback runs at most once");
        A(where == 2, "post_callback: the callback runs in the scheduler of the caller");
        int id; long got = val;
        int o = outcome([&] { if constexpr (std::is_void_v<R>) e.get(); else if constexpr (std::is_same_v<R, mo>) { mo m(e.get()); got = m.v; } else got = e.get(); }, id);
        if (aborted) A(o == 2, "post_callback: an interrupted task is reported as task_aborted_exception");
        else if (kind == VALUE && (ckind < 0 || cont_ok())) A(o == 0 && got == val, "post_callback: the callback gets the value of the task");
        else if (kind == VALUE || kind == THROWS) A(o == 1 && id == expected_id(), "post_callback: the callback gets the exception of the task");
        else if (kind == ABORTED) A(o == 2, "post_callback: an aborted task is reported as task_aborted_exception");
        else A(o != 0, "post_callback: an interrupted task is never reported as success");
    }
};
// Gone: 0 the callback scheduler lives, 1 it is gone before the task runs, 2 it goes while a continuation is pending
template <class W, class J, class JC, bool Intr, bool Cont> void callback_test()
{
    make<>();
    pool<J> p; p.s = std::make_shared<sched<J>>(); p.s->jobs.reserve(4);
    install<J>(p.s);
    constexpr bool Fut = is_fut<W>::value;
    common(Fut ? 2 : Cont);
    if (!Cont) ckind = -1;
    auto owner = std::make_shared<sched<JC>>(); owner->jobs.reserve(4);
    ba::any_weak_scheduler<JC> weak = ba::detail::lockable_weak_scheduler<sched<JC>>(owner);
    track tdead, cdead;
    if constexpr (Intr) ba::interruptible_post_callback(p, W(&tdead), weak, cb(&cdead), "t", prio, cbprio);
    else ba::post_callback(p, W(&tdead), weak, cb(&cdead), "t", prio, cbprio);
    posted(p, Intr);
    A(owner->jobs.empty() && calls == 0, "post_callback: no callback before the task ran");
    A(tdead.live > 0 && cdead.live > 0, "post_callback: task and callback live until they were executed");
    bool gone = verif_nondet_bool("the owner is gone before the task runs");
    if (gone) owner.reset();
    interruptible_begin(Fut && Intr);
    run_job(p);
    interruptible_end(Fut && Intr);
    A(runs == 1, "post: the task runs exactly once");
    A(calls == 0, "post_callback: the callback does not run in the pool");
    where = 1;
    if constexpr (Cont) continuations();
    where = 0;
    if (Fut && kind == 0)
    {
        A(p.s->jobs.size() == 2, "post: the subtask of the continuation is posted");
        if (!gone) A(owner->jobs.empty(), "post_callback: no callback before the continuation is ready");
        subtask(p, Intr);
        continuations();
        where = 0;
    }
    if (Cont && kind == 0 && ckind >= CLATER && !aborted)
    {
        if (!gone) A(owner->jobs.empty(), "post_callback: no callback before the continuation is ready");
        if (!gone && verif_nondet_bool("the owner goes while the continuation is pending")) { gone = true; owner.reset(); }
        finish_later();
        where = 0;
    }
    A(!Cont || ba::get_continuations().empty(), "post: no continuation is left behind");
    A(p.s->jobs.size() == (Fut && kind == 0 ? 2 : 1), "post: exactly one job is posted");
    if (!gone)
    {
        A(owner->jobs.size() == 1, "post_callback: the callback is posted exactly once");
        A(owner->prios[0] == cbprio, "post_callback: the callback is posted with its priority");
        A(tdead.live > 0 && cdead.live > 0 && tdead.pool + cdead.pool == 0, "post_callback: task and callback are not destroyed by the pool");
        where = 2;
        owner->run(0);
        A(calls == 1, "post_callback: the callback runs");
        A(tdead.live == 0 && cdead.live == 0, "post_callback: task and callback are destroyed in the thread of the caller");
        A(owner->jobs.size() == 1, "post_callback: the callback is posted exactly once");
    }
    else A(calls == 0, "post_callback: no callback once the owner is gone");
    verif_cover("end");
}
}
extern "C" void check_P14_value() { callback_test<lwork, AC, AC, false, false>(); }
extern "C" void check_P14_void() { callback_test<vwork, AC, AC, false, false>(); }
extern "C" void check_P14_cont() { callback_test<cwork, AC, AC, false, true>(); }
extern "C" void check_P14_cont_void() { callback_test<cvwork, AC, AC, false, true>(); }
extern "C" void check_P14_value_int() { callback_test<lwork, AC, AC, true, false>(); }
extern "C" void check_P14_void_int() { callback_test<vwork, AC, AC, true, false>(); }
extern "C" void check_P14_cont_int() { callback_test<cwork, AC, AC, true, true>(); }
extern "C" void check_P14_cont_void_int() { callback_test<cvwork, AC, AC, true, true>(); }
extern "C" void check_P14_serializable() { callback_test<slwork, AC, AC, false, false>(); }
extern "C" void check_P14_serializable_cont() { callback_test<scwork, AC, AC, false, true>(); }
extern "C" void check_P14_serializable_int() { callback_test<slwork, AC, AC, true, false>(); }
extern "C" void check_P14_fcont() { callback_test<fwork, AC, AC, false, true>(); }
extern "C" void check_P14_fcont_void() { callback_test<fvwork, AC, AC, false, true>(); }
extern "C" void check_P14_fcont_int() { callback_test<fwork, AC, AC, true, true>(); }
extern "C" void check_P14_fcont_void_int() { callback_test<fvwork, AC, AC, true, true>(); }
extern "C" void check_P14_fcont_log() { callback_test<fwork_log, AL, AL, false, true>(); }
extern "C" void check_P14_value_log() { callback_test<lwork, AL, AL, false, false>(); }
extern "C" void check_P14_void_log() { callback_test<vwork, AL, AL, false, false>(); }
extern "C" void check_P14_cont_log() { callback_test<cwork_log, AL, AL, false, true>(); }
