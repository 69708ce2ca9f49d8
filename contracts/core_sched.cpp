// real:core
// Contracts of the worker loops: execute_one_job and run of every pool, over a contract queue (any content), a contract job (any outcome)
// and job_traits which record the diagnostics of the job.
#include "core.hpp"
#include "rb.hpp"
#include <boost/asynchronous/queue/any_queue.hpp>
#include <boost/asynchronous/queue/lockfree_queue.hpp>
// the private queue of a worker: a script of what the scheduler sends to it
namespace vw { int sent, private_pushes; bool private_take(int id, ba::any_callable& j); void private_put(int which, ba::any_callable&& j, std::size_t p); int private_count; }
namespace boost { namespace asynchronous {
template <> class lockfree_queue<any_callable, no_lockfree_size> : public any_queue_concept<any_callable>
{
public:
    typedef any_callable job_type; typedef lockfree_queue this_type; int id = vw::private_count++;
    template <class... X> lockfree_queue(X&&...) {}
    void push(any_callable&& j, std::size_t p) override { vw::private_put(id, std::move(j), p); }
    void push(any_callable&& j) override { vw::private_put(id, std::move(j), 0); }
    any_callable pop() override { return any_callable(); }
    bool try_pop(any_callable& j) override { return vw::private_take(id, j); }
    bool try_steal(any_callable& j) override { return vw::private_take(id, j); }
    std::vector<std::size_t> get_queue_size() const override { return {}; }
    std::vector<std::size_t> get_max_queue_size() const override { return {}; }
    void reset_max_queue_size() override {}
};
} }
namespace boost { namespace asynchronous { template <class Job, class Scheduler> struct interruptible_job; } }
namespace vw
{
// outcome of running a job: 0 returns, 1 std::exception, 2 interrupted
int posts, posted_id; int runs, last_run, pops, pop_id, outcome, events, started_at, thread_at, current_at, run_at, reset_at, finished_at, added_at, failed_at, adds, resets, currents; long cur_index, reset_index; int asked[8], live; bool run_started; long ask_n;
int script_out[4];
struct wrap;
struct job
{
    int id;
    job() : id(-1) {} explicit job(int i) : id(i) {}
    job(job&& o) noexcept : id(o.id) { o.id = -2; } job& operator=(job&& o) noexcept { id = o.id; o.id = -2; return *this; }
    job(job const& o) : id(o.id) {} job& operator=(job const& o) { id = o.id; return *this; }
    job(struct wrap&& w);
    template <class S> job(ba::interruptible_job<job, S> const& i) : id(i.m_job.id + 50000) {}
    void operator()();
};
struct wrap { bool moved = false; std::string name; ba::any_callable c; wrap(ba::any_callable j) : c(std::move(j)) {} void set_name(std::string const& n) { name = n; } };
job::job(wrap&& w) : id(w.name == "the name" ? 7000 : 1) {}
struct diag { int tag = 0; diag(size_t = 0) {} std::map<std::string, std::list<ba::diagnostic_item>> get_map() const { return {}; } std::vector<std::pair<std::string, ba::diagnostic_item>> get_current() const { return {}; } void clear() {} };
bool ignore_diag;
}
namespace boost { namespace asynchronous {
template <> struct job_traits<vw::job>
{
    typedef no_diagnostics diagnostic_type; typedef vw::wrap wrapper_type; typedef no_diagnostics diagnostic_item_type; typedef vw::diag diagnostic_table_type;
    static void me(vw::job& j) { if (!vw::ignore_diag) A(j.id == vw::pop_id, "worker: the diagnostics of the popped job are recorded"); }
    static bool get_failed(vw::job const&) { return false; }
    static void set_posted_time(vw::job& j) { vw::posted_id = j.id; ++vw::posts; }
    static void set_started_time(vw::job& j) { me(j); vw::started_at = ++vw::events; }
    static void set_failed(vw::job& j) { me(j); vw::failed_at = ++vw::events; }
    static void set_finished_time(vw::job& j) { me(j); vw::finished_at = ++vw::events; }
    static void set_name(vw::job&, std::string const&) {}
    static std::string get_name(vw::job&) { return ""; }
    static diagnostic_item_type get_diagnostic_item(vw::job&) { return diagnostic_item_type(); }
    static void set_interrupted(vw::job&, bool) {}
    static void set_executing_thread_id(vw::job& j, boost::thread::id const&) { me(j); vw::thread_at = ++vw::events; }
    static void add_diagnostic(vw::job& j, vw::diag*) { me(j); ++vw::adds; vw::added_at = ++vw::events; }
    static void add_current_diagnostic(size_t i, vw::job& j, vw::diag*) { me(j); ++vw::currents; vw::cur_index = i; vw::current_at = ++vw::events; }
    static void reset_current_diagnostic(size_t i, vw::diag*) { ++vw::resets; vw::reset_index = i; vw::reset_at = ++vw::events; }
};
} }
namespace vw
{
struct boom : std::exception {};
// what a job does while it runs: an entry may check the state of the scheduler here
void (*during)() = 0;
void job::operator()()
{
    A(id == pop_id, "worker: the popped job is executed");
    ++runs; last_run = id; run_at = ++events;
    if (during) during();
    if (outcome == 1) throw boom();
    if (outcome == 2) throw boost::thread_interrupted();
}
// a queue with a job or without (any state), id: its position
int next_id = 100, counting;
struct q : ba::any_queue_concept<job>
{
    typedef vw::job job_type; typedef ba::no_diagnostics diagnostic_type; typedef q this_type;
    int id; int jobs; int pushes; int pushed_id; std::size_t pushed_prio; int enables; std::size_t enabled_prio; bool enabled_to;
    q(int i = 0, int n = 0) : id(i), jobs(n), pushes(0), pushed_id(-1), pushed_prio(0), enables(0), enabled_prio(0), enabled_to(false) {}
    bool take(job& j)
    {
        ++asked[id]; ++ask_n;
        if (jobs <= 0) return false;
        --jobs; ++pops; j = job(++next_id); pop_id = next_id; return true;
    }
    bool try_pop(job& j) override;
    bool try_steal(job& j) override;
    job pop() override { return job(); }
    void put(job& j, std::size_t p) { jobs += counting; ++pushes; pushed_id = j.id; pushed_prio = p; }
    void push(job&& j, std::size_t p) override { put(j, p); }
    void push(job&& j) override { put(j, 0); }
    std::vector<std::size_t> get_queue_size() const override { std::vector<std::size_t> v; v.push_back(jobs); return v; }
    std::vector<std::size_t> get_max_queue_size() const override { return {}; }
    void reset_max_queue_size() override {}
    void enable_queue(std::size_t p, bool e) override { ++enables; enabled_prio = p; enabled_to = e; }
};
int own; // the queue of the worker (-1: any)
bool q::try_pop(job& j) { return take(j); }
bool q::try_steal(job& j) { A(own < 0 || asked[own] > 0, "worker: the own queue is asked before a job is stolen"); return take(j); }
// the waiting continuations
int cont_runs[4];
struct cont
{
    int id; bool ready; int out;
    bool is_ready() { return ready; }
    void operator()() { ++cont_runs[id]; if (out == 1) throw boom(); if (out == 2) throw boost::thread_interrupted(); }
};
}
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/queue/find_queue_position.hpp>
using namespace vw;
namespace boost { namespace this_thread {
void yield() noexcept {} void interruption_point() {}
disable_interruption::disable_interruption() noexcept : interruption_was_enabled(false) {} disable_interruption::~disable_interruption() noexcept {} } }
namespace
{
int busy;
struct load
{
    int popped = 0, idle = 0;
    static std::size_t no_load_save_threads() { return busy; }
    void popped_job(bool = false) { ++popped; } void loop_done_no_job(bool = false) { ++idle; }
};
typedef std::list<ba::any_continuation> conts;
struct world
{
    std::vector<std::shared_ptr<q>> qs; std::vector<ba::any_queue_ptr<job>> others; std::vector<std::shared_ptr<q>> oq;
    std::shared_ptr<diag> d = std::make_shared<diag>(); conts w; load l; int nw = 0, total = 0; cont cs[2]; long index = 0;
};
world& setup(int maxq, int maxo)
{
    world& w = *new world();
    int n = maxq == 1 ? 1 : 1 + verif_choice(maxq, "number of queues"), m = maxo == 0 ? 0 : verif_choice(maxo + 1, "number of queues to steal from");
    for (int i = 0; i < n; ++i) { int k = verif_choice(2, "queue has jobs"); w.qs.push_back(std::make_shared<q>(i, k)); w.total += k; }
    for (int i = 0; i < m; ++i) { int k = verif_choice(2, "other queue has jobs"); w.oq.push_back(std::make_shared<q>(n + i, k)); w.others.push_back(w.oq.back()); w.total += k; }
    outcome = verif_choice(3, "outcome of the job");
    if (w.total == 0)
    {
        w.nw = verif_choice(3, "waiting continuations");
        for (int i = 0; i < w.nw; ++i) { w.cs[i] = cont{i, verif_choice(2, "continuation is ready") == 1, verif_choice(3, "outcome of the continuation")}; w.w.push_back(w.cs[i]); }
    }
    return w;
}
// postcondition of one iteration
void post(world& w, bool popped, long index)
{
    A(popped == (w.total > 0), "worker: a job is executed exactly if a queue which the worker serves has one");
    if (w.total > 0)
    {
        A(pops == 1, "worker: one job is taken at a time");
        A(runs == 1, "worker: a popped job is executed exactly once");
        A(w.l.popped == 1, "worker: the load policy is told about the job");
        A(started_at > 0 && started_at < run_at, "diagnostics: the start time is taken before the job runs");
        A(thread_at > 0 && thread_at < run_at, "diagnostics: the executing thread is recorded before the job runs");
        A(currents == 1 && current_at < run_at && cur_index == index, "diagnostics: the job is shown as current of its worker while it runs");
        if (outcome != 2)
        {
            A(adds == 1, "diagnostics: a finished job is added exactly once");
            A(finished_at > run_at && finished_at < added_at, "diagnostics: the finish time is taken after the job and before it is added");
            A((failed_at > 0) == (outcome == 1), "diagnostics: a job is failed exactly if it threw");
            A(failed_at < added_at, "diagnostics: the failure is recorded before the job is added");
        }
        A(resets == 1 && reset_at > run_at && reset_index == index, "diagnostics: the job is no more shown as current when it is finished");
        for (int i = 0; i < w.nw; ++i) A(cont_runs[i] == 0, "worker: continuations wait while there are jobs");
    }
    else
    {
        A(runs == 0 && adds == 0 && currents == 0 && failed_at == 0 && w.l.popped == 0, "worker: without a job nothing is executed or logged");
        int left = 0; bool stopped = false;
        for (int i = 0; i < w.nw; ++i)
        {
            A(cont_runs[i] <= (w.cs[i].ready ? 1 : 0), "worker: a waiting continuation runs at most once, and only if it is ready");
            if (!stopped) A(cont_runs[i] == (w.cs[i].ready ? 1 : 0), "worker: a ready continuation is executed");
            if (cont_runs[i] && w.cs[i].out) stopped = true;
            left += !cont_runs[i];
        }
        A((int)w.w.size() == left, "worker: exactly the executed continuations are removed");
    }
    verif_cover("end");
}
typedef ba::single_thread_scheduler<q, load> ST; typedef ba::threadpool_scheduler<q, load> TP;
typedef ba::multiqueue_threadpool_scheduler<q, ba::default_find_position<ba::sequential_push_policy>, load> MQ;
typedef ba::stealing_threadpool_scheduler<q, load> SP; typedef ba::stealing_multiqueue_threadpool_scheduler<q, ba::default_find_position<ba::sequential_push_policy>, load> SM;
typedef ba::multiple_thread_scheduler<q, load> MT; typedef ba::io_threadpool_scheduler<q, load> IO;
}
extern "C" void check_worker_single_thread() { world& w = setup(1, 0); own = 0; bool p = ST::execute_one_job(w.qs[0], w.l, w.d, w.w); post(w, p, 0); }
extern "C" void check_worker_threadpool()
{
    world& w = setup(1, 0); own = 0; long ix = verif_nondet_range("worker", 0, 1L << 30);
    bool p = TP::execute_one_job(w.qs[0], w.l, w.d, w.w, ix, verif_nondet_bool("save load")); post(w, p, ix);
}
extern "C" void check_worker_multiqueue()
{
    world& w = setup(3, 0); own = verif_choice(w.qs.size(), "worker");
    bool p = MQ::execute_one_job(w.qs, own, w.l, w.d, w.w, verif_nondet_bool("save load")); post(w, p, own);
    if (w.total) A(asked[own] == 1, "worker: the own queue is asked once");
}
extern "C" void check_worker_stealing()
{
    world& w = setup(1, 3); own = 0; long ix = verif_nondet_range("worker", 0, 1L << 30);
    bool p = SP::execute_one_job(w.qs[0], w.others, w.l, w.d, w.w, ix, verif_nondet_bool("save load")); post(w, p, ix);
}
extern "C" void check_worker_stealing_multiqueue()
{
    world& w = setup(3, 2); own = verif_choice(w.qs.size(), "worker");
    bool p = SM::execute_one_job(w.qs, own, w.others, w.l, w.d, w.w, verif_nondet_bool("save load")); post(w, p, own);
}
extern "C" void check_worker_io_threadpool()
{
    world& w = setup(1, 0); own = 0; long ix = verif_nondet_range("worker", 0, 1L << 30);
    bool cpu = verif_choice(2, "with a load policy"); 
    bool p = IO::execute_one_job(w.qs[0], cpu ? &w.l : nullptr, w.d, w.w, ix); if (!cpu) w.l.popped = w.total > 0; post(w, p, ix);
}
namespace { std::vector<MT::job_queues>* mq; bool theirs[3]; }
extern "C" void check_worker_multiple_thread()
{
    world& w = setup(3, 0); own = -1; int n = w.qs.size();
    std::vector<MT::job_queues> v; v.reserve(3); int free_jobs = 0;
    for (int i = 0; i < n; ++i) { theirs[i] = verif_choice(2, "another worker serves the servant"); v.emplace_back(theirs[i], w.qs[i]); if (!theirs[i]) free_jobs += w.qs[i]->jobs; }
    int before[3]; for (int i = 0; i < n; ++i) before[i] = w.qs[i]->jobs;
    mq = &v; std::size_t cur = verif_choice(n, "last servant");
    w.total = free_jobs;
    during = [] { int t = 0; for (int i = 0; i < (int)mq->size(); ++i) t += (*mq)[i].m_taken.load() && !theirs[i]; A(t == 1, "servant: exactly the servant whose job runs is taken"); };
    bool p = MT::execute_one_job(&v, 7, cur, w.l, w.d, w.w); post(w, p, 7);
    for (int i = 0; i < n; ++i)
    {
        A(v[i].m_taken.load() == theirs[i], "servant: after the job the servant is free, those of other workers are not touched");
        if (theirs[i]) A(before[i] == w.qs[i]->jobs && asked[i] == 0, "servant: the jobs of a servant which another worker serves are left alone");
    }
    A(cur < (std::size_t)n, "servant: the next servant is one of the scheduler");
}

// run: the loop of a worker, from its start to the end
namespace
{
int script[4], script_n, script_i; int pvt_runs, diag_runs; bool in_shutdown; int wlive;
struct bye { void operator()() { in_shutdown = true; throw ba::detail::shutdown_exception(); } };
struct pjob { int out; void operator()() { ++pvt_runs; if (out == 1) throw boom(); if (out == 2) throw boost::thread_interrupted(); } };
struct pend { std::function<void()> f; };
bool diag_throws;
}
namespace vw
{
std::vector<ba::any_callable>* pq[4];
// 0: nothing, 1: a job which succeeds, 2: a job which throws, 3: end of the scheduler
extern bool born; extern int asked_private[4];
bool private_take(int id, ba::any_callable& j)
{
    if (born)
    {
        ++asked_private[id];
        A(!pq[id]->empty(), "worker: a worker ends with its termination job");
        if (pq[id]->empty()) return false;
        j = std::move(pq[id]->back()); pq[id]->pop_back(); return true;
    }
    int w = script_i < script_n ? script[script_i] : 3; ++script_i;
    if (w == 0) return false;
    if (w == 3) { if (diag_throws) { diag_throws = false; j = ba::detail::default_termination_task<ba::no_diagnostics, boost::thread_group>([] { ++diag_runs; throw boom(); }); } else j = ba::detail::default_termination_task<ba::no_diagnostics, boost::thread_group>([] { ++diag_runs; }); in_shutdown = true; return true; }
    j = pjob{w == 2 ? 1 : 0}; return true;
}
void private_put(int which, ba::any_callable&& j, std::size_t p) { ++private_pushes; if (pq[which]) pq[which]->push_back(std::move(j)); }
}
namespace
{
int breaks;
template <class F> void running(F f, int maxjobs, world& w)
{
    ignore_diag = true;
    std::promise<boost::thread*> p; std::shared_future<boost::thread*> self = p.get_future(); static long some_thread; p.set_value((boost::thread*)&some_thread);
    script_n = verif_choice(3, "private jobs before the end"); for (int i = 0; i < script_n; ++i) script[i] = verif_choice(3, "private job");
    diag_throws = verif_choice(2, "the diagnostics callback throws");
    f(self);
    A(in_shutdown, "worker: a worker ends only when its scheduler ends");
    A(diag_runs >= 1, "worker: the diagnostics are delivered when the scheduler ends");
    int left = 0; for (auto& q : w.qs) left += q->jobs; for (auto& q : w.oq) left += q->jobs;
    A(left == 0, "worker: the jobs which were posted before the end are executed before the worker ends");
    A(runs == w.total, "worker: every posted job is executed exactly once");
    A(script_i == script_n + 1, "worker: a worker ends with the end of its scheduler");
    int pv = 0; for (int i = 0; i < script_n; ++i) pv += script[i] != 0;
    A(pvt_runs == pv, "worker: every job for the worker is executed once");
    verif_cover("end");
}
world& rsetup(int nq, int no, int maxjobs)
{
    world& w = *new world();
    for (int i = 0; i < nq; ++i) { int k = verif_choice(maxjobs + 1, "jobs in the queue"); w.qs.push_back(std::make_shared<q>(i, k)); w.total += k; }
    for (int i = 0; i < no; ++i) { int k = verif_choice(2, "jobs in the other queue"); w.oq.push_back(std::make_shared<q>(nq + i, k)); w.others.push_back(w.oq.back()); w.total += k; }
    outcome = verif_choice(3, "outcome of the jobs"); own = -1;
    return w;
}
std::shared_ptr<ba::lockfree_queue<ba::any_callable>> pv() { return std::make_shared<ba::lockfree_queue<ba::any_callable>>(); }
}
extern "C" void check_run_single_thread() { world& w = rsetup(1, 0, 4); running([&](auto& f) { ST::run(w.qs[0], w.d, pv(), f, std::weak_ptr<ST>()); A(!ST::m_self_thread.get(), "worker: the worker releases what it registered"); }, 4, w); }
extern "C" void check_run_threadpool() { world& w = rsetup(1, 0, 4); running([&](auto& f) { TP::run(w.qs[0], pv(), w.d, f, std::weak_ptr<TP>(), 1, false); A(!TP::m_self_thread.get(), "worker: the worker releases what it registered"); }, 4, w); }
extern "C" void check_run_multiqueue() { world& w = rsetup(2, 0, 2); running([&](auto& f) { MQ::run(w.qs, pv(), 1, w.d, f, std::weak_ptr<MQ>(), false); A(!MQ::m_self_thread.get(), "worker: the worker releases what it registered"); A(ba::get_own_queue_index<>() == 2, "worker: the worker registers its own queue"); }, 4, w); }
extern "C" void check_run_stealing() { world& w = rsetup(1, 1, 2); running([&](auto& f) { SP::run(w.qs[0], pv(), w.others, w.d, f, std::weak_ptr<SP>(), 1, false); A(!SP::m_self_thread.get(), "worker: the worker releases what it registered"); }, 4, w); }
extern "C" void check_run_stealing_multiqueue() { world& w = rsetup(2, 1, 2); running([&](auto& f) { SM::run(w.qs, pv(), w.others, 1, w.d, f, std::weak_ptr<SM>(), false); A(!SM::m_self_thread.get(), "worker: the worker releases what it registered"); A(ba::get_own_queue_index<>() == 2, "worker: the worker registers its own queue"); }, 4, w); }
extern "C" void check_run_io_threadpool() { world& w = rsetup(1, 0, 4); running([&](auto& f) { IO::run_always(w.qs[0], pv(), w.d, f, std::weak_ptr<IO>(), 1); A(!IO::m_self_thread.get(), "worker: the worker releases what it registered"); }, 4, w); }
extern "C" void check_run_multiple_thread()
{
    world& w = rsetup(2, 0, 2); auto v = std::make_shared<std::vector<MT::job_queues>>(); v->reserve(2); for (auto& x : w.qs) v->emplace_back(false, x);
    running([&](auto& f) { MT::run(v, pv(), w.d, f, std::weak_ptr<MT>(), 0); A(!MT::m_self_thread.get(), "worker: the worker releases what it registered"); }, 4, w);
}

// post: the job goes to exactly one queue, with its priority
namespace
{
int spos;
struct pol { std::size_t find_any_position() const { return (std::size_t)verif_nondet_long("any position"); } };
typedef ba::multiqueue_threadpool_scheduler<q, ba::default_find_position<pol>, load> MQ2;
typedef ba::stealing_multiqueue_threadpool_scheduler<q, ba::default_find_position<pol>, load> SM2;
// post by any overload; the expected id of the pushed job and the expected priority
struct sent_t { int id; std::size_t prio; };
template <class S> sent_t send(S& s, std::size_t p)
{
    ignore_diag = true;
    switch (verif_choice(4, "overload"))
    {
    case 0: s.post(job(77), p); A(posts == 1 && posted_id == 77, "diagnostics: the posting time is taken"); return {77, p};
    case 1: s.post(job(77)); A(posts == 1 && posted_id == 77, "diagnostics: the posting time is taken"); return {77, 0};
    case 2: s.interruptible_post(job(77), p); A(posts == 1 && posted_id == 77, "diagnostics: the posting time is taken"); return {50077, p};
    default: s.interruptible_post(job(77)); return {50077, 0};
    }
}
template <class S> sent_t send_named(S& s, std::size_t p)
{
    if (verif_choice(2, "with a name") == 0) return send(s, p);
    ignore_diag = true;
    switch (verif_choice(4, "overload"))
    {
    case 0: s.post(ba::any_callable(pjob{0}), std::string("the name")); return {7000, 0};
    case 1: s.post(ba::any_callable(pjob{0}), std::string("the name"), p); return {7000, p};
    case 2: s.interruptible_post(ba::any_callable(pjob{0}), std::string("the name")); return {57000, 0};
    default: s.interruptible_post(ba::any_callable(pjob{0}), std::string("the name"), p); return {57000, p};
    }
}
template <class Q> int only(Q& v, sent_t e)
{
    int at = -1, n = 0;
    for (int i = 0; i < (int)v.size(); ++i) if (v[i]->pushes) { n += v[i]->pushes; at = i; }
    A(n == 1, "post: a job is added to exactly one queue, once");
    A(v[at]->pushed_id == e.id, "post: the given job is added");
    return at;
}
template <class S> void single(S& s)
{
    std::size_t p = (std::size_t)verif_nondet_long("priority");
    sent_t e = send(s, p);
    std::vector<std::shared_ptr<q>> v; v.push_back(s.m_queue);
    only(v, e);
    A(s.m_queue->pushed_prio == e.prio, "post: the job is added with its priority");
    verif_cover("end");
}
template <class S> void multi()
{
    int n = 1 + verif_choice(3, "workers");
    S& s = *new S(n);
    std::size_t p = (std::size_t)verif_nondet_long("priority");
    verif_assume(p != (std::size_t)-1);
    sent_t e = send_named(s, p);
    int at = only(s.m_queues, e);
    A(s.m_queues[at]->pushed_prio == e.prio, "post: the job is added with its priority");
    if (e.prio != 0) A((std::size_t)at == (e.prio <= (std::size_t)n ? e.prio - 1 : n - 1), "post: a job with priority p goes to queue p (at most the last one)");
    verif_cover("end");
}
}
extern "C" void check_post_single_thread() { single(*new ST()); }
extern "C" void check_post_threadpool() { single(*new TP(2)); }
extern "C" void check_post_stealing() { single(*new SP(2)); }
extern "C" void check_post_multiqueue() { multi<MQ2>(); }
extern "C" void check_post_stealing_multiqueue() { multi<SM2>(); }
extern "C" void check_post_multiple_thread()
{
    int n = 1 + verif_choice(3, "servants");
    MT& s = *new MT(2, n);
    std::size_t sv = verif_choice(n, "servant"), q0 = (std::size_t)verif_nondet_range("priority", 0, 100000), p = 100000 * sv + q0;
    sent_t e = send_named(s, p);
    std::vector<std::shared_ptr<q>> v; for (auto& x : *s.m_queues) v.push_back(x.m_queues);
    int at = only(v, e);
    A((std::size_t)at == (e.prio == 0 ? 0 : sv), "post: a job for a servant goes to the queue of the servant");
    A(v[at]->pushed_prio == (e.prio == 0 ? 0 : q0), "post: the job is added with its priority");
    verif_cover("end");
}
// construction and destruction: one thread for every worker, each serves the queues of the pool and its own private queue; when the pool
// is destroyed every worker gets a termination job and executes all jobs before it ends
namespace vw { int threads; boost::detail::thread_data_ptr info[4]; bool born; int asked_private[4]; int save_loads, no_save_loads; }
namespace boost
{
bool thread::start_thread_noexcept() { if (threads < 4) info[threads] = thread_info; ++threads; return true; }
pthread_t thread::native_handle() { return (pthread_t)this; }
void thread::detach() {}
bool thread::joinable() const noexcept { return false; }
namespace detail { thread_data_base::~thread_data_base() {} }
}
namespace
{
template <class S> void life(S* s, int n, std::vector<std::shared_ptr<q>> qs)
{
    std::shared_ptr<S> sp(s);
    for (int i = 0; i < 4; ++i) { pq[i] = new std::vector<ba::any_callable>(); pq[i]->reserve(4); }
    busy = verif_choice(4, "threads which do not save load");
    own = -1; ignore_diag = true; born = true; outcome = 0;
    sp->constructor_done(std::weak_ptr<S>(sp));
    sp->set_steal_from_queues(std::vector<ba::any_queue_ptr<job>>());
    A(threads == n, "worker: one thread is created for every worker");
    A((int)sp->thread_ids().size() == n, "worker: the ids of all threads are reported");
    for (auto& x : qs) { x->jobs = verif_choice(2, "jobs in the queue"); }
    int total = 0; for (auto& x : qs) total += x->jobs;
    sp.reset();
    A(private_pushes == n, "worker: every worker gets a termination job");
    for (int i = 0; i < 4; ++i) A((int)pq[i]->size() == (i < n ? 1 : 0), "worker: every worker gets exactly one termination job");
    for (int i = 0; i < n; ++i) info[i]->run();
    A(runs == total, "worker: the jobs which were posted before the end are executed once before the workers end");
    for (int i = 0; i < n; ++i) A(asked_private[i] == 1 && pq[i]->empty(), "worker: every worker serves its own private queue");
    verif_cover("end");
}
}
extern "C" void check_life_single_thread() { ST* s = new ST(); life(s, 1, {s->m_queue}); }
extern "C" void check_life_threadpool() { int n = 1 + verif_choice(3, "workers"); TP* s = new TP(n); life(s, n, {s->m_queue}); }
extern "C" void check_life_stealing() { int n = 1 + verif_choice(3, "workers"); SP* s = new SP(n); life(s, n, {s->m_queue}); }
extern "C" void check_life_multiqueue() { int n = 1 + verif_choice(3, "workers"); MQ* s = new MQ(n); life(s, n, s->m_queues); }
extern "C" void check_life_stealing_multiqueue() { int n = 1 + verif_choice(3, "workers"); SM* s = new SM(n); life(s, n, s->m_queues); }
extern "C" void check_life_multiple_thread() { int n = 1 + verif_choice(2, "workers"), k = 1 + verif_choice(2, "servants"); MT* s = new MT(n, k); std::vector<std::shared_ptr<q>> v; for (auto& x : *s->m_queues) v.push_back(x.m_queues); life(s, n, v); }

// the io pool creates temporary threads when more than one job waits; they run while there are jobs
namespace boost { bool thread::join_noexcept() { return true; } bool thread::interruption_requested() const noexcept { return false; } }
extern "C" void check_life_io_threadpool()
{
    int mn = 1 + verif_choice(2, "least threads"), mx = mn + verif_choice(3, "more threads");
    IO* s = new IO(mn, mx); std::shared_ptr<IO> sp(s);
    for (int i = 0; i < 4; ++i) { pq[i] = new std::vector<ba::any_callable>(); pq[i]->reserve(4); }
    own = -1; ignore_diag = true; born = true; outcome = verif_choice(3, "outcome of the jobs"); counting = 1;
    sp->constructor_done(std::weak_ptr<IO>(sp));
    A(threads == mn, "worker: the least number of threads is created");
    int n = verif_choice(4, "jobs");
    bool before = verif_choice(2, "temporary threads end before the pool");
    for (int i = 0; i < n; ++i) sp->post(job(i), 0);
    A(threads <= mx, "worker: at most the given number of threads is created");
    A(threads == mn + (n > 1 ? (n - 1 < mx - mn ? n - 1 : mx - mn) : 0), "worker: a thread is created while more than one job waits, up to the maximum");
    int t = threads;
    if (before) for (int i = mn; i < t; ++i) info[i]->run();
    A(!before || t == mn || runs == n, "worker: a temporary thread runs while there are jobs");
    sp.reset();
    A(private_pushes == mn, "worker: every permanent worker gets a termination job");
    if (!before) for (int i = mn; i < t; ++i) info[i]->run();
    for (int i = 0; i < mn; ++i) info[i]->run();
    A(runs == n, "worker: the jobs which were posted before the end are executed once before the workers end");
    verif_cover("end");
}
// execute_in_all_threads: every worker executes the callable once; its future becomes ready with the outcome
namespace { int every; int every_out; }
template <class S> static void all_threads(S* s, int n)
{
    for (int i = 0; i < 4; ++i) { pq[i] = new std::vector<ba::any_callable>(); pq[i]->reserve(4); }
    every_out = verif_choice(2, "outcome");
    auto fs = s->execute_in_all_threads([] { ++every; if (every_out) throw vc::boom{5}; });
    A((int)fs.size() == n && private_pushes == n, "all threads: one task and one future for every worker");
    for (int i = 0; i < n; ++i)
    {
        A(pq[i]->size() == 1, "all threads: every worker gets the task once");
        A(fs[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready, "all threads: a future is not ready before its worker has executed the task");
        (*pq[i])[0](); A(every == i + 1, "all threads: every worker executes the callable");
        A(fs[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready, "all threads: the future of a worker is ready when it has executed the task");
        int got = 0; try { fs[i].get(); } catch (vc::boom& b) { got = b.id; } catch (...) { got = -1; }
        A(got == (every_out ? 5 : 0), "all threads: the future carries the outcome of the callable");
    }
    verif_cover("end");
}
extern "C" void check_all_threads_single_thread() { all_threads(new ST(), 1); }
extern "C" void check_all_threads_threadpool() { int n = 1 + verif_choice(3, "workers"); all_threads(new TP(n), n); }
extern "C" void check_all_threads_stealing() { int n = 1 + verif_choice(3, "workers"); all_threads(new SP(n), n); }
extern "C" void check_all_threads_multiqueue() { int n = 1 + verif_choice(3, "workers"); all_threads(new MQ(n), n); }
extern "C" void check_all_threads_stealing_multiqueue() { int n = 1 + verif_choice(3, "workers"); all_threads(new SM(n), n); }
extern "C" void check_all_threads_multiple_thread() { int n = 1 + verif_choice(3, "workers"); all_threads(new MT(n, 2), n); }
