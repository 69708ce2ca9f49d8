// real:core
// Contracts of the job queues: every operation from any state of the queue (any number of jobs, any capacity).
#include "queues.hpp"
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/lockfree_queue.hpp>
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
using namespace vc;
namespace
{
typedef ba::any_queue_concept<vjob> Q;
// the lock discipline is checked while an operation of the queue runs, not in the contract itself
bool mon_on;
struct mon { bool old; explicit mon(bool b) : old(mon_on) { set(b); } ~mon() { set(old); } static void set(bool b) { mon_on = b; verif_monitor_off(!b); } };
#define ON mon on_(true)
#define OFF mon off_(false)
int sleeps, wakes;
bool (*job_available)();          // the predicate a consumer waits for
void (*push_one)();               // another thread pushes a job
bool woken;
// contract of a condition variable: the thread sleeps until it is notified (or wakes spuriously); then holds the lock again
void cv_sleep()
{
    OFF;
    ++sleeps;
    A(!job_available(), "queue: a consumer never sleeps while a job is available");
    if (sleeps == 1 && verif_nondet_bool("spurious wakeup")) return;
    woken = false;
    push_one();
    A(woken, "queue: a push wakes a waiting consumer");
}
void cv_notify() { ++wakes; woken = true; }
}
// std::condition_variable and the condition variables of boost use these
void std::condition_variable::wait(std::unique_lock<std::mutex>& l) { A(l.owns_lock(), "queue: waits with the lock held"); l.unlock(); cv_sleep(); l.lock(); }
void std::condition_variable::notify_one() noexcept { cv_notify(); }
void std::condition_variable::notify_all() noexcept { cv_notify(); }
static bool timed_out;
extern "C" int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { pthread_mutex_unlock(m); cv_sleep(); pthread_mutex_lock(m); return 0; }
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, timespec const*)
{
    pthread_mutex_unlock(m);
    if (verif_nondet_bool("times out")) timed_out = true; else cv_sleep();
    pthread_mutex_lock(m);
    return timed_out ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_signal(pthread_cond_t*) { cv_notify(); return 0; }
extern "C" int pthread_cond_broadcast(pthread_cond_t*) { cv_notify(); return 0; }
// time passes only while waiting
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(std::chrono::seconds(timed_out ? 1000 : 0)); }
namespace boost { namespace this_thread { void yield() noexcept {} void interruption_point() {} disable_interruption::disable_interruption() noexcept : interruption_was_enabled(false) {} disable_interruption::~disable_interruption() noexcept {} } }
namespace boost { namespace detail { thread_data_base* get_current_thread_data() { return nullptr; } } }
namespace
{
void push_any(Q& q, vjob& j)
{
    // all variants of push of the interface
    ON;
    if (verif_nondet_bool("with priority")) q.push(std::move(j), (std::size_t)verif_nondet_range("prio", 0, 100)); else q.push(std::move(j));
}
// the queue under contract: the state is reached through C
template <class T, class C> void common_push(T& q, C& s, long before, void (*copy)(T&, vjob const&))
{
    long lo = s.lo, hi = s.hi;
    long id = verif_nondet_range("id of the job", 1L << 50, 1L << 51);
    vjob j(id);
    woken = false;
    if (verif_nondet_bool("push a copy")) { copy(q, j); A(j.id == id, "queue: push of a copy leaves the job alone"); } else push_any(q, j);
    A(s.hi == hi + 1 && s.lo == lo, "queue: push adds exactly one job");
    A(s.at(hi).id == id, "queue: push adds the given job at the end");
    if (before > 0) { long k = verif_nondet_range("another job", 0, 1L << 40); verif_assume(lo <= k && k < hi); A(s.at(k).id == k, "queue: push leaves the other jobs alone"); }
    verif_cover("end");
}
template <class C> void popped(C& s, long lo, long hi, long got, bool newest = false)
{
    if (newest) { A(s.hi == hi - 1 && s.lo == lo, "queue: pop removes exactly one job"); A(got == hi - 1, "queue: pop returns the job whose turn it is"); }
    else { A(s.lo == lo + 1 && s.hi == hi, "queue: pop removes exactly one job"); A(got == lo, "queue: pop returns the oldest job"); }
    if (s.lo < s.hi) { long k = verif_nondet_range("another job", 0, 1L << 40); verif_assume(s.lo <= k && k < s.hi); A(s.at(k).id == k, "queue: pop leaves the other jobs alone"); }
}
template <class T, class C> void common_pop(T& q, C& s, int how)
{
    long lo = s.lo, hi = s.hi;
    vjob j(-5);
    bool ok = true;
    if (how == 0) { verif_assume(lo < hi); ON; vjob r(q.pop()); j.id = r.id; }
    else { ON; ok = how == 1 ? q.try_pop(j) : q.try_steal(j); }
    if (lo == hi) { A(!ok && j.id == -5, "queue: an empty queue yields no job"); A(s.lo == lo && s.hi == hi, "queue: an empty queue is not changed by pop"); }
    else { A(ok, "queue: a queue with jobs yields one"); popped(s, lo, hi, j.id); }
    verif_cover("end");
}
// ---- guarded_deque
typedef ba::guarded_deque<vjob> GD;
GD* gd;
GD& any_gd() { gd = new GD(); gd->m_jobs.q.any(); gd->m_max_size = (std::size_t)verif_nondet_range("max size", 0, 1L << 41); job_available = [] { return !gd->m_jobs.empty(); }; verif_monitor_by(&gd->m_jobs, sizeof(gd->m_jobs), &gd->m_mutex, "the deque"); verif_monitor_by(&gd->m_max_size, sizeof(gd->m_max_size), &gd->m_mutex, "the maximum size"); mon::set(false); return *gd; }
template <class T> void copy_push(T& q, vjob const& j) { ON; if (verif_nondet_bool("copy with priority")) q.push(j, 3); else q.push(j); }
}
extern "C" void check_guarded_deque_push()
{
    GD& q = any_gd();
    long old = q.m_max_size, n = q.m_jobs.size();
    common_push(q, q.m_jobs.q, n, copy_push<GD>);
    A(woken, "queue: push notifies a consumer");
    A((long)q.m_max_size == std::max(old, n + 1), "queue: the maximum size counts the pushed job");
}
extern "C" void check_guarded_deque_pop() { GD& q = any_gd(); common_pop(q, q.m_jobs.q, 0); }
extern "C" void check_guarded_deque_try_steal() { GD& q = any_gd(); common_pop(q, q.m_jobs.q, 2); }
namespace { long late_id; }
extern "C" void check_guarded_deque_try_pop()
{
    GD& q = any_gd();
    push_one = [] { ON; late_id = 7; gd->push(vjob(1L << 45)); };
    long lo = q.m_jobs.q.lo, hi = q.m_jobs.q.hi;
    vjob j(-5);
    bool ok = [&] { ON; return q.try_pop(j); }();
    if (lo < hi) { A(ok, "queue: a queue with jobs yields one"); popped(q.m_jobs.q, lo, hi, j.id); }
    else if (ok) { A(late_id == 7 && j.id == (1L << 45) && q.m_jobs.empty(), "queue: a job which arrives while waiting is returned once"); }
    else A(j.id == -5 && q.m_jobs.q.size() == (late_id == 7 ? 1 : 0), "queue: an empty queue yields no job");
    verif_cover("end");
}
extern "C" void check_guarded_deque_pop_waits()
{
    GD& q = any_gd();
    verif_assume(q.m_jobs.empty());
    push_one = [] { ON; gd->push(vjob(1L << 45), 0); };
    vjob r = [&] { ON; return q.pop(); }();
    A(r.id == (1L << 45) && q.m_jobs.empty(), "queue: pop waits for a job and returns it");
    verif_cover("end");
}
extern "C" void check_guarded_deque_sizes()
{
    GD& q = any_gd();
    long n = q.m_jobs.size(), m = q.m_max_size;
    auto s = [&] { ON; return q.get_queue_size(); }();
    A(s.size() == 1 && (long)s[0] == n, "queue: get_queue_size is the number of jobs");
    auto x = [&] { ON; return q.get_max_queue_size(); }();
    A(x.size() == 1 && (long)x[0] == m, "queue: get_max_queue_size is the maximum so far");
    { ON; q.reset_max_queue_size(); }
    x = [&] { ON; return q.get_max_queue_size(); }();
    A(x[0] == 0, "queue: reset_max_queue_size restarts at 0");
    A((long)q.m_jobs.size() == n, "queue: the statistics do not change the queue");
    verif_cover("end");
}
// ---- circular_queue: jobs are the m_size newest elements of the buffer, the others are dead
namespace
{
typedef ba::circular_queue<vjob> CQ;
CQ* cq;
struct live { CQ* q; long lo0, hi0; };
CQ& any_cq()
{
    cq = new CQ((std::size_t)verif_nondet_range("capacity", 0, 1L << 40));
    auto& b = cq->m_jobs;
    b.q.any();
    verif_assume(b.q.size() <= (long)b.cap);
    cq->m_size = (std::size_t)verif_nondet_range("jobs", 0, 1L << 40);
    verif_assume((long)cq->m_size <= b.q.size());
    job_available = [] { return cq->m_size > 0; };
    verif_monitor_by(&cq->m_jobs, sizeof(cq->m_jobs), &cq->m_mutex, "the buffer"); verif_monitor_by(&cq->m_size, sizeof(cq->m_size), &cq->m_mutex, "the number of jobs"); mon::set(false);
    return *cq;
}
void cq_inv() { auto& b = cq->m_jobs; A((long)cq->m_size <= b.q.size() && b.q.size() <= (long)b.cap, "queue: circular_queue keeps its jobs inside the buffer"); }
}
extern "C" void check_circular_queue_push()
{
    CQ& q = any_cq();
    auto& b = q.m_jobs.q;
    long hi = b.hi, n = q.m_size;
    long id = verif_nondet_range("id of the job", 1L << 50, 1L << 51);
    vjob j(id);
    if (verif_nondet_bool("push a copy")) copy_push(q, j); else push_any(q, j);
    A(woken, "queue: push notifies a consumer");
    cq_inv();
    A((long)q.m_size == n + 1, "queue: push adds exactly one job");
    A(b.hi == hi + 1 && b.at(hi).id == id, "queue: push adds the given job at the end");
    if (n > 0) { long k = verif_nondet_range("another job", 0, 1L << 40); verif_assume(hi - n <= k && k < hi); A(b.lo <= k, "queue: push does not overwrite a waiting job"); A(b.at(k).id == k, "queue: push leaves the other jobs alone"); }
    verif_cover("end");
}
static void cq_pop(int how)
{
    CQ& q = any_cq();
    auto& b = q.m_jobs.q;
    long hi = b.hi, n = q.m_size;
    vjob j(-5); bool ok = true;
    if (how == 0) { verif_assume(n > 0); ON; vjob r(q.pop()); j.id = r.id; } else { ON; ok = how == 1 ? q.try_pop(j) : q.try_steal(j); }
    cq_inv();
    if (n == 0) { A(!ok && j.id == -5 && q.m_size == 0, "queue: an empty queue yields no job"); }
    else
    {
        A(ok && (long)q.m_size == n - 1, "queue: pop removes exactly one job");
        A(j.id == hi - n, "queue: pop returns the oldest job");
        A(b.hi == hi, "queue: pop leaves the other jobs alone");
        if (n > 1) { long k = verif_nondet_range("another job", 0, 1L << 40); verif_assume(hi - n < k && k < hi); A(b.at(k).id == k, "queue: pop leaves the other jobs alone"); }
    }
    verif_cover("end");
}
extern "C" void check_circular_queue_pop() { cq_pop(0); }
extern "C" void check_circular_queue_try_pop() { cq_pop(1); }
extern "C" void check_circular_queue_try_steal() { cq_pop(2); }
extern "C" void check_circular_queue_pop_waits()
{
    CQ& q = any_cq();
    verif_assume(q.m_size == 0);
    push_one = [] { ON; cq->push(vjob(1L << 45), 0); };
    vjob r = [&] { ON; return q.pop(); }();
    cq_inv();
    A(r.id == (1L << 45) && q.m_size == 0, "queue: pop waits for a job and returns it");
    verif_cover("end");
}
extern "C" void check_circular_queue_size()
{
    CQ& q = any_cq();
    auto s = [&] { ON; return q.get_queue_size(); }();
    A(s.size() == 1 && s[0] == q.m_size, "queue: get_queue_size is the number of jobs");
    verif_cover("end");
}
// ---- threadsafe_list: the nodes the operations may touch are the first two and the last; the rest of the list is out of reach
namespace
{
typedef ba::threadsafe_list<vjob> TL;
TL* tl; int shape; TL::node *n0, *n1, *nt; char* outside;
TL& any_tl()
{
    tl = new TL();
    shape = verif_choice(3, "jobs(0 none,1 one,2 any number more)");
    n0 = tl->m_head.get(); nt = tl->m_tail; n1 = nullptr;
    if (shape >= 1)
    {
        n0->data.id = 100;
        auto* b = new TL::node;
        if (shape == 1) { n0->next.reset(b); tl->m_tail = b; n1 = b; }
        else { n0->next.reset(b); b->data.id = 101; outside = (char*)::operator new(1); *(void**)&b->next = outside; tl->m_tail = new TL::node; n1 = b; }
        nt = tl->m_tail;
    }
    job_available = [] { return tl->m_head.get() != tl->m_tail; };
    verif_monitor_by(&tl->m_head, sizeof(tl->m_head), &tl->m_head_mutex, "the head");
    verif_monitor_by(&tl->m_tail, sizeof(tl->m_tail), &tl->m_tail_mutex, "the tail"); mon::set(false);
    return *tl;
}
}
extern "C" void check_threadsafe_list_push()
{
    TL& q = any_tl();
    long id = verif_nondet_range("id of the job", 1L << 50, 1L << 51);
    vjob j(id);
    if (verif_nondet_bool("push a copy")) copy_push(q, j); else push_any(q, j);
    A(woken, "queue: push notifies a consumer");
    A(q.m_head.get() == n0, "queue: push leaves the other jobs alone");
    A(nt->data.id == id, "queue: push adds the given job at the end");
    A(q.m_tail != nt && nt->next.get() == q.m_tail && !q.m_tail->next, "queue: push adds exactly one job");
    if (shape >= 1) A(n0->data.id == 100 && n0->next.get() == n1, "queue: push leaves the other jobs alone");
    if (shape == 2) A(n1->data.id == 101 && (char*)n1->next.get() == outside, "queue: push leaves the other jobs alone");
    verif_cover("end");
}
static void tl_pop(int how)
{
    TL& q = any_tl();
    vjob j(-5); bool ok = true;
    if (how == 0) { verif_assume(shape > 0); ON; vjob r(q.pop()); j.id = r.id; } else { ON; ok = how == 1 ? q.try_pop(j) : q.try_steal(j); }
    A(q.m_tail == nt, "queue: pop leaves the other jobs alone");
    if (shape == 0) { A(!ok && j.id == -5 && q.m_head.get() == n0, "queue: an empty queue yields no job"); }
    else
    {
        A(ok && j.id == 100, "queue: pop returns the oldest job");
        A(q.m_head.get() == n1, "queue: pop removes exactly one job");
        A(verif_freed(n0), "queue: the node of a popped job is freed");
        if (shape == 2) A(n1->data.id == 101 && (char*)n1->next.get() == outside, "queue: pop leaves the other jobs alone");
    }
    verif_cover("end");
}
extern "C" void check_threadsafe_list_pop() { tl_pop(0); }
extern "C" void check_threadsafe_list_try_pop() { tl_pop(1); }
extern "C" void check_threadsafe_list_try_steal() { tl_pop(2); }
static bool raced, pushed_one;
extern "C" void check_threadsafe_list_pop_waits()
{
    TL& q = any_tl();
    verif_assume(shape == 0);
    push_one = [] { ON; pushed_one = true; tl->push(vjob(1L << 45), 0); };
    verif_env(true);
    vjob r = [&] { ON; return q.pop(); }();
    verif_env(false);
    bool one = pushed_one, other = raced;
    if (r.id == 1L << 45 && one) one = false; else if (r.id == 1L << 46 && other) other = false; else A(false, "queue: pop waits for a job and returns it");
    auto* h = q.m_head.get();
    if (one || other) { A(h != q.m_tail && h->data.id == (one ? 1L << 45 : 1L << 46) && h->next.get() == q.m_tail, "queue: pop leaves the other jobs alone"); }
    else A(h == q.m_tail, "queue: pop removes exactly one job");
    verif_cover("end");
}
extern "C" int sched_yield() { return 0; }
// ---- lockfree_queue, lockfree_stack, lockfree_spsc_queue with their counters
namespace
{
boost::lockfree::vlf* lf; std::atomic<std::size_t>*lfs, *lfm;
bool env_on; bool lifo; int steps;
long inflight;         // jobs counted by other threads but not yet inserted, or removed but still counted
// other threads push and pop: they count a job before they insert it, and discount it after they removed it
void others()
{
    if (!env_on || steps >= 2) return;
    ++steps;
    env_on = false; verif_env(false);
    int what = verif_choice(3, "other threads(0 nothing,1 push,2 pop)");
    if (what == 1 && !lifo)
    {
        long k = verif_nondet_range("jobs pushed by others", 1, 1L << 30), f = verif_nondet_range("jobs being pushed by others", 0, 1L << 30);
        lf->q.hi += k; inflight += f;
        if (lfs) lfs->store(lfs->load() + k + f);
        if (lfm) { long m = verif_nondet_range("maximum seen by others", 0, 1L << 40); verif_assume(m >= (long)lfm->load()); lfm->store(m); }
    }
    else if (what == 2 && !lifo)
    {
        long k = verif_nondet_range("jobs popped by others", 1, 1L << 30);
        verif_assume(k <= lf->q.size());
        lf->q.lo += k;
        if (lfs) lfs->store(lfs->load() - k);
    }
    env_on = true; verif_env(true);
}
bool must_arrive;
// at every atomic step the counter is at least the number of jobs in the container
void count_inv() { if (lfs) A((long)lfs->load() >= lf->q.size() + inflight, "queue: the size never gets negative (a job is counted before it can be popped)"); }
}
void boost::lockfree::lf_env(vlf& v)
{
    bool e = env_on;
    others();
    env_on = false; verif_env(false);
    count_inv();
    if (e && must_arrive && v.asked > 0 && v.q.lo == v.q.hi) { v.q.hi += 1; if (lfs) ++*lfs; }
    env_on = e; if (e) verif_env(true);
}
extern "C" void vf_env()
{
    if (tl) { if (!raced && verif_nondet_bool("another thread pushes now")) { raced = true; ON; tl->push(vjob(1L << 46), 0); } return; }
    if (lf) { bool e = env_on; others(); env_on = false; verif_env(false); count_inv(); env_on = e; if (e) verif_env(true); }
}
namespace
{
template <class T> T& any_lf(bool is_lifo)
{
    T* q = new T(16);
    lf = &q->m_queue; lifo = is_lifo;
    lf->q.any();
    return *q;
}
// state with counters: any number of jobs counted which are not in the container yet
template <class T> void any_counts(T& q, bool with_max)
{
    lfs = &q.m_size;
    inflight = verif_nondet_range("jobs being pushed", 0, 1L << 30);
    lfs->store(lf->q.size() + inflight);
    if (with_max) { lfm = (std::atomic<std::size_t>*)((char*)lfs + sizeof(*lfs)); lfm->store(verif_nondet_range("max size", 0, 1L << 41)); }
}
void start(bool env) { env_on = env; if (env) verif_env(true); else verif_env(false); }
void stop() { env_on = false; verif_env(false); }
template <class T> void lf_push(T& q, bool env)
{
    long id = verif_nondet_range("id of the job", 1L << 50, 1L << 51);
    vjob j(id);
    long s0 = lfs ? lfs->load() : 0, m0 = lfm ? lfm->load() : 0, n0 = lf->q.size();
    start(env);
    if (verif_nondet_bool("push a copy")) copy_push(q, j); else push_any(q, j);
    stop();
    A(lf->npush == 1 && lf->npop == 0, "queue: push adds exactly one job");
    if (!env || lf->q.lo <= lf->pushed) A(lf->q.at(lf->pushed).id == id, "queue: push adds the given job");
    count_inv();
    if (!env && lfs) A((long)lfs->load() == s0 + 1, "queue: push counts the job once");
    if (!env && lfm) A((long)lfm->load() == std::max(m0, s0 + 1), "queue: the maximum size counts the pushed job");
    if (lfm) A((long)lfm->load() >= m0 && (long)lfm->load() <= 1L << 42, "queue: the maximum size never shrinks and is a size the queue had");
    (void)n0;
    verif_cover("end");
}
template <class T> void lf_pop(T& q, int how, bool env, bool frees)
{
    vjob j(-5); bool ok = true;
    long lo = lf->q.lo, hi = lf->q.hi, s0 = lfs ? lfs->load() : 0, m0 = lfm ? lfm->load() : 0;
    must_arrive = how == 0;
    if (how == 0 && !env) verif_assume(lo < hi);
    start(env);
    if (how == 0) { vjob r(q.pop()); j.id = r.id; } else ok = how == 1 ? q.try_pop(j) : q.try_steal(j);
    stop();
    A(lf->npush == 0, "queue: pop adds no job");
    if (ok)
    {
        A(lf->npop == 1, "queue: pop removes exactly one job");
        A(j.id == lf->popped, "queue: pop returns the job which was removed");
        if (!env) A(j.id == (lifo ? hi - 1 : lo), "queue: pop returns the job whose turn it is");
        if (frees) A(verif_freed(lf->last), "queue: the memory of a popped job is freed");
        if (!env && lfs) A((long)lfs->load() == s0 - 1, "queue: pop discounts the job once");
    }
    else
    {
        A(lf->npop == 0 && j.id == -5, "queue: an empty queue yields no job");
        A(lf->asked == 1, "queue: the queue is asked once");
        if (!env) { A(lo == hi, "queue: a queue with jobs yields one"); if (lfs) A((long)lfs->load() == s0, "queue: an empty queue is not changed by pop"); }
    }
    if (!env && lfm) A((long)lfm->load() == m0, "queue: pop does not change the maximum size");
    count_inv();
    verif_cover("end");
}
typedef ba::lockfree_queue<vjob> LQ0; typedef ba::lockfree_queue<vjob, ba::lockfree_size> LQ1; typedef ba::lockfree_queue<vjob, ba::lockfree_size_max_size> LQ2;
typedef ba::lockfree_stack<vjob> LS0; typedef ba::lockfree_stack<vjob, ba::lockfree_size> LS1; typedef ba::lockfree_stack<vjob, ba::lockfree_size_max_size> LS2;
typedef ba::lockfree_spsc_queue<vjob> LP0; typedef ba::lockfree_spsc_queue<vjob, ba::lockfree_size> LP1; typedef ba::lockfree_spsc_queue<vjob, ba::lockfree_size_max_size> LP2;
template <class Q0, class Q1, class Q2, class F> void lf_all(bool lifo_, F f)
{
    int c = verif_choice(3, "size policy(0 none,1 size,2 size and maximum)");
    bool env = verif_choice(2, "other threads") == 1;
    if (c == 0) f(any_lf<Q0>(lifo_), env);
    else if (c == 1) { auto& q = any_lf<Q1>(lifo_); any_counts(q, false); f(q, env); }
    else { auto& q = any_lf<Q2>(lifo_); any_counts(q, true); f(q, env); }
}
template <class T> void lf_sizes(T& q)
{
    long n = lfs ? lfs->load() : 0, m = lfm ? lfm->load() : 0;
    auto s = q.get_queue_size(), x = q.get_max_queue_size();
    A(s.size() == 1 && (long)s[0] == n, "queue: get_queue_size is the number of jobs");
    A(x.size() == 1 && (long)x[0] == m, "queue: get_max_queue_size is the maximum so far");
    q.reset_max_queue_size();
    x = q.get_max_queue_size(); s = q.get_queue_size();
    A(x[0] == 0, "queue: reset_max_queue_size restarts at 0");
    A((long)s[0] == n && lf->npush == 0 && lf->npop == 0, "queue: the statistics do not change the queue");
    verif_cover("end");
}
}
extern "C" void check_lockfree_queue_push() { lf_all<LQ0, LQ1, LQ2>(false, [](auto& q, bool e) { lf_push(q, e); }); }
extern "C" void check_lockfree_queue_pop() { lf_all<LQ0, LQ1, LQ2>(false, [](auto& q, bool e) { lf_pop(q, 0, e, true); }); }
extern "C" void check_lockfree_queue_try_pop() { lf_all<LQ0, LQ1, LQ2>(false, [](auto& q, bool e) { lf_pop(q, 1, e, true); }); }
extern "C" void check_lockfree_queue_try_steal() { lf_all<LQ0, LQ1, LQ2>(false, [](auto& q, bool e) { lf_pop(q, 2, e, true); }); }
extern "C" void check_lockfree_queue_sizes() { lf_all<LQ0, LQ1, LQ2>(false, [](auto& q, bool) { lf_sizes(q); }); }
extern "C" void check_lockfree_stack_push() { lf_all<LS0, LS1, LS2>(true, [](auto& q, bool e) { lf_push(q, e); }); }
extern "C" void check_lockfree_stack_pop() { lf_all<LS0, LS1, LS2>(true, [](auto& q, bool e) { lf_pop(q, 0, e, true); }); }
extern "C" void check_lockfree_stack_try_pop() { lf_all<LS0, LS1, LS2>(true, [](auto& q, bool e) { lf_pop(q, 1, e, true); }); }
extern "C" void check_lockfree_stack_try_steal() { lf_all<LS0, LS1, LS2>(true, [](auto& q, bool e) { lf_pop(q, 2, e, true); }); }
extern "C" void check_lockfree_stack_sizes() { lf_all<LS0, LS1, LS2>(true, [](auto& q, bool) { lf_sizes(q); }); }
extern "C" void check_lockfree_spsc_push() { lf_all<LP0, LP1, LP2>(false, [](auto& q, bool e) { lf_push(q, e); }); }
extern "C" void check_lockfree_spsc_pop() { lf_all<LP0, LP1, LP2>(false, [](auto& q, bool e) { lf_pop(q, 0, e, false); }); }
extern "C" void check_lockfree_spsc_try_pop() { lf_all<LP0, LP1, LP2>(false, [](auto& q, bool e) { lf_pop(q, 1, e, false); }); }
extern "C" void check_lockfree_spsc_sizes() { lf_all<LP0, LP1, LP2>(false, [](auto& q, bool) { lf_sizes(q); }); }
extern "C" void check_lockfree_spsc_try_steal()
{
    auto& q = any_lf<LP0>(false);
    vjob j(-5);
    A(!q.try_steal(j) && j.id == -5 && lf->npop == 0, "queue: jobs of a single consumer queue are not stolen");
    verif_cover("end");
}
