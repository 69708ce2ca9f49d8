// real:core
// Contracts of servant_proxy, trackable_servant, checks.hpp and move_bind over a contract scheduler: a posted job is executed exactly once,
// later, by the thread of that scheduler.
#include "core.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
using namespace vc;
namespace vs
{
// who runs: 0 a client, 1 the thread of the servant, 2 a worker of the pool
int where;
}
extern "C" pthread_t pthread_self(void) noexcept { return 1000 + vs::where; }
namespace vs
{
typedef ba::any_callable J;
struct ssched : sched<J>
{
    int who; int threads = 1;
    explicit ssched(int w) : who(w) {}
    std::vector<boost::thread::id> thread_ids() const override
    {
        std::vector<boost::thread::id> r; int old = where; where = who; r.push_back(boost::this_thread::get_id());
        if (threads > 1) { where = 7; r.push_back(boost::this_thread::get_id()); }
        where = old; return r;
    }
    int ints_posted = 0; std::vector<std::string> names;
    ba::any_interruptible interruptible_post(J j, std::size_t p) override { ++ints_posted; return sched<J>::interruptible_post(std::move(j), p); }
    void go(std::size_t i)
    {
        int old = where; where = who;
        { J j(std::move(jobs[i])); j(); }
        where = old;
    }
};
struct proxy : ba::any_shared_scheduler_proxy_concept<J>
{
    std::shared_ptr<ssched> s;
    explicit proxy(std::shared_ptr<ssched> x) : s(std::move(x)) {}
    void post(J j) const override { s->post(std::move(j), 0); }
    void post(J j, std::size_t p) const override { s->post(std::move(j), p); }
    ba::any_interruptible interruptible_post(J j) const override { return s->interruptible_post(std::move(j), 0); }
    ba::any_interruptible interruptible_post(J j, std::size_t p) const override { return s->interruptible_post(std::move(j), p); }
    std::vector<boost::thread::id> thread_ids() const override { return s->thread_ids(); }
    ba::any_weak_scheduler<J> get_weak_scheduler() const override { return ba::detail::lockable_weak_scheduler<ssched>(s); }
    bool is_valid() const override { return true; }
    std::vector<std::size_t> get_queue_size() const override { return {}; }
    std::vector<std::size_t> get_max_queue_size() const override { return {}; }
    void reset_max_queue_size() override {}
    ba::scheduler_diagnostics get_diagnostics(std::size_t) const override { return {}; }
    void clear_diagnostics() override {}
    ba::internal_scheduler_aspect<J> get_internal_scheduler_aspect() override { return ba::internal_scheduler_aspect<J>(); }
    void set_name(std::string const&) override {}
    std::string get_name() const override { return ""; }
    void processor_bind(std::vector<std::tuple<unsigned, unsigned>>) override {}
    std::vector<std::future<void>> execute_in_all_threads(ba::any_callable) override { return {}; }
};
std::shared_ptr<ssched> home, pool;
ba::any_shared_scheduler_proxy<J> home_proxy() { std::shared_ptr<ba::any_shared_scheduler_proxy_concept<J>> p = std::make_shared<proxy>(home); return ba::any_shared_scheduler_proxy<J>(p); }
ba::any_shared_scheduler_proxy<J> pool_proxy() { std::shared_ptr<ba::any_shared_scheduler_proxy_concept<J>> p = std::make_shared<proxy>(pool); return ba::any_shared_scheduler_proxy<J>(p); }
long val, val2; std::size_t prio, cbprio, offset;
int born, dead, calls, cbs, fails; bool weak_ok;
// arguments of any kind: moved, never copied
struct mo { long v; explicit mo(long x) : v(x) {} mo(mo&& o) noexcept : v(o.v) { o.v = -1; } mo& operator=(mo&& o) noexcept { v = o.v; o.v = -1; return *this; } mo(mo const&) = delete; };
enum { VALUE, THROWS };
int kind, ckind;
void world()
{
    home = std::make_shared<ssched>(1); pool = std::make_shared<ssched>(2); home->jobs.reserve(8); home->prios.reserve(8); pool->jobs.reserve(8); pool->prios.reserve(8);
    ba::get_continuations<>(std::list<ba::any_continuation>(), true);
    val = verif_nondet_long("value"); val2 = verif_nondet_long("value2");
    prio = (std::size_t)verif_nondet_range("prio", 0, 100); cbprio = (std::size_t)verif_nondet_range("cb_prio", 0, 100);
}
// ---- a servant ------------------------------------------------------------------------------------------------------
struct base { virtual ~base() {} virtual long get(mo, long) = 0; };
struct servant : ba::trackable_servant<J, J>, base
{
    int mark = 4711;
    servant(ba::any_weak_scheduler<J> s, mo m, long b) : ba::trackable_servant<J, J>(s, pool_proxy())
    {
        A(where == 1, "servant: created in its own thread");
        A(m.v == val && b == val2, "servant: the constructor gets the arguments of the proxy");
        A(born == 0, "servant: created exactly once");
        if (ckind == THROWS) throw boom{5};
        ++born;
    }
    ~servant() { A(where == 1, "servant: destroyed in its own thread"); A(dead == 0, "servant: destroyed exactly once"); A(mark == 4711, "servant: alive"); ++dead; mark = 0; }
    void enter() { A(where == 1, "servant: called in its own thread"); A(mark == 4711 && dead == 0, "servant: alive when called"); ++calls; A(calls == 1, "servant: a call is executed at most once"); if (kind == THROWS) throw boom{7}; }
    void hit(mo m, long b) { A(m.v == val && b == val2, "servant: a call gets the arguments given to the proxy"); enter(); }
    long get(mo m, long b) override { hit(mo(m.v), b); return m.v; }
    mo move(mo m, long b) { hit(std::move(m), b); return mo(b); }
};
struct sproxy : ba::servant_proxy<sproxy, servant, J>
{
    using ba::servant_proxy<sproxy, servant, J>::servant_proxy;
    static std::size_t get_ctor_prio() { return 3; }
    static std::size_t get_dtor_prio() { return 4; }
    BOOST_ASYNC_POST_MEMBER(hit, prio)
    BOOST_ASYNC_FUTURE_MEMBER(get, prio)
    BOOST_ASYNC_FUTURE_MEMBER(move, prio)
};
struct sproxy1 : ba::servant_proxy<sproxy1, servant, J>
{
    using ba::servant_proxy<sproxy1, servant, J>::servant_proxy;
    BOOST_ASYNC_POST_MEMBER(hit)
    BOOST_ASYNC_FUTURE_MEMBER(get)
};
struct lproxy : ba::servant_proxy<lproxy, servant, J>
{
    using ba::servant_proxy<lproxy, servant, J>::servant_proxy;
    BOOST_ASYNC_POST_MEMBER_LOG(hit, "hit", prio)
    BOOST_ASYNC_FUTURE_MEMBER_LOG(get, "get", prio)
};
struct lproxy1 : ba::servant_proxy<lproxy1, servant, J>
{
    using ba::servant_proxy<lproxy1, servant, J>::servant_proxy;
    BOOST_ASYNC_POST_MEMBER_LOG(hit, "hit")
    BOOST_ASYNC_FUTURE_MEMBER_LOG(get, "get")
};
struct uproxy : ba::servant_proxy<uproxy, servant, J>
{
    using ba::servant_proxy<uproxy, servant, J>::servant_proxy;
    BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(hit, prio)
    BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(get, prio)
};
struct uproxy1 : ba::servant_proxy<uproxy1, servant, J>
{
    using ba::servant_proxy<uproxy1, servant, J>::servant_proxy;
    BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(hit)
    BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(get)
};
struct luproxy : ba::servant_proxy<luproxy, servant, J>
{
    using ba::servant_proxy<luproxy, servant, J>::servant_proxy;
    BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(hit, "hit", prio)
    BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(get, "get", prio)
};
struct luproxy1 : ba::servant_proxy<luproxy1, servant, J>
{
    using ba::servant_proxy<luproxy1, servant, J>::servant_proxy;
    BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(hit, "hit")
    BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(get, "get")
};
struct cproxy : ba::servant_proxy<cproxy, servant, J>
{
    using ba::servant_proxy<cproxy, servant, J>::servant_proxy;
    BOOST_ASYNC_POST_CALLBACK_MEMBER_2(get, prio)
    BOOST_ASYNC_UNSAFE_MEMBER(hit)
};
struct bproxy : ba::servant_proxy<bproxy, base, J>
{
    template <class P> bproxy(P p) : ba::servant_proxy<bproxy, base, J>(p) {}
    BOOST_ASYNC_FUTURE_MEMBER(get, prio)
};
// a servant living in its own thread, at index `offset` of a scheduler for several servants
template <class P> P live()
{
    where = 1;
    offset = 0;
    if (verif_choice(2, "index(0 only servant,1 servant k of a multiple_thread_scheduler)")) { offset = (std::size_t)verif_nondet_range("index", 1, 1000); P p(std::make_tuple(home_proxy(), offset), mo(val), val2); where = 0; return p; }
    P p(home_proxy(), mo(val), val2);
    where = 0;
    return p;
}
void dying(std::size_t at, std::size_t dprio)
{
    A(home->jobs.size() == at + 1, "servant: the proxy posts its destruction exactly once");
    A(home->prios[at] == dprio + 100000 * offset, "servant: the destruction goes to the queue of the servant");
    A(dead == 0, "servant: not destroyed by the client");
    home->go(at);
    A(dead == 1, "servant: destroyed by its own thread");
}
template <class Get> int outcome(Get g, int& id)
{
    id = 0;
    try { g(); return 0; }
    catch (boom& b) { id = b.id; return 1; }
    catch (ba::task_aborted_exception&) { return 2; }
    catch (...) { return 3; }
}
template <class P, class Call> void member(bool own_prio, Call call)
{
    world();
    std::size_t p = own_prio ? prio : 0;
    kind = verif_choice(2, "call(0 returns,1 throws)");
    {
        P px = live<P>();
        A(home->jobs.size() == 0 && born == 1, "servant: created directly in its own thread");
        call(px);
        A(home->jobs.size() == 1 && home->prios[0] == p + 100000 * offset, "servant: one call is posted, with its priority, to the queue of the servant");
        A(calls == 0, "servant: the call is not executed by the client");
    }
    // the last proxy is gone, the call is still waiting
    bool first = verif_nondet_bool("destruction runs first");   // a queue with priorities may reorder
    if (first) { A(home->jobs.size() == 2, "servant: the proxy posts its destruction exactly once"); home->go(1); A(dead == 0, "servant: alive as long as calls are waiting"); }
    else A(dead == 0, "servant: alive as long as calls are waiting");
    try { home->go(0); } catch (boom&) { ++fails; }
    A(calls == 1, "servant: the call is executed");
    if (first) A(dead == 1, "servant: destroyed after the last call"); else dying(1, std::is_same_v<P, sproxy> ? 4 : 0);
    A(home->jobs.size() == 2, "servant: nothing else is posted");
}
template <class F> void got(F& f, long v)
{
    A(ba::is_ready(f), "servant: the future is ready after the call");
    int id; long r = v;
    int o = outcome([&] { if constexpr (std::is_same_v<decltype(f.get()), long>) r = f.get(); else { mo m(f.get()); r = m.v; } }, id);
    if (kind == VALUE) A(o == 0 && r == v, "servant: the future holds the value of the call"); else A(o == 1 && id == 7, "servant: the future holds the exception of the call");
}
template <class P> void post_member(bool p) { member<P>(p, [](P& px) { px.hit(mo(val), val2); }); }
template <class P> void future_member(bool p) { std::future<long> f; member<P>(p, [&](P& px) { f = px.get(mo(val), val2); A(!ba::is_ready(f), "servant: the future is not ready before the call"); }); got(f, val); }
template <class R> struct ucb
{
    void operator()(ba::expected<R> e) const
    {
        ++cbs; A(cbs == 1, "servant: the callback is called exactly once"); A(where == 1, "servant: an unsafe callback is called by the thread of the servant");
        int id; long r = 0;
        int o = outcome([&] { if constexpr (std::is_void_v<R>) e.get(); else r = e.get(); }, id);
        if (kind == VALUE) A(o == 0 && (std::is_void_v<R> || r == val), "servant: the callback gets the value of the call"); else A(o == 1 && id == 7, "servant: the callback gets the exception of the call");
        if (verif_nondet_bool("the callback throws")) throw boom{9};
    }
};
template <class P, bool V> void unsafe_member(bool p) { member<P>(p, [](P& px) { if constexpr (V) px.hit(ucb<void>(), mo(val), val2); else px.get(ucb<long>(), mo(val), val2); }); A(cbs == 1, "servant: the callback is called exactly once"); }
}
using namespace vs;
#define E(x) extern "C" void check_##x()
E(post_member) { post_member<sproxy>(true); }
E(post_member_noprio) { post_member<sproxy1>(false); }
E(post_member_log) { post_member<lproxy>(true); }
E(post_member_log_noprio) { post_member<lproxy1>(false); }
E(future_member) { future_member<sproxy>(true); }
E(future_member_noprio) { future_member<sproxy1>(false); }
E(future_member_log) { future_member<lproxy>(true); }
E(future_member_log_noprio) { future_member<lproxy1>(false); }
E(future_member_move_only) { std::future<mo> f; member<sproxy>(true, [&](sproxy& px) { f = px.move(mo(val), val2); }); got(f, val2); }
E(unsafe_member) { unsafe_member<uproxy, false>(true); }
E(unsafe_member_void) { unsafe_member<uproxy, true>(true); }
E(unsafe_member_noprio) { unsafe_member<uproxy1, false>(false); }
E(unsafe_member_void_noprio) { unsafe_member<uproxy1, true>(false); }
E(unsafe_member_log) { unsafe_member<luproxy, false>(true); }
E(unsafe_member_log_void) { unsafe_member<luproxy, true>(true); }
E(unsafe_member_log_noprio) { unsafe_member<luproxy1, false>(false); }
E(unsafe_member_log_void_noprio) { unsafe_member<luproxy1, true>(false); }
E(servant_cast)   // a proxy to the base class of the servant is a proxy to the same servant, in the same queue
{
    std::future<long> f; std::size_t last = 0;
    world(); kind = verif_choice(2, "call(0 returns,1 throws)");
    {
        bproxy bp = [] { sproxy px = live<sproxy>(); return ba::dynamic_servant_proxy_cast<bproxy>(px); }();
        last = home->jobs.size();   // every copy of a proxy posts one destruction
        for (std::size_t i = 0; i < last; ++i) { A(home->prios[i] % 100000 == 0 || home->prios[i] % 100000 == 4, "servant: a proxy posts its destruction"); A(home->prios[i] / 100000 == offset, "servant: the destruction goes to the queue of the servant"); home->go(i); }
        A(dead == 0, "servant: alive as long as another proxy exists");
        f = bp.get(mo(val), val2);
        A(home->jobs.size() == last + 1 && home->prios[last] == prio + 100000 * offset, "servant: one call is posted, with its priority, to the queue of the servant");
        home->go(last);
    }
    got(f, val);
    dying(last + 1, 0);
}
E(servant_two_proxies)   // copies share the servant: it is destroyed once, after both
{
    world();
    {
        sproxy a = live<sproxy>(); int how = verif_choice(3, "second proxy(0 copy,1 move,2 assigned)");
        if (how == 0) { sproxy b(a); }
        else if (how == 1) { sproxy b(std::move(a)); }
        else { sproxy b(a); b = a; }
        if (how == 1) { dying(0, 4); }
        else { A(home->jobs.size() == 1, "servant: a proxy posts its destruction exactly once"); home->go(0); A(dead == 0, "servant: alive as long as another proxy exists"); }
    }
    A(home->jobs.size() == (dead ? 1 : 2), "servant: a proxy posts its destruction exactly once");
    if (!dead) dying(1, 4);
}
// creation by a client: the constructor is posted; while the client waits, the servant's thread may run it
static int wait_kind;
static void waited() { if (wait_kind == 0) { A(home->jobs.size() == 1, "servant: its construction is posted exactly once"); A(home->prios[0] == 3 + 100000 * offset, "servant: the construction goes to the queue of the servant"); home->go(0); } }
E(servant_create)
{
    world(); ckind = verif_choice(2, "constructor(0 returns,1 throws)"); wait_kind = verif_choice(2, "client(0 waits long enough,1 gives up)");
    std::vfut::waiting = waited;
    int how = 0;
    try
    {
        if (verif_choice(2, "index(0 only servant,1 servant k of a multiple_thread_scheduler)")) { offset = (std::size_t)verif_nondet_range("index", 1, 1000); sproxy p(std::make_tuple(home_proxy(), offset), mo(val), val2); how = 4; A(born == 1 && dead == 0 && p.get_servant() && p.get_servant()->mark == 4711, "servant: created"); }
        else { sproxy p(home_proxy(), mo(val), val2); how = 4; A(born == 1 && dead == 0 && p.get_servant() && p.get_servant()->mark == 4711, "servant: created"); }
    }
    catch (ba::servant_proxy_timeout&) { how = 1; } catch (boom& b) { how = b.id == 5 ? 2 : 3; } catch (...) { how = 3; }
    std::vfut::waiting = nullptr;
    if (wait_kind) { A(how == 1, "servant: a client which does not get the servant in time gets servant_proxy_timeout"); A(home->jobs.size() == 1, "servant: its construction is posted exactly once"); home->go(0); A(born == dead, "servant: a servant nobody waits for is destroyed by its own thread"); }
    else if (ckind == THROWS) { A(how == 2 && home->jobs.size() == 1, "servant: the client gets the exception of the constructor"); }
    else { A(how == 4, "servant: created"); dying(1, 4); }
}
E(servant_from_future)
{
    world(); int k = verif_choice(4, "future(0 ready,1 late,2 exception,3 empty)");
    std::promise<std::shared_ptr<servant>> p; auto f = p.get_future();
    if (k == 0) { where = 1; p.set_value(std::make_shared<servant>(ba::any_weak_scheduler<J>(), mo(val), val2)); where = 0; }
    if (k == 2) p.set_exception(std::make_exception_ptr(boom{6}));
    if (k == 3) p.set_value(std::shared_ptr<servant>());
    int how = 0;
    try { sproxy px(home_proxy(), std::move(f)); how = 4; A(px.get_servant() && px.get_servant()->mark == 4711, "servant: created"); } catch (ba::servant_proxy_timeout&) { how = 1; } catch (boom&) { how = 2; } catch (ba::empty_servant&) { how = 3; }
    A(how == (k == 0 ? 4 : k), "servant: a proxy of a future has its servant or reports why not");
    if (k == 0) dying(0, 4); else A(home->jobs.size() == 0, "servant: nothing is posted without a servant");
}
// ---- trackable_servant -------------------------------------------------------------------------------------------------
namespace
{
struct tracked : ba::trackable_servant<J, J>
{
    tracked() : ba::trackable_servant<J, J>(home_proxy().get_weak_scheduler(), pool_proxy()) {}
};
int tasks; std::unique_ptr<tracked> me;
bool alive() { return !!me; }
// between any two steps the servant may be destroyed (by its own thread)
bool maybe_die(const char* when) { if (me && verif_choice(2, when)) { int w = where; where = 1; me.reset(); where = w; return true; } return false; }
struct task
{
    void enter() const { ++tasks; A(tasks == 1, "servant: the task runs at most once"); A(where == 2, "servant: the task runs in the pool"); A(alive(), "servant: no task of a dead servant is started"); if (kind == THROWS) throw boom{7}; }
    mo m; explicit task(long v) : m(v) {} task(task&&) = default; task& operator=(task&&) = default;
    long operator()() { enter(); return m.v; }
};
template <class R> struct callback
{
    mo m; explicit callback(long v) : m(v) {} callback(callback&&) = default; callback& operator=(callback&&) = default;
    void operator()(ba::expected<R> e)
    {
        ++cbs; A(cbs == 1, "servant: the callback runs at most once"); A(where == 1, "servant: the callback runs in the thread of the servant"); A(alive(), "servant: no callback of a dead servant is called"); A(m.v == val2, "servant: the callback is the one given");
        int id; long r = 0; int o = outcome([&] { r = e.get(); }, id);
        if (kind == VALUE) A(o == 0 && r == val, "servant: the callback gets the value of the task"); else A(o == 1 && id == 7, "servant: the callback gets the exception of the task");
    }
};
struct tpool
{
    typedef J job_type; std::shared_ptr<ssched> s = pool;
    void post(J j, std::size_t p = 0) const { s->post(std::move(j), p); }
    ba::any_interruptible interruptible_post(J j, std::size_t p = 0) const { return s->interruptible_post(std::move(j), p); }
};
template <class Post> void post_cb(bool intr, Post post)
{
    world(); kind = verif_choice(2, "task(0 returns,1 throws)");
    where = 1; me.reset(new tracked()); post(); 
    A(pool->jobs.size() == 1 && pool->prios[0] == prio, "servant: the task is posted once, with its priority"); A(pool->ints_posted == intr, "servant: an interruptible task is posted as such");
    A(home->jobs.size() == 0 && tasks == 0, "servant: nothing runs in the thread of the servant"); where = 0;
    bool d1 = maybe_die("dies before the task");
    pool->go(0);
    A(tasks == (d1 ? 0 : 1), "servant: the task runs unless the servant is dead");
    if (home->jobs.size()) A(home->prios[0] == cbprio, "servant: the callback is posted with its priority");
    if (!d1) A(home->jobs.size() == 1, "servant: the callback is posted exactly once");
    bool d2 = maybe_die("dies before the callback");
    for (std::size_t i = 0; i < home->jobs.size(); ++i) home->go(i);
    A(home->jobs.size() <= 1, "servant: the callback is posted exactly once");
    A(cbs == (d1 || d2 ? 0 : 1), "servant: the callback is called unless the servant is dead");
    me.reset();
}
template <class Post> void post_fut(bool intr, bool self, Post post)
{
    world(); kind = verif_choice(2, "task(0 returns,1 throws)");
    where = 1; me.reset(new tracked()); bool gone = self && verif_choice(2, "scheduler gone"); std::shared_ptr<ssched> to = self ? home : pool; if (gone) { to.reset(); home.reset(); }
    if (self && !gone) { to->who = 2; }
    std::future<long> f = post(); int id; where = 0;
    if (gone) { A(ba::is_ready(f), "servant: without scheduler the future is ready"); A(outcome([&] { f.get(); }, id) == 2, "servant: without scheduler the task is aborted"); A(tasks == 0, "servant: no task without scheduler"); me.reset(); return; }
    A(to->jobs.size() == 1 && to->prios[0] == prio, "servant: the task is posted once, with its priority"); A(to->ints_posted == intr, "servant: an interruptible task is posted as such"); A(!ba::is_ready(f), "servant: the future is not ready before the task ran");
    bool d1 = maybe_die("dies before the task");
    to->go(0);
    A(tasks == (d1 ? 0 : 1), "servant: the task runs unless the servant is dead"); A(ba::is_ready(f), "servant: the future is ready after the task");
    long r = 0; int o = outcome([&] { r = f.get(); }, id);
    if (d1) A(o == 2, "servant: the task of a dead servant is aborted"); else if (kind == VALUE) A(o == 0 && r == val, "servant: the future holds the value of the task"); else A(o == 1 && id == 7, "servant: the future holds the exception of the task");
    A(home->jobs.size() == (self ? 1 : 0) && pool->jobs.size() == (self ? 0 : 1), "servant: exactly one job is posted"); me.reset();
}
std::future<long> first(std::tuple<std::future<long>, ba::any_interruptible> t) { return std::move(std::get<0>(t)); }
}
E(track_post_callback) { post_cb(false, [] { me->post_callback(task(val), callback<long>(val2), "t", prio, cbprio); }); }
E(track_post_callback_int) { post_cb(true, [] { me->interruptible_post_callback(task(val), callback<long>(val2), "t", prio, cbprio); }); }
E(track_post_callback_worker) { tpool* w = new tpool; post_cb(false, [&] { w->s = pool; me->post_callback(*w, task(val), callback<long>(val2), "t", prio, cbprio); }); }
E(track_post_callback_worker_int) { tpool* w = new tpool; post_cb(true, [&] { w->s = pool; me->interruptible_post_callback(*w, task(val), callback<long>(val2), "t", prio, cbprio); }); }
E(track_call_callback) { post_cb(false, [] { me->call_callback(tpool(), task(val), callback<long>(val2), "t", prio, cbprio); }); }
E(track_call_callback_int) { post_cb(true, [] { me->interruptible_call_callback(tpool(), task(val), callback<long>(val2), "t", prio, cbprio); }); }
E(track_post_future) { post_fut(false, false, [] { return me->post_future(task(val), "t", prio); }); }
E(track_post_future_int) { post_fut(true, false, [] { return first(me->interruptible_post_future(task(val), "t", prio)); }); }
E(track_post_future_worker) { tpool* w = new tpool; post_fut(false, false, [&] { w->s = pool; return me->post_future(*w, task(val), "t", prio); }); }
E(track_post_future_worker_int) { tpool* w = new tpool; post_fut(true, false, [&] { w->s = pool; return first(me->interruptible_post_future(*w, task(val), "t", prio)); }); }
E(track_post_self) { post_fut(false, true, [] { return me->post_self(task(val), "t", prio); }); }
E(track_post_self_int) { post_fut(true, true, [] { return first(me->interruptible_post_self(task(val), "t", prio)); }); }
// a safe callback: called any number of times, from any thread
static int shots;
struct safe_f
{
    void operator()(long a, std::string b) const
    {
        ++shots; A(where == 1, "servant: a safe callback runs in the thread of the servant"); A(alive(), "servant: no safe callback of a dead servant is executed"); A(a == val && b.size() == 2, "servant: a safe callback gets its arguments");
        if (kind == THROWS) throw std::logic_error("");
    }
};
template <bool Post> static void safe()
{
    world(); kind = verif_choice(2, "callback(0 returns,1 throws)");
    where = 1; me.reset(new tracked());
    std::function<void(long, std::string)> f = Post ? me->make_safe_post_callback(safe_f(), "t", prio) : me->make_safe_callback(safe_f(), "t", prio);
    where = 0;
    A(shots == 0 && home->jobs.size() == 0, "servant: a safe callback does nothing before it is called");
    home->threads = 1 + verif_choice(2, "threads of the scheduler of the servant(0 one,1 several)");
    where = verif_choice(2, "caller(0 another thread,1 the servant's)");
    std::size_t posted = 0; int must = 0;
    for (int n = 0; n < 2; ++n)   // every call is executed
    {
        bool d0 = maybe_die("dies before the call");
        if (!alive() && n == 0 && verif_choice(2, "scheduler gone")) { std::shared_ptr<ssched> h = home; home.reset(); h.reset(); f(val, std::string("ab")); A(shots == 0, "servant: nothing happens without scheduler"); return; }
        f(val, std::string("ab"));
        bool direct = where == 1 && home->threads == 1 && !Post;
        if (direct) { if (alive()) ++must; A(home->jobs.size() == posted, "servant: in the thread of the servant a safe callback is called directly"); }
        else { A(home->jobs.size() == posted + 1, "servant: a safe callback called from elsewhere is posted once"); A(home->prios[posted] == prio, "servant: a safe callback is posted with its priority"); A(shots == must, "servant: a safe callback is not executed by the caller");
               maybe_die("dies before the callback"); home->go(posted); ++posted; if (alive()) ++must; }
        A(shots == must, "servant: every call of a safe callback is executed exactly once while the servant lives");
    }
    me.reset();
}
E(track_safe_callback) { safe<false>(); }
E(track_safe_post_callback) { safe<true>(); }
E(track_alive_functor) { world(); me.reset(new tracked()); std::function<bool()> f = me->make_check_alive_functor(); A(f(), "servant: reported alive"); me.reset(); A(!f(), "servant: reported dead"); }
// copies and assigned servants are servants of their own: callbacks of one do not outlive it because of another
E(track_copies)
{
    world(); me.reset(new tracked()); std::unique_ptr<tracked> other(new tracked()); int how = verif_choice(3, "other(0 copy,1 assigned,2 self assigned)");
    auto keep = other->make_check_alive_functor();
    if (how == 0) { other.reset(new tracked(*me)); A(!keep(), "servant: reported dead"); } else if (how == 1) { *other = *me; A(!keep(), "servant: callbacks of an assigned servant are void"); } else { *other = *other; A(keep(), "servant: self assignment changes nothing"); }
    A(other->get_scheduler().lock().is_valid(), "servant: a copy lives in the same scheduler"); A(other->get_worker().is_valid(), "servant: a copy uses the same pool");
    auto f = me->make_check_alive_functor(), g = other->make_check_alive_functor();
    A(f() && g(), "servant: reported alive");
    if (verif_choice(2, "who dies first")) { me.reset(); A(!f() && g(), "servant: tracked independently of its copies"); } else { other.reset(); A(f() && !g(), "servant: tracked independently of its copies"); }
}
E(track_moved)
{
    world(); me.reset(new tracked()); auto f = me->make_check_alive_functor(); tracked other(std::move(*me)); int how = verif_choice(2, "moved(0 constructed,1 assigned)");
    if (how) { tracked third; auto g = third.make_check_alive_functor(); third = std::move(other); A(!g() && f(), "servant: callbacks follow a moved servant"); return; }
    A(f(), "servant: callbacks follow a moved servant"); me.reset(); A(f(), "servant: callbacks follow a moved servant"); A(other.get_scheduler().lock().is_valid() && other.get_worker().is_valid(), "servant: a moved servant keeps its schedulers");
}
// check_alive / check_alive_before_exec on their own
E(check_alive)
{
    world(); auto t = std::make_shared<int>(1); int n = 0; bool shared = verif_choice(2, "tracked by(0 weak,1 shared)"); std::weak_ptr<int> w(t); int k = verif_choice(4, "form(0 void,1 value,2 before exec,3 before exec void)");
    int o = 0, id; long r = 0; bool die = verif_choice(2, "dies");
    auto go = [&](auto f, auto... a) { auto g(std::move(f)); if (die) t.reset(); o = outcome([&] { if constexpr (std::is_void_v<decltype(g(a...))>) g(a...); else r = g(a...); }, id); };
    auto fv = [&](long x) { ++n; r = x; }; auto fl = [&](long x) { ++n; return x; }; auto f0 = [&] { ++n; return val; }; auto f1 = [&] { ++n; r = val; };
    if (k == 0) { if (shared) { auto c = ba::check_alive(fv, t); go(std::move(c), val); } else go(ba::check_alive(fv, w), val); }
    if (k == 1) { if (shared) { auto c = ba::check_alive<decltype(fl), int, long>(fl, t); go(std::move(c), val); } else go(ba::check_alive<decltype(fl), int, long>(fl, w), val); }
    if (k == 2) { if (shared) { auto c = ba::check_alive_before_exec(f0, t); go(std::move(c)); } else go(ba::check_alive_before_exec(f0, w)); }
    if (k == 3) { if (shared) { auto c = ba::check_alive_before_exec(f1, t); go(std::move(c)); } else go(ba::check_alive_before_exec(f1, w)); }
    A(n == (die ? 0 : 1), "servant: a tracked functor is called exactly if the tracked object lives");
    if (die) A(o == (k >= 2 ? 2 : 0) && r == 0, "servant: a task of a dead object is aborted"); else A(o == 0 && r == val, "servant: a tracked functor gets its arguments and returns its result");
}
// move_bind: arguments are moved to the functor, in order, followed by those of the call
struct mb { mo operator()(mo a, mo b, long c, mo d) { A(a.v == val && b.v == val2 && c == 3 && d.v == 4, "move_bind: arguments in order"); ++calls; return std::move(b); } };
E(move_bind)
{
    world(); auto f = ba::move_bind(mb(), mo(val), mo(val2), 3L); auto g(std::move(f)); auto h = std::move(g); mo r = h(mo(4));
    A(calls == 1 && r.v == val2, "move_bind: called once, the result is returned");
    auto k = ba::move_bind([](long a, long b) { return a == val && b == val2; }, val); std::function<bool(long)> s(std::move(k)); A(s(val2), "move_bind: arguments in order");
}
// POST_CALLBACK_MEMBER: a call of a servant with a callback in the thread of the caller; UNSAFE_MEMBER: a call to be posted by the caller
E(post_callback_member)
{
    world(); kind = verif_choice(2, "call(0 returns,1 throws)");
    pool->who = 2; ba::any_weak_scheduler<J> caller = pool_proxy().get_weak_scheduler();
    struct ccb { void operator()(ba::expected<long> e) const { ++cbs; A(where == 2, "servant: the callback runs in the thread of the caller"); int id; long r = 0; int o = outcome([&] { r = e.get(); }, id); if (kind == VALUE) A(o == 0 && r == val, "servant: the callback gets the value of the call"); else A(o == 1 && id == 7, "servant: the callback gets the exception of the call"); } };
    {
        cproxy p = live<cproxy>();
        p.get(ccb(), caller, cbprio, mo(val), val2);
        A(home->jobs.size() == 1 && home->prios[0] == prio + 100000 * offset, "servant: one call is posted, with its priority, to the queue of the servant");
        home->go(0); A(calls == 1, "servant: the call is executed"); A(pool->jobs.size() == 1 && pool->prios[0] == cbprio, "servant: the callback is posted exactly once, with its priority"); pool->go(0); A(cbs == 1, "servant: the callback is called exactly once");
    }
    dying(1, 0);
}
E(unsafe_call_member)
{
    world(); kind = VALUE;
    { cproxy p = live<cproxy>(); auto f = p.hit(mo(val), val2); A(calls == 0 && home->jobs.size() == 0, "servant: an unsafe call is executed by the caller"); where = 1; f(); where = 0; A(calls == 1, "servant: the call is executed"); }
    dying(0, 0);
}
