// real:core
// Contracts of any_queue_container for any number of queues, each in any state: the sequence of queues is abstract, queue k is enabled
// or not and has a job or not; D is the first queue which is enabled and has a job (N: none).
#include "queues.hpp"
#include <boost/asynchronous/queue/any_queue.hpp>
namespace vq
{
long N, D;
int asked_disabled, taken, pushes, steals; long pushed_to, pushed_id; std::size_t pushed_prio; bool disabled_at; long toggled; bool toggled_to; int toggles;
bool enabled(long k) { if (k == D) return true; return verif_up1("enabled", k); }
struct hq
{
    long k;
    bool has(vjob& j)
    {
        A(verif_and(0 <= k, k < N), "queue: only queues of the container are used");
        A(enabled(k), "priority: a disabled queue is not popped");
        A(k <= D, "priority: no queue is popped before the queues of higher priority");
        if (k != D) return false;
        ++taken; j = vjob(k + 1000); return true;
    }
    bool try_pop(vjob& j) { return has(j); }
    bool try_steal(vjob& j) { steals = 1; return has(j); }
    void put(vjob const& j, std::size_t p) { ++pushes; pushed_to = k; pushed_id = j.id; pushed_prio = p; }
    void push(vjob&& j, std::size_t p) { vjob x(std::move(j)); put(x, p); }
    void push(vjob&& j) { vjob x(std::move(j)); put(x, 0); }
    void push(vjob const& j, std::size_t p) { put(j, p); }
    void push(vjob const& j) { put(j, 0); }
    std::vector<std::size_t> get_queue_size() { return {}; }
    std::vector<std::size_t> get_max_queue_size() { return {}; }
    void reset_max_queue_size() {}
};
struct handle { long k; hq operator*() const { return hq{k}; } struct arrow { hq q; hq* operator->() { return &q; } }; arrow operator->() const { return arrow{{k}}; } };
struct flag { long k; operator bool() const { A(verif_and(0 <= k, k < N), "queue: only queues of the container are used"); return enabled(k); } flag& operator=(bool b) { ++toggles; toggled = k; toggled_to = b; return *this; } };
struct slot { handle first; flag second; };
struct seq
{
    typedef slot value_type; typedef slot const_reference;
    struct iterator
    {
        typedef std::random_access_iterator_tag iterator_category; typedef slot value_type; typedef long difference_type; typedef slot* pointer; typedef slot reference;
        long k;
        slot operator*() const { return slot{{k}, {k}}; }
        struct arrow { slot s; slot* operator->() { return &s; } };
        arrow operator->() const { return arrow{**this}; }
        iterator& operator++() { ++k; return *this; } iterator operator++(int) { iterator r(*this); ++k; return r; } iterator& operator--() { --k; return *this; }
        iterator operator+(long n) const { return {k + n}; } long operator-(iterator o) const { return k - o.k; }
        iterator& operator+=(long n) { k += n; return *this; }
        bool operator==(iterator o) const { return k == o.k; } bool operator!=(iterator o) const { return k != o.k; } bool operator<(iterator o) const { return k < o.k; }
    };
    typedef iterator const_iterator;
    iterator begin() const { return {0}; } iterator end() const { return {N}; } iterator cbegin() const { return {0}; } iterator cend() const { return {N}; }
    std::size_t size() const { return N; } bool empty() const { return N == 0; }
    slot at(std::size_t i) const { if (i >= (std::size_t)N) throw std::out_of_range("queues"); return slot{{(long)i}, {(long)i}}; }
    slot operator[](std::size_t i) const { A(i < (std::size_t)N, "queue: only queues of the container are used"); return slot{{(long)i}, {(long)i}}; }
    slot front() const { return at(0); } slot back() const { return at(N - 1); }
    template <class X> void push_back(X&&) {}
    template <class... X> void emplace_back(X&&...) {}
    void reserve(std::size_t) {}
};
}
namespace std { template <> class vector<std::pair<ba::any_queue_ptr<vjob>, bool>, std::allocator<std::pair<ba::any_queue_ptr<vjob>, bool>>> : public vq::seq {}; }
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/queue/find_queue_position.hpp>
using namespace vc; using namespace vq;
namespace boost { namespace this_thread { void yield() noexcept { vq::D = verif_nondet_range("queue of the next job", 0, vq::N); } } }
namespace
{
// a push policy which chooses any position for jobs without a priority
struct any_pos { std::size_t find_any_position() const { return (std::size_t)verif_nondet_long("any position"); } };
typedef ba::any_queue_container<vjob, ba::default_find_position<any_pos>> C;
struct none { typedef std::vector<std::shared_ptr<ba::any_queue_concept<vjob>>> queue_sequence; std::pair<queue_sequence::const_iterator, queue_sequence::const_iterator> queues() const { return {}; } };
C& setup()
{
    C* c = new C(none());
    N = verif_nondet_range("queues", 1, 1L << 40);
    D = verif_nondet_range("first queue with a job", 0, 1L << 40); verif_assume(D <= N);
    return *c;
}
void position(std::size_t p)
{
    A(pushes == 1, "priority: a job is pushed to exactly one queue");
    A(pushed_id == 77, "priority: the given job is pushed");
    A(0 <= pushed_to && pushed_to < N, "priority: a job goes to a queue of the container");
    if (p == (std::size_t)-1) A(pushed_to == N - 1, "priority: the lowest priority is the last queue");
    else if (p != 0) A(pushed_to == (p <= (std::size_t)N ? (long)(p - 1) : N - 1), "priority: a job with priority p goes to queue p (at most the last one)");
}
void taken_one(long got) { A(taken == 1 && got == D + 1000, "priority: the job of the first enabled queue with a job is taken"); }
}
extern "C" void check_prio_push()
{
    C& c = setup();
    std::size_t p = (std::size_t)verif_nondet_long("priority");
    vjob j(77);
    switch (verif_choice(4, "overload"))
    {
    case 0: c.push(std::move(j), p); break;
    case 1: c.push(std::move(j)); p = 0; break;
    case 2: c.push(j, p); A(j.id == 77, "queue: push of a copy leaves the job alone"); break;
    case 3: c.push(j); p = 0; break;
    }
    position(p);
    verif_cover("end");
}
extern "C" void check_prio_try_pop()
{
    C& c = setup();
    vjob j(-5);
    bool ok = c.try_pop(j);
    A(ok == (D < N), "priority: a job is found exactly if an enabled queue has one");
    if (ok) taken_one(j.id); else A(j.id == -5 && taken == 0, "queue: an empty queue yields no job");
    A(steals == 0, "priority: try_pop does not steal");
    verif_cover("end");
}
extern "C" void check_prio_try_steal()
{
    C& c = setup();
    vjob j(-5);
    bool ok = c.try_steal(j);
    A(ok == (D < N), "priority: a job is found exactly if an enabled queue has one");
    if (ok) taken_one(j.id); else A(j.id == -5 && taken == 0, "queue: an empty queue yields no job");
    verif_cover("end");
}
extern "C" void check_prio_pop()
{
    C& c = setup();
    vjob j(c.pop());
    taken_one(j.id);
    verif_cover("end");
}
extern "C" void check_prio_enable_queue()
{
    C& c = setup();
    std::size_t p = (std::size_t)verif_nondet_long("priority");
    bool on = verif_nondet_bool("enable"), thrown = false;
    try { c.enable_queue(p, on); } catch (std::out_of_range&) { thrown = true; }
    bool valid = p >= 1 && p <= (std::size_t)N;
    A(thrown == !valid, "priority: enable_queue refuses a queue which does not exist");
    A(toggles == (valid ? 1 : 0), "priority: enable_queue changes one queue");
    if (valid) A(toggled == (long)(p - 1) && toggled_to == on, "priority: enable_queue p enables queue p");
    verif_cover("end");
}
// position policies
extern "C" void check_prio_sequential_position()
{
    ba::default_find_position<ba::sequential_push_policy> f;
    std::size_t n = (std::size_t)verif_nondet_range("queues", 1, 1L << 40), at = (std::size_t)verif_nondet_long("jobs so far"), p = (std::size_t)verif_nondet_long("priority");
    f.m_next.store(at);
    std::size_t r = f.find_position(p, n);
    A(r < n, "priority: a job goes to a queue of the container");
    if (p != 0) A(r == (p <= n ? p - 1 : n - 1), "priority: a job with priority p goes to queue p (at most the last one)");
    else { A(f.m_next.load() == at + 1, "priority: jobs without priority are distributed over the queues in turn"); }
    verif_cover("end");
}
