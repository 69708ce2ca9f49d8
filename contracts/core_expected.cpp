// real:core
// Contracts of expected<T>: for default constructible types, for others, and for void.
#include "core.hpp"
#include <boost/asynchronous/expected.hpp>
using namespace vc;
namespace
{
// the abstract value of an expected: empty, a value, an exception (which wins over a value)
struct model { bool has = false; long v = 0; int ex = 0; };
struct nodef   // not default constructible, counts its live instances
{
    static int live;
    long v;
    explicit nodef(long x) : v(x) { ++live; }
    nodef(nodef const& o) : v(o.v) { ++live; }
    nodef(nodef&& o) noexcept : v(o.v) { o.v = -77; ++live; }
    nodef& operator=(nodef const& o) { v = o.v; return *this; }
    nodef& operator=(nodef&& o) noexcept { v = o.v; o.v = -77; return *this; }
    ~nodef() { --live; }
};
int nodef::live = 0;
long get_of(long x) { return x; }
long get_of(nodef const& x) { return x.v; }
template <class T> T make(long v) { return T(v); }
template <class E> void same(E const& e, model const& m, const char*)
{
    A(e.has_exception() == (m.ex != 0), "expected: has_exception tells whether an exception is stored");
    A(e.has_value() == (m.ex == 0), "expected: has_value is the opposite of has_exception");
    if (m.ex)
    {
        int id = 0;
        try { e.get(); } catch (boom& b) { id = b.id; }
        A(id == m.ex, "expected: get() throws the stored exception");
        id = 0;
        try { const_cast<E&>(e).get(); } catch (boom& b) { id = b.id; }
        A(id == m.ex, "expected: get() throws the stored exception");
        id = 0;
        try { std::rethrow_exception(const_cast<E&>(e).get_exception_ptr()); } catch (boom& b) { id = b.id; }
        A(id == m.ex, "expected: get_exception_ptr() is the stored exception");
    }
    else
    {
        A(!const_cast<E&>(e).get_exception_ptr(), "expected: get_exception_ptr() is empty without an exception");
        if (m.has)
        {
            A(get_of(e.get()) == m.v, "expected: get() returns the stored value");
            A(get_of(const_cast<E&>(e).get()) == m.v, "expected: get() returns the stored value");
        }
    }
}
int nex;
template <class T> ba::expected<T> any(model& m)
{
    m = model();
    switch (verif_choice(4, "state(0 empty,1 value,2 exception,3 value and exception)"))
    {
    case 0: return ba::expected<T>();
    case 1: { m.has = true; m.v = verif_nondet_long("value"); return ba::expected<T>(make<T>(m.v)); }
    case 2: { m.ex = ++nex; return ba::expected<T>(std::make_exception_ptr(boom{m.ex})); }
    default: { m.has = true; m.v = verif_nondet_long("value"); m.ex = ++nex; ba::expected<T> e(make<T>(m.v)); e.set_exception(std::make_exception_ptr(boom{m.ex})); return e; }
    }
}
template <class T> void set(ba::expected<T>& e, model& m)
{
    if (verif_nondet_bool("set a value")) { m.has = true; m.v = verif_nondet_long("value"); e.set_value(make<T>(m.v)); }
    else { m.ex = ++nex; e.set_exception(std::make_exception_ptr(boom{m.ex})); }
}
template <class T> void ops()
{
    model ma, mb;
    ba::expected<T> a(any<T>(ma)), b(any<T>(mb));
    same(a, ma, "a"); same(b, mb, "b");
    switch (verif_choice(8, "operation"))
    {
    case 0: { ba::expected<T> c(a); same(c, ma, "c"); same(a, ma, "a"); if (verif_nondet_bool("change the copy")) { model mc = ma; set(c, mc); same(c, mc, "c"); } break; }
    case 1: { ba::expected<T> c(std::move(a)); same(c, ma, "c"); set(c, ma); same(c, ma, "c"); break; }
    case 2: { a = b; same(a, mb, "a"); same(b, mb, "b"); model mc = mb; set(a, mc); same(a, mc, "a"); same(b, mb, "b"); ma = mc; break; }
    case 3: { a = std::move(b); same(a, mb, "a"); set(a, mb); same(a, mb, "a"); break; }
    case 4: { set(a, ma); same(a, ma, "a"); same(b, mb, "b"); break; }
    case 5: { a = ba::expected<T>(b); same(a, mb, "a"); same(b, mb, "b"); break; }
    case 6: { if (!ma.ex && ma.has) { long n = verif_nondet_long("written through get()"); a.get() = make<T>(n); ma.v = n; } same(a, ma, "a"); break; }
    case 7: { std::swap(a, b); same(a, mb, "a"); same(b, ma, "b"); break; }
    }
    verif_cover("end");
}
}
extern "C" void check_expected_ops() { ops<long>(); }
extern "C" void check_expected_ops_nodefault() { nodef::live = 0; ops<nodef>(); A(nodef::live == 0, "expected: every stored value is destroyed"); }
extern "C" void check_expected_ops_vector()
{
    ba::expected<std::vector<long>> a(std::vector<long>(3, verif_nondet_long("v")));
    long* p = a.get().data(); long v = a.get()[2];
    ba::expected<std::vector<long>> b(std::move(a));
    A(b.get().size() == 3 && b.get().data() == p, "expected: moving moves the value");
    ba::expected<std::vector<long>> c;
    c = std::move(b);
    A(c.get().data() == p, "expected: moving moves the value");
    std::vector<long> d(std::move(c.get()));
    A(d.data() == p && d[2] == v, "expected: the value can be moved out of get()");
    ba::expected<std::vector<long>> e;
    e.set_value(std::move(d));
    A(e.get().data() == p, "expected: set_value moves the value");
    verif_cover("end");
}
extern "C" void check_expected_ops_void()
{
    int ea = verif_choice(2, "a holds an exception") ? 1 : 0, eb = verif_choice(2, "b holds an exception") ? 2 : 0;
    ba::expected<void> a, b;
    if (ea) a = ba::expected<void>(std::make_exception_ptr(boom{1}));
    if (eb) b.set_exception(std::make_exception_ptr(boom{2})); else b.set_value();
    auto chk = [](ba::expected<void> const& e, int x) {
        A(e.has_exception() == (x != 0) && e.has_value() == (x == 0), "expected: has_exception tells whether an exception is stored");
        int id = 0; try { e.get(); } catch (boom& q) { id = q.id; }
        A(id == x, "expected: get() throws exactly the stored exception");
        id = 0; try { const_cast<ba::expected<void>&>(e).get(); } catch (boom& q) { id = q.id; }
        A(id == x, "expected: get() throws exactly the stored exception");
        A(!!const_cast<ba::expected<void>&>(e).get_exception_ptr() == (x != 0), "expected: get_exception_ptr() is empty without an exception");
    };
    chk(a, ea); chk(b, eb);
    switch (verif_choice(5, "operation"))
    {
    case 0: { ba::expected<void> c(a); chk(c, ea); chk(a, ea); break; }
    case 1: { ba::expected<void> c(std::move(a)); chk(c, ea); break; }
    case 2: a = b; chk(a, eb); chk(b, eb); break;
    case 3: a = std::move(b); chk(a, eb); break;
    case 4: a.set_exception(std::make_exception_ptr(boom{3})); chk(a, 3); break;
    }
    verif_cover("end");
}
