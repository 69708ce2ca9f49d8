// CONTRACT of parallel_merge.hpp (the real one is verified against it by contracts/merge.cpp): the stable
// merge of two sorted ranges into the output range, which overlaps neither of them
#ifndef BOOST_ASYNCHRONOUS_PARALLEL_MERGE_HPP
#define BOOST_ASYNCHRONOUS_PARALLEL_MERGE_HPP
#include <vf_reg.hpp>
namespace boost { namespace asynchronous {
namespace detail {
template <class I1, class I2, class O, class Func> struct vf_merge_task : continuation_task<void>
{
    I1 b1, e1; I2 b2, e2; O o; Func f;
    vf_merge_task(I1 a, I1 b, I2 c, I2 d, O x, Func g) : b1(a), e1(b), b2(c), e2(d), o(x), f(std::move(g)) {}
    void operator()()
    {
        auto r = this->this_task_result();
        try
        {
            auto a = vf::place(b1), b = vf::place(e1), c = vf::place(b2), d = vf::place(e2), x = vf::place(o);
            vf::merge_(a.s, a.i, b.i, c.s, c.i, d.i, x.s, x.i, f);
        }
        catch (...) { r.set_exception(std::current_exception()); return; }
        r.set_value();
    }
};
}
template <class I1, class I2, class O, class Func, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
detail::callback_continuation<void,Job> parallel_merge(I1 b1, I1 e1, I2 b2, I2 e2, O o, Func f, long, const std::string& = "", std::size_t = 0)
{
    return top_level_callback_continuation_job<void,Job>(detail::vf_merge_task<I1,I2,O,Func>(b1, e1, b2, e2, o, std::move(f)));
}
}}
#endif
