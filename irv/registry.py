"""Properties and the contract files that decide them."""
TRUSTED = [
    'clang 18 front end (C++ to LLVM IR) and opt passes sroa, early-cse, simplifycfg, globaldce',
    'the verification condition generator /verif/irv and z3',
    'contracts of the C/C++ runtime functions in /verif/irv/intrinsics.py',
]
ALG = [
    'contract of continuation_task.hpp / continuation_impl.hpp used when an algorithm is verified (shadow/boost/asynchronous/continuation_task.hpp); the real code is verified against it by P08',
    'contract of find_cutoff / safe_advance (shadow/.../safe_advance.hpp); the real code is verified against it by P20',
    'contracts of std::function and type erasure: executed, not assumed; contracts of hard std algorithms where a contract file declares one',
    'sequences of any length up to 2^50 elements, elements accessed through contract iterators (abstract sequence in shadow/vf_seq.hpp, vf_idx.hpp)',
]
CORE = [
    'contract of std::future/std::promise (shadow/base/future), of boost::thread_specific_ptr and of boost::uuids (shadow/base)',
    'contract of the scheduler used by the continuations (contracts/core.hpp): a posted job is executed exactly once at any later moment',
    'other threads interfere at atomic operations and lock acquisitions by running their code to completion (sequential consistency); std::shared_ptr reference counts are trusted',
]
EW = ['ew_for.cpp', 'ew_transform.cpp', 'ew_copy.cpp', 'ew_misc.cpp']
RED = ['red_pred.cpp', 'red_fold.cpp']
SCAN = ['scan.cpp']
FIND = ['find.cpp', 'find_kmp.cpp']
SORT = ['sort.cpp', 'merge.cpp', 'merge_types.cpp', 'select.cpp', 'median.cpp']
# contract file -> bounded stand-in (native executions on small inputs; never counted as proved)
STANDIN = {f: 'ew.cpp' for f in EW}
STANDIN.update({f: 'red.cpp' for f in RED})
STANDIN.update({f: 'find.cpp' for f in FIND})
STANDIN.update({'scan.cpp': 'scan.cpp', 'sort.cpp': 'sort.cpp', 'merge.cpp': 'sort.cpp', 'merge_types.cpp': 'sort.cpp',
                'select.cpp': 'select.cpp', 'median.cpp': 'select.cpp'})
# entries whose quantification is bounded in one dimension (everything else in them is for all values)
BOUNDED = {
    'P08': {'check_join_*, check_futures_*, check_copy_*': 'joins of 0 to 3 subtasks, all interleavings (check_counter_*: any number of subtasks, by rely/guarantee)'},
    'P12': {'check_pool_*, check_worker_*': 'up to 3 queues and workers, up to 2 jobs met by one step of a worker'},
    'P15': {'all': 'two calls per proxy; any arguments, priorities and moments of destruction'},
    'P03': {'check_kmp*': 'needles of up to 3 and ranges of up to 5 elements (loops unrolled to that bound)'},
    'P10': {'lockfree queues': 'the container of boost.lockfree is a contract (an abstract sequence of any length)'},
}
PROPS = {
    'T01': dict(files=['t1.cpp']),
    'P14': dict(files=['core_post.cpp'], only='check_P14', trusted=CORE, opts=dict(max_steps=30000000)),
    'P13': dict(files=['core_post.cpp'], only='check_P13', trusted=CORE, opts=dict(max_steps=30000000)),
    'P09': dict(files=['core_expected.cpp'], trusted=CORE, opts=dict(max_steps=30000000)),
    'P10': dict(files=['core_queue.cpp'], trusted=CORE, opts=dict(max_steps=30000000)),
    'P11': dict(files=['core_prio.cpp'], trusted=CORE, opts=dict(max_steps=30000000)),
    'P12': dict(files=['core_sched.cpp'], trusted=CORE, opts=dict(max_steps=30000000)),
    'P15': dict(files=['core_servant.cpp'], trusted=CORE, opts=dict(max_steps=30000000)),
    'P20': dict(files=['cutoff.cpp']),
    'P08': dict(files=['core_cont.cpp', 'core_fut.cpp', 'core_value.cpp'], trusted=CORE, opts=dict(max_steps=30000000)),
    'P01': dict(files=EW, exclude='_throw(_|$)', trusted=ALG),
    'P02': dict(files=RED, exclude='_throw(_|$)', trusted=ALG),
    'P03': dict(files=FIND, exclude='_throw(_|$)', trusted=ALG),
    'P05': dict(files=SORT, exclude='_throw(_|$)', trusted=ALG, opts=dict(max_steps=30000000)),
    'P04': dict(files=SCAN, exclude='_throw(_|$)', trusted=ALG),
    'P07': dict(files=EW + RED + FIND + SCAN + SORT, only='_throw(_|$)', trusted=ALG),
}
for _k, _v in BOUNDED.items(): PROPS[_k]['bounded'] = _v
