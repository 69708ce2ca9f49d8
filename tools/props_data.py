"""Single source of properties.jsonl and MANIFEST.json (written by tools/mk.py)."""
A = 'boost/asynchronous/algorithm/'
S = 'boost/asynchronous/scheduler/'
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, level='proof', state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na,
                  level=level, state=state, observe=observe))


NOTE = ('Every obligation generated from the current source is discharged by z3 for inputs of any length (loops by inferred inductive '
        'invariants, recursion by one split step over the contract of the subtasks). Trusted: clang front end, the VC generator in /verif/irv, '
        'the contracts of the C++ runtime functions, and the contracts listed in the evidence.')

prop('P01', 'Element-wise algorithms equal their sequential counterpart',
     'An element-wise parallel algorithm (for, for_each, transform, copy, move, fill, generate, replace, reverse, swap_ranges, iota, placement) leaves '
     'exactly the result of the sequential algorithm: every element of the given range is processed exactly once, in its own position, and no element '
     'outside the range is touched. The result does not depend on the cutoff, on how the range is split, or on the order in which subtasks run, and two '
     'concurrent subtasks never access the same element.',
     ['inputs', 'schedules', 'configurations'], 'all range lengths and contents, all positive cutoffs, all ways of splitting, both execution orders of the subtasks, all overloads (iterators, moved ranges, ranges, continuations)',
     'tests use one length (10000) with one cutoff and compare whole vectors; they cannot cover every length, split position and order.',
     [A + 'parallel_for.hpp', A + 'parallel_for_each.hpp', A + 'parallel_transform.hpp', A + 'parallel_copy.hpp', A + 'parallel_move.hpp', A + 'parallel_fill.hpp',
      A + 'parallel_generate.hpp', A + 'parallel_replace.hpp', A + 'parallel_replace_copy.hpp', A + 'parallel_reverse.hpp', A + 'parallel_swap_ranges.hpp', A + 'parallel_iota.hpp', A + 'parallel_placement.hpp'],
     [('recursive split at a cutoff, disjoint halves', A + 'parallel_for.hpp'), ('per leaf sequential algorithm', A + 'parallel_transform.hpp')], NOTE)
prop('P02', 'Reductions, counts and whole-range predicates equal the sequential result',
     'reduce, extremum, count, inner_product, all_of, any_of, none_of, equal, mismatch, lexicographical_compare, is_sorted and is_partitioned return what the sequential algorithm '
     'returns on the same input: every element contributes exactly once and, for a non-commutative operation, in sequence order. The result does not depend on the cutoff, on splits, on the '
     'execution order of subtasks or on early stopping.',
     ['inputs', 'schedules', 'configurations'], 'all lengths and contents (including empty ranges), all cutoffs, all splits, both orders of the subtasks',
     'tests sample a few vectors with commutative operations; wrong combination order, border elements and unequal ranges are not sampled.',
     [A + 'parallel_reduce.hpp', A + 'parallel_extremum.hpp', A + 'parallel_count.hpp', A + 'parallel_inner_product.hpp', A + 'detail/parallel_all_of_helper.hpp', A + 'parallel_all_of.hpp', A + 'parallel_any_of.hpp',
      A + 'parallel_none_of.hpp', A + 'parallel_equal.hpp', A + 'parallel_mismatch.hpp', A + 'parallel_lexicographical_compare.hpp', A + 'parallel_is_sorted.hpp', A + 'parallel_is_partitioned.hpp'],
     [('combination of the two halves in order', A + 'parallel_reduce.hpp'), ('shared stop flag', A + 'detail/parallel_all_of_helper.hpp')], NOTE)
prop('P07', 'Algorithms deliver an exception of user code exactly once, and always complete',
     'If a user callback, an element operation or the source of a range throws inside a parallel algorithm, the algorithm still completes exactly once and its result is an exception which user code threw. '
     'Without a throw the result is never an exception; no exception is lost and no completion is left pending.',
     ['inputs', 'schedules', 'fault_sequences'], 'any callback invocation may throw (any subset), any length, split and order of the subtasks, exceptions of any type',
     'tests throw at one fixed element, from one type of exception, and only for some algorithms.',
     [A + 'parallel_for.hpp', A + 'parallel_reduce.hpp', A + 'detail/parallel_all_of_helper.hpp', A + 'parallel_transform.hpp', 'boost/asynchronous/expected.hpp'],
     [('try/catch around leaf work and in every done-callback', A + 'parallel_for.hpp')], NOTE)
NOTE2 = ('The real code (not a shadow copy) is verified: every path of the entry is symbolically executed over the contract of the scheduler, all obligations are discharged by z3 for all values; other threads interfere at '
         'atomic operations and lock acquisitions as rely code. Trusted: clang front end, the VC generator in /verif/irv, the contracts of std::future/promise and of the C++ runtime functions.')
D = 'boost/asynchronous/'
prop('P08', 'A continuation calls its done-callback exactly once, after all its subtasks',
     'create_callback_continuation (tasks, tuple, vector, continuations as subtasks), top-level continuations and create_continuation (futures or tasks) execute every subtask exactly once and call the done-callback exactly once, only after every subtask '
     'has delivered a value or an exception, and the callback sees each subtask\'s own value or exception in its own position, whatever the order of completion and whichever thread finishes last, also when a subtask completes before the callback is set. '
     'A continuation with a timeout becomes ready when its results are complete or its duration has elapsed, not before.',
     ['schedules', 'histories', 'fault_sequences'], 'all interleavings of subtask completion with the set-up of the join (joins of 1 to 3 tasks explicitly, the counter for any number by rely/guarantee), values, exceptions, late completion, nested continuations',
     'the lost or doubled completion needs a subtask which finishes exactly while the callback is installed; tests run one schedule per run.',
     [D + 'detail/continuation_impl.hpp', D + 'continuation_task.hpp'],
     [('atomic counter of the parties of a join', D + 'detail/continuation_impl.hpp'), ('done function carried by the task result', D + 'detail/continuation_impl.hpp')], NOTE2)
prop('P13', 'post_future delivers exactly the outcome of the task to the future',
     'post_future and interruptible_post_future post exactly one job with the given priority, the task runs exactly once in the pool (a task interrupted before it starts never runs), and the future becomes ready exactly with the returned value, with the exception the task threw, or with task_aborted_exception '
     'if it was interrupted; for a task which returns a continuation the future becomes ready only when the continuation completes, and carries its value or exception. The future is never ready earlier and no exception is lost.',
     ['inputs', 'fault_sequences', 'histories'], 'every kind of task (value, void, move-only, serializable, callback or future based continuation), every outcome (value, exception, interruption, abort, immediate or late completion, interruption while a continuation is pending), all values and priorities, plain and loggable jobs, interruptible or not',
     'tests check a few outcome/variant pairs; there is one code path per kind of task, so the pairs which are not tested can lose results.',
     [D + 'post.hpp', D + 'expected.hpp', D + 'job_traits.hpp'], [('promise carried in the posted job', D + 'post.hpp')], NOTE2)
prop('P14', 'post_callback delivers the outcome exactly once, to the thread of the caller',
     'post_callback and interruptible_post_callback run the task exactly once in the pool (a task interrupted before it starts never runs) and then post the callback exactly once, with the given callback priority, to the scheduler of the caller, carrying the value, the exception, or task_aborted_exception. '
     'The callback never runs in the pool, runs after the task (and after the continuation it returned), is not posted once the scheduler of the caller is gone, and task and callback objects are destroyed in the thread of the caller, not in the pool.',
     ['inputs', 'schedules', 'fault_sequences'], 'all kinds of tasks and outcomes; the caller\'s scheduler living, gone before the task runs, or gone while a continuation is pending',
     'tests use a living servant and successful tasks mostly; destruction thread and lost callbacks are not visible to them.',
     [D + 'post.hpp', D + 'scheduler/detail/lockable_weak_scheduler.hpp'], [('task and callback moved to the worker and back', D + 'post.hpp'), ('weak scheduler locked before posting the callback', D + 'post.hpp')], NOTE2)
prop('P09', 'expected carries the value or the exception it was given, and only its own',
     'expected<T> (and expected<void>) behaves as a value: get() returns the value last set or constructed, or rethrows the exception last set (the exception wins), has_value/has_exception/get_exception_ptr agree with it; a copy is equal to and independent of '
     'its original, a move carries the content over, assignment replaces the content whatever the target held before, self-assignment keeps it, and every stored value is destroyed exactly once.',
     ['inputs', 'histories'], 'all combinations of source and target states (default, value, exception, both), every operation, all values; T built-in, not default-constructible, container, void',
     'tests use one value type and never copy-assign over a filled expected or share a copy.',
     [D + 'expected.hpp'], [('value held by shared_ptr, exception wins', D + 'expected.hpp')], NOTE2)
prop('P10', 'A queue hands out every pushed job once, in its order, and wakes its waiters',
     'For guarded_deque, bounded circular queue, threadsafe_list, lockfree_queue, lockfree_stack and lockfree_spsc_queue, used by any number of threads: a job which push accepted is returned by exactly one pop, try_pop or try_steal, unchanged, in the order the queue documents '
     '(FIFO for the owner, the documented end for a thief, LIFO for a stack); try_pop returns false only if the queue was empty; pop waits only while the queue is empty and a push wakes it; reported sizes count the jobs in the queue and never underflow, the reported maximum is the largest size since reset; '
     'shared state is accessed only under its lock.',
     ['schedules', 'histories', 'inputs'], 'any content of the queue (abstract sequence of any length), any interference of other threads before every atomic operation and lock acquisition, all variants of push (copy, move, with priority)',
     'lost wakeups, racy reads and underflowing counters need particular interleavings; the tests run the queues under a scheduler with little contention.',
     [D + 'queue/guarded_deque.hpp', D + 'queue/circular_queue.hpp', D + 'queue/lockfree_queue.hpp', D + 'queue/threadsafe_list.hpp', D + 'queue/lockfree_stack.hpp', D + 'queue/lockfree_spsc_queue.hpp', D + 'queue/queue_converter.hpp'],
     [('mutex and condition', D + 'queue/guarded_deque.hpp'), ('counter beside a lock-free container', D + 'queue/lockfree_queue.hpp')], NOTE2)
prop('P11', 'A job goes to the queue of its priority; higher priorities are served first',
     'any_queue_container with any number of queues: push with priority p (1..N) adds the job to queue p only, priority 0 or none to the queue the policy names (a valid one), exactly once; try_pop, pop and try_steal ask the enabled queues in order of priority, return the job of the first enabled queue which has one, take exactly one job and '
     'report false only if no enabled queue has a job; enable_queue affects exactly the named queue; sizes are those of the queues, in order.',
     ['inputs', 'configurations', 'histories'], 'any number of queues, any content and enabled state of each, all priorities',
     'tests use three queues with a fixed set of jobs; a wrong index or a skipped queue appears only for other contents.',
     [D + 'queue/any_queue_container.hpp'], [('priority to index', D + 'queue/any_queue_container.hpp')], NOTE2)
prop('P12', 'A worker executes each job once, contains exceptions, ends after all jobs',
     'A worker of any of the schedulers takes one job at a time from its queues, executes a job it takes exactly once, survives an exception thrown by it, and reports exactly whether it found a job; when told to stop it first executes every job left in its own queues, then runs the registered '
     'termination functors and ends. Posting adds the job exactly once to a queue of that scheduler, the one its priority or servant index names; a pool starts exactly the requested number of workers, and on destruction sends exactly one termination job to each of them. execute_in_all_threads runs the callable once '
     'in every worker and delivers its exception.',
     ['histories', 'schedules', 'fault_sequences', 'configurations'], 'all seven schedulers (single, threadpool, multiqueue, stealing, stealing_multiqueue, multiple_thread, io); every content of the queues met by a step of the worker, every outcome of a job, all priorities (pools of 1 to 3 queues or workers)',
     'a dropped job at shutdown, a job executed twice or a worker lost to an exception depend on what is queued at one moment; tests post a few jobs which succeed.',
     [S + 'single_thread_scheduler.hpp', S + 'threadpool_scheduler.hpp', S + 'multiqueue_threadpool_scheduler.hpp', S + 'stealing_threadpool_scheduler.hpp', S + 'stealing_multiqueue_threadpool_scheduler.hpp',
      S + 'multiple_thread_scheduler.hpp', S + 'io_threadpool_scheduler.hpp', S + 'detail/single_queue_scheduler_policy.hpp', S + 'detail/multi_queue_scheduler_policy.hpp', S + 'detail/scheduler_helpers.hpp', S + 'detail/execute_in_all_threads.hpp'],
     [('execute_one_job and run of each worker', S + 'threadpool_scheduler.hpp'), ('termination job per worker', S + 'detail/scheduler_helpers.hpp')], NOTE2)
prop('P15', 'A servant lives in its thread; callbacks never reach a dead servant',
     'A servant is created, called and destroyed only by jobs of its own scheduler (for a multiple_thread_scheduler: of its own queue): each call of a proxy posts exactly one job with the given priority, executes the member exactly once with the given arguments and delivers its value or exception; the servant lives until the last proxy and the last '
     'waiting call are gone and is then destroyed exactly once; a creation which fails or comes too late is reported to the client. For a trackable servant, tasks are posted to the pool and callbacks come back to the thread of the servant with the given priorities; a safe callback called from any thread runs there exactly once per call; '
     'no task is started and no callback is called once the servant is dead. Copies of a servant are tracked independently.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'], 'every member macro, all argument values, priorities and servant indexes, members and callbacks which return or throw, the servant dying before any step, destruction before or after waiting calls, creation in time or not',
     'a call into a dead servant or a destruction in the wrong thread needs the servant to die in one window between posting and executing; tests destroy proxies only at the end.',
     [D + 'servant_proxy.hpp', D + 'trackable_servant.hpp', D + 'checks.hpp', D + 'detail/move_bind.hpp'],
     [('weak tracking object checked in the thread of the servant', D + 'checks.hpp'), ('servant shared by the posted calls, destroyed by a posted job', D + 'servant_proxy.hpp')], NOTE2)
prop('P20', 'A range is cut in progressing parts exactly when longer than the cutoff',
     'find_cutoff, find_cutoff_and_prev and safe_advance never leave the given range; find_cutoff returns the end exactly if the range is not longer than the cutoff, and otherwise a position strictly inside (so both parts are smaller and the recursion ends); safe_advance advances by exactly n positions or to the end. '
     'lazy_irange is a random access range whose element i is f(i), and an access outside its bounds throws.',
     ['inputs', 'configurations'], 'all positions, lengths and cutoffs (range lengths up to 2^50), random access and forward iterators, integral ranges of several types',
     'the boundary cases (length equal to the cutoff, cutoff 1, last element) are not reached by the lengths used in tests.',
     [A + 'detail/safe_advance.hpp', D + 'helpers/lazy_irange.hpp'], [('midpoint or cutoff steps', A + 'detail/safe_advance.hpp')], NOTE)
prop('P03', 'Parallel searches report the first (or last) true match of the whole range',
     'parallel_find_all, adjacent_find, find_first_of, search, search_n and find_end return what the sequential algorithm returns: the first match (for find_end the last one, for find_all all of them, in order), or the documented "not found" result; a match which '
     'straddles the border of two subranges is found, and nothing outside the given range is reported or read. The result does not depend on the cutoff, on the splits, or on the order in which subtasks run.',
     ['inputs', 'schedules', 'configurations'], 'all lengths and contents, all positions of matches including matches across a split, all cutoffs and splits, both execution orders',
     'a match across a split position, several matches in different subtasks and patterns as long as the range are not sampled by the tests.',
     [A + 'parallel_find_all.hpp', A + 'parallel_adjacent_find.hpp', A + 'parallel_find_first_of.hpp', A + 'parallel_search.hpp', A + 'parallel_search_n.hpp', A + 'parallel_find_end.hpp'],
     [('search of both halves and of their overlap', A + 'parallel_search.hpp'), ('results of the parts combined in order', A + 'parallel_find_all.hpp')], NOTE + ' The KMP matcher used by parallel_search is checked for needles up to 3 and ranges up to 5 elements (bounded entry, not counted as proved).')
prop('P04', 'Parallel scans and partial sums equal the sequential scan',
     'parallel_scan, inclusive_scan, exclusive_scan, transform_inclusive_scan, transform_exclusive_scan and partial_sum write to every output position exactly the sequential prefix result: the operation is applied to the elements in order (it need not be commutative and T() need not be neutral), the initial value '
     'contributes exactly once, nothing outside the output range is written, and scanning in place gives the same result. The result does not depend on the cutoff, on the splits, or on the order in which subtasks run.',
     ['inputs', 'schedules', 'configurations'], 'all lengths and contents, any associative operation (free monoid), all cutoffs and splits, both execution orders, separate and in-place output',
     'tests use sums of integers with separate output; other operations, in-place scans and unequal splits show different bugs.',
     [A + 'parallel_scan.hpp', A + 'parallel_inclusive_scan.hpp', A + 'parallel_exclusive_scan.hpp', A + 'parallel_transform_inclusive_scan.hpp', A + 'parallel_transform_exclusive_scan.hpp', A + 'parallel_partial_sum.hpp'],
     [('two passes: reduce the parts, then scan each with its prefix', A + 'parallel_scan.hpp')], NOTE)
prop('P05', 'Parallel sorts, merges and selections deliver the sequential result',
     'parallel_sort, stable_sort, spreadsort, boost::spreadsort and the sort_move variants leave the range as a permutation of its input ordered by the comparison (stable_sort: equal elements keep their order); parallel_merge writes the stable merge of both ranges '
     '(equal elements: first range first); parallel_quicksort sorts; parallel_nth_element puts the element of rank n at nth with nothing greater before and nothing smaller behind it; parallel_partial_sort orders the smallest elements in front; median returns the middle of the ordered range. '
     'Nothing outside the range is read or written. The result does not depend on the cutoff, on the splits, on already sorted or reversed input, or on the order in which subtasks run.',
     ['inputs', 'schedules', 'configurations'], 'all lengths and contents including sorted, reversed and equal ones, all strict weak orders, all cutoffs and splits, both execution orders',
     'equal elements across a split, reversed input with duplicates, an nth at a partition point, or unequal sizes in a merge need particular contents; tests sort a few permutations of integers.',
     [A + 'parallel_sort.hpp', A + 'parallel_sort_inplace.hpp', A + 'parallel_merge.hpp', A + 'parallel_quicksort.hpp', A + 'parallel_nth_element.hpp', A + 'parallel_partial_sort.hpp'],
     [('sort both halves to a buffer and merge them', A + 'parallel_sort.hpp'), ('median cut and binary search', A + 'parallel_merge.hpp'), ('recursion into the part with nth', A + 'parallel_nth_element.hpp')], NOTE)
