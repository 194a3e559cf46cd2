"""The properties (source of properties.jsonl)."""
PROPS = []

def prop(id, title, statement, over, text, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **kw))

H = 'include/boost/cobalt/'
D = H + 'detail/'

prop('C01', 'A channel is a bounded FIFO queue: nothing lost, duplicated or invented',
     'Every value successfully written to a channel is read exactly once, in the order of the writes, and no read returns a value that was not written; at most `limit` values are held, an operation the buffer can serve does not suspend, and whenever the executor is idle no reader (writer) is left waiting although a value (free slot or opposite party) is available. This holds for every order in which coroutines issue reads and writes and in which the executor runs them, for copyable, move-only and void payloads and every limit including 0.',
     ['histories', 'schedules'], 'all interleavings of reads, writes and handler executions by any number of coroutines; all limits and payload kinds',
     'the tests run a few fixed sequences in which woken coroutines run before anybody else touches the channel',
     [H + 'channel.hpp', H + 'impl/channel.hpp', 'src/channel.cpp'],
     [('wait queues and direct hand over', 'channel<T>::read_op/write_op::await_suspend/await_resume'), ('reservation of what a woken operation was woken for', 'channel<T>::wake_reader_/wake_writer_')],
     how='all interleavings of channel operations and executor steps')
prop('C02', 'Cancelling channel operations loses no values and no wakeups',
     'A cancelled pending channel read or write completes (with operation_aborted, or successfully if it had been served already); a write that reports failure has not delivered its value and leaves the source untouched, a read that reports failure has not consumed a value, and operations waiting behind a cancelled one are still served. Only cancelled operations report operation_aborted.',
     ['histories', 'schedules'], 'all histories of reads, writes, cancellations at any point and handler executions',
     'the tests cancel one idle reader and one idle writer; a cancellation between wakeup and resumption is never exercised',
     [H + 'channel.hpp', H + 'impl/channel.hpp', 'src/channel.cpp'],
     [('cancellation handlers', 'channel<T>::read_op::cancel_impl, write_op::cancel_impl')],
     how='all interleavings of channel operations, cancellations and executor steps')
prop('C03', 'Closing a channel ends every operation, keeps delivered values readable',
     'After close() is_open() is false, every waiting reader and writer completes with broken_pipe, later writes fail with broken_pipe, values accepted before the close stay readable in order, and reads after that fail with broken_pipe; close() is idempotent. Destroying a channel destroys the coroutines suspended in it and releases all values.',
     ['histories', 'schedules'], 'all histories with close() at any point, combined with cancellation, and destruction in every state',
     'the tests close an idle channel with one waiter',
     [H + 'channel.hpp', H + 'impl/channel.hpp', 'src/channel.cpp'],
     [('close', 'channel<T>::close'), ('destructor', 'channel<T>::~channel')],
     how='all interleavings of channel operations, close, cancellation and executor steps')
prop('C04', 'Racing channel operations loses, duplicates and reorders nothing',
     'When reads and writes on one or several channels, or other operations, are passed to race or left_race, exactly the operation that the race reports has taken place: a value is consumed or delivered by no other one, in particular by none that is interrupted because another one won. Values are read once and in order per channel, operations waiting on both sides are served whenever that is possible, and no interrupted operation remains in a channel.',
     ['histories', 'schedules'], 'all interleavings of races over reads and writes on up to two channels with plain readers and writers, other operations and every random order; all limits, payload kinds, argument and range races',
     'the tests race one read against one timer or write',
     [H + 'channel.hpp', H + 'impl/channel.hpp', H + 'race.hpp', D + 'race.hpp', D + 'fork.hpp'],
     [('transactions', 'channel<T>::read_op/write_op::transactional_unlink, fork::set_transaction_function'), ('interrupt_await', H + 'channel.hpp')],
     how='all interleavings of races over channel operations and executor steps')
prop('P01', 'A promise runs eagerly and delivers its result exactly once to its awaiter',
     'A promise starts running in the call that creates it, and its value or exception reaches the awaiter unchanged, whether it is awaited before or after it finished, through plain co_await, as_result, as_tuple or get(). ready() and operator bool tell exactly whether it is finished and whether the result was taken; a second awaiter of a pending promise gets already_awaited without disturbing the first; if the coroutine is destroyed before finishing, its awaiter is destroyed, or a later one gets completed_unexpected. Frames, parameters, locals and results are destroyed exactly once.',
     ['histories', 'schedules'], 'every history of operation completions (value, error, never), awaits of any flavour and get()',
     'the tests await promises in one or two fixed orders',
     [H + 'promise.hpp', D + 'promise.hpp'],
     [('promise_receiver', D + 'promise.hpp'), ('final_awaitable', D + 'promise.hpp')])
prop('P02', 'Promise ownership: cancellation on destruction, detach, move and await',
     'Destroying, or assigning over, an attached pending promise cancels the operation it waits for (and nothing else), a detached one is left alone and runs to its end, and moving a promise moves the ownership, with the moved-from object reporting moved_from and not influencing the coroutine anymore. cancel() and a cancellation of the awaiting coroutine reach the pending operation with the type they were issued with. Nothing is used after it is freed, and nothing leaks.',
     ['histories', 'schedules'], 'every history of create, await, cancel, detach, attach, move, move-assign, destroy and operation completions over two promises',
     'the tests contain neither move assignment of finished promises nor cancellation after moves',
     [H + 'promise.hpp', D + 'promise.hpp', D + 'forward_cancellation.hpp'],
     [('promise::~promise, operator=, cancel, detach', H + 'promise.hpp'), ('promise_receiver move operations', D + 'promise.hpp'), ('forward_cancellation', D + 'forward_cancellation.hpp')])
prop('T01', 'A task is lazy, adopts the executor of its awaiter, and delivers its result',
     'No part of a task runs before it is awaited or spawned; a task never started is destroyed with all its parameters when its handle is, even after being moved. When awaited it runs on the executor of the awaiter, directly or nested to any depth, delivers exactly its value or exception, forwards a cancellation of the awaiter with its type to the operation it is waiting for, and destroys its frame exactly once.',
     ['histories', 'schedules', 'programs'], 'nesting depths, bodies, completion orders, cancellation and abandonment points',
     'tests await a handful of fixed tasks on one executor',
     [H + 'task.hpp', D + 'task.hpp'],
     [('task_receiver', D + 'task.hpp'), ('task_promise', D + 'task.hpp')])
prop('T02', 'spawn runs a task on its executor and completes once on the handler\'s executor',
     'spawn() runs every part of the task on the executor it was given, starting right away only if called from it, and invokes the completion handler exactly once, never from within the initiation, on the handler\'s executor and with exactly the value or exception of the task, for handlers, use_op, use_future and tasks that are done already. A cancellation emitted on another executor is delivered to the task only on the task\'s executor, at most aborts its pending operation, and is harmless at any point in time, including after the completion.',
     ['schedules', 'histories'], 'all interleavings of two executors, completions and cancellations at handler granularity',
     'tests spawn with one context and no concurrent cancellation',
     [H + 'spawn.hpp', D + 'spawn.hpp'],
     [('async_initiate_spawn', D + 'spawn.hpp')])
prop('T03', 'run() returns the result of the task and restores the thread\'s state',
     'run(task) returns exactly the value of the task or throws its exception, after everything it posted has run; inside, the thread\'s executor is the task\'s. Afterwards the thread\'s executor and default memory resource are what they were, no dangling executor is left behind, and all memory is released; nested calls behave the same.',
     ['programs', 'configurations'], 'bodies with posts, nested tasks, nested run() and exceptions; with and without a previous executor',
     'the test runs one task once',
     [H + 'run.hpp', 'src/this_thread.cpp', H + 'this_thread.hpp'],
     [('run', H + 'run.hpp'), ('this_thread_service', 'src/this_thread.cpp')])
prop('G01', 'A generator delivers its values in order, once each, and never runs too far',
     'Every value yielded or returned by a generator reaches exactly one await, in the order of production; every value pushed by a successful await is received by the generator exactly once, in order; an exception is delivered once. An eager generator works at most one value ahead and continues only after its value was taken, a lazy one runs no part beyond initial until awaited. ready(), operator bool and get() agree with that, a second awaiter gets already_awaited, and interrupting an await loses neither values nor pushes.',
     ['histories', 'schedules'], 'every history of yields, returns, throws, awaits of any flavour, interruptions, get() and operation completions; eager and lazy; void, copyable and move-only pushes',
     'the tests run a few generators to completion in one order',
     [H + 'generator.hpp', D + 'generator.hpp'],
     [('generator_receiver::awaitable', D + 'generator.hpp'), ('generator_yield_awaitable', D + 'generator.hpp'), ('result_buffer', D + 'generator.hpp')])
prop('G02', 'Generator ownership: cancellation, move and destruction',
     'Destroying or assigning over a generator cancels the operation it waits for; if it is suspended in a yield its frame is destroyed right away, or once a scheduled resumption came up, without running any further. A cancellation of the generator or of the coroutine awaiting it reaches the pending operation with its type and leaves the generator resumable, and a cancelled generator starts no further operation until its cancellation state is reset. Moving moves the ownership and the moved-from object reports moved_from; nothing is used after it is freed and nothing leaks.',
     ['histories', 'schedules'], 'every history of create, await, interrupt, cancel, move, move-assign, destroy and completions over two generators',
     'the tests move no generator that finished and cancel none that waits in a nested operation',
     [H + 'generator.hpp', D + 'generator.hpp'],
     [('generator::~generator, operator=, cancel', H + 'generator.hpp'), ('generator_receiver move operations', D + 'generator.hpp'), ('final_awaitable', D + 'generator.hpp')])
prop('R01', 'race yields exactly the first result and stops all the others',
     'race (and left_race, which starts strictly from the left) over any number of awaitables, given as arguments or as a range, delivers the index and the value or exception of exactly the one awaitable that completed first, whether it was ready, completed without suspending, threw when started or was completed by another one, through co_await, as_result or as_tuple. Once it is decided no further awaitable is started, every other started one is interrupted if that is possible and cancelled otherwise, exactly once, and the awaiter resumes once all of them are done.',
     ['histories', 'configurations'], 'all numbers and kinds of arguments, answers of each (ready, immediate, throwing, pending, completing another), start orders and completion orders',
     'the tests race a few timers of different lengths, i.e. one completion order each',
     [H + 'race.hpp', D + 'race.hpp', D + 'fork.hpp'],
     [('race_variadic_impl, race_ranged_impl', D + 'race.hpp'), ('fork', D + 'fork.hpp'), ('race_shared_state', D + 'race.hpp')],
     how='all argument answers, random orders and completion orders')
prop('R02', 'race survives cancellation, abandoned operations and destruction',
     'A cancellation of the coroutine awaiting a race reaches every pending awaitable with its type, without being turned into a result of its own. If some or all operations are abandoned, i.e. their coroutine handles are destroyed, the race completes with the rest, or its awaiter is destroyed along with it; all memory of the race is released exactly once and nothing is accessed after it was freed.',
     ['histories', 'fault_sequences'], 'all points of cancellation or abandonment in all start and completion orders',
     'no test abandons operations of a race, the ones for cancellation cancel one race at one point',
     [H + 'race.hpp', D + 'race.hpp', D + 'fork.hpp'],
     [('fork::promise_type', D + 'fork.hpp'), ('race cancellation', D + 'race.hpp')],
     how='all argument answers, completion orders, cancellation and abandonment points')
prop('R03', 'Promises and generators passed as lvalues survive a race, gather or join',
     'A promise or generator passed to race, left_race, gather or join as an lvalue (also as an element of a range) is only awaited: if it loses, the race ends without waiting for it or cancelling it, and its value or error is still delivered, exactly once and in order, to whatever awaits it next. Those passed as rvalues, as well as tasks and operations, are consumed: they are cancelled when they lose, and the race waits for them.',
     ['histories', 'schedules'], 'all sequences of 2 (3) awaits of 22 kinds and 3 (4) of 7 kinds, over two promises, two generators, an operation and a task, all completion orders, at most one failure',
     'tests race an lvalue promise once with one order of completion, and never await the loser again in another composition',
     [H + 'race.hpp', D + 'race.hpp', D + 'gather.hpp', D + 'join.hpp', D + 'promise.hpp', D + 'generator.hpp'],
     [('interrupt_await', D + 'race.hpp'), ('promise_receiver::awaitable::interrupt_await', D + 'promise.hpp'), ('generator_receiver::awaitable::interrupt_await', D + 'generator.hpp')],
     how='all histories of awaits, completions and failures, against a model of what each source still has to deliver')
prop('J01', 'join completes when all did, with all results or the first error',
     'join over arguments or a range starts the awaitables in order, waits until each started one is done, and delivers every result in the place of its awaitable; if any fails, the first error is delivered once, no further awaitable is started, and the pending others are cancelled once. A cancellation or interruption of the join reaches all pending awaitables; abandoning the operations destroys the awaiter and everything is released exactly once. The same holds for as_result and as_tuple.',
     ['histories', 'fault_sequences'], 'all numbers and kinds of arguments, answers, completion orders, cancellation, interruption and abandonment points',
     'the tests join timers of a fixed order, with at most one failing',
     [H + 'join.hpp', D + 'join.hpp', D + 'fork.hpp'],
     [('join_variadic_impl, join_ranged_impl', D + 'join.hpp'), ('fork', D + 'fork.hpp')],
     how='all argument answers, completion orders, cancellation, interruption and abandonment points')
prop('A01', 'gather waits for every awaitable and delivers each outcome',
     'gather over arguments or a range starts all awaitables in order, waits until each is done, and delivers the value or exception of each of them in its place; a failure neither stops nor cancels the others. A cancellation or interruption of the gather reaches all pending awaitables. Abandoning the operations destroys the awaiter, everything is released exactly once.',
     ['histories', 'fault_sequences'], 'all numbers and kinds of arguments, answers, completion orders, cancellation, interruption and abandonment points',
     'the tests gather timers of a fixed order, with at most one failing',
     [H + 'gather.hpp', D + 'gather.hpp', D + 'fork.hpp'],
     [('gather_variadic_impl, gather_ranged_impl', D + 'gather.hpp'), ('fork', D + 'fork.hpp')],
     how='all argument answers, completion orders, cancellation, interruption and abandonment points')
prop('W01', 'A wait_group owns its promises: wait_one, wait, wait_exit, cancel, reap',
     'size() counts the promises pushed and not yet removed. wait_one() completes with the result of one finished promise and removes it, also if it failed; wait() completes when all promises held at that moment are done, with their outcomes in order of insertion, and removes exactly them; wait_exit() cancels all of them with the type configured for a normal or an exceptional exit, and waits. cancel() and a cancellation of an awaiting coroutine reach exactly the pending promises of the group (that are waited for), reap() removes exactly the finished ones, destroying the group cancels what is pending and nothing else is ever cancelled, lost or leaked.',
     ['histories', 'schedules'], 'all histories of push, completion, failure, wait, wait_one, wait_exit, cancel, reap, destruction and cancellation, and all orders the race in wait_one picks',
     'the tests use one fixed group of timers, none of which fails',
     [H + 'wait_group.hpp', D + 'wait_group.hpp', H + 'race.hpp', H + 'gather.hpp'],
     [('race_wrapper, gather_wrapper', D + 'wait_group.hpp'), ('wait_group', H + 'wait_group.hpp')],
     how='all histories of group operations, completions, failures and cancellations')
prop('W02', 'with runs the teardown exactly once, whatever the body does',
     'with(arg, func, teardown) calls func exactly once on the argument and, once its result is known, the teardown exactly once before the awaiter continues, with the exception func failed with, or none. The awaiter gets the result of func, or the exception of func or of the teardown as documented; the argument lives until the teardown is done and is destroyed before the awaiter continues, cancellation reaches whatever is pending, and an abandoned or never awaited with releases everything.',
     ['histories', 'fault_sequences'], 'synchronous and asynchronous bodies, await_exit, explicit and by-value teardowns, void, copyable and move-only results; all ways func, its awaitable and the teardown can end, and all points of cancellation and abandonment',
     'the tests run one successful body and one that throws',
     [H + 'with.hpp', D + 'with.hpp'],
     [('with_impl', D + 'with.hpp'), ('invoke_await_exit, overloads', H + 'with.hpp')],
     how='all outcomes of body and teardown, all cancellation and abandonment points')
prop('O01', 'An operation resumes its coroutine once, with exactly its results',
     'Awaiting an op, or an asio operation through use_op or deferred, with any completion signature starts it exactly once and resumes the awaiting coroutine exactly once with exactly the values, or the error as an exception (or as_result/as_tuple), no matter whether the operation completes from ready(), inside the initiation through any number of intermediate immediate completions, later, through the executor, or throws. A coroutine is never resumed from within the initiation, runs on its executor, a cancellation reaches the pending operation, and dropping the completion handler destroys the coroutine and everything it holds.',
     ['histories', 'fault_sequences'], 'all completion signatures and results, all ways and moments of completion, sequences of operations, in promises, spawned tasks and foreign coroutines',
     'the tests await timers and posts, i.e. one way of completion each',
     [H + 'op.hpp', D + 'handler.hpp', D + 'sbo_resource.hpp', H + 'result.hpp', D + 'async_operation.hpp'],
     [('op::awaitable, use_op_t', H + 'op.hpp'), ('completion_handler, completed_immediately_t', D + 'handler.hpp')],
     how='all ways, moments and results of the completion of sequences of operations')
prop('X01', 'Cancellation state: filters, throw_if_cancelled and reset are honoured',
     'In every coroutine type a cancellation is delivered to the pending operation iff it passes the in and out filter of the coroutine, with exactly the filtered type, and is recorded iff it passes the in filter. Once cancelled, each further await throws operation_aborted without starting the operation, unless throw_if_cancelled is off, until the state is reset; this_coro::cancelled, cancellation_state and throw_if_cancelled report exactly that state, and after reset_cancellation_source only the new source cancels.',
     ['histories'], 'all sequences of awaits, resets with filters, throw_if_cancelled and source changes interleaved with cancellations of every type',
     'the tests cancel once, with the default filters',
     [H + 'this_coro.hpp', H + 'promise.hpp', H + 'task.hpp', H + 'generator.hpp', H + 'detached.hpp', D + 'forward_cancellation.hpp'],
     [('promise_cancellation_base, promise_throw_if_cancelled_base', H + 'this_coro.hpp')],
     how='all sequences of state changes, awaits and cancellations')
prop('X02', 'A cancellation reaches what is awaited, all of it, and nothing else',
     'Whatever a coroutine of any type awaits - an operation, promise, task or generator, any race, join or gather of them, a wait_group, with, a spawned task, a composed operation, a channel or an asio operation - a cancellation of the coroutine is delivered, with its type, exactly once to every operation pending as part of that await (unless a race or join has already cancelled it). It never reaches, or accesses, anything that was awaited before and is done, interrupted or destroyed, nor anything the coroutine merely owns; what is not cancellable simply goes on.',
     ['histories'], 'all sequences of 2 (3) awaits of 24 kinds in 7 kinds of coroutines, all orders of completions, up to two cancellations at every moment, operations that complete or ignore the cancellation',
     'the tests cancel one await each, never a coroutine that has already awaited something else',
     [D + 'forward_cancellation.hpp', D + 'handler.hpp', D + 'fork.hpp', D + 'race.hpp', D + 'join.hpp', D + 'gather.hpp', D + 'promise.hpp', D + 'task.hpp', D + 'generator.hpp', D + 'with.hpp', D + 'wait_group.hpp', D + 'spawn.hpp', H + 'op.hpp', H + 'channel.hpp', H + 'composition.hpp', H + 'this_coro.hpp'],
     [('assign_cancellation, completion_handler', D + 'handler.hpp'), ('shared_state, final_awaitable', D + 'fork.hpp'), ('forward_cancellation', D + 'forward_cancellation.hpp')],
     how='all sequences of awaits of every kind, with cancellations at every point')
prop('S01', 'co_main runs to its end, obeys the signals, and sets the exit code',
     'main() runs co_main on a single threaded executor until it is done and returns exactly its exit code, whatever operations, promises or tasks it awaits. Every SIGINT (SIGTERM) that arrives while it is suspended reaches the pending operation as one cancellation of type total (terminal), subject to the filters of co_main; a signal that arrives or is delivered at the moment co_main ends, or later, is harmless and does not keep the process from ending. The signal handlers, the default memory resource and all memory are released.',
     ['histories', 'schedules'], 'all sequences of awaits, filters and completions, with signals raised at every point',
     'the tests run one co_main that waits for a timer and never raise a signal',
     [H + 'main.hpp', D + 'main.hpp', 'src/main.cpp'],
     [('run_main, final_suspend', 'src/main.cpp'), ('main_promise, main', D + 'main.hpp')],
     how='all sequences of awaits and completions with signals at every point')
prop('H01', 'A cobalt thread can be awaited, joined, cancelled and dropped at any time',
     'A cobalt::thread runs its coroutine on its own thread and executor; awaiting it (also as_result or as_tuple, before, while or after it runs) resumes the awaiter exactly once, on the awaiting thread, after the coroutine ended, with its exception if it has one, and join returns only then. thread::cancel and cancelling the awaiter reach the pending operation of the coroutine, with no effect once it ended. In every interleaving there is no data race, deadlock, lost wakeup, use of freed memory or leak, whether it is awaited, joined, detached or destroyed.',
     ['schedules'], 'all interleavings of the synchronisation operations of the threads up to a preemption bound; all ways to await, join, cancel, detach and destroy, at every moment of the life of the coroutine',
     'the tests run one thread that sleeps, i.e. one interleaving each',
     [H + 'thread.hpp', D + 'thread.hpp', 'src/thread.cpp'],
     [('thread_awaitable, thread_promise', D + 'thread.hpp'), ('run_thread', 'src/thread.cpp'), ('cancel, await_ready', H + 'thread.hpp')],
     how='all interleavings of real threads up to a preemption bound')
prop('H02', 'spawn crosses threads: runs there, completes here, exactly once',
     'A task spawned onto the executor of another thread runs on that thread only, and its completion handler (use_op or a callback) is invoked exactly once, on the thread it belongs to, with exactly the value or exception of the task. A cancellation of the completion reaches the task on its thread, and one that comes too late does nothing; tasks that are abandoned since their thread ended are released. In no interleaving is there a data race, a deadlock, or a use of freed memory.',
     ['schedules'], 'all interleavings of the synchronisation operations of the threads up to a preemption bound; tasks that complete at once, later, or fail, concurrent, nested, cancelled and abandoned',
     'the tests spawn one task onto one thread',
     [H + 'spawn.hpp', D + 'spawn.hpp', D + 'wrapper.hpp', H + 'task.hpp', H + 'thread.hpp'],
     [('async_initiate_spawn', D + 'spawn.hpp'), ('post_coroutine', D + 'wrapper.hpp')],
     how='all interleavings of real threads up to a preemption bound')
prop('M01', 'The internal memory resources hand out valid, disjoint, aligned memory',
     'Every block that sbo_resource and monotonic_resource (and their allocators) return is aligned and large enough as requested, disjoint from every other live block and inside the buffer or memory obtained from upstream, for all sizes and alignments. Every block of upstream memory is given back exactly once with the size and alignment it was allocated with, and the inline buffer is never given upstream; a failing upstream leaves the resource usable.',
     ['histories', 'inputs'], 'all sequences of allocations and deallocations in any order, of zero, small, large and over-aligned sizes, with any buffer size and alignment and failures of the upstream resource',
     'the tests allocate through asio only, with one size that fits',
     [D + 'sbo_resource.hpp', D + 'monotonic_resource.hpp'],
     [('sbo_resource, sbo_allocator', D + 'sbo_resource.hpp'), ('monotonic_resource', D + 'monotonic_resource.hpp')],
     how='all sequences of allocations and deallocations up to a depth')
prop('K01', 'Composed operations behave like any other operation',
     'A coroutine taking a completion_handler (composition.hpp) runs as part of the operation: it gets the result of each inner operation as a tuple, no matter how that completes, and the awaiter is resumed exactly once with exactly the co_returned values, after the coroutine and its arguments are destroyed, and never from within the initiation. Cancellations of the awaiter reach the pending inner operation through the filters of the composed one, and this_coro::cancelled reports them. Its frame uses the memory of the handler, and dropping an inner operation releases it and the awaiter exactly once.',
     ['histories', 'fault_sequences'], 'all sequences and nestings of inner operations with all ways and moments of completion, failure, cancellation and abandonment, and all ways to start the composed operation',
     'the test awaits one composed operation with two posts',
     [H + 'composition.hpp', D + 'handler.hpp', H + 'op.hpp', D + 'sbo_resource.hpp'],
     [('composition_promise', H + 'composition.hpp'), ('completion_handler', D + 'handler.hpp')],
     how='all ways and moments of completion of the inner operations, cancellations and abandonment')
prop('I01', 'read, write and their _at variants transfer everything exactly once',
     'io::read, write, read_at, write_at and read_all on any stream or random access device transfer the whole buffer sequence in order, each byte exactly once and at the right offset, however the device splits the transfers, and report the sum of the bytes. An error, the end of the stream or a cancellation ends them with the number of bytes transferred up to there and with exactly this error, after which nothing is requested from the device any more; buffers are never touched after the completion.',
     ['histories', 'fault_sequences', 'inputs'], 'all buffer sequences of up to three parts, all sequences of partial transfers, errors and immediate or later completions, and a cancellation at every point',
     'the tests read and write one string through a pipe that never splits it',
     [H + 'io/read.hpp', H + 'io/write.hpp', 'src/io/read.cpp', 'src/io/write.cpp', H + 'io/stream.hpp', H + 'io/random_access_device.hpp'],
     [('read, read_at, read_all', 'src/io/read.cpp'), ('write, write_at', 'src/io/write.cpp')],
     how='all partial transfers, failures and cancellations')
prop('B01', 'Buffer sequences present the same bytes for every representation',
     'A const or mutable buffer_sequence made of a single buffer, a pair, a span, a registered buffer or a range of buffers presents exactly its bytes, in order, through its iterators and through asio::buffer_copy and buffer_size. The iterators are random access iterators consistent with each other, and removing, trimming and taking prefixes or suffixes by any sequence of steps leaves exactly the expected bytes and never touches others.',
     ['inputs', 'histories'], 'all sequences of up to four buffers incl. empty ones in every representation, and all sequences of steps on them',
     'the tests use two sequences and a few iterator steps',
     [H + 'io/buffer.hpp'],
     [('const_buffer_sequence, mutable_buffer_sequence', H + 'io/buffer.hpp')],
     how='all buffer sequences and all sequences of operations up to a depth')
prop('I02', 'Files: the bytes, positions and errors are those of the system',
     'stream_file and random_access_file read and write exactly the bytes of the file at the right position, for any flags, sizes, partial transfers and buffer sequences, and seek, size, resize, assign, duplicate, release, close and sync do exactly what they document. An error of the system is reported as this error and never as success, from no operation out of the initiation itself, and every descriptor is closed exactly once.',
     ['histories', 'fault_sequences'], 'all sequences of operations on one or two handles of a file, compared with a model of the file, with every system call failing or being partial',
     'the tests write and read back one string',
     [H + 'io/file.hpp', H + 'io/stream_file.hpp', H + 'io/random_access_file.hpp', 'src/io/file.cpp', 'src/io/stream_file.cpp', 'src/io/random_access_file.cpp'],
     [('open, seek, resize, assign, release', 'src/io/file.cpp'), ('read_some, write_some, seek', 'src/io/stream_file.cpp'), ('read_some_at, write_some_at', 'src/io/random_access_file.cpp')],
     how='all sequences of file operations with faults against a model')
prop('I03', 'Timers and sleeps complete once, never early, and only then or cancelled',
     'A wait for a steady_timer or system_timer or a sleep completes exactly once: successfully not before its expiry (and at the next turn of the loop after it), or as aborted iff its coroutine was cancelled or the timer was cancelled, reset or destroyed while it waited. Waits for an expired timer complete at once; expired and expiry are exact, moving a timer keeps its expiry, and a huge or negative duration sleeps forever or not at all.',
     ['histories'], 'all sequences of waits, sleeps, resets, cancellations, moves and clock steps on two timers, under a virtual clock',
     'the tests wait for one timer in real time',
     [H + 'io/steady_timer.hpp', H + 'io/system_timer.hpp', H + 'io/sleep.hpp', 'src/io/steady_timer.cpp', 'src/io/system_timer.cpp', 'src/io/sleep.cpp'],
     [('initiate_wait_, ready_wait_, cancel, reset', 'src/io/steady_timer.cpp'), ('steady_sleep, system_sleep', 'src/io/sleep.cpp')],
     how='all sequences of timer operations under a virtual clock')
prop('I04', 'Pipes and socket pairs deliver what was sent, in order, once',
     'What is written to a pipe or a connected stream, datagram or seq_packet socket is read at the other end exactly once and in order (message boundaries kept), an operation completes as soon as it can, never from within its initiation, with the right error or end of file. cancel, close, destroying the object or cancelling the coroutine completes the pending operations as aborted; release, assign and moves keep the descriptor, a failed creation reports its error, and every descriptor is closed exactly once.',
     ['histories', 'fault_sequences'], 'all sequences of reads, writes, waits, polls, cancellations, shutdowns, closes, releases and moves of both ends up to a depth, and all failures of the creation',
     'the tests send one string through each',
     [H + 'io/pipe.hpp', H + 'io/socket.hpp', H + 'io/stream_socket.hpp', H + 'io/datagram_socket.hpp', H + 'io/seq_packet_socket.hpp', 'src/io/pipe.cpp', 'src/io/socket.cpp', 'src/io/stream_socket.cpp', 'src/io/datagram_socket.cpp', 'src/io/seq_packet_socket.cpp'],
     [('pipe, readable_pipe, writable_pipe', 'src/io/pipe.cpp'), ('make_pair, connect_pair', 'src/io/stream_socket.cpp'), ('open, close, cancel, shutdown, bytes_readable', 'src/io/socket.cpp')],
     how='all sequences of operations on both ends against queues')
prop('N01', 'Endpoints hold exactly the address and protocol they are given',
     'An io::endpoint constructed from a local path, an ipv4 or ipv6 address (as text, number or bytes) or any asio endpoint has exactly the bytes, size and protocol the system expects, and invalid or too long input is rejected with an exception, as asio does. Copies and assignments are equal to it, get and get_if yield the address iff family, type and protocol match (get throws bad_endpoint_access otherwise), and address, port, path and text of it are those given.',
     ['inputs'], 'all local path lengths, all octets, all compressible ipv6 addresses, all short strings, all protocols, and all ways to copy, constructed in memory that is not zero',
     'the tests construct three endpoints',
     [H + 'io/endpoint.hpp', 'src/io/endpoint.cpp'],
     [('endpoint, get_if, get, protocol constants', H + 'io/endpoint.hpp'), ('make_endpoint & get_endpoint tag_invoke', 'src/io/endpoint.cpp')],
     how='all inputs within bounds against asio')
prop('N02', 'Sockets connect where they should, and expose the options of the system',
     'connect reaches exactly the given endpoint, opening the socket with the right type and protocol if needed; with a sequence of endpoints they are tried in order, each once, until one succeeds, which is returned. The result is the error of the system, or aborted iff the operation or the socket was cancelled or closed; local_endpoint, remote_endpoint, is_open and every socket option report and change exactly what the system has for this socket, and every descriptor is closed exactly once.',
     ['histories', 'inputs'], 'all sequences of opens, connects, ranged connects, cancellations, closes and moves for tcp, udp and local sockets, with peers that accept, refuse or never answer; all pairs of options',
     'no test connects a socket or sets an option',
     [H + 'io/socket.hpp', 'src/io/socket.cpp', 'src/io/stream_socket.cpp', 'src/io/datagram_socket.cpp', 'src/io/seq_packet_socket.cpp', H + 'io/stream_socket.hpp', H + 'io/datagram_socket.hpp', H + 'io/seq_packet_socket.hpp'],
     [('connect_op, ranged_connect_op, options', 'src/io/socket.cpp'), ('adopt_endpoint_', 'src/io/stream_socket.cpp')],
     how='all sequences of socket operations against raw sockets')
prop('N03', 'resolver and lookup yield exactly what the system resolved',
     'resolve and lookup ask the system exactly once for the given host, service and flags (which need not outlive the initiation), and complete exactly once, on the thread of the executor, with exactly its endpoints in order, or its error and no endpoints. Cancelling or destroying the resolver completes the pending ones as aborted or with their result, never twice, and nothing leaks.',
     ['histories', 'fault_sequences'], 'all sequences of up to three resolves and lookups with all results and errors, fast or blocked, cancelled and destroyed at any point',
     'the test resolves localhost',
     [H + 'io/resolver.hpp', 'src/io/resolver.cpp'],
     [('resolve_op_, lookup, transformer', 'src/io/resolver.cpp')],
     how='all sequences of queries with a scripted system resolver')
prop('N04', 'an ssl::stream encrypts, verifies and reports its state faithfully',
     'An ssl::stream is secure() from the successful completion of a handshake on, which succeeds iff the certificates satisfy the verification that was set up, and stays so when moved. Before that its reads and writes transfer plain bytes, from then on exactly the written bytes in order through TLS and never as plain text; handshaking again and shutting down without TLS fail at once. Every operation completes exactly once, never from within its initiation, as aborted only if cancelled, with eof iff the peer closed TLS properly and stream_truncated otherwise; nothing leaks.',
     ['histories', 'configurations'], 'TLS 1.2 and 1.3 as client and server against OpenSSL, all ways to get a stream, all verifications, all interruptions of the handshake; all sequences of up to 4 (5) operations, cancellations and actions of the peer afterwards',
     'no test uses ssl::stream',
     [H + 'io/ssl.hpp', 'src/io/ssl.cpp'],
     [('handshake_op_, handshake_buffer_op_, shutdown_op_, initiate_read_some_, initiate_write_some_', 'src/io/ssl.cpp'), ('stream, set_verify_callback', H + 'io/ssl.hpp')],
     how='all handshakes and sequences of operations of the real stream against a peer using OpenSSL')
prop('I05', 'signal_set delivers every signal to every set exactly once',
     'A signal raised while it is registered with a signal_set completes all waits pending on this set with its number, or else is kept for the next wait, once per raise and set; it never completes waits of sets it is not registered with. Waits are aborted iff the set is cancelled or destroyed or the coroutine is cancelled; add, remove and clear report exactly the errors of the system, and the handler of a signal is installed iff some set has it.',
     ['histories', 'fault_sequences'], 'all sequences of raises, waits, polls, adds, removes, clears, cancellations and destructions of two sets and two signals up to a depth, with failing system calls',
     'no test uses signal_set',
     [H + 'io/signal_set.hpp', 'src/io/signal_set.cpp'],
     [('add, remove, clear, cancel, wait_op_', 'src/io/signal_set.cpp')],
     how='all sequences of operations on two sets against a model')
prop('I06', 'serial_port transfers bytes exactly and sets exactly the given option',
     'Setting the baud rate, character size, flow control or parity of a serial_port changes exactly this one on the device, as the getters report, or fails with the error of the system and changes nothing; a break is sent once per send_break. Reads and writes transfer the bytes in order without loss, complete exactly once, never from within their initiation, and as aborted only if cancelled or closed. Opening an open port fails and keeps it, on a closed port everything fails, moving keeps everything, and no descriptor leaks.',
     ['histories', 'fault_sequences'], 'all sequences of up to 3 (4) events with options, 5 (6) without: setting, break, reads, writes, cancellations, hang up, close, open, assign, move, with one failing system call',
     'no test uses serial_port',
     [H + 'io/serial_port.hpp', 'src/io/serial_port.cpp'],
     [('set_*, get_*, open, assign, close, cancel, initiate_read_some_, initiate_write_some_', 'src/io/serial_port.cpp')],
     how='all sequences of operations on a port connected to a pseudo terminal, with the settings kept by the check')
prop('E01', 'Every awaitable can be awaited in every way by every coroutine',
     'Whatever models the awaitable concept - directly, by a member or a free operator co_await, as an lvalue or rvalue, suspending by void, bool or handle, ready or not, throwing anywhere - is awaited plainly, as_result, as_tuple (and nested), or in a race, join or gather, by any kind of coroutine including stackful ones, with the same outcome: it is asked, suspends and resumes its awaiter exactly once, in place and never as a copy. Its values arrive unchanged, its error once, as an exception, result or tuple element as asked for; a symmetric transfer is honoured, and destroying the suspended awaiter unwinds it and releases everything.',
     ['inputs', 'histories'], '15 shapes of awaitables, 8 ways to behave, success and failure, 16 ways to await, 8 kinds of coroutines, one (two) awaits, resumed from outside or a handler, or destroyed',
     'the tests await a handful of combinations of one shape',
     [H + 'result.hpp', H + 'concepts.hpp', D + 'await_result_helper.hpp', D + 'race.hpp', D + 'join.hpp', D + 'gather.hpp', D + 'fork.hpp', H + 'experimental/context.hpp', H + 'experimental/yield_context.hpp', H + 'experimental/frame.hpp'],
     [('as_result_t, as_tuple_t', H + 'result.hpp'), ('await_impl', D + 'race.hpp'), ('wrapped_awaitable', D + 'fork.hpp'), ('do_await, make_context', H + 'experimental/context.hpp'), ('await', H + 'experimental/yield_context.hpp')],
     how='all combinations of shapes, behaviours and ways of awaiting')
prop('F01', 'BOOST_COBALT_FOR visits every value of its source once, in order',
     'A BOOST_COBALT_FOR loop over a generator or promise (eager, lazy, of move-only values, or made from a noop; rvalue or lvalue) runs its body exactly once for every value that the source yields or returns, in order, whatever the source and the body await, and ends when the source is exhausted, or with its exception after all values before it. break, continue and exceptions of the body do what they do in any loop; another loop over the same lvalue goes on where the first one stopped, and a source that is dropped is cancelled and released.',
     ['histories'], 'sources of up to 3 (4) values, every mix of yields, awaits, returns and exceptions, five bodies per iteration, all orders of completions, two loops, four kinds of coroutines',
     'the tests loop over one generator that never suspends',
     [H + 'async_for.hpp', H + 'noop.hpp', H + 'generator.hpp', D + 'generator.hpp', H + 'promise.hpp'],
     [('BOOST_COBALT_FOR', H + 'async_for.hpp'), ('operator bool, generator_receiver', H + 'generator.hpp'), ('noop', H + 'noop.hpp')],
     how='all behaviours of source and body in all orders of completions')
prop('L01', 'unique_handle owns exactly one coroutine',
     'A unique_handle destroys the coroutine it owns exactly once - when it is destroyed, reset, assigned or told to - and never one it released or was moved from; resuming an lvalue keeps the ownership, resuming an rvalue gives it up. address, promise, get, done and the comparisons always refer to the coroutine it owns, however it was obtained.',
     ['histories'], 'all sequences of 5 (6) of 14 operations on two handles and two coroutines, with and without a promise type',
     'there is no test of unique_handle',
     [H + 'unique_handle.hpp'],
     [('unique_handle', H + 'unique_handle.hpp')],
     how='all sequences of operations on two handles and two coroutines')
prop('U01', 'executor and allocator arguments of coroutines are honoured',
     'A promise, generator, task or detached coroutine uses the executor and the memory resource given with executor_arg or allocator_arg in any position, or else the ones of the thread at the time of the call (tasks: the executor of the awaiter or spawner, memory from the default resource), whatever these are later. All its frames and results come from and return to that resource, it resumes only on that executor, and without memory or without any executor the call throws and leaves nothing behind.',
     ['configurations', 'fault_sequences'], 'every coroutine type with 11 signatures, executors and resources that are given, defaulted, missing, changed before or after, and exhausted memory, ended in every way',
     'tests pass executor_arg in one position and never look at the resource',
     [H + 'this_coro.hpp', H + 'this_thread.hpp', 'src/this_thread.cpp', D + 'this_thread.hpp', D + 'promise.hpp', D + 'task.hpp'],
     [('promise_memory_resource_base, enable_await_executor', H + 'this_coro.hpp'), ('this_thread::get_executor, set_default_resource', 'src/this_thread.cpp'), ('get_executor_from_args', D + 'this_thread.hpp')],
     how='all signatures and configurations, all outcomes of the coroutine')
