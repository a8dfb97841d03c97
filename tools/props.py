NOTES = 'run.py builds vsym and the harnesses with /repo, executes the harnesses symbolically, replays counterexamples; see DESIGN.md.'
NA = []
TIMER = ['src/lib.rs', 'src/reactor.rs']
PROPS = [
    dict(id='T01', title='A timer never fires early, and yields exactly the scheduled instant once',
         statement='A one-shot timer, however it was made, completes on the first poll at or after its scheduled instant and never on one before it. It yields exactly the scheduled instant and does so once. A deadline that cannot be represented never fires.',
         over=['inputs', 'schedules'], text='every duration and instant, every progress of the clock between any two readings of it',
         why='the tests sleep for a few fixed durations and compare loosely; the boundary (clock equal to the deadline, clock moving between the readings inside one call) is never hit',
         files=TIMER, mech=[('comparison with the clock in poll_next', 'src/lib.rs Timer::poll_next'), ('saturating constructors', 'src/lib.rs Timer::after, set_after')],
         observe=['Timer::poll', 'Timer::will_fire']),
    dict(id='T02', title='Once a timer is due, a round of the reactor wakes the task that polled it last',
         statement='Whatever sequence of polls by different tasks, resets, overflows, drops and reactor rounds precedes, the task that polled a timer last is woken by the first round of the reactor at or after the deadline set last. Resetting a timer keeps that task registered. Other timers with equal or different deadlines do not interfere.',
         over=['histories', 'inputs'], text='every sequence of operations on several timers with any deadlines',
         why='the tests reset or poll a timer in a handful of fixed orders and never compare the task woken',
         files=TIMER, mech=[('id and waker kept across resets', 'src/lib.rs Timer::set_at, clear, poll_next'), ('ordered map and operation queue', 'src/reactor.rs process_timers, process_timer_ops')],
         observe=['wakers passed to Timer::poll']),
    dict(id='I01', title='No readiness event is lost by a waiting task',
         statement='Whenever the reactor looks at a source that is readable (writable, hung up or in error), every task waiting for that direction is woken and its wait completes on its next poll, whatever other waits on the same or other sources were started, polled by other tasks, completed or dropped before. A task displaced by another in poll_readable or poll_writable is woken.',
         over=['histories', 'inputs'], text='every sequence of waits, polls, drops and reactor rounds with any readiness at each round',
         why='the tests have at most one waiter for each direction and real sockets whose readiness hardly varies',
         files=['src/reactor.rs', 'src/lib.rs'], mech=[('wakers of both directions', 'src/reactor.rs Direction::drain_into'), ('interest recomputed after every event', 'src/reactor.rs ReactorLock::react'), ('interest updated by the first waiter', 'src/reactor.rs Ready::poll, Source::poll_ready')],
         observe=['Readable, Writable and owned futures', 'poll_readable, poll_writable']),
    dict(id='B01', title='A wake-up never gets lost in block_on',
         statement='When the waker passed to a future running in block_on is woken, by any thread and at any moment, block_on polls the future again. It never stays asleep.',
         over=['schedules'], text='every interleaving of the waking thread with block_on',
         why='the window between checking for a notification and blocking is some instructions wide; a test hits it by luck only',
         files=['src/driver.rs', 'src/reactor.rs'], mech=[('flag saying that the thread is blocked on I/O, read after the unpark', 'src/driver.rs BlockOnWaker::wake_by_ref'), ('notification checked again after the flag is set', 'src/driver.rs block_on')],
         observe=['block_on']),
    dict(id='T03', title='An interval timer fires at every multiple of its period, in order',
         statement='An interval timer yields its start, then start plus one period, and so on, each exactly once, never early, and however late it is polled none is skipped. Setting it with set_at or set_after makes it fire once and then never again; setting it with set_interval or set_interval_at makes it periodic from there. A next instant that cannot be represented ends the interval.',
         over=['inputs', 'histories'], text='every start, period and progress of the clock, every kind of reset at any moment',
         why='the tests use one interval of a fixed length, polled at once, and never reset an interval timer',
         files=TIMER, mech=[('next instant computed from the scheduled one', 'src/lib.rs Timer::poll_next'), ('period kept or cleared by resets', 'src/lib.rs Timer::set_at, set_interval_at')],
         observe=['Stream for Timer']),
    dict(id='T04', title='Timers work alike however many operations on timers are outstanding',
         statement='The wake-ups of timers do not depend on how many timers were made, reset or dropped since a thread last ran the reactor: no insertion or removal is lost, reordered or blocks when there are more of them than the reactor keeps pending. A given-up deadline stays given up and a live one wakes its task.',
         over=['histories', 'inputs'], text='every short history of timer operations begun with nearly full bookkeeping, any deadlines',
         why='reaching the limit (1000 operations) and then checking every order of the operations around it is beyond the tests, which never get near it',
         files=['src/reactor.rs'], mech=[('operation queue drained by whoever finds it full', 'src/reactor.rs insert_timer, remove_timer, process_timer_ops')],
         observe=['wakers passed to Timer::poll']),
    dict(id='T05', title='Deadlines that were given up wake nobody and leave nothing behind',
         statement='A timer that is dropped, reset, or polled by another task no longer wakes the task that waited for the deadline given up, and after the next round of the reactor nothing of it is kept: its waker is dropped. A task is woken for a timer only when a deadline it waits for has passed.',
         over=['histories', 'inputs'], text='every sequence of operations on several timers with any deadlines',
         why='a spurious wake-up or a leaked waker changes nothing a test observes; only the multiset of wakers under every history tells',
         files=TIMER, mech=[('removal by instant and id', 'src/lib.rs Timer::clear, drop, poll_next; src/reactor.rs remove_timer')],
         observe=['wakers passed to Timer::poll, and their reference counts']),
    dict(id='T06', title='Timers complete at their deadlines in threads blocked in block_on',
         statement='When several threads wait for timers in block_on, each goes on at its own deadline, up to the short naps by which the fallback thread backs off, although only one of the threads can drive the reactor at a time. A timer set for an earlier deadline while a thread is already blocked for a later one takes effect. No deadline is missed when the driving thread finishes first.',
         over=['schedules', 'inputs'], text='every interleaving of the threads, any deadlines',
         why='the handover of the reactor between threads happens in windows the tests do not control',
         files=['src/driver.rs', 'src/reactor.rs'], mech=[('handing over the reactor', 'src/driver.rs block_on, main_loop'), ('notification of a new timer', 'src/reactor.rs insert_timer')],
         observe=['block_on(Timer)']),
    dict(id='I02', title='A wait completes only because of an event after it began',
         statement='A task waiting for readiness is told that the source is ready only if the operating system reported that direction (or an error or hang-up) after the wait began. Events of the other direction, of other sources, or still being handled by another thread when the wait begins do not complete it.',
         over=['histories', 'schedules', 'inputs'], text='every sequence of waits and rounds with any readiness; every interleaving of a wait with a round in another thread',
         why='stale readiness causes a spurious retry that the tests absorb silently; the race with another thread is a few instructions wide',
         files=['src/reactor.rs'], mech=[('ticker and remembered ticks', 'src/reactor.rs Ready::poll, Source::poll_ready, ReactorLock::react')],
         observe=['Readable, Writable and owned futures', 'poll_readable, poll_writable']),
    dict(id='I03', title='Readiness reaches every waiting thread, whoever drives the reactor',
         statement='When threads wait for readiness in block_on or in an executor of another runtime, each goes on soon after its descriptor becomes ready, whichever thread happens to drive the reactor then. This holds also when the driving thread leaves, or gives the reactor up, at that moment.',
         over=['schedules'], text='every interleaving of the waiting threads, the fallback thread and the other side',
         why='a lost handover needs a precise interleaving of three threads; the tests run a few and rarely hit one',
         files=['src/driver.rs', 'src/reactor.rs'], mech=[('reactor lock taken by one thread', 'src/driver.rs block_on'), ('fallback thread', 'src/driver.rs main_loop'), ('interest changed while another thread blocks', 'src/reactor.rs Ready::poll')],
         observe=['block_on(readable())']),
    dict(id='I04', title='A source is deregistered before its descriptor is closed or handed back',
         statement='Dropping an asynchronous handle removes it from the operating system\'s event notification before its descriptor is closed, and taking the inner value out removes it and returns that value with the descriptor open. Afterwards no event for that descriptor wakes anybody, other sources go on, and a failing deregistration is reported by into_inner and ignored by drop, leaking neither the descriptor nor the wakers.',
         over=['histories', 'fault_sequences'], text='every combination of pending waits and readiness, deregistration failing with any error',
         why='the tests drop sources all the time but cannot observe the order of system calls or make one fail',
         files=['src/lib.rs', 'src/reactor.rs'], mech=[('deregistration in drop and into_inner', 'src/lib.rs Async::into_inner, Drop for Async'), ('removal from the table', 'src/reactor.rs remove_io')],
         observe=['trace of system calls', 'Async::into_inner']),
    dict(id='I05', title='A failed registration is reported and leaves nothing behind',
         statement='When the operating system refuses to make a descriptor non-blocking or to register it, making the asynchronous handle fails with that very error, the descriptor is closed, and no entry stays in the reactor. Sources made before and afterwards work as if nothing had happened.',
         over=['fault_sequences', 'inputs'], text='every system call of the construction failing with any error, among any others',
         why='the tests cannot make these system calls fail',
         files=['src/lib.rs', 'src/reactor.rs', 'src/reactor/unix.rs'], mech=[('entry removed on failure', 'src/reactor.rs insert_io'), ('set_nonblocking', 'src/lib.rs Async::new')],
         observe=['Async::new', 'Async::new_nonblocking']),
    dict(id='I06', title='Operations are retried exactly while they would block, results unchanged',
         statement='Reading and writing through a handle tries the operation at once and, for as long as it would block, waits for the direction it needs and tries again at the latest when that is ready. Any other result, error or count, of an attempt ends it: nothing is tried after it, and it is returned unchanged. Each attempt works on the caller\'s own buffers.',
         over=['inputs', 'histories'], text='every operation, number of blocked attempts, result and readiness in between',
         why='real sockets rarely block more than once in a test and never return unusual counts or errors',
         files=['src/lib.rs'], mech=[('retry loops', 'src/lib.rs read_with, write_with, poll_read, poll_write and their kin'), ('optimistic first try', 'src/lib.rs read_with, maybe_yield')],
         observe=['closures passed to read_with and write_with', 'AsyncRead, AsyncWrite']),
    dict(id='I07', title='Descriptors and slots used again do not inherit events',
         statement='A source that gets the descriptor number or the place in the reactor of one that was given up is not told of events of its predecessor, even if another thread is handling them at that moment. It gets its own events.',
         over=['schedules', 'inputs'], text='every interleaving of giving up and making a source with a round of the reactor in another thread',
         why='the reuse has to fall between the return of the system call and the handling of its events',
         files=['src/reactor.rs'], mech=[('table of sources looked up by key under its lock', 'src/reactor.rs react, insert_io, remove_io'), ('tick of the new source', 'src/reactor.rs Ready::poll')],
         observe=['waits on the new source']),
    dict(id='I08', title='Readiness nobody waits for costs nothing; ended waits leave nothing',
         statement='When a descriptor stays ready while no task waits for that direction, the reactor goes to sleep after reporting it at most once. Nothing is kept of waits that completed or were dropped, and nothing at all of a source that is gone.',
         over=['histories', 'inputs'], text='every sequence of waits, polls, drops and rounds, any lasting readiness afterwards',
         why='a busy reactor or a leaked waker is invisible to tests that look at results',
         files=['src/reactor.rs'], mech=[('interest armed once and only for waiting directions', 'src/reactor.rs react, Ready::poll, Source::poll_ready'), ('removal of wakers', 'src/reactor.rs Drop for Ready')],
         observe=['events delivered by epoll_wait', 'reference counts of wakers']),
    dict(id='B02', title='block_on polls its future once for every wake-up and returns its value',
         statement='block_on polls its future once at first and then only after it was woken, returns exactly the value the future completes with, and passes its panics on. It may be nested and called again after completing, panicking or being woken too often: a wake-up meant for one call neither completes nor disturbs another.',
         over=['histories', 'inputs'], text='every behaviour of the future out of waking itself, completing although woken, using old wakers, nesting and panicking, in successive calls',
         why='the thread\'s cached parker carries state from call to call; the tests use one call for each thread',
         files=['src/driver.rs'], mech=[('cached parker and waker, fresh ones when nested', 'src/driver.rs block_on CACHE'), ('notification consumed on completion', 'src/driver.rs block_on')],
         observe=['polls of the future', 'result of block_on']),
    dict(id='B03', title='Timers and I/O complete without block_on',
         statement='Tasks run by another executor complete their timers at the deadline and their waits soon after readiness while no thread is in block_on, whether or not block_on was used before, ended by a panic, or was nested; and at most some tens of milliseconds later if other threads are in block_on but all of them are busy in their futures. Nobody has to call anything to keep the reactor going.',
         over=['schedules', 'inputs', 'histories'], text='every interleaving with the fallback thread, any deadlines, any earlier use of block_on',
         why='a fallback thread that naps for too long or stops shows up as mere slowness in the tests',
         files=['src/driver.rs'], mech=[('fallback thread and count of active block_on calls', 'src/driver.rs main_loop, block_on'), ('unpark on leaving block_on', 'src/driver.rs block_on')],
         observe=['futures polled by another executor']),
    dict(id='R01', title='The reactor sleeps while there is nothing to do',
         statement='While no timer is due and no awaited descriptor is ready, no thread of the crate runs: the number of system calls until the next deadline is bounded by a small constant that does not depend on the length of the wait. A timeout given to the operating system never ends before the next deadline by rounding.',
         over=['inputs', 'schedules'], text='any deadlines, lasting readiness that nobody waits for, in block_on or another executor',
         why='a busy loop gives correct results; the tests do not measure it',
         files=['src/reactor.rs', 'src/driver.rs'], mech=[('timeout computed from the next timer', 'src/reactor.rs process_timers, react'), ('loop waiting for a notification', 'src/driver.rs block_on, main_loop')],
         observe=['number of calls of epoll_wait']),
    dict(id='R02', title='Errors of the event notification lose no wake-up and hang nobody',
         statement='When waiting for events is interrupted or fails, or changing the interest in a descriptor fails, at any point of any history, every due timer and every awaited readiness is still reported: at once, or by the next round that succeeds. A failure that concerns one source does not affect the others, and one reported to a caller leaves later calls working.',
         over=['fault_sequences', 'histories', 'inputs'], text='failures of epoll_wait and epoll_ctl at any point, any errno, any readiness and deadlines',
         why='the tests cannot make these calls fail',
         files=['src/reactor.rs'], mech=[('wakers woken even after an error', 'src/reactor.rs ReactorLock::react'), ('failed registration of interest undone', 'src/reactor.rs Source::poll_ready, Ready::poll')],
         observe=['wakers', 'errors returned by waits']),
    dict(id='R03', title='A panicking waker harms nobody else',
         statement='When waking one task, or dropping its waker, panics, all other tasks whose timers are due or whose sources are ready are still woken in the same round, and the panic gets into no operation on another timer or source. The reactor, its timers and its sources work afterwards as before.',
         over=['inputs', 'histories'], text='any one of the tasks panicking, any deadlines, clock and readiness',
         why='the tests have no panicking wakers',
         files=['src/reactor.rs'], mech=[('wakers called and dropped without locks, each with its panic caught', 'src/reactor.rs ReactorLock::react, process_timers, process_timer_ops')],
         observe=['wakers']),
    dict(id='R04', title='Wakers may call back into the crate',
         statement='A waker may poll, make, reset or drop timers, sources and waits of the same reactor when it is woken, cloned over or dropped, also for the very source or timer it was registered with. None of this deadlocks, and what it starts works.',
         over=['histories', 'inputs'], text='any of the wakers doing any of several things when it is woken, replaced or dropped',
         why='the wakers of common executors only push to a queue, except when a task is dropped together with its last waker',
         files=['src/reactor.rs'], mech=[('wakers woken and dropped after the locks are released', 'src/reactor.rs react, poll_ready, Ready::poll, Drop for Ready')],
         observe=['progress of the calling thread']),
    dict(id='N01', title='Sockets are made non-blocking and close-on-exec, and never leak',
         statement='Every descriptor that the constructors of sockets (bind, connect, accept, pair, incoming, for TCP, UDP and Unix) make is non-blocking and closed on exec, and registered with the reactor exactly once. When any step fails, the error is returned and every descriptor made on the way is closed.',
         over=['fault_sequences', 'inputs'], text='every constructor, any one of its system calls failing with any error, accepting blocked at first or not',
         why='the tests only see constructors succeed',
         files=['src/lib.rs', 'src/os/unix.rs'], mech=[('socket creation with flags', 'src/lib.rs connect'), ('accept then Async::new', 'src/lib.rs accept')],
         observe=['flags and table of descriptors']),
    dict(id='N02', title='Connecting reports success only once connected, and the real error otherwise',
         statement='Connecting a stream (TCP over IPv4 or IPv6, or Unix) contacts exactly the given address and completes successfully only after the connection is established. A refusal, at once or later, is reported as that very error. Connecting closes the socket when it fails or is given up.',
         over=['inputs', 'fault_sequences'], text='every address, every outcome at once or later with any error',
         why='connections to the loopback device are established at once and always succeed',
         files=['src/lib.rs'], mech=[('in-progress connect and waiting for writability', 'src/lib.rs connect, TcpStream::connect, UnixStream::connect'), ('pending error fetched', 'src/lib.rs take_error')],
         observe=['Async::<TcpStream>::connect', 'Async::<UnixStream>::connect']),
    dict(id='N03', title='Unix socket names reach the kernel unchanged, or are rejected',
         statement='Connecting a Unix stream passes the name to the operating system byte for byte: as a path ended by zero, or, when it begins with a zero byte on Linux, as an abstract name of exactly that length. Names that do not fit or contain a zero byte elsewhere are rejected with an error and no connection is tried.',
         over=['inputs'], text='every name of the lengths around the limits and of short lengths',
         why='the tests connect to one short path and one abstract name',
         files=['src/lib.rs'], mech=[('conversion of the address', 'src/lib.rs convert_path_to_socket_address')],
         observe=['address passed to connect']),
    dict(id='N04', title='Socket operations pass arguments and results through unchanged',
         statement='send, recv, send_to, recv_from, peek, accept and the like hand exactly the caller\'s bytes and address to the operating system and return exactly its count, address or error, waiting for the direction they need while it would block. Accepted connections carry the peer\'s address; the stream of incoming connections gives the result of every accept, errors included, and never ends. The descriptor of the reactor offered to other event loops is the one it waits on.',
         over=['inputs', 'histories'], text='every operation, number of blocked attempts, result, error and address',
         why='the tests send a few fixed packets between loopback sockets that never fail',
         files=['src/lib.rs', 'src/os/unix.rs'], mech=[('thin wrappers over read_with and write_with', 'src/lib.rs impl Async<TcpListener>, Async<UdpSocket>, Async<UnixDatagram>'), ('reactor_fd', 'src/os/unix.rs')],
         observe=['system calls and results']),
]
