"""Which harnesses, with which bounds, decide which property."""


def R(h, covers='', deep=False, native=True, **p):
    return dict(h=h, p=p, covers=covers.split(',') if covers else [], deep=deep, native=native)


TIME = 'deadlines and clock are arbitrary within 2^20 ns of the start (the domain of each run is given by its parameters)'
MT = 'sequentially consistent; every interleaving within the stated number of preemptions, a thread runs at most 40000 instructions while another one could'
CHECKS = {
    'T01': dict(
        bounds='one timer, 5 ways of making one, 3 polls with or without a round of the reactor after each; the clock moves by any amount at every reading; ' + TIME + ' and, in a second run, any whole seconds up to 2^33',
        runs=[R('h_timer_once', 'fired,pending'), R('h_timer_once', 'fired,pending', time=1, bits=33), R('h_timer_once', 'fired,pending', deep=True, polls=4)]),
    'T02': dict(
        bounds='2 timers (3 in the thorough tier), every sequence of 3 operations (4) out of round of the reactor, poll with the same or another waker, set_at, set_after, overflowing set_after, drop; and 2 threads, one making, resetting or polling a timer while the other runs the reactor, at most 2 preemptions (3); ' + TIME + '; ' + MT,
        runs=[R('h_timer_hist', 'fired,pending,due,not due', len=3), R('h_timer_hist', 'fired,pending,due,not due', timers=1, len=4, prepoll=0), R('h_timer_hist', 'fired,pending,due,not due', timers=1, len=3, time=1, bits=33),
              R('h_timer_race', 'all,due', mode=0, preempt=2), R('h_timer_race', 'all,due', mode=2, preempt=1, other=0), R('h_timer_race', 'all,due', mode=3, preempt=1, other=0),
              R('h_timer_race', 'all,due', deep=True, mode=0, preempt=3, other=0), R('h_timer_race', 'all,due', deep=True, mode=2, preempt=2, other=0), R('h_timer_race', 'all,due', deep=True, mode=3, preempt=2, other=0),
              R('h_timer_hist', 'fired,pending,due,not due', deep=True, len=4)]),
    'T03': dict(
        bounds='one interval timer made in 4 ways, 3 polls (4) with a round of the reactor after each, set_at, set_after, set_interval or set_interval_at at any moment, or twice within 2 polls; any start and period within 2^20 ns, any progress of the clock; any whole number of seconds (64 bits) for periods past the end of time',
        runs=[R('h_timer_interval', 'fired,pending,due,once', polls=3), R('h_timer_interval', 'fired,pending,due,once', polls=2, sets=2), R('h_timer_interval_far', 'overflow,no overflow,pending'),
              R('h_timer_interval', 'fired,pending,due,once', deep=True, polls=4), R('h_timer_interval', 'fired,pending,due,once', deep=True, polls=3, sets=3)]),
    'T04': dict(
        bounds='a queue that already holds 996 to 999 operations, 2 timers, every sequence of 2 operations (3); and a queue of 999 or 1000 operations and 2 threads, one making, resetting or dropping a timer while the other runs the reactor, at most 1 preemption (2); 999 to 1001 removals and a new timer while the fallback thread sleeps; 300 or 1100 timers of 2 deadlines, up to 10 of 16 given up; ' + TIME + '; ' + MT,
        runs=[R('h_timer_hist', 'fired,pending,due,not due', fill=995, len=2), R('h_timer_hist', 'fired,pending,due,not due', fill=997, len=2),
              R('h_timer_hist', 'fired,pending,due,not due', fill=999, len=2), R('h_timer_hist', 'fired,pending,due,not due', fill=1999, len=1),
              R('h_timer_hist', 'woke,pending', fill=997, len=2, stale=1, due=0), R('h_full_asleep', 'fired'), R('h_timer_many', 'fired,pending'), R('h_timer_many', 'fired,pending', timers=1100),
              R('h_timer_race', 'all,due', fill=999, mode=0, preempt=1, other=0), R('h_timer_race', 'all,due', fill=998, mode=2, preempt=1, other=0), R('h_timer_race', 'all,due', fill=999, mode=1, preempt=1, other=0),
              R('h_timer_race', 'all,due', deep=True, fill=999, mode=0, preempt=2, other=0), R('h_timer_race', 'all,due', deep=True, fill=999, mode=2, preempt=1, other=0), R('h_timer_race', 'all,due', deep=True, fill=999, mode=4, preempt=1, other=0),
              R('h_timer_hist', 'fired,pending,due,not due', deep=True, fill=993, len=3)]),
    'T05': dict(
        bounds='2 timers, every sequence of 2 operations (3; 4 for one timer) out of round of the reactor, poll with the same or another waker, set_at, set_after, overflowing set_after, drop; and 2 threads, one dropping, resetting or polling a timer while the other runs the reactor, at most 2 preemptions (3); 30 repetitions of any sequence of 2 or 3 out of 6 uses of timers; ' + TIME + '; ' + MT,
        runs=[R('h_timer_hist', 'woke,fired,pending', stale=1, due=0, len=2), R('h_timer_hist', 'woke,fired,pending', stale=1, due=0, timers=1, len=4),
              R('h_leak', 'repeated', mode=1, len=3), R('h_leak', 'repeated', mode=1, len=2, step=200000), R('h_timer_race', 'all,due', mode=1, preempt=2), R('h_timer_race', 'all,due', mode=3, preempt=1, other=0), R('h_timer_race', 'all,due', mode=4, preempt=1, other=0),
              R('h_timer_race', 'all,due', deep=True, mode=1, preempt=3), R('h_timer_race', 'all,due', deep=True, mode=4, preempt=2, other=0),
              R('h_timer_hist', 'woke,fired,pending', deep=True, stale=1, due=0, len=3)]),
    'T06': dict(
        bounds='1 thread in block_on and the fallback thread with at most 1 preemption (2), 2 threads without; 1 thread next to the timer of another task and the fallback thread with at most 1 preemption, deadlines within 2^21 (2^28) ns; deadlines otherwise within 2^17 or 2^20 ns of the start, or any whole seconds up to 2^33; nothing takes time except sleeping; ' + MT,
        runs=[R('h_block_timers', 'first,all', threads=1, preempt=1, bits=17), R('h_block_timers', 'first,all', threads=2, preempt=0, bits=17),
              R('h_block_timers', 'first,all', threads=2, preempt=0), R('h_block_others', 'all,other', others=1, bits=21, preempt=1), R('h_block_timers', 'first,all', threads=1, preempt=1, time=1, bits=33), R('h_block_timers', 'first,all', threads=2, preempt=0, time=1, bits=33),
              R('h_block_others', 'all,other', deep=True, others=1, bits=28, preempt=1), R('h_block_timers', 'first,all', deep=True, threads=1, preempt=2, bits=17)]),
    'I01': dict(
        bounds='1 or 2 sources, 2 to 6 waits of the 6 kinds, every sequence of 4 operations (5) out of round of the reactor, poll with the same or another waker, drop; any readiness (in, out, hup, err) at every round; 200 waits on one source, or 270 waits on 90 sources with the readiness of 4 groups of them, some given up; and 2 threads, two waits on one source, one of which is given up, begun anew or polled by another task while the other thread runs the reactor, at most 2 preemptions (3); ' + MT,
        runs=[R('h_io_hist', 'ready,pending', plan=1), R('h_io_hist', 'ready,pending', plan=3), R('h_io_hist', 'ready,pending,replaced', plan=7, hup=0)] +
             [R('h_io_many', 'ready,pending', sources=1, waits=200), R('h_io_many', 'ready,pending', sources=90, waits=3), R('h_io_many', 'ready,pending', sources=60, waits=2, timers=300, reverse=1)] +
             [R('h_io_cancel', 'all' if m == 0 else 'all,both', mode=m, preempt=2) for m in range(3)] +
             [R('h_io_hist', 'ready,pending', deep=True, plan=2, len=5)] +
             [R('h_io_cancel', 'all' if m == 0 else 'all,both', deep=True, mode=m, preempt=3) for m in range(3)]),
    'I02': dict(
        bounds='1 or 2 sources, 2 to 6 waits of the 6 kinds, every sequence of 4 operations (5), any readiness at every round; and 2 threads, one beginning a wait while the other runs the reactor, any readiness, at most 2 preemptions (3); ' + MT,
        runs=[R('h_io_hist', 'ready,pending', plan=1, lost=0, fresh=1), R('h_io_hist', 'ready,pending', plan=6, lost=0, fresh=1), R('h_io_hist', 'ready,pending', plan=3, lost=0, fresh=1, hup=0)] +
             [R('h_io_race', 'all,later,ready early', mode=m) for m in range(4)] +
             [R('h_io_race', 'all,later,ready early', deep=True, mode=m, preempt=3) for m in range(4)]),
    'I03': dict(
        bounds='2 or 3 threads waiting with block_on or another executor, and the fallback thread, at most 1 preemption (2); ' + MT,
        runs=[R('h_block_io', 'all', mode=m, preempt=p) for m, p in ((0, 2), (1, 0), (2, 1), (3, 1), (4, 2), (5, 0))] +
             [R('h_block_io', 'all', deep=True, mode=m, preempt=p) for m, p in ((1, 1), (2, 2), (3, 2), (5, 1))]),
    'I04': dict(
        bounds='one source with any 2 of 7 kinds of waits pending on it and any readiness, given up in 4 ways, deregistration failing with any errno or not, next to another source',
        runs=[R('h_dereg', 'end,into_inner,into_inner failed')]),
    'I05': dict(
        bounds='a source made in 3 ways next to 0 to 2 others, each system call failing with any errno or not',
        runs=[R('h_reg', 'ok,failed')]),
    'I06': dict(
        bounds='16 operations (read_with, write_with, their variants, AsyncRead and AsyncWrite by value and by reference), each finding nothing to do up to 2 times (3), any result; any readiness in between',
        runs=[R('h_io_ops', 'ready,pending,other direction'), R('h_io_ops', 'ready,pending,other direction', deep=True, attempts=4)]),
    'I07': dict(
        bounds='2 threads, one gives up a source and makes another while the other runs the reactor, or 3 threads, one for each; any readiness of the old source; at most 2 preemptions (3); ' + MT,
        runs=[R('h_io_reuse', 'all', mode=m) for m in range(4)] + [R('h_io_reuse', 'all', deep=True, mode=m, preempt=3) for m in range(4)]),
    'I08': dict(
        bounds='1 or 2 sources, 2 to 6 waits of the 6 kinds, every sequence of 4 operations (5), any readiness at every round and any lasting readiness afterwards; 30 repetitions of any sequence of 2 out of 28 uses of a source with any readiness',
        runs=[R('h_io_hist', 'quiet,ready,pending', plan=0, lost=0, idle=1, hup=0), R('h_io_hist', 'quiet,ready,pending', plan=3, lost=0, idle=1, hup=0), R('h_io_hist', 'quiet,ready,pending', plan=7, lost=0, idle=1, hup=0, len=3),
              R('h_io_hist', 'quiet,ready,pending', plan=0, lost=0, idle=1, len=3), R('h_leak', 'repeated', len=2),
              R('h_io_hist', 'quiet,ready,pending', deep=True, plan=1, lost=0, idle=1, hup=0, len=5)]),
    'B01': dict(
        bounds='2 threads (block_on and the waking one, which is or was in block_on itself or not), the future waiting for a timer as well or not (any deadline within 2^20 ns), any result of 64 bits, every interleaving with at most 2 preemptions (3); ' + MT,
        runs=[R('h_block_wake', 'returned', preempt=1), R('h_block_wake', 'returned', preempt=2), R('h_block_wake', 'returned', preempt=2, timer=1), R('h_block_wake', 'returned', who=1), R('h_block_wake', 'returned', who=2), R('h_block_wake', 'returned', deep=True, preempt=3)]),
    'B02': dict(
        bounds='2 successive calls of block_on (3), the future doing up to 2 of 5 things (waking itself, completing although woken, using an old waker, nested block_on, ending or panicking) before it waits for a timer; and one call next to the timer of another task and the fallback thread, no preemption (1), deadlines within 2^28 ns; ' + TIME,
        runs=[R('h_block_polls', 'all,self-wake,nested,stale,timer,wake and complete'), R('h_block_polls', 'all,panicked', panic=1), R('h_block_others', 'all,other', others=1, bits=28),
              R('h_block_others', 'all,other', deep=True, others=1, bits=28, preempt=1),
              R('h_block_polls', 'all,self-wake,nested,stale,timer,wake and complete', deep=True, calls=3)]),
    'B03': dict(
        bounds='1 or 2 threads running another executor and the fallback thread, at most 1 preemption; before that no block_on, one that completes, one that panics, or a nested one, or meanwhile one that waits for a timer and then is busy (deadlines within 2^27 ns there); deadlines within 2^20 ns, or any whole seconds up to 2^33; nothing takes time except sleeping; ' + MT,
        runs=[R('h_foreign', 'first,all', preempt=2), R('h_foreign', 'first,all', time=1, bits=33), R('h_foreign', 'first,all,block_on before', pre=1, preempt=0), R('h_foreign', 'first,all', pre=2), R('h_foreign', 'first,all,panicked', pre=3, preempt=0), R('h_foreign', 'first,all,nested', pre=4, preempt=0),
              R('h_foreign', 'first,all', threads=2, preempt=0), R('h_block_io', 'all', mode=4), R('h_foreign', 'first,all', pre=5, preempt=0, bits=27),
              R('h_foreign', 'first,all,block_on before', deep=True, pre=1), R('h_foreign', 'first,all,panicked', deep=True, pre=3), R('h_foreign', 'first,all,nested', deep=True, pre=4), R('h_foreign', 'first,all', deep=True, pre=5, preempt=1, bits=27)]),
    'R01': dict(
        bounds='2 timers, one source that is ready all the time with or without a wait given up on it, one that is ready in the direction nobody waits for, in block_on or in another executor with the fallback thread; any whole seconds up to 2^33 in further runs; ' + TIME,
        runs=[R('h_idle', 'done'), R('h_idle', 'done', mode=1), R('h_idle', 'done', mode=1, time=1, bits=33), R('h_idle', 'done', time=1, bits=33), R('h_idle', 'done', timers=1), R('h_idle', 'done', deep=True, time=2, bits=33), R('h_idle', 'done', deep=True, mode=1, time=2, bits=33)]),
    'R02': dict(
        bounds='2 sources, 3 waits and a timer, 2 rounds with any 2 failures of epoll_wait (EINTR, EIO, EBADF; any errno for one failure) and 1 failure of epoll_ctl, then one without; 3 calls of poll_readable or poll_writable with any of them failing',
        runs=[R('h_faults', 'epoll_wait failed,MOD failed,ready'), R('h_faults', 'epoll_wait failed,ready', where=1, any=1, fails=1, rounds=1), R('h_faults', 'MOD failed,ready,error reported', where=2, mods=3), R('h_poll_faults', 'error reported,waits')]),
    'R03': dict(
        bounds='4 timers, 2 of them given up, 2 sources with 4 waits, any one of the 8 wakers panics when it is woken, replaced or dropped, in the latter case also with the queue of operations full; any deadlines, clock and readiness',
        runs=[R('h_waker_panic', 'panic'), R('h_waker_panic', 'panic', drop=1), R('h_waker_panic', 'panic', drop=1, fill=1010)]),
    'R04': dict(
        bounds='2 timers, 2 sources with 4 waits, any one of the 6 wakers doing any of 6 things when it is woken, replaced or dropped (2 operations (3) before), or 998 to 1000 operations on timers between giving up a timer and the round that drops its waker',
        runs=[R('h_waker_back', 'called back,returned'), R('h_waker_drop', 'called back,returned'), R('h_waker_drop', 'called back,returned', fill=499, ops=3), R('h_waker_drop', 'called back,returned', deep=True, ops=3)]),
    'N01': dict(
        bounds='17 constructors, one system call (any of the first 8) failing with any errno or none, accepting blocked at first or not',
        runs=[R('h_net_make', 'made,failed')]),
    'N02': dict(
        bounds='TCP (any IPv4 or IPv6 address and port) and Unix stream connections; connect succeeding, in progress or failing with any errno; connecting failing later with any errno or not; given up in between or not',
        runs=[R('h_net_connect', 'connected,refused at once,refused later,v4,v6')]),
    'N03': dict(
        bounds='names of 1 and 3 arbitrary bytes; of 106 to 110 bytes, of which the first two and the last are arbitrary',
        runs=[R('h_net_path', 'abstract,path,rejected'), R('h_net_path', 'abstract,path', len=1), R('h_net_path', 'abstract,path', len=106, symbolic=2), R('h_net_path', 'abstract,path', len=107, symbolic=2), R('h_net_path', 'abstract,rejected', len=108, symbolic=2),
              R('h_net_path', 'rejected', len=109, symbolic=2), R('h_net_path', 'rejected', len=110, symbolic=2),
              R('h_net_path', 'abstract,path,rejected', deep=True, len=8, symbolic=8)]),
    'N04': dict(
        bounds='15 operations of the socket types, each blocked up to 2 times, any result or errno, any IPv4 or IPv6 address; 3 incoming connections, each accepted or failing in accept or later (one with any errno), blocked at first or not',
        runs=[R('h_net_ops', 'ok,failed,send_to,v4,v6'), R('h_net_incoming', 'accepted,failed'), R('h_reactor_fd', 'same')]),
}
