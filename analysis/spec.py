"""What each property says, and how it is decided.  tools/gen.py writes properties.jsonl and
MANIFEST.json from this table; the checks put rule, explanation and assumptions in their evidence."""

ENGINE = ('The public entry points are instantiated by a small harness crate; a rustc driver dumps the '
          'monomorphised MIR of everything they reach in polling and rustix. A path-sensitive '
          'interprocedural dataflow analysis (property simulation: value numbering, branch facts, heap '
          'places, joins at fixpoint; error, interrupted and success outcomes of every system call, a '
          'havoc of shared state at every lock acquisition and blocking call) explores every path of the '
          'entry points from a symbolic poller and symbolic arguments. ')
TECH = 'static analysis: interprocedural path-sensitive dataflow/typestate over rustc MIR'
TABLE = ', with exhaustive decision tables over the flag bits'

A_KERNEL = 'System calls behave as their manual pages say (epoll, poll, timerfd, eventfd, pipe); the kernel is not analysed.'
A_STD = 'std types (Mutex, Condvar, HashMap, Vec, atomics, Duration/Instant) follow their documentation; they are modelled, not analysed.'
A_LINUX = 'The configurations analysed are the ones that can run on Linux: epoll with eventfd, epoll with pipe, and the poll(2) backend.'
A_SC = 'Atomic operations are treated as sequentially consistent.'

COMMON = [A_KERNEL, A_STD, A_LINUX]

PRODUCT = ('Each operation is then projected onto its shared effects (atomics, locks, condition variable, reads and writes '
           'of the notifier, its re-arming, the kernel wait, the return) with the branch facts that depend on them; the '
           'resulting automata are minimised and their products (a waiter with two notifiers, with a notifier and a '
           'registrar, with two registrars, all repeating for ever, and waiter and notifier strictly alternating) are '
           'explored exhaustively over an abstract kernel in which every wait may also be interrupted, fail or be ended '
           'by a source. ')
A_PROD = [A_SC, 'Compositions of one waiter with up to two other threads are explored, each repeating its operation without end.',
          'Writing a non-full notifier and re-arming it do not fail.']

P = {}


def p(pid, title, statement, over, text, why, files, mech, rule, explain, assume=(), note='', state=(),
      tech=TECH):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, rule=rule, explain=ENGINE + explain, assume=COMMON + list(assume),
                  note=note, state=state, tech=tech)


p('P01', 'A notification is never lost',
  'After notify() returns Ok, a wait() that is blocked, or else the next wait() to start, returns instead of '
  'sleeping until its timeout, even when registration operations, other notifications and interrupted or '
  'failed kernel calls happen in between. Exactly one return consumes the notification.',
  ['schedules', 'fault_sequences', 'histories'],
  'every interleaving of notify with wait and with add/modify/delete on other threads, and every failure or interruption of a kernel call inside wait',
  'The tests notify once or twice at fixed moments; a lost wakeup needs a notification that lands between two particular steps of wait, of another notify, or of a registration operation.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'],
  [('notified flag set before the notifier is written, cleared after it was drained', 'src/lib.rs: Poller::notify, Poller::wait'),
   ('notifier kept registered and re-armed after every wait', 'src/epoll.rs: Poller::wait'),
   ('inner flag tested after the notifier was drained', 'src/poll.rs: Poller::wait_deadline, Poller::notify')],
  'No reachable state of any composition has a completed notify() that no wait() return has answered, the waiter asleep in the kernel, the notifier not ready (empty, disarmed or its edge spent) and nobody else able to move.',
  PRODUCT, A_PROD)

p('P02', 'notify() never blocks and notifications coalesce',
  'notify() takes no lock and performs no blocking operation, so it can be called from any thread at any time. '
  'Notifications that arrive before the first one is consumed are merged into one.',
  ['schedules', 'histories'], 'every state of the poller and every number of pending notifications',
  'Tests never notify often enough to fill a pipe, nor from inside every state of a concurrent wait.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'],
  [('compare-exchange on the notified flag', 'src/lib.rs: Poller::notify'), ('notifier write', 'src/epoll.rs: Notifier::notify; src/poll.rs: Poller::notify')],
  'No path of notify contains a lock, a condition-variable wait or a blocking kernel call; in no composition do unread notifications pile up in the notifier (so the write cannot block either), is notify() stuck, or is anything of a notification left after the wait() it ended, when the two alternate.',
  PRODUCT, A_PROD)

p('P03', 'The reserved key is always rejected without side effects',
  'add and modify, in every variant and mode, fail with InvalidInput when the event carries the reserved key usize::MAX, '
  'and then nothing has been registered or changed. No other key is ever rejected for being reserved.',
  ['inputs', 'configurations'], 'every key value, every interest, every mode, every registration entry point',
  'Tests try the reserved key on one or two entry points.',
  ['src/lib.rs'], [('key check', 'src/lib.rs: Poller::add_with_mode, Poller::modify_with_mode')],
  'Every path of add*/modify* is classified by the key equality it implies; paths taken by the reserved key must return an InvalidInput error before any registry effect, other paths must not be rejected for the key.',
  'The key is symbolic, so all 2^64 values are covered.')

p('P04', 'Internal notifications never appear as events',
  'Iterating over the events of a wait never yields the internal notification, whatever mix of notifications '
  'and real events the kernel reported, and hides no event of a registered source.',
  ['inputs', 'histories'], 'every list of kernel events, in every order and length',
  'Tests see at most one notification next to a handful of events.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('filter on the reserved key', 'src/lib.rs: Events::iter')],
  'Every element of the event list is yielded exactly once unless the branch facts imply its key is the reserved key, in which case it is not yielded; iteration ends only at the end of the list.', '')

p('P05', 'wait() returns the number of events it delivered, and no stale ones',
  'The number returned by wait() equals the number of events that iterating the buffer afterwards yields, on every successful return. '
  'No event left over from before the call is counted or yielded by a call that entered the kernel.',
  ['inputs', 'histories', 'fault_sequences'], 'every list of kernel events, every prior content of the buffer, every interruption',
  'Tests compare the count for single events; leftovers need a reused buffer combined with an interruption or a timeout.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('length of the filtered iteration', 'src/lib.rs: Events::len, Poller::wait'), ('buffer replaced by the kernel', 'src/epoll.rs: Poller::wait'), ('buffer cleared', 'src/poll.rs: Poller::wait')],
  'A ghost counter counts list elements whose key is not the reserved one; the value returned must equal it; the list must have been cleared or overwritten by the kernel since the call began and not changed after being counted.', '')

p('P06', 'wait() does not time out early',
  'A wait() with a timeout never ends by timing out before that much time has passed, and a wait() without a timeout never times out, '
  'also after an interruption or a wait for a concurrent registration. Timeouts longer than the kernel interface can express (2^31-1 ms on poll) are the only exception.',
  ['inputs', 'schedules', 'fault_sequences'], 'every timeout value including zero, sub-millisecond and overflowing ones, any clock advance between steps, any number of interruptions',
  'Tests use a few round timeouts and measure with slack.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('deadline and remaining time', 'src/lib.rs: Poller::wait; src/poll.rs: Poller::wait'), ('rounding up to milliseconds', 'src/epoll.rs: Poller::wait_deadline; src/poll.rs: Poller::wait_deadline'), ('timerfd', 'src/epoll.rs: Poller::wait_deadline')],
  'At every kernel wait the duration given to the kernel (and to the timer) is at least entry time + timeout - last clock reading, proved from linear facts; without a timeout it is infinite and no timer stays armed.',
  'Durations are linear terms over symbolic nanosecond quantities with exact rounding rules; obligations are discharged by a bounded linear-combination search over the path facts (no solver).',
  ['The clock is monotonic (Instant).'])

p('P07', 'wait() with a timeout ends',
  'A wait() with a timeout does not sleep in the kernel beyond it by more than the millisecond granularity of the kernel interface, '
  'also when it is interrupted repeatedly, woken spuriously or delayed by registrations on other threads. A zero timeout never sleeps.',
  ['inputs', 'schedules', 'fault_sequences'], 'every timeout value, any number of interruptions and re-waits, any clock advance',
  'Tests interrupt wait at most once; restarting with the full timeout only shows after several interruptions.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('remaining time recomputed from one deadline', 'src/lib.rs: Poller::wait; src/poll.rs: Poller::wait')],
  'At every kernel wait the duration is bounded by the time left (timeout minus the time the call was seen to spend blocked), rounded up to a millisecond, or an armed timer is.',
  'The time already spent blocked is carried across loop iterations as a relational ghost value.',
  ['The clock is monotonic (Instant).', 'Scheduling latency after the kernel wait ended is outside the claim.'])

p('P08', 'An interrupted wait is resumed, not surfaced',
  'A signal that interrupts the kernel wait neither ends wait() with an Interrupted error nor with an early, empty success; the wait continues for the remaining time.',
  ['fault_sequences', 'schedules'], 'interruption of any kernel wait, any number of times, with and without timeout',
  'No test delivers signals during a wait.',
  ['src/lib.rs'], [('retry on Interrupted', 'src/lib.rs: Poller::wait')],
  'Every path from an interrupted kernel wait leads to another kernel wait, a different error, or the observation of a notification before returning; no error value is Interrupted.', '')

p('P09', 'Kernel errors are reported, unaltered',
  'If a kernel call fails during creation, registration or waiting, the operation does not report success unless a documented fallback replaced the call, and the error it returns is the one the kernel gave.',
  ['fault_sequences', 'inputs'], 'failure of each individual system call on each path, with any errno',
  'Most kernel failures cannot be provoked by a test.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('error propagation', 'src/epoll.rs, src/poll.rs, src/lib.rs')],
  'Typestate per call: a failed call must be followed by a successful fallback or by returning an error built from that call\'s errno.', '')

p('P10', 'Requested interest reaches the kernel exactly',
  'For an event built with the public constructors and setters, add and modify subscribe the kernel to readability, writability and priority exactly as the event asks, in every mode; an empty interest subscribes to none of them.',
  ['inputs', 'configurations'], 'all combinations of readable, writable, priority, interrupt and mode on every entry point',
  'Tests cover a few combinations and cannot see the kernel\'s interest set.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('flag translation', 'src/epoll.rs: read_flags, write_flags, EventExtra; src/poll.rs: EventExtra, poll_events')],
  'Decision table: every flag combination is pushed through the constructor, setter and registration terms extracted from MIR; the resulting kernel bits are compared with the request.', '', tech=TECH + TABLE)

p('P11', 'Kernel readiness is translated faithfully into events',
  'A delivered event is readable if the kernel reported input, writable if it reported output, and both on hang-up or error, and never otherwise; '
  'its priority, interrupt and error accessors report what the kernel reported, and connection-failed reports error together with hang-up on epoll, either of them on poll().',
  ['inputs'], 'every combination of readiness bits the kernel can report for a source',
  'Tests see a handful of bit combinations; HUP, ERR and PRI combinations hardly occur on a test machine.',
  ['src/epoll.rs', 'src/poll.rs', 'src/lib.rs'], [('reading back flags', 'src/epoll.rs: Events::iter, EventExtra; src/poll.rs: Poller::wait_deadline, EventExtra')],
  'Decision table over all relevant kernel bits for every accessor of a delivered event.', '', tech=TECH + TABLE)

p('P12', 'Keys come back unchanged with their own readiness',
  'Every delivered event carries exactly the key given in the most recent successful add or modify of its source, and its readiness belongs to that same source.',
  ['inputs', 'histories'], 'every key value and every sequence of registrations',
  'Tests use small keys and few sources.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('key as kernel user data', 'src/epoll.rs: Poller::add, Events::iter'), ('per-source key', 'src/poll.rs: FdData')],
  'Value identity: the key term stored by add/modify is the parameter\'s, and the key of a delivered event is read from the same kernel record (or the record with the same position) as its flags.', '')

p('P13', 'Delivery modes do what they say',
  'Registering in a mode asks the kernel for exactly that mode: oneshot modes report a source once until it is modified again, level keeps reporting, edge is edge-triggered. '
  'Where the kernel interface has no oneshot mode, delivering an event disarms a oneshot source and only that source.',
  ['inputs', 'configurations', 'histories'], 'all modes and interests on every registration entry point',
  'Tests cover one source per mode.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('mode translation', 'src/epoll.rs: Poller::add, Poller::modify'), ('disarm on delivery', 'src/poll.rs: Poller::wait_deadline')],
  'Decision table over mode and interest for the trigger bits; on poll(2), a delivered record is rewritten with empty interest iff the flag stored for its mode says so.', '', tech=TECH + TABLE)

p('P14', 'Mode support is reported honestly and enforced',
  'supports_level and supports_edge are constant for a poller; registering in a mode they declare unsupported fails and every mode they declare supported is accepted.',
  ['inputs', 'configurations'], 'every mode on every entry point, for each backend',
  'A test run covers one backend, and only some modes.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('mode checks', 'src/poll.rs: cvt_mode_as_remove; src/lib.rs: supports_level, supports_edge')],
  'Every path of the with_mode entry points is classified by mode and compared with the constants returned by the support queries.', '')

p('P15', 'Registration operations act on exactly their source',
  'add, modify and delete apply exactly the requested change to exactly the given source in this poller, and return Ok if and only if it was applied; '
  'adding a registered source, or changing or deleting an unregistered one, fails. The poller\'s internal descriptors are never touched by them.',
  ['inputs', 'histories', 'fault_sequences'], 'every source, every set of other registrations, failure at any kernel call',
  'Tests register few sources and look at the result, not at the other registrations.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('epoll_ctl calls', 'src/epoll.rs: Poller::add, modify, delete'), ('interest vector and map', 'src/poll.rs: Poller::add, modify, delete')],
  'The registry effect of every path is computed as a difference between the state found and the state left (or as the kernel calls made) and compared with the operation\'s contract.', '')

p('P16', 'A failed registration operation changes nothing',
  'If add, modify or delete returns an error, the set of registered sources, their keys, interests and modes are what they were before the call.',
  ['inputs', 'fault_sequences', 'histories'], 'every error path of every registration operation, in every mode',
  'Tests check that errors are returned, not what state they leave.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('validate before mutate', 'src/poll.rs: Poller::add, modify, delete'), ('single kernel call', 'src/epoll.rs')],
  'On every path that returns an error the state left equals the state found.', '')

p('P17', 'The descriptor table stays consistent on poll',
  'On the poll backend the table of descriptors given to the kernel and the table of per-source data always describe the same set of sources, each source at the position recorded for it, after any sequence of add, modify, delete and delivery; the notifier keeps its place.',
  ['histories', 'inputs'], 'every sequence of registration operations and every position of the source concerned',
  'Tests delete at most one of a few sources; the bookkeeping error only shows for particular positions.',
  ['src/poll.rs'], [('swap-remove with index repair', 'src/poll.rs: Poller::delete'), ('append with index', 'src/poll.rs: Poller::add')],
  'Inductive invariant: assuming positions and records agree when the lock is taken, they agree when it is released, on every path, for every relation between the positions involved.', '')

p('P18', 'Registrations interrupt a poll in progress and are never starved',
  'On the poll backend a registration operation started while another thread is blocked in wait() makes that wait leave the kernel, takes effect without waiting for an unrelated event, and the wait then continues with the new set.',
  ['schedules'], 'every interleaving of registration operations with a waiting thread',
  'A test can only start an operation at a time of its own choosing; the handshake fails in narrow windows.',
  ['src/poll.rs'], [('waiting_operations counter, notifier, condition variable', 'src/poll.rs: Poller::modify_fds, Poller::wait_deadline')],
  'No reachable state of a composition with registrations has a registration blocked on a lock whose holder sleeps in the kernel with the notifier not ready, a count of waiting operations that goes wrong, or (without any notify) a wait() ended with neither event, timeout nor error.',
  PRODUCT, A_PROD)

p('P19', 'Every ready source is delivered, once',
  'When the kernel reports sources as ready, each of them appears exactly once among the events delivered by that wait(), and no source appears that was not reported.',
  ['inputs', 'histories'], 'every set and order of ready sources, with and without a simultaneous notification',
  'Tests have one or two ready sources at a time.',
  ['src/epoll.rs', 'src/poll.rs', 'src/lib.rs'], [('scan over returned events', 'src/poll.rs: Poller::wait_deadline'), ('buffer filled by the kernel', 'src/epoll.rs: Poller::wait')],
  'Scan rule: every record whose returned events are not empty is pushed once, others are not, the scan ends only when all reported records were seen, and the list is not altered afterwards.', '')

p('P20', 'One waiter at a time',
  'While one thread is inside wait(), a concurrent wait() on the same poller returns at once with no events and without consuming anything; two threads are never in the kernel wait at once.',
  ['schedules'], 'every interleaving of wait calls',
  'Tests race two waits only by luck.',
  ['src/lib.rs'], [('try_lock around the wait', 'src/lib.rs: Poller::wait')],
  'The kernel wait is entered only while holding a lock that wait acquires without blocking; when the attempt fails, the call returns Ok(0) and performs no effect.', '')

p('P21', 'Every descriptor the poller creates is close-on-exec',
  'Every file descriptor created by a poller is close-on-exec, whichever of the fallbacks was used to create it.',
  ['configurations', 'fault_sequences'], 'every creation path including the fallbacks taken when a system call is missing',
  'Fallback paths are not taken on a test machine.',
  ['src/epoll.rs', 'src/poll.rs'], [('creation flags and fcntl fallbacks', 'src/epoll.rs: Poller::new, Notifier::new; src/poll.rs: notify::Notify::new')],
  'Typestate per descriptor created: CLOEXEC in the creation flags or set with F_SETFD on every path that returns Ok.', '')

p('P22', 'Draining a notification never blocks',
  'The descriptor wait() reads to consume notifications is non-blocking in every configuration, so neither wait() nor a registration operation can hang on an empty notifier.',
  ['configurations', 'schedules', 'fault_sequences'], 'every notifier kind, every failure of the calls that set it up',
  'Blocking only shows when the notifier is empty at the moment it is read.',
  ['src/epoll.rs', 'src/poll.rs'], [('O_NONBLOCK on the notifier', 'src/epoll.rs: Notifier::new; src/poll.rs: notify::Notify::new')],
  'Every descriptor passed to read on a path of wait or a registration operation is non-blocking in every poller value that construction can produce.', '')

p('P23', 'Descriptors are released exactly once, sources are left open',
  'A failed construction leaks no descriptor; dropping a poller closes each descriptor it created exactly once; no operation closes or changes the flags of a descriptor that belongs to the user.',
  ['fault_sequences', 'programs', 'configurations'], 'failure at each step of construction, and every drop',
  'Tests do not count descriptors and cannot fail construction midway.',
  ['src/epoll.rs', 'src/poll.rs'], [('OwnedFd ownership', 'src/epoll.rs: Poller, Notifier; src/poll.rs: Poller, notify::Notify'), ('deregistration on drop', 'src/epoll.rs: Drop for Poller')],
  'Ownership typestate: every created descriptor is, at each exit of the constructor, either owned by the returned poller or closed, never both; drop closes each once; source descriptors never reach close, F_SETFL or F_SETFD.', '')

p('P24', 'Event constructors and setters are exact',
  'Constructors produce exactly the key and readiness asked for and no priority or interrupt interest; each setter changes its own attribute and nothing else; accessors report what was set; clearing extra interest removes all of it, from a delivered event too, and keeps key and readiness; equality and clone agree with the attributes.',
  ['inputs'], 'every key and every combination of attributes',
  'Tests check single attributes on fresh events.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('Event and EventExtra', 'src/lib.rs: Event; src/epoll.rs, src/poll.rs: EventExtra')],
  'Decision tables over all attribute combinations for terms extracted from each constructor, setter and accessor.', '', tech=TECH + TABLE)

p('P25', 'The events container behaves as a buffer',
  'A new container is empty; clear empties it and keeps at least its capacity; is_empty agrees with iteration yielding nothing; with_capacity provides at least the requested room and capacity reports what the kernel may fill.',
  ['inputs', 'histories'], 'every capacity and every content',
  'Tests cover two capacities.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('Events', 'src/lib.rs: Events; src/epoll.rs, src/poll.rs: Events')],
  'Value analysis of each operation on a symbolic container.', '')

p('P26', 'The API keeps its soundness contract in the types',
  'A poller can be shared and sent between threads and every operation on it works through a shared reference; an event buffer can be sent but not shared; adding a source requires unsafe code, while modifying and deleting take a source that lends its descriptor, never a bare descriptor number; the poller\'s own descriptor is only lent, for as long as it lives; waiting for or clearing events needs exclusive access to the buffer, which an iterator borrows.',
  ['programs'], 'every program that uses the public API',
  'Tests only contain programs that compile.',
  ['src/lib.rs'], [('signatures and auto traits', 'src/lib.rs')],
  'Witness programs: those that respect the contract must compile, those that break it must be rejected with the expected error.',
  'The deciding step is the type checker run on witness programs against the current crate.')

p('P27', 'No deadlock between pollers\' own locks',
  'No combination of wait, notify and registration operations on any number of threads can deadlock on the poller\'s own locks, and none of them blocks in the kernel while holding a lock that notify or a registration needs without being wakeable.',
  ['schedules'], 'every interleaving of all public operations',
  'A deadlock needs a particular interleaving of at least two threads.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('lock acquisition order', 'src/lib.rs: Poller::wait; src/poll.rs: Poller::modify_fds, Poller::wait_deadline')],
  'No reachable state of any composition has a thread blocked on a lock, a condition variable or a full notifier while no other thread can move; this covers cyclic acquisition, double acquisition, locks not released and missing signals.',
  PRODUCT, A_PROD)

p('P28', 'No operation panics',
  'Public operations do not panic for any argument, registration state, kernel answer or clock value; overflowing timeouts and arithmetic are handled. (Requesting a buffer larger than the address space is the exception.)',
  ['inputs', 'histories', 'fault_sequences'], 'every argument value, every kernel answer, any clock reading',
  'Tests use ordinary values.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('checked arithmetic and indexing', 'src/lib.rs, src/epoll.rs, src/poll.rs')],
  'Every potential panic site reached (overflow, index, unwrap, division, lookup) is discharged from path facts and the bookkeeping invariant, or reported.',
  'Facts used beyond the path: the invariant of P17 for positions read under the lock, a collection holds no more than its capacity, a loop runs less than 2^62 times; poisoned locks are excluded because no panic can happen while one is held.',
  ['Out-of-memory aborts and lock poisoning by a panicking user closure are outside the claim.'])

p('P29', 'A poller lends its own epoll descriptor',
  'On the epoll backend, the descriptor a poller lends through AsFd and AsRawFd is the epoll instance its sources are registered with, so that it becomes ready when they do and the poller can be watched by another poller; lending it never blocks, fails or changes anything.',
  ['inputs', 'histories'], 'every state of the poller and every way its construction can succeed',
  'Tests that nest pollers do so in one configuration, right after construction.',
  ['src/lib.rs', 'src/epoll.rs'], [('descriptor lending', 'src/lib.rs: impl AsFd, AsRawFd for Poller; src/epoll.rs: as_fd, as_raw_fd')],
  'On every path the descriptor returned is the one the sources are registered with, and nothing else happens.',
  'Value identity from the construction of the epoll instance to the result, for each way the construction can succeed; no system call, lock or panic on the way. The poll backend has no descriptor to lend.')

p('P30', 'Pollers are independent of each other',
  'Using one poller never affects another: no operation on a poller waits for, takes from, or depends on what threads do with other pollers in the process, on whichever threads they are used.',
  ['histories', 'schedules'], 'any number of pollers and threads, in any interleaving',
  'Tests use one poller at a time.',
  ['src/lib.rs', 'src/epoll.rs', 'src/poll.rs'], [('per-poller state', 'src/lib.rs: Poller; src/epoll.rs: Poller; src/poll.rs: Poller')],
  'No operation branches on a static or thread-local value that operations change, try-locks a static lock, holds one in the kernel wait, or keeps descriptors or tables of sources in static or thread-local state.',
  'All static items and thread-locals reachable from the operations are enumerated with their types; each lock, atomic and collection access on each path is resolved to its root object (the poller, a parameter or a static), and values read from statics are followed into the branch facts of later effects.',
  ['Static state that only construction changes (for instance a cached capability of the kernel) is not counted as dependence.'])

NA = {}


def na(pid, title, statement, over, text, why, files, mech, reason):
    NA[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                   mech=mech, reason=reason)


na('P50', 'The kernel reports every source that becomes ready',
   'A registered source that becomes ready while armed is eventually reported by some wait(), and a source that stays ready in level mode is reported by each wait().',
   ['histories', 'schedules'], 'every sequence of readiness changes in the kernel',
   'Tests exercise a few pipes and sockets.',
   ['src/epoll.rs', 'src/poll.rs'], [('kernel readiness queues', 'Linux kernel')],
   'What makes this true is inside the kernel (its wait queues and ready list). The part this codebase contributes - interest, '
   'mode, position and key reach the kernel and come back - is claimed as P10, P11, P12, P13, P17 and P19; no analysis of this source can decide the rest.')
na('P51', 'Waking up and registering take bounded time',
   'notify() wakes a waiter, and a registration completes, within a bounded time under load, and no source is starved when more are ready than the buffer holds.',
   ['schedules', 'inputs'], 'every load, scheduler decision and number of ready sources',
   'Depends on the scheduler.',
   ['src/lib.rs', 'src/poll.rs'], [('lock and condition variable fairness', 'std::sync'), ('kernel ready-list rotation', 'Linux kernel')],
   'A quantitative bound depends on scheduling, lock fairness and the order in which the kernel fills the buffer, runtime quantities that no static argument over this source can bound. '
   'The absence of a missing wake-up (P01, P18) and of blocking operations (P02, P22) is claimed instead.')

P['P26']['explain'] = ('Witness programs in witness/src/bin are type-checked against the current crate, once per backend: '
                       'each must compile, or be rejected with exactly the error its header names.')
P['P26']['tech'] = 'static analysis: type-level encoding, compile-pass and compile-fail witnesses'
P['P26']['assume'] = ['The Rust type checker is sound.', 'The witnesses represent the programs they stand for: the properties are signatures and auto traits, which do not depend on the program around them.', A_LINUX]
for _n in ('P01', 'P02', 'P18', 'P27'):
    P[_n]['tech'] += ', with exhaustive exploration of the product of effect automata'
