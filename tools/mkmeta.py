#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the harness files that exist."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'src/rpp/rpp/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[R + f if not f.startswith('src/') else f for f in files], mechanism=[dict(name=n, where=(w if w.startswith('src/') else R + w)) for n, w in mech]),
                  _note=note, _na=na))
ops = 'operators/'
prop('C01', 'Every observer sees values*, then at most one terminal event',
     'Whatever a source emits and in whatever order, an observer receives a sequence of values followed by at most one terminal notification (error or completion) and nothing after it. This holds for direct subscriptions and through every operator, also when the source emits from inside a callback.',
     ['inputs', 'histories', 'programs'], 'every sequence of events of a misbehaving source (also re-entrant, after terminal events and after disposal), every operator chain listed, arbitrary values',
     'Tests use well-behaved sources and check a handful of sequences; the contract quantifies over every emission sequence, in particular rule-breaking ones.',
     ['observers/observer.hpp', 'observers/lambda_observer.hpp', 'observables/observable.hpp'],
     [('terminal events dispose the observer before being forwarded; disposed observers drop events', 'observers/observer.hpp:observer_impl'), ('subscribe wraps strategies into observers', 'observables/observable.hpp:subscribe')])
prop('C02', 'An exception thrown by user code becomes exactly one on_error',
     'If a user-supplied function (mapper, predicate, accumulator, selector, comparator, value callback) throws while a value is processed, the observer receives exactly that exception as its single terminal error after the values already delivered, the source is released, and nothing escapes to the emitter.',
     ['inputs', 'fault_sequences', 'programs'], 'every position at which each callback can throw, every value sequence up to the bound',
     'Tests throw at one fixed position in a few operators; the guarantee is for every callback of every operator at every position.',
     ['observers/observer.hpp', ops + 'map.hpp', ops + 'group_by.hpp', ops + 'combine_latest.hpp', ops + 'scan.hpp'],
     [('exceptions in a strategy on_next are caught and turned into on_error', 'observers/observer.hpp:observer_impl::on_next'), ('source lambdas', 'sources/create.hpp')])
prop('C03', 'No notification after dispose() and the source is released by dispose()',
     'Once disposing a subscription has returned, its observer receives no further notification, whatever the source does and on whatever operator chain; the source can see it is disposed and its resources are released when dispose() returns, each exactly once. Disposal is possible from inside callbacks, between events and from another thread without deadlock.',
     ['inputs', 'histories', 'schedules', 'programs'], 'every disposal point (inside any callback, between any two events, concurrently with emission), every following event, each operator',
     'The tests dispose at one or two fixed points of a few operators and with polite sources.',
     ['observers/observer.hpp', 'disposables/composite_disposable.hpp', ops + 'details/combining_strategy.hpp', ops + 'group_by.hpp', ops + 'debounce.hpp'],
     [('is_disposed checks before each forward', 'observers/observer.hpp:observer_impl'), ('upstream chained through set_upstream', 'observers/details/disposable_strategy.hpp')])
prop('C04', 'A terminated stream releases everything upstream',
     'When a stream ends by error, completion or by an operator ending it early, the subscription to every source taking part in it is disposed by the time the terminal notification has been processed, exactly once, and each operator releases sources it no longer needs. Nothing stays subscribed after the final observer got its terminal event.',
     ['inputs', 'histories', 'programs'], 'every termination (error, completion, early end by operator) at every position, each operator, every event order of its sources',
     'Only a few tests look at upstream disposal and for one termination each.',
     ['observers/observer.hpp', ops + 'take.hpp', ops + 'merge.hpp', ops + 'concat.hpp', ops + 'take_until.hpp', ops + 'switch_on_next.hpp', ops + 'details/combining_strategy.hpp'],
     [('upstream disposed on terminal event', 'observers/observer.hpp:observer_impl::on_completed'), ('children removed on inner completion', 'operators/merge.hpp')])
prop('C05', 'Composite disposables own their children exactly once',
     'A composite disposable disposes every child it holds exactly once when it is disposed or cleared; a child added after disposal is disposed at once; a removed child is left alone; repeated disposal has no effect, and re-entrant operations on the composite from a child neither deadlock nor corrupt it. Fixed-capacity variants report overflow without losing a child.',
     ['histories', 'inputs'], 'every operation sequence up to the bound, with strong and weak children and re-entrant child callbacks',
     'Tests run a few fixed sequences; the bookkeeping must be right for every interleaving of add/remove/clear/dispose.',
     ['disposables/composite_disposable.hpp', 'disposables/details/container.hpp', 'disposables/disposable_wrapper.hpp'],
     [('state machine None/Edit/Disposed', 'disposables/composite_disposable.hpp:composite_disposable_impl'), ('containers', 'disposables/details/container.hpp')])
prop('C06', 'Composite disposables stay exactly-once under concurrency',
     'When several threads add, remove, clear and dispose on one composite disposable, there is no data race, deadlock or lost child: after it is disposed, every child handed to it and not removed has been disposed exactly once, under every schedule.',
     ['schedules', 'histories'], 'every schedule within the preemption bound of two threads running operations of every kind',
     'Stress tests sample schedules; the windows are a few instructions wide.',
     ['disposables/composite_disposable.hpp'],
     [('exchange on the atomic state, spinning on Edit', 'disposables/composite_disposable.hpp:exchange_current_state_if_can')])
prop('C07', 'Reference-counted disposables release exactly at the last reference',
     'A reference-counted disposable disposes its underlying resource exactly once: when the last reference is released or when it is disposed itself, never while a reference is still held, and references requested later are inert. This holds under concurrent acquire and release.',
     ['histories', 'schedules'], 'every sequence of acquire/release/dispose and every schedule within the preemption bound',
     'Tests use a few orders on a single thread.',
     ['disposables/refcount_disposable.hpp'], [('atomic counter and locking', 'disposables/refcount_disposable.hpp:refcount_disposable_impl')])
prop('C08', 'Disposables act at most once, wrappers are safe handles',
     'The action of a disposable runs at most once however often and from however many threads it is disposed, and exactly once if it was disposed at all; a weak handle whose disposable is gone is inert, an empty handle counts as disposed, and handles compare and reset by identity.',
     ['schedules', 'histories'], 'every schedule of concurrent dispose() calls within the preemption bound; every sequence of handle operations up to the bound',
     'Unit tests dispose twice from a single thread.',
     ['disposables/callback_disposable.hpp', 'disposables/details/base_disposable.hpp', 'disposables/disposable_wrapper.hpp'],
     [('atomic exchange decides the single winner', 'disposables/details/base_disposable.hpp:base_disposable_impl::dispose'), ('weak/strong variant', 'disposables/disposable_wrapper.hpp')])
prop('C09', 'map, filter and tap are exact per element',
     'map emits exactly the image of every value, filter exactly the values accepted by the predicate, and tap passes everything through while calling its callbacks once per matching event; order and the terminal event are preserved.',
     ['inputs', 'histories'], 'every event sequence up to the bound, all 32-bit values',
     'Tests use a few literal values.', [ops + 'map.hpp', ops + 'filter.hpp', ops + 'tap.hpp'],
     [('element-wise strategies', 'operators/map.hpp:map_observer_strategy')])
prop('C10', 'take/skip/first/last/element_at select exactly the named elements',
     'take(n), skip(n), take_last(n), take_while, first, last and element_at(i) deliver exactly the selected elements in order for every count, complete as soon as the result is determined, forward errors, and report a not-enough-elements/out-of-range error exactly when the requested element does not exist.',
     ['inputs', 'histories'], 'every event sequence up to the bound, all values, all 64-bit counts',
     'Tests fix a few counts and lengths.', [ops + 'take.hpp', ops + 'skip.hpp', ops + 'take_last.hpp', ops + 'take_while.hpp', ops + 'first.hpp', ops + 'last.hpp', ops + 'element_at.hpp'],
     [('counters', 'operators/take.hpp'), ('ring buffer', 'operators/take_last.hpp')])
prop('C11', 'scan, reduce and buffer aggregate in order without losing values',
     'scan emits every left fold prefix, reduce emits exactly the complete fold on completion, and buffer(n) partitions the values in order into chunks of n with the remainder flushed on completion, for every value type; an error is forwarded without emitting a partial result.',
     ['inputs', 'histories'], 'every event sequence up to the bound, all values, non-commutative accumulator, all small counts',
     'Tests use commutative sums over fixed sequences.', [ops + 'scan.hpp', ops + 'reduce.hpp', ops + 'buffer.hpp'],
     [('seed storage', 'operators/scan.hpp'), ('bucket flush', 'operators/buffer.hpp')])
prop('C12', 'distinct and distinct_until_changed drop exactly the repeated values',
     'distinct emits a value exactly when it has not been emitted before in this subscription; distinct_until_changed emits a value exactly when it differs, according to the given comparison, from the last emitted value.',
     ['inputs', 'histories'], 'every event sequence up to the bound over the stated value ranges and comparisons',
     'Tests use two or three fixed sequences.', [ops + 'distinct.hpp', ops + 'distinct_until_changed.hpp'],
     [('hash set of seen values', 'operators/distinct.hpp'), ('last value', 'operators/distinct_until_changed.hpp')])
prop('C13', 'window, window_toggle and group_by route every value to the right sub-stream',
     'window(n) delivers consecutive values in sub-streams of n, group_by delivers each value to the one sub-stream of its key (announced once), and window_toggle delivers each value to exactly the windows open at that moment; the terminal event reaches the outer stream and every open sub-stream exactly once. A consumer that unsubscribes from a sub-stream or the outer stream does not disturb the others, and the source is released when nobody listens any more.',
     ['inputs', 'histories'], 'every event order over source, openings and closings up to the bound, with unsubscription of the outer stream or of sub-streams at any point',
     'Tests cover few orders and hardly any unsubscription of sub-streams.', [ops + 'window.hpp', ops + 'window_toggle.hpp', ops + 'group_by.hpp', 'disposables/refcount_disposable.hpp'],
     [('sub-streams backed by subjects with shared ownership of the upstream', 'operators/window.hpp'), ('key map', 'operators/group_by.hpp')])
prop('C14', 'concat, start_with and repeat play sources strictly one after another',
     'concat, start_with and repeat deliver every value of a source before anything of the next one, subscribe to the next source only when the previous one has completed, complete after the last one, stop at the first error, and never have two of the sources subscribed at once; sources which play on subscription do not nest, however many follow each other.',
     ['inputs', 'histories'], 'every event order of the sources up to the bound, including synchronous and delayed completion and disposal at any point',
     'Tests cover fixed completions of two sources.', [ops + 'concat.hpp', 'sources/concat.hpp', ops + 'start_with.hpp', ops + 'repeat.hpp'],
     [('stage machine Draining/Processing/CompletedWhileDraining', 'operators/concat.hpp'), ('queue of pending sources', 'operators/concat.hpp:concat_state_t')])
prop('C15', 'merge and flat_map deliver every value of every source once',
     'Merging operators deliver every value of every inner source exactly once in arrival order, complete only when the outer and all inner sources have completed, and on the first error deliver it, release all other sources and go silent.',
     ['inputs', 'histories'], 'every event order over the sources up to the bound with arbitrary kinds and values',
     'Tests use a few orders.', [ops + 'merge.hpp', ops + 'flat_map.hpp'],
     [('count of running sources', 'operators/merge.hpp:merge_state')])
prop('C16', 'switch_on_next follows only the newest inner source',
     'After a new inner source arrives, only its values are delivered; the previous one is released at that moment; the stream completes exactly when the outer and the current inner source have completed, and errors of the outer or current inner end it.',
     ['inputs', 'histories'], 'every event order over the outer and inner sources up to the bound',
     'Tests use a few orders.', [ops + 'switch_on_next.hpp'], [('current inner disposable replaced', 'operators/switch_on_next.hpp')])
prop('C17', 'combine_latest, zip and with_latest_from pair the right values',
     'combine_latest emits the combination of the latest values on every event once all sources have a value, zip combines the i-th values of all sources exactly once, and with_latest_from emits on source values only, with the latest others; terminal events follow the documented rule of each.',
     ['inputs', 'histories'], 'every event order over 2-3 sources up to the bound, arbitrary values, non-commutative combiner',
     'Tests check a few interleavings of two sources.', [ops + 'combine_latest.hpp', ops + 'zip.hpp', ops + 'with_latest_from.hpp', ops + 'details/combining_strategy.hpp'],
     [('optional slots', 'operators/combine_latest.hpp'), ('pending queues', 'operators/zip.hpp')])
prop('C18', 'take_until ends exactly at the notifier',
     'take_until forwards the source unchanged until the notifier emits, completes or errors; then the stream ends accordingly and both are released, and neither delivers anything afterwards.',
     ['inputs', 'histories'], 'every event order over source and notifier up to the bound', 'Tests use a few orders.',
     [ops + 'take_until.hpp'], [('shared state ends both', 'operators/take_until.hpp')])
prop('C19', 'retry, retry_when and on_error_resume_next recover exactly as documented',
     'retry(n) resubscribes after each error at most n times and then forwards the last error, retry_when resubscribes once per notifier value and forwards its termination, on_error_resume_next continues with the selected source; values already delivered are kept, completion ends the stream, the failed subscription is released before a new one is made, and a throwing selector becomes the error. Attempts do not nest: the stack does not grow with their number.',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of source outcomes up to the bound, every retry count, notifier behaviours including synchronous, asynchronous, erroring and throwing',
     'Tests check a couple of counts.', [ops + 'retry.hpp', ops + 'retry_when.hpp', ops + 'on_error_resume_next.hpp'],
     [('resubscription trampoline', 'operators/retry.hpp'), ('notifier subscription', 'operators/retry_when.hpp')])
prop('C20', 'Subjects multicast and replay exactly what they promise',
     'A publish subject delivers each event to exactly the observers subscribed at that time, in order; a behavior subject first hands a new subscriber the latest value; a replay subject first hands it the retained values in order within its count and age limits; after termination every new subscriber gets the retained values (where promised) and the terminal event only. Unsubscribing one observer, also during delivery, never affects another.',
     ['inputs', 'histories'], 'every operation sequence (subscribe, unsubscribe, emit, terminate, also re-entrantly) up to the bound, all limits',
     'Tests run fixed scripts.', ['subjects/publish_subject.hpp', 'subjects/behavior_subject.hpp', 'subjects/replay_subject.hpp', 'subjects/details/subject_state.hpp'],
     [('observer list snapshot', 'subjects/details/subject_state.hpp:subject_state'), ('bounded replay buffer', 'subjects/replay_subject.hpp')])
prop('C21', 'Subjects are safe and serialized under concurrent use',
     'Subscribing, unsubscribing and terminating a subject while another thread emits is free of data races, crashes and deadlocks; serialized subjects never run two notifications of one observer at once; an observer subscribed before an emission starts receives it, and every remaining observer gets the terminal event exactly once.',
     ['schedules', 'histories'], 'every schedule within the preemption bound of 2 threads',
     'Races appear only in windows of a few instructions.', ['subjects/details/subject_state.hpp', 'subjects/publish_subject.hpp', 'subjects/behavior_subject.hpp', 'subjects/replay_subject.hpp'],
     [('mutex around the observer list', 'subjects/details/subject_state.hpp'), ('serialization mutex', 'subjects/details/subject_on_subscribe.hpp')])
prop('C22', 'Connectable sharing subscribes to the source once and lets go at the end',
     'publish/multicast subscribe to the source only on connect and once per connection; ref_count connects at the first subscriber and disconnects exactly when the last one leaves, and can connect again; every current subscriber sees the same events.',
     ['histories', 'inputs', 'schedules'], 'every sequence of connect/disconnect/subscribe/unsubscribe/emit up to the bound; concurrent subscribe and unsubscribe within the preemption bound',
     'Tests use two subscribers in one order.', ['observables/connectable_observable.hpp', ops + 'ref_count.hpp', ops + 'multicast.hpp', ops + 'publish.hpp'],
     [('connection disposable under mutex', 'observables/connectable_observable.hpp'), ('shared reference count', 'operators/ref_count.hpp')])
prop('C23', 'Sources emit exactly their contents and stop when disposed',
     'just, from_iterable, from_callable, create, defer, empty, error, never, concat, interval and timer emit exactly the values they promise, in order, on the scheduler asked for, followed by the right terminal event; they stop as soon as the subscriber is disposed, and an exception from an iterator or callable becomes the error of that subscription.',
     ['inputs', 'fault_sequences', 'histories'], 'all lengths and values up to the bound, every disposal point, every throwing position',
     'Tests use fixed lists and no throwing iterators.', ['sources/from.hpp', 'sources/just.hpp', 'sources/create.hpp', 'sources/defer.hpp', 'sources/interval.hpp', 'sources/timer.hpp', 'sources/empty.hpp', 'sources/error.hpp', 'sources/never.hpp', 'sources/concat.hpp'],
     [('re-scheduling iterable emission', 'sources/from.hpp')])
prop('C24', 'Single-threaded schedulers run tasks by time point, never early, never lost',
     'immediate, current_thread, run_loop and the test scheduler run every task exactly as often as it was scheduled, never before its time point, earlier time points first and equal ones in submission order, without nesting on trampolining schedulers; disposed tasks are skipped, re-scheduling requests are honoured, and an exception goes to the handler of its task only. The stack does not grow with the number of tasks run, re-scheduled or dropped.',
     ['inputs', 'histories'], 'all delays, re-scheduling kinds, slowness, throwing and disposal up to the bound',
     'Tests use few fixed delays; ordering must hold for all relative delays.', ['schedulers/immediate.hpp', 'schedulers/current_thread.hpp', 'schedulers/run_loop.hpp', 'schedulers/test_scheduler.hpp', 'schedulers/details/queue.hpp', 'schedulers/details/utils.hpp'],
     [('sorted queue', 'schedulers/details/queue.hpp:schedulables_queue'), ('trampoline', 'schedulers/current_thread.hpp:drain_queue')])
prop('C25', 'Thread schedulers run every task once, in order, and stop cleanly',
     'new_thread and thread_pool run the tasks of one worker one at a time on a single background thread, by time point then submission order, never early and never lost, while other threads schedule and dispose concurrently; when the worker is dropped the tasks already scheduled still run and the thread then ends, without deadlock, use after free or data race.',
     ['schedules', 'inputs', 'histories'], 'every schedule within the preemption bound of the submitting and worker threads, arbitrary delays up to the bound',
     'Tests sample schedules; lost wake-ups and shutdown races need particular interleavings.', ['schedulers/new_thread.hpp', 'schedulers/thread_pool.hpp', 'schedulers/computational.hpp', 'schedulers/current_thread.hpp', 'schedulers/details/queue.hpp'],
     [('mutex + condition variable queue', 'schedulers/details/queue.hpp'), ('worker disposable stops the thread', 'schedulers/new_thread.hpp')])
prop('C26', 'Time and thread shifting operators keep every event, in order, at the right time',
     'delay, observe_on and subscribe_on deliver the same values in order at or after the right time on the right scheduler; debounce emits exactly the values followed by enough silence (and the pending one on completion), throttle the first of each interval, and timeout fails or switches exactly when no value came in time.',
     ['inputs', 'histories', 'schedules'], 'all arrival times and periods up to the bound with virtual time; every schedule within the preemption bound for the threaded parts',
     'Tests use a few fixed time lines.', [ops + 'delay.hpp', ops + 'observe_on.hpp', ops + 'subscribe_on.hpp', ops + 'debounce.hpp', ops + 'throttle.hpp', ops + 'timeout.hpp'],
     [('emission queue drained on the worker', 'operators/delay.hpp'), ('time-point check on the scheduler', 'operators/debounce.hpp'), ('refreshed time limit', 'operators/timeout.hpp')])
prop('C27', 'Combining operators serialize concurrent sources',
     'When the sources of a combining operator emit, fail or complete concurrently from different threads, the observer never gets overlapping notifications, what it gets is the result of some interleaving of the sources (so no value of a completed merge or concat is lost), at most one terminal event is delivered and nothing after it; there is no data race and no deadlock.',
     ['schedules', 'histories'], 'every schedule within the preemption bound of two emitting threads for merge, flat_map, concat, switch, take_until, combine_latest, zip, with_latest_from, window_toggle, retry_when and the timed operators',
     'The few multi-threaded tests sample schedules.', [ops + 'merge.hpp', ops + 'combine_latest.hpp', ops + 'zip.hpp', ops + 'with_latest_from.hpp', ops + 'take_until.hpp', ops + 'switch_on_next.hpp', ops + 'concat.hpp', ops + 'window_toggle.hpp', ops + 'timeout.hpp', ops + 'debounce.hpp', 'utils/utils.hpp'],
     [('observer guarded by a mutex', 'utils/utils.hpp:value_with_mutex'), ('atomic completion counters', 'operators/merge.hpp')])
prop('C28', 'Blocking subscriptions return exactly when the stream ends',
     'Blocking subscription delivers every event and returns after, and only after, the terminal event or the disposal, whichever thread produces it; the wake-up is never lost and nothing touches the waiting thread\'s state after it returned.',
     ['schedules', 'inputs'], 'every schedule within the preemption bound of the emitting and the blocked thread', 'Lost wake-ups need particular schedules.',
     [ops + 'as_blocking.hpp', 'observables/blocking_observable.hpp'], [('condition variable with flag', 'observables/blocking_observable.hpp')])
prop('C29', 'finally runs its callback exactly once, after the stream has ended',
     'The callback of finally runs exactly once per subscription, whatever ends it: error, completion, disposal by the observer or early end by an operator downstream, and not before the stream has ended.',
     ['histories', 'inputs', 'schedules'], 'every ending at every position, also concurrent endings within the preemption bound', 'Tests check one ending each.',
     [ops + 'finally.hpp'], [('callback disposable in the upstream chain', 'operators/finally.hpp')])
prop('C30', 'Every consumer receives the intact value',
     'A value handed to several consumers (observers of a subject, merged branches, replay buffers, tapped streams) or emitted repeatedly arrives unmodified at each of them: no consumer ever sees a moved-from or overwritten value, and lvalues passed by the user are never modified.',
     ['inputs', 'programs'], 'every operator chain listed with a value type that records moves, every event sequence up to the bound', 'Tests count copies for a few chains but use trivially movable payloads otherwise.',
     ['subjects/details/subject_state.hpp', 'subjects/replay_subject.hpp', ops + 'tap.hpp', ops + 'combine_latest.hpp', ops + 'repeat.hpp', 'sources/from.hpp', 'sources/just.hpp'],
     [('forwarding only where owned', 'observers/observer.hpp')])
prop('C31', 'Dropping a finished or disposed stream frees everything',
     'After a subscription has ended or has been disposed and the user has dropped his handles, no observer, callback, value or disposable of it stays alive: the library creates no ownership cycle and frees nothing twice.',
     ['histories', 'programs', 'inputs'], 'every operator chain listed, ended at every position in every way', 'Leaks show only for particular endings.',
     ['disposables/composite_disposable.hpp', 'observers/details/disposable_strategy.hpp', ops + 'ref_count.hpp', ops + 'group_by.hpp', ops + 'window.hpp', 'subjects/details/subject_state.hpp'],
     [('weak back references', 'disposables/disposable_wrapper.hpp')])
prop('C32', 'Memory model choice does not change behaviour',
     'Sources built with stack storage and with shared storage emit identical event sequences, and copies of an observable behave like the original.',
     ['inputs', 'configurations'], 'all contents up to the bound under both storage choices', 'Tests run most cases under the default model only.',
     ['memory_model.hpp', 'sources/from.hpp', 'sources/just.hpp'], [('container chosen by the memory model', 'sources/from.hpp:shared_container')])
prop('C33', 'Type erasure and chaining are transparent',
     'Converting observables, observers, subjects or connectables to their dynamic form and composing operators by chaining, by operator pipes or via subscription in pieces does not change the events observed or the disposal behaviour.',
     ['inputs', 'programs'], 'every event sequence up to the bound through each equivalent composition', 'Tests compare few compositions.',
     ['observers/dynamic_observer.hpp', 'observables/dynamic_observable.hpp', 'observables/details/chain_strategy.hpp', 'observables/variant_observable.hpp'],
     [('vtable-like type erasure', 'observers/dynamic_observer.hpp'), ('nested strategies', 'observables/details/chain_strategy.hpp')])
prop('C34', 'Extension schedulers and adapters keep the scheduler and observer contracts',
     'The Asio and Qt schedulers run each scheduled task on their context, as often as it asks, never before its time, never after disposal, and report its exception to its handler; from_signal forwards every signal with its arguments and completes when the object dies; the gRPC reactors emit every message read, write every message emitted to them in order and one at a time, start nothing the gRPC contract forbids, finish the RPC exactly once with a status that tells how their observer ended, and give their observable exactly one matching terminal event.',
     ['schedules', 'histories', 'inputs'], 'every event order of the adapted framework (modelled by its documented contract) up to the bound, within the preemption bound for concurrent events',
     'Tests run few orders against the real frameworks, whose schedules they do not control.',
     ['src/extensions/rppasio/rppasio/schedulers/strand.hpp', 'src/extensions/rppqt/rppqt/schedulers/main_thread.hpp', 'src/extensions/rppqt/rppqt/sources/from_signal.hpp', 'src/extensions/rppgrpc/rppgrpc/client_reactor.hpp', 'src/extensions/rppgrpc/rppgrpc/server_reactor.hpp'],
     [('strand post with time point', 'src/extensions/rppasio/rppasio/schedulers/strand.hpp'), ('reactor callbacks', 'src/extensions/rppgrpc/rppgrpc/client_reactor.hpp')])
prop('C35', 'Subscriptions to a cold observable are independent',
     'Subscribing several times to the same observable, one after another, interleaved or from inside a callback, gives each subscription its own complete and correct sequence: no operator state leaks from one subscription to another.',
     ['histories', 'programs', 'inputs'], 'every operator chain listed, every interleaving of two subscriptions up to the bound', 'Tests subscribe once per observable.',
     ['observables/observable.hpp', ops + 'scan.hpp', ops + 'distinct.hpp', ops + 'take.hpp', ops + 'details/strategy.hpp'],
     [('state lives in the observer strategy', 'operators/details/strategy.hpp')])

HOW = {}
def main():
    checks, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    for p in P:
        i = p['id']
        hs = sorted(glob.glob(os.path.join(V, 'harness', i + '.cpp')) + glob.glob(os.path.join(V, 'harness', i + '_*.cpp')))
        if p['_na'] or not hs:
            na.append({'property': i, 'reason': p['_na'] or 'no check has been built for it yet'})
            continue
        b = []
        for h in hs:
            for line in open(h):
                if line.startswith('//@ bound:') and line[10:].strip() not in b:
                    b.append(line[10:].strip())
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': 'symbolic execution of the LLVM IR of the real headers (data and thread schedule symbolic), assertions decided by Z3, counterexamples replayed natively',
                       'level': 'model_checking', 'level_note': (p['_note'] or 'Bounded: ') + '; '.join(b)})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'One engine (engine/) executes the optimised LLVM IR of harness/<id>*.cpp compiled against /repo/src; see DESIGN.md. Repairs and findings: known_findings.json.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    t = []
    for p in P:
        c = [x for x in checks if x['property'] == p['id']]
        n = [x for x in na if x['property'] == p['id']]
        t.append('**%s %s.** ' % (p['id'], p['title']) + (HOW.get(p['id'], '') + ' Bounds: ' + c[0]['level_note'].replace('Bounded: ', '') if c else 'Not claimed: ' + n[0]['reason']))
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    fi = ['* ' + x for x in kf['fixed']] + ['* known finding, property %s: %s' % (x['property'], x['what']) for x in kf['findings']]
    se = []
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        j = json.load(open(d))
        se.append('* `%s` (%s): %s - %s' % (os.path.basename(os.path.dirname(d)), j['property'], j['what_it_breaks'], 'caught by ' + j['caught_by'] if j.get('caught_by') else 'not caught'))
    d = open(os.path.join(V, 'tools', 'DESIGN.in.md')).read()
    d = d.replace('@@TABLE@@', '\n\n'.join(t)).replace('@@FINDINGS@@', '\n'.join(fi)).replace('@@SEEDED@@', '\n'.join(se))
    open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
main()
