#!/usr/bin/env python3
"""Writes MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 'C02': ('token ledger of calls and handler runs, checked online, under ASan/UBSan with schedule perturbation', 'Every completed call is matched against the handler invocation that produced it; windows, wait modes, deferral, in-progress queries, departed clients whose handle is reused.'),
 'C03': ('exactly-once and order monitor over request tokens under ASan/UBSan and stress', 'Every sent request is accounted for against handler runs (count, content, identity, order without workers), also beyond the worker queues and after disconnects.'),
 'C04': ('delivery ledger against a subscription model under ASan/UBSan', 'Events are checked against a per-client subscription model in quiescent phases: exact receivers, exactly once, content, per-sender order.'),
 'C05': ('scripted peer, state monitor on wait results and logical hang detector', 'A peer controlled by the monitor decides what has arrived; every return and non-return of a wait is judged against it.'),
 'C06': ('ledger of forbidden and expected calls under ASan/UBSan', 'Random unsupported services and functions next to supported ones, dynamic registration, unknown events.'),
 'C07': ('hostile byte streams with known verdicts against a server under ASan/UBSan, healthy clients as witnesses', 'Garbage, wrong lengths, cuts and disconnects at every point; the framing the server has to recognise is known to the generator of the stream.'),
 'C08': ('hostile byte streams with known verdicts against a client under ASan/UBSan', 'Same for the client; every wait and poll result is judged against the bytes sent.'),
 'C09': ('connection accounting monitor (announcements, descriptors, refused sends) under ASan/UBSan', 'Connect and disconnect announcements are matched against real connections over many ways to leave while responses and events are in flight.'),
 'C10': ('reference interval map and content patterns over random operation histories under ASan/UBSan and TSan', 'Every block is compared with all live blocks and verified by content; the pool must give back its largest block when empty.'),
 'C11': ('reference models (map, FIFO, multiset) over random operation histories under ASan/UBSan and TSan', 'Differential check of every observable result, adversarial hash distributions, growth and shrink.'),
 'C12': ('ThreadSanitizer over all concurrent scenarios with seeded schedule perturbation', 'Happens-before race detection over the library under every concurrent workload; a race is reported if the two accesses are unordered in an observed execution.'),
 'C13': ('shutdown at random moments with descriptor, thread, memory and handler accounting, hang detector', 'Rounds of creating, using and stopping servers and clients; leaks and handlers after the stop are reported.'),
 'C14': ('token ledger and subscription model over datagrams under ASan/UBSan', 'Every response and event is matched on the loopback link; malformed datagrams must run nothing.'),
 'C16': ('heap and descriptor accounting at quiescent points plus ASan/UBSan/LSan over long mixes', 'Held memory at points without any client may not grow with the number of operations; every other scenario contributes memory errors and leaks.'),
 'C17': ('size sweep with content monitor and contended senders under ASan/UBSan', 'Boundary sizes for many configured maxima and worker counts, both directions, tiny socket buffers.'),
 'C18': ('misuse sequences with state witnesses under ASan/UBSan', 'Each refused operation is followed by checks that everything else still works.'),
 'C19': ('failure injection into every acquisition of the library, ledger of failures vs affected operations under ASan/UBSan and TSan', 'Every allocation, descriptor, poll registration, thread and transmission fails in turn, alone, and in random sequences; each failure may cost one operation or connection.'),
 'C01': ('generated protocols executed against a reference model of the values under ASan/UBSan', 'Random definitions and values; the generated code of both sides runs against message buffers of exact size.'),
 'C15': ('compiler runs on generated valid and invalid definitions with accept/reject and symbol oracles', 'Definitions are built from the grammar; invalid ones by mutations with a known verdict; the output is compiled and its numbers compared.'),
}
NOT = {}
if not os.path.exists(os.path.join(HERE, 'vlib', 'gencheck.py')):
    for p in ('C01', 'C15'):
        T.pop(p); NOT[p] = 'check under construction'
m = {'version': 1, 'setup_cmd': 'python3 vlib/build.py asan tsan', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT.items())],
     'notes': 'No hooks in /repo are needed: threads.h is replaced by include path and socket calls are wrapped at link time, in the check builds only.'}
for p in sorted(T):
    t, n = T[p]
    m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                        'technique': t, 'level': 'exploration', 'level_note': n + ' Executions are sampled; sanitizers and the harness are trusted.'})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
