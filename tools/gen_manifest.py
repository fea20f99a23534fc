#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: '
TRUST = (' Trusted: the simulator in sim/ (scheduler, in-memory file system, pipes, clock), sequentially consistent memory, threads '
         'interleaving only at intercepted points. A sampled search, not a proof: it covers the seeds run.')
C = {
 'C01': ('seeded edit histories and schedules; final state compared with a freshly started server and a reference interpreter',
         'Real server, seeded schedules that cancel analyses part-way; oracle is a fresh start plus an independent interpreter of the generated language subset.'),
 'C02': ('seeded edit sequences and schedules; text compared with an independent text model',
         'Every character of the generated texts shows up in diagnostics or token positions, so a wrong character or position is visible.'),
 'C03': ('seeded request/edit histories and schedules; exactly-once check and comparison of answers with a fresh server',
         'Every request is matched to its responses on the recorded history; answers are compared unless a newer text was sent.'),
 'C04': ('seeded input chunkings, delays, output backpressure and concurrent writers; framing checked on every byte written',
         'The simulated pipes split, delay and stall streams arbitrarily; the client re-parses every output byte strictly.'),
 'C05': ('malformed-message injection into seeded sessions; surrounding session compared with a fresh server',
         'Mutated, truncated, retyped, unknown and out-of-order frames at random points of sessions with edits, requests and traces.'),
 'C06': ('end of input, shutdown, exit and broken output at random instants; bounded liveness and memory checks',
         'The simulator detects deadlock, livelock (bounded simulated time and steps), leaked threads, invalid memory accesses and the exit status.'),
 'C07': ('several simulated debug sessions and schedules; per-session protocol check and reference interpreter',
         'Every session history is checked message by message; each trace is compared with the interpreter of its own program.'),
 'C08': ('seeded command sequences and schedules; stops, stacks and variables compared with a reference interpreter',
         'Sequential reference interpreter of the generated language subset decides each stop; lost wake-ups show as deadlocks of the simulation.'),
 'C09': ('traces and editing interleaved under seeded schedules; both compared with running alone',
         'Traces compared with the interpreter on the text at launch, the editor with a fresh server without traces, memory errors detected by the simulator.'),
 'C10': ('seeded sequences of valid and invalid configurations, on disk and in the editor; comparison with restart and model',
         'After every history the server is compared with a restart; while broken, with a server that has the last valid configuration.'),
 'C11': ('file-system fault injection at every intercepted call; degradation and recovery compared with fresh servers',
         'Open, read, short read, premature end, stat, listing errors and descriptor exhaustion; liveness during, exact recovery after.'),
 'C12': ('seeded open/edit/save/close/disk-change histories on a simulated disk; comparison with fresh start and model',
         'The simulated disk and the editor disagree at random; the model knows which one counts.'),
 'C13': ('seeded add/remove sequences of related folders; comparison with starting with the final set and model',
         'Nested, sibling, same-named and prefix-related folders with configurations of their own.'),
 'C14': ('edits at random instants of a running analysis; every publication compared with the sequential reference',
         'Each published set is matched to one text of the document; indexes must never decrease.'),
}
NA = {
 'C90': 'Pure function of the source text: no schedule, clock, I/O or fault influences it, so deterministic simulation adds nothing to an ordinary differential test against a language reference, and no independent implementation of the whole language is available offline. (The subset used by the reference interpreter is exercised by C01 and C08.)',
 'C91': 'Pure function of one statement: no concurrency, time, I/O or multi-party behaviour for a simulator to control; needs an independent instruction table as oracle.',
 'C92': 'Pure function of the text: nothing nondeterministic to simulate; needs an independent lexer as oracle.',
 'C93': 'Runs inside the VS Code extension host (TypeScript), which is not available offline; none of it is part of the process that is simulated.',
}
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py',
     'hooks': {'guard': 'none: no hooks were added to /repo', 'enable': 'The simulator interposes pthread, file, stream and clock functions at link time and compiles /repo\'s sources with its own flags (tools/build.py); /repo contains no instrumentation.', 'source_commits': []},
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p, 'evidence_file': 'evidence/%s.json' % p,
                 'technique': T + t, 'level': 'exploration', 'level_note': n + TRUST} for p, (t, n) in C.items()],
     'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()],
     'notes': 'Replay a violation with: python3 check.py <property> --replay <file>. known/findings.json lists known findings and repaired defects.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
