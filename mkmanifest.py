#!/usr/bin/env python3
"""Writes MANIFEST.json (kept as a script so that the texts stay in one place)."""
import json, os
D = 'deterministic simulation with fault injection: '
CH = {
 'C01': ('fault_enumeration', D + 'every end-of-input position and resumption of each seeded stream, against an executable reference model',
   'Each case ends the seeded stream at every position (bounded per case) and resumes it after the end in several ways.'),
 'C02': ('exploration', D + 'request/conversion trace of a recorded argument source with stalls, lying size hints and endless tails, against an executable reference model', ''),
 'C03': ('fault_enumeration', D + 'every conversion call of a seeded run fails in turn; conversion trace and error against an executable reference model', ''),
 'C04': ('exploration', D + 'drop ledger and allocator balance over repeated runs with failures at seeded points', 'A leak counts when it repeats, so one-time lazy initialisation is allowed.'),
 'C05': ('exploration', D + 'seeded interleavings of independent argument producers, compared with each other and with an executable reference model', ''),
 'C06': ('exploration', D + 'seeded preemptive schedules of several client threads, nesting and histories; outcomes against the model and against the same parse alone in a fresh process', 'Threads switch at callbacks, sink writes, allocations, lock waits and every branch of the instrumented code.'),
 'C07': ('exploration', D + 'seeded loss, duplication, delay and reordering of arguments; accounting of every delivered argument and an executable reference model', ''),
 'C08': ('exploration', D + 'seeded bit flips, truncation, joining, splitting and raw bytes in arguments; totality and an executable reference model', ''),
 'C09': ('exploration', D + 'constraint monitors on every accepted result under seeded loss, duplication and reordering, and an executable reference model', ''),
 'C10': ('exploration', D + 'mode switches injected and moved at seeded positions of the stream, against an executable reference model', ''),
 'C11': ('exploration', D + 'failing, short and interrupted sinks and failing error texts at seeded and enumerated points; prefix, propagation and re-rendering', ''),
 'C12': ('fault_enumeration', D + 'the formatting of each default fails at each chunk in turn; help text spliced from the fault-free text', ''),
 'C13': ('exploration', D + 'entry point run in forked child processes behind an interposed write(2) with seeded results and closed descriptors; exit status and bytes', ''),
 'C15': ('exploration', D + 'arguments reframed in transit (name, form, bundling, attachment, delimiting) in streams with damage, loss and failing conversions; outcomes and conversions compared between framings', 'Framings are compared with each other; the model only says which framings mean the same.'),
 'C16': ('exploration', D + 'value types with several conversions that record and fail in turn under damaged values; conversions, results and errors against an executable reference model', ''),
 'C17': ('exploration', D + 'enum values damaged in transit (cut, extended, respelled, other case) for seeded enums and renamings, against an independent model of the names', ''),
 'C19': ('exploration', D + 'help requests arriving at every position of seeded, partly damaged streams; the words of the help against an independent model of its content', 'Layout (white space) is not judged; where an argument has a short name outside ASCII, usage may or may not show it.'),
 'C21': ('exploration', D + 'deterministic cost accounting (branches, bytes moved, bytes allocated) while a seeded part of the stream is repeated n, 4n and 16n times, failing conversions at the end', 'Work is counted in the instrumented code and the C library memory functions, not in precompiled std code; growth by up to half more than proportional is tolerated.'),
 'C22': ('exploration', D + 'seeded environment, clock, terminal, directory and randomness behind interposed C library calls; outcomes compared between environments and with an executable reference model, effects recorded', 'Calls that bypass the C library (raw system calls) are not seen.'),
 'C18': ('exploration', D + 'contradictions injected as faults into seeded sound definitions expanded by simulated macro servers (threads, order, hash seeds); diagnostics against where the contradiction was put', 'Judges the listed kinds of contradictions; sound definitions must expand without a diagnostic and compile.'),
 'C14': ('exploration', D + 'macro expansions under seeded hash seeds, histories, threads and damaged definitions, against the pristine expansion', ''),
}
NOTE = ('Holds for all seeded runs explored, not for all inputs; trusts the reference model and the generated definitions '
        '(240 quick, 480 thorough, two build flavours). Every alarm is a replayable, minimised plan.')
NOTE14 = 'Holds for all seeded runs explored; the macro code is the working tree\'s, run as a library over proc_macro2 tokens.'
PURE = 'pure function of its input; no schedule, time, I/O, fault or second party for the property to depend on'
NA = {
 'C20': 'cost and size, not behaviour; a simulator replaces the very machine it would be measured on',
}
have14 = os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'macrocheck.py'))
if not have14:
    CH.pop('C14')
    NA['C14'] = 'check under construction'
m = {'version': 1, 'setup_cmd': './setup',
     'checks': [{'property': k, 'quick_cmd': f'./check {k}', 'thorough_cmd': f'./check {k} --tier thorough',
                 'evidence_file': f'evidence/{k}.json', 'technique': t, 'level': l,
                 'level_note': ((n + ' ') if n else '') + (NOTE14 if k in ('C14', 'C18') else NOTE)} for k, (l, t, n) in CH.items()],
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo: every seam already exists (argument iterator, trait impls, fmt::Write, global allocator, libc symbols). '
              'Replay: ./replay FILE. Known and fixed findings: KNOWN_FINDINGS.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
