#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: '
TRUST = (' The libsbp and libswiftnav functions the tools need are stand-ins written for this simulator (the submodules are'
         ' not in this checkout); everything in /repo that the property is about runs unmodified, compiled from the working tree.')
CLAIM = {
 'C01': ('exploration', 'seeded byte streams delivered under seeded read schedules, read errors and EOF; outputs compared between schedules',
         'Sampled streams and schedules; the oracle is the converter itself under another delivery schedule plus release-at-last-byte timing.'),
 'C02': ('exploration', 'seeded corruption, truncation, splicing and garbage injected in frame streams; output compared with that of the intact frames alone',
         'Sampled corruption; intact frames are found by an independent CRC-24Q deframer. A false header at the very end of the stream may hold back later bytes, which the harness settles with padding.'),
 'C03': ('exploration', 'seeded multi-station RTCM histories with frames lost, duplicated, delayed; output checked against an independent reference model of epoch assembly and field conversion',
         'Sampled histories; independent decoder and model in sim/rtcm_bits.h and sim/rtcm_model.h.'),
 'C04': ('exploration', 'simulated time sources and observation streams around week and day rollovers, loss and reordering; times and gating checked against the reference model',
         'Sampled histories over weeks 1877-2600.'),
 'C05': ('exploration', 'interleaved MSM and legacy streams and 1230/1033 messages over simulated time; emitted observations and biases checked against the reference model',
         'Sampled histories; times exactly 5 s apart that are not exact as doubles may go either way.'),
 'C06': ('exploration', 'seeded SSR orbit, clock, combined and bias messages with loss, duplication and reordering; pairing checked against the reference model',
         'Sampled histories.'),
 'C07': ('exploration', 'seeded interleavings of ephemerides, station, text, wrapped and observation messages; each converted message compared field by field with an independent decoder',
         'Sampled histories and contents.'),
 'C08': ('exploration', 'threads as coroutines under a seeded scheduler that preempts at every memory access and atomic operation and stops threads for good at arbitrary accesses; histories checked for linearizability',
         'Sampled schedules of 2-4 threads with up to 5 operations each; sequentially consistent memory.'),
 'C09': ('exploration', 'seeded UBX byte streams delivered under seeded read schedules, read errors, EOF and corruption; outputs compared between schedules and with an independent deframer',
         'Sampled streams, schedules and corruption.'),
 'C10': ('exploration', 'seeded UBX message histories with loss, duplication, delay, truncated and extended payloads; each output message checked against an independent reference model',
         'Sampled histories and contents; VEL_ECEF accuracy scaling is not judged.'),
 'C11': ('exploration', 'simulated satellites broadcasting issues of navigation data over a link that loses, repeats and reorders frames; each ephemeris traced to the registry of issues sent',
         'Sampled histories of up to 6 satellites.'),
 'C12': ('exploration', 'simulated sensor clock with counter wraps, gaps, restarts, week rollovers and lost messages; times and counts checked against a reference model',
         'Sampled histories.'),
 'C13': ('exploration', 'seeded iXCOM byte streams under seeded read schedules, read errors, EOF and corruption; output checked against an independent deframer and reference model',
         'Sampled streams, schedules and corruption.'),
 'C14': ('exploration', 'seeded NovAtel byte streams under seeded read schedules, read errors, EOF and corruption; outputs compared between schedules and with an independent deframer',
         'Sampled streams, schedules and corruption.'),
 'C16': ('exploration', 'seeded SBP streams with packets lost, repeated, reordered and damaged under seeded read schedules; every RTCM frame decoded by an independent decoder and compared with a reference model of the sequence buffer',
         'Sampled histories and contents; the tool itself (fixed MSM5) and the callbacks in MSM4, MSM5 and legacy mode.'),
 'C17': ('exploration', 'two converters joined by a simulated link that loses, repeats, delays, flips, cuts and splices RTCM frames; what comes back compared with what was sent, completeness after the last fault',
         'Sampled streams and link faults; an end-of-epoch packet without observations and time is not judged; completeness is demanded of epochs with GPS observations (GLONASS alone is refused more than 30 s from the time known).'),
 'C18': ('exploration', 'seeded call sequences on the buffered interface: output buffer sizes, reads per message, interleaved instances and failing allocations; bytes compared with those of the streaming callbacks',
         'Sampled call sequences.'),
 'C19': ('exploration', 'a simulated receiver whose solution messages and observation packets are lost, repeated and delayed epoch by epoch; every sentence checked against a reference model of what each sentence needs and contains',
         'Sampled histories and contents; 60th seconds that round up and epochs off the solution grid are not judged.'),
 'C20': ('exploration', 'simulated epochs over gaps, drifting and jumping clocks and week rollovers at many solution frequencies and rates; the epochs of every sentence checked against a reference model',
         'Sampled histories; epochs early, or late by about half a solution period or more, are not judged.'),
 'C15': ('exploration', 'seeded NovAtel message histories with loss, duplication, reordering, clock steps and week rollover; each output message checked against an independent reference model',
         'Sampled histories and contents.'),
 'C21': ('exploration', 'all converters under seeded traffic and pieces of recordings mutated under valid checksums, with short reads, read errors, early end and failing writes; sanitizers, end of run and well-formedness of the output checked',
         'Sampled inputs and faults; memory errors are those AddressSanitizer and the bounds, null and division checks see.'),
 'C22': ('exploration', 'two to four conversions per run: alone in different memory, one after another in the memory left over, after an abandoned one, and interleaved at their reads and writes by a seeded scheduler; outputs compared, and memory nothing was written to tracked by MemorySanitizer',
         'Sampled conversions and interleavings; threads run one at a time (no data races in parallel use); configuration that is process-wide by design (options.c) is the same for all.'),
 'C23': ('exploration', 'each tool with its sink refusing or cutting short a write, for good or once, at seeded write boundaries and offsets; accepted bytes compared with the fault-free output',
         'Sampled inputs and failure points.'),
 'C26': ('exploration', 'the C and Rust programs themselves with their read and write system calls simulated: reads split or failing, writes refused or cut short anywhere including the last flush; bytes and status compared with those of the converter',
         'Sampled inputs, deliveries and failure points; the crates libc, lazy_static and if_chain are stand-ins, panics abort as in the release profile.'),
}
NA = {
 'C24': 'A pure function of its input with no time, I/O, scheduling or fault dimension; deterministic simulation adds nothing to a plain property test (field values are checked where they appear in C03, C07, C16 and C17).',
 'C25': 'Pure functions of their arguments; no schedule, clock, I/O or fault can influence them.',
}
props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
m = {'version': 1,
     'setup_cmd': 'python3 tools/build.py verif timetruth prog && python3 tools/build.py --variant msan verif',
     'checks': [], 'not_applicable': []}
for p in props:
    if p in CLAIM:
        lv, t, note = CLAIM[p]
        m['checks'].append({'property': p, 'quick_cmd': f'./check {p} quick', 'thorough_cmd': f'./check {p} thorough',
                            'technique': T + t, 'level': lv, 'level_note': note + TRUST})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'No check yet; under construction.')})
m['notes'] = 'Replay a reported violation with: build/pattern/verif --replay FILE (build/pattern/timetruth for C08, build/pattern/prog for C26, build/msan/verif for C22) (after ./check or setup_cmd built it).'
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
