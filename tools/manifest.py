#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the list of checks the harness has."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / 'properties.jsonl').read_text().splitlines() if l.strip()]
built = set(re.findall(r'\w+::(C\d\d),', (root / 'harness/src/props/mod.rs').read_text()))
TECH = {
 'C01': ('model-based testing over generated route tables and paths', 'random route tables (12 methods, groups, overlapping literals and parameters) and paths near them, over TCP against a reference selection model; bounded table and path sizes'),
 'C02': ('model-based testing of generated filter chains', 'random arrangements of own/group filters, early answers and response edits, over TCP against a reference chain model'),
 'C03': ('property-based testing of generated request heads against an independent reading', 'random well-formed heads over TCP; oracle is the generated structure, plus an independent parse'),
 'C04': ('metamorphic testing over generated segmentations and line ends', 'random requests, each delivered in several ways to the real server; what the handler records must be equal'),
 'C05': ('property-based testing of generated urlencoded forms', 'random pair lists, sizes around read buffers, methods and content types; oracle is the generated list'),
 'C06': ('property-based testing of generated multipart bodies', 'random parts, boundaries and contents that imitate boundaries; oracle is the generated part list'),
 'C07': ('fuzzing of client bytes with generated handler panics, then healthy probes', 'random, mutated and truncated byte streams and panics against a live server in a child process; liveness, full concurrency and correct probes afterwards'),
 'C08': ('property-based testing of generated defective requests', 'each kind of defect in generated surroundings; exact status, one response, close, no handler or filter run'),
 'C09': ('model-based testing of generated response-building operations', 'random operation sequences in a handler; wire bytes parsed independently against a reference model'),
 'C10': ('property-based testing with independent decoders', 'random bodies, accepted-encoding lists and body calls; decoded by independent decoders and compared'),
 'C11': ('stateful testing of generated request histories on one connection', 'random histories of requests, bodies and answers on a kept connection against a per-request model'),
 'C12': ('concurrent property-based testing with generated client schedules', 'random sets of simultaneous clients, sizes, pauses and pool sizes; each answer and execution count is checked'),
 'C13': ('stateful testing of generated idle-gap histories', 'random gap schedules and timeouts, judged only by conservative intervals and confirmed by rerun'),
 'C14': ('stateful testing of generated arrival schedules', 'random limits and arrival bursts; sound lower bounds on the handler times, completeness of service'),
 'C15': ('stateful testing of generated task schedules on the pool', 'random pools, queue bounds and gated tasks against a reference model of the pool; repeated stress schedules'),
 'C16': ('fault injection: generated panicking tasks on the pool', 'random mixes of panicking and normal tasks; full concurrency re-established and exactly-once checked'),
 'C17': ('property-based testing of generated URLs against a recording server', 'random URLs and near-URLs; the connection and bytes a recording listener receives, against the generated structure'),
 'C18': ('property-based testing and fuzzing of generated responses', 'random well-formed, cut and malformed responses in random segments from a scripted server; the returned value against the generated one'),
 'C19': ('round-trip property-based testing of generated cookies', 'random attribute combinations; independent reading of the text, and reading back'),
 'C20': ('stateful model-based testing against a reference map', 'random operation sequences against a reference map'),
 'C21': ('round-trip and differential testing with independent codecs; corruption fuzzing', 'random bytes and levels; independent encoder/decoder; corrupted, truncated and foreign inputs'),
 'C22': ('round-trip and differential testing against a reference codec; fuzzing of decoders', 'exhaustive short inputs and random ones, against a reference implementation'),
 'C23': ('differential testing against a reference calendar and integer arithmetic', 'random instants, formats, texts and arithmetic sequences against reference implementations'),
 'C24': ('exhaustive and generated differential testing against the standard tables', 'every token, every number and random near-misses'),
 'C25': ('property-based testing of generated media types', 'every supported type in random dress, random other text'),
 'C26': ('model-based testing of generated logging configurations and records', 'random configurations and record sequences in child processes; files parsed and compared with a reference model'),
 'C27': ('end-to-end round-trip property-based testing of client against server', 'random URLs and responses between the library\'s own client and server'),
 'C28': ('stateful testing of generated server start histories with injected bind failures', 'random histories of route registration, clones and listen calls over free, taken and foreign addresses; every server is asked after each step'),
 'C29': ('stateful testing of generated pool and thread configurations and lifetimes', 'random sizes, names, stacks, panics and handle lifetimes; thread names and remaining threads are observed'),
 'C30': ('stateful model-based testing of generated registration histories on a running server', 'random histories of accepted and refused registrations and requests with held connections and concurrent clients, compared with the reference router'),
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in built:
        t, n = TECH[i]
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'its check is not built yet'})
m = {'version': 1, 'setup_cmd': './check.sh --build', 'checks': checks, 'not_applicable': na}
(root / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not applicable')
