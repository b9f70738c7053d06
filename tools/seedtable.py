"""Prints the table of planted bugs for DESIGN.md.  Caught-by is what the runs of tools/seedrun.sh showed."""
import json, os, sys
ALSO = {"s35-plus-as-blank": "C03", "s58-double-slash": "C01, C27"}
STRENGTHENED = {"s47-queue-cap": "after `deep-queue` was added", "s49-reset-is-end": "after resets were judged",
    "s55-status-prefix": "after `equality` was added", "s58-double-slash": "after empty path values were generated",
    "s59-root-group": "after prefix-less groups were generated"}
STRENGTHENED.update(json.load(open('/verif/tools/seednotes.json')) if os.path.exists('/verif/tools/seednotes.json') else {})
print("| planted bug | needs | caught by |\n|---|---|---|")
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json'))
    note = STRENGTHENED.get(d)
    if note == 'MISSED': by = 'not caught'
    else: by = ALSO.get(d, m['property']) + (f" ({note})" if note else '')
    print(f"| {d} | {m['needs']} | {by} |")
