#!/usr/bin/env python3
"""seedtable.py LOG: puts the results of mkseed.py into DESIGN.md's table of planted bugs."""
import sys, re, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
HIST = {"m06-reset-order": "missed at first; the pointer is looked at while it deletes", "o01-vector-memcmp": "missed at first; `order_vectors` added", "f04-realpath-source": "missed at first; the simulated disk now also answers realpath()",
 "a02-expected-align": "missed at first; expected objects whose error is aligned",
 "f03-path-size": "missed at first; `mapping_replaced` added",
        "c03-context-pool": "missed at first; stalled threads added", "r01-group-count": "missed at first; wider patterns that match", "f05-part-byte": "missed at first; deeper trees and longer patterns", "o01-view-start": "missed at first; views of the same memory added", "m05-radix-sample": "missed at first; outliers in long ranges added", "f05-inode-seen": "missed at first; directories that are file systems of their own added",
        "c01-busy-hint": "missed at first; `mutex_last_user` added", "f01-bom": "missed at first; special beginnings and endings of files added", "m06-optional-source": "missed at first; moved-from optionals are asked, `optional_plain` added", "m01-reuse-salt": "missed at first; `map_big` added", "w01-count-width": "missed at first; large files added", "a01-nothrow": "missed at first; an empty glob result is no longer taken for a refusal",
        "m06-variant-copy": "led to `chains_owned` and the repair of self-owned sources", "f05-dir-limit": "missed at first; `glob_many` added", "f05-open-limit": "missed at first; `glob_many` added", "g01-long-name": "missed at first; long names that differ in one place and `command_lines_many` added", "m03-fixed-uint8": "missed at first; `fixed_big` added", "m04-fixed-uint8": "missed at first; fixed strings of 255 to 65536 characters added", "m01-chain-cut": ""}
rows = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) tests:ok clean-demo:0 bug-demo:\d+ check:(\d) (CAUGHT|MISSED)\s*(?:scenario (\S+) run \d+ class (\S+))?", l)
        if m: rows[m.group(1)] = m
t = "| planted bug | property | needs | result of its check | history |\n|---|---|---|---|---|\n"
for i in SEEDS:
    m = rows.get(i)
    if not m: continue
    s = SEEDS[i]
    t += "| %s | %s | %s | %s | %s |\n" % (i, s["prop"], s["needs"], ("caught by %s (%s)" % (m.group(4), m.group(5))) if m.group(2) == "1" else "missed", HIST.get(i, ""))
d = open("/verif/DESIGN.md").read()
d = re.sub(r"<!-- seeds -->\n(\|.*\n)*", lambda _: "<!-- seeds -->\n" + t, d)
open("/verif/DESIGN.md", "w").write(d)
print(len(rows), "rows")
