#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATE = {  # missed when planted; what was added
    "c22-name-trim": "names with white space", "c15-type-trim": "types with white space",
    "c18-empty-message": "errors without a message", "c11-newline-blank": "more new line strings",
    "c07-fold": "near-equal URIs", "c15-256": "`bulk` models", "c19-blocks": "sweeps at several offsets",
    "c01-inline-attr-name": "bad names in inline attributes", "c06-empty-slice": "empty slices instead of nil",
    "c13-pi-far": "deciding parts behind up to 12000 characters", "c20-stale-brackets": "alphabet `past`",
    "c20-node-pool": "writers opened late and used after their end", "c05-nested-doc": "`ends` with validation off",
    "c18-index-uint8": "long lists", "c12-comment-end-late": "indenters that write (added with the plant)",
    "c11-istr-cache": "alphabet `layout` (added with the plant)", "c15-65536": "repetitions (added with the plant)",
    "c04-raw-comment": "hostile raw strings", "c08-join-text": "strings cut anywhere", "c07-xml-prefix": "well-known names",
    "c02-pi-sheet": "well-known names", "c23-depth-4096": "huge preludes", "c05-depth-1024": "`deep` corpus",
    "c09-raw-empty": "`writes` of Sink", "c05-joined-name": "end names split elsewhere", "c15-enum-upper": "more declared types",
    "c07-refused-declares": "refused attributes with URIs", "c22-last-param": "unknown parameters anywhere",
    "c20-attr-scratch": "node values made concurrently, typed values", "c09-temporary": "more sink errors (added with the plant)",
    "c10-stringwriter": "more forms of sinks (added with the plant)", "c12-check-before-wrap": "more `Wrap`s (added with the plant)",
    "c17-utf8-name": "encoders under other names", "c17-esc-ascii": "no verdict in time: judging stops after many differences",
    "c08-many-write": "long lists with a refused node", "c05-long-name": "changed long names",
    "c13-long-pi": "deciding parts before fine characters", "c13-strict-captured": "strictness switched in content",
    "c13-refused-state": "refused content in the alphabet", "c22-second-doc": "more documents in one script",
    "c22-big-word": "words of 64 K", "c19-uint16": "strings up to 70000 characters", "c03-32k": "long strings of multi-byte characters",
    "c11-newline-array": "more new line strings", "c12-wrap-lax": "every configuration in every profile",
    "c12-late-indenter": "custom indenters put in on the way", "c16-alias": "well-known encoding names",
}
MISSED = {"c22-last-param", "c23-long-rune"}  # caught once, not on the present driver at seed 1
rows = ["| change | property | needs | first missed; then added |", "|---|---|---|---|"]
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), "; ".join(x for x in (LATE.get(i, ""), "MISSED NOW" if i in MISSED else "") if x)))
p = HERE + "/DESIGN.md"
t = open(p).read().split("\n## 5. Which checks catch which planted bugs\n")[0].rstrip("\n")
t += "\n\n## 5. Which checks catch which planted bugs\n\nEach was caught by the quick check of its own property (several also by others) when it was last evaluated, most of them on an earlier state of the driver; the whole list has not been run again since. Catching the rare ones depends on the random draws, and every change to the generators shifts the draws. The last full vcheck before this text was written ran 12 of them, picked at random, on the present driver: 10 were caught, and two that had been caught before were missed at seed 1, marked MISSED NOW below. Others with as narrow a condition may be missed as well.\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(t)
