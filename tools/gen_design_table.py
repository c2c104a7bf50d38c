#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 "bounce-5xx": "varied transport codes", "quick-resend": "varied transport codes",
 "sink-escape-error-lost": "write failures that pass", "farewell-after-failure": "write failures that pass",
 "rcpt-limit": "crowds of recipients", "list-take": "long queues", "session-bytes-limit": "bulk sessions",
 "sink-long-line": "huge pieces", "long-reply-lost": "huge texts", "session-cap": "throngs of sessions",
 "mapped-address": "any address literal", "unquote-two-backslashes": "any quoted string", "alias-recipients-lost": "alias expansion",
 "command-limit": "sessions of 66 500 lines", "recovery-drifts": "a tighter bound", "unreadable-sent": "contents that cannot be read",
 "postmaster-bypass": "special names", "give-up-half-hour": "deliveries of hours", "tiny-packets-wait": "an exact bound on what may be held back",
 "skip-recovery": "long queues", "dot-ends-piece": "", 
}
rows = []
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    s = MISSED.get(i, "")
    rows.append((m["property"], i, m["needs"], "caught; at first missed, found since " + s if s else "caught"))
rows.sort()
t = "| property (its check) | planted bug | needs | result |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = root + "/DESIGN.md"
d = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = d.index(a) + len(a), d.index(b)
open(p, "w").write(d[:i] + t + d[j:])
