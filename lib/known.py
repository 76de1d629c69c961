"""Known findings: genuine defects recorded in /verif/known_findings.txt. An open entry is one line
  open: property=<id> rule=<rule> fn=<function> sites=<n> msg=<message>
and matches up to <n> source lines of that function that the rule reports with that message; more of them is a new violation.
Lines 'fixed: property=<id> <commit> <what failed>' suppress nothing."""
import os, re
from build import VERIF

FILE = os.path.join(VERIF, "known_findings.txt")


def load():
    out = []
    if os.path.exists(FILE):
        for l in open(FILE):
            m = re.match(r"open: property=(\S+) rule=(\S+) fn=(.*?) sites=(\d+) msg=(.*)$", l.strip())
            if m:
                out.append({"property": m.group(1), "rule": m.group(2), "fn": m.group(3), "sites": int(m.group(4)), "msg": m.group(5).split(" || ")[0]})
    return out


def split(pid, alarms):
    kf = [dict(k) for k in load() if k["property"] == pid]
    new, old = {}, []
    for key in sorted(alarms):
        hit = None
        for k in kf:
            if k["rule"] == key[0] and k["fn"] == key[1] and k["msg"] == key[4] and k["sites"] > 0:
                hit = k
                break
        if hit:
            hit["sites"] -= 1
            old.append((key, alarms[key]))
        else:
            new[key] = alarms[key]
    return new, old
