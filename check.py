#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property of /repo's current tree by static analysis.
exit 0: holds; 1: VIOLATION line printed; 2: the analysis could not give an answer."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build, entries, known, props, structural
from build import Broken

TRUST = ["clang/LLVM 18 front end (source to IR), -fwrapv, Linux LP64, 4-byte wchar_t",
         "absint (this repository's abstract interpreter): transfer functions, joins, linear-arithmetic entailment",
         "models of libc/libm/libstdc++ functions in absint/extern.cpp",
         "entry model: objects passed in satisfy their class invariant and are not aliased except as enumerated; allocation succeeds"]


def short(s):
    return s.replace("DotnetLibrary::", "").replace("DotNetLibrarySupport::", "")


def run_entry(bc, kind, name, spec, limit):
    cmd = [build.TOOL, bc, "--run", "--time=%g" % (limit * (5 if "#" in name else 1))] + (["--spec=" + spec] if spec else []) + [name]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit * 5 + 60)
    except subprocess.TimeoutExpired:
        return {"entry": name, "sig": name, "status": "giveup", "why": "hang", "alarms": [], "rules": {}, "reached": [], "time": limit}
    res = []
    for l in p.stdout.splitlines():
        try:
            r = json.loads(l)
        except ValueError:
            continue
        if r.get("status"):
            res.append(r)
    if len(res) != 1:
        return {"entry": name, "sig": name, "status": "crash", "why": (p.stderr or "no result")[-300:], "alarms": [], "rules": {}, "reached": [], "time": 0}
    return res[0]


DEADLINE = [None, False]    # time after which entries are left undone; whether a certain violation is known already


def left_undone(name):
    t = time.time()
    if DEADLINE[0] and (t > DEADLINE[0] or (DEADLINE[1] and t > DEADLINE[0] - 400)):
        return {"entry": name, "sig": name, "status": "giveup", "why": "time of the whole check used up", "alarms": [], "rules": {}, "reached": [], "time": 0}


def run_group(bc, kind, names, spec, limit):
    """several entries in one process"""
    r = left_undone(names[0])
    if r:
        return [dict(r, entry=n, sig=n) for n in names]
    res = []
    if len(names) > 1:
        limit = min(limit, 10)
        try:
            p = subprocess.run([build.TOOL, bc, "--run", "--time=%g" % limit, "--spec=" + spec] + names, capture_output=True, text=True, timeout=limit * 5 + 60)
            for l in p.stdout.splitlines():
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r.get("status"):
                    res.append(r)
        except subprocess.TimeoutExpired:
            res = []
    if len(res) != len(names) or sorted(re.sub(r"\s", "", r["sig"]) for r in res) != sorted(names):
        res = [left_undone(n) or run_entry(bc, kind, n, spec, limit) for n in names]
    else:
        at = {re.sub(r"\s", "", r["sig"]): r for r in res}
        res = [at[n] for n in names]
    if any(a.get("sure") for r in res for a in r["alarms"]):
        DEADLINE[1] = True
    return res


def spec_names(f):
    out = []
    for l in open(f):
        if l.startswith("fn "):
            out.append(re.sub(r"\s", "", l[3:]))
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or (os.environ.get("VERIF_TIER") == "thorough") else "quick"
    t0 = time.time()
    if pid not in props.PROPS:
        raise Broken("unknown property " + pid)
    P = props.PROPS[pid]
    limit = 60 if tier == "thorough" else 20
    build.tool()
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        bc, srcs = build.bitcode(work, harness=P.get("harness", ()))
        fns = entries.functions(bc)
        valid, vtypes = entries.valid_items()
        sel = entries.select(fns, valid)
        jobs, alarms, problems = [], {}, []
        for pat, rules in P.get("rules", []):
            es = [e for e in sel if re.search(pat, short(e["sig"]))]
            jobs += [("run", e["fn"], None, set(rules), short(e["sig"])) for e in es]
        for pat, rules in P.get("harness_rules", []):
            jobs += [("run", e["fn"], None, set(rules), short(e["sig"])) for e in fns if re.search(pat, short(e["sig"]))]
        if P.get("rules") and len(jobs) < P.get("min_entries", 1):
            raise Broken("only %d entry points match (expected at least %d): the anchors of this property have moved" % (len(jobs), P["min_entries"]))
        for s in P.get("spec", []):
            s, _, only = s.partition(":")
            f = os.path.join(VERIF, "spec", s)
            if s.endswith(".py"):      # a specification with many instances is written out by a program
                g = os.path.join(work, s[:-3] + ".spec")
                with open(g, "w") as o:
                    subprocess.run([sys.executable, "-B", f], stdout=o, check=True)
                f = g
            jobs += [("spec", n, f, {"spec"}, n) for n in spec_names(f) if re.search(only, n)]
        # the same entry may be named twice with different rules
        merged = {}
        for k, n, f, r, s in jobs:
            m = merged.setdefault((k, n, f), [set(), s]); m[0] |= r
        order = sorted(merged.items(), key=lambda kv: 0 if re.search(r"Replace|Join|Concat|Parse|Format|ToString|Trim", kv[1][1]) else 1)
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            groups, small = [], {}
            for kv in order:
                if kv[0][0] == "spec" and "Laws::" in kv[0][1] and "#" not in kv[0][1]:
                    small.setdefault(kv[0][2], []).append(kv)
                else:
                    groups.append([kv])
            for l in small.values():
                k = max(8, -(-len(l) // 20)) if len(l) > 40 else len(l)
                groups += [l[i::k] for i in range(k)]
            DEADLINE[0] = t0 + (780 if tier == "quick" else 2400)
            results = []
            for g, rs in ex.map(lambda g: (g, run_group(bc, g[0][0][0], [kv[0][1] for kv in g], g[0][0][2], limit)), groups):
                results += list(zip(g, rs))
        obligations = discharged = 0
        gaveup, analysed, reached, perrule, cases = [], [], set(), {}, 0
        samples, undecided = [], {}
        for (k, (rules, sig)), r in results:
            if r["status"] in ("missing", "broken", "crash"):
                problems.append("%s: %s %s" % (sig, r["status"], r.get("why", "")))
                continue
            analysed.append(sig)
            reached |= set(r["reached"])
            if r["status"] == "giveup":
                gaveup.append("%s (%s)" % (sig, r["why"]))
            if k[0] == "spec":
                n, b = r.get("checks", 0), r.get("failed", 0)
                if r["status"] == "ok":
                    obligations += n; discharged += n - b
                else:
                    obligations += n + 1; discharged += n - b
                cases += len(r.get("cases", []))
                if len(samples) < 5 and r.get("cases"):
                    samples.append({"function": sig, "case": r["cases"][0]["case"], "configurations": r["cases"][0]["configs"]})
            else:
                for rule, (d, n) in r["rules"].items():
                    if rule in rules or any(x.endswith("*") and rule.startswith(x[:-1]) for x in rules):
                        pr = perrule.setdefault(rule, [0, 0]); pr[0] += d; pr[1] += n
                        obligations += n; discharged += d
                if len(samples) < 5 and r["steps"] > 200:
                    samples.append({"entry": sig, "configurations": r["configs"], "outcomes": r["normal"], "outcomes_with_exception": r["thrown"], "abstract_steps": r["steps"], "functions_reached": len(r["reached"])})
            for a in r["alarms"]:
                if not (a["rule"] in rules or any(x.endswith("*") and a["rule"].startswith(x[:-1]) for x in rules)):
                    continue
                key = (a["rule"], short(a["fn"]), a["file"], a["line"], a["msg"])
                if not a.get("sure"):
                    undecided.setdefault(key, []).append(sig)   # not shown to hold, and no certain violation either
                    continue
                alarms.setdefault(key, []).append((sig, k, a))
        undecided = {k: v for k, v in undecided.items() if k not in alarms}
        structural_info = []
        for name, args in P.get("structural", []):
            r = getattr(structural, name)(bc, srcs, fns, sel, *args)
            obligations += r["obligations"]; discharged += r["obligations"] - len(r["violations"])
            structural_info.append({"rule": r["rule"], "instances": r["obligations"], "examples": r.get("examples", [])[:5]})
            if not samples:
                samples += r.get("examples", [])[:3]
            for v in r["violations"]:
                key = (r["rule"], v.get("fn", ""), v.get("file", ""), v.get("line", 0), v["msg"])
                alarms.setdefault(key, []).append((v.get("fn", ""), ("structural", name, None), v))
        if problems:
            raise Broken("; ".join(problems[:5]))
        new, old = known.split(pid, alarms)
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        replay = os.path.join(evdir, pid + ".violations.json")
        wall = time.time() - t0
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P.get("level", "other"),
              "coverage": {"explanation": P["explanation"], "obligations": obligations, "discharged": discharged, "sources_compiled": len(srcs),
                           "entries_analysed": len(analysed), "functions_reached": len(reached), "spec_cases": cases,
                           "obligations_by_rule": {k: {"discharged": v[0], "total": v[1]} for k, v in sorted(perrule.items())},
                           "structural": structural_info, "undecided_entries": gaveup, "undecided_obligations": ["%s:%s [%s] %s in %s" % (os.path.basename(k[2]), k[3], k[0], k[4], k[1]) for k in sorted(undecided, key=str)], "known_findings_matched": len(old),
                           "rule": P.get("rule", "one obligation per (program point, calling context class, rule); discharged when the abstract state at the point entails the condition"),
                           "samples": samples or [{"note": "no samples"}], "checker_cmd": "python3 check.py " + pid, "trusted_base": TRUST},
              "assumptions": props.ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)}
        json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
        for k, v in old:
            print("KNOWN-FINDING: property=%s %s: %s [%s] in %s" % (pid, k[0], k[4], "%s:%s" % (os.path.basename(k[2]), k[3]), k[1]))
        if new:
            out = []
            for key, via in sorted(new.items(), key=lambda kv: (kv[0][2], kv[0][3])):
                sig, job, a = via[0]
                cmd = "%s <bitcode> --run %s%s" % (build.TOOL, "--spec=%s " % job[2] if job[2] else "", job[1])
                out.append({"property": pid, "rule": key[0], "function": key[1], "file": key[2], "line": key[3], "message": key[4], "stack": a.get("stack", ""), "for_example": a.get("example", ""), "entries": sorted({v[0] for v in via}), "replay": "python3 /verif/check.py " + pid, "single_entry": cmd})
            json.dump(out, open(replay, "w"), indent=1)
            for o in out[:40]:
                print("%s:%s: [%s] %s in %s (reached from %s)%s" % (o["file"], o["line"], o["rule"], o["message"], o["function"], ", ".join(o["entries"][:3]), ", for example with " + o["for_example"] if o["for_example"] else ""))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        if os.path.exists(replay):
            os.unlink(replay)
        print("%s: %d obligations, %d discharged, %d entries, %d undecided obligations, %d entries not finished, %.1f s" % (pid, obligations, discharged, len(analysed), len(undecided), len(gaveup), wall))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ANALYSIS BROKEN: %s" % e)
        sys.exit(2)
