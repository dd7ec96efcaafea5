#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--verbose]

Decides one property from the current source of the repository ($SKADA_REPO, default
/repo).  Exit 0: no violation; 1: violations, each on a VIOLATION line; 2: the analysis
itself is broken (a vanished anchor).
"""

import argparse
import ast
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.ctx import FIXTURE, Ctx  # noqa: E402
from sa.project import AnalysisBroken, Project  # noqa: E402


def load_known(pid):
    """known_findings.txt: 'known: property=<id> <rule>|<construct> -- <what fails>'"""
    known, path = {}, os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                head, _, what = line[7:].partition(" -- ")
                prop, _, key = head.partition(" ")
                if prop == f"property={pid}":
                    known[key.strip()] = what.strip()
    return known


ALIAS = {"handed-on": "used"}


def owners(project, construct):
    """The public functions a private helper's construct belongs to (itself, if public)."""
    head, par, rest = construct.partition("(")
    fs = {f.full: f for f in project.functions()}
    f = fs.get(head.strip().rstrip(":"))
    if f is None or not f.name.startswith("_") or f.name.startswith("__"):
        return {construct}
    out, seen, work = set(), set(), [f]
    while work:
        g = work.pop()
        if g.full in seen:
            continue
        seen.add(g.full)
        for h in fs.values():
            if h is g or h.module is not g.module or isinstance(h.node, ast.Lambda):
                continue
            if any(isinstance(n, ast.Name) and n.id == g.name or isinstance(n, ast.Attribute) and n.attr == g.name for n in ast.walk(h.node)):
                if h.name.startswith("_") and not h.name.startswith("__"):
                    work.append(h)
                else:
                    out.add(h.full + par + rest)
    return out or {construct}


def listed(project, known, o):
    """The listed finding a violation is, also where it stands in a helper of the function
    the finding names."""
    for rule in (o["rule"], ALIAS.get(o["rule"])):
        keys = {f"{rule}|{c}" for c in owners(project, o["construct"])}
        if rule and keys <= set(known):
            return sorted(keys)[0]
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--strict", action="store_true", help="self-examples must be classified right")
    a = ap.parse_args()
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    rule = importlib.import_module(f"rules.{pid.lower()}")
    overlay = {}
    fx = os.path.join(HERE, "fixtures", f"{pid.lower()}.py")
    have_fixture = os.path.exists(fx)
    if have_fixture:
        overlay[FIXTURE.replace(".", "/") + ".py"] = open(fx, encoding="utf-8").read()
    project = Project(overlay=overlay)

    # the rule's own examples: every Bad*/bad_* must be reported, no Good*/good_* may be
    fixture_info = None
    if have_fixture:
        fc = Ctx(project, pid, tier, fixture=True)
        rule.run(fc)
        names = [c.name for c in project.modules[FIXTURE].classes.values()] + list(project.modules[FIXTURE].functions)
        bad = {o["construct"] for o in fc.by("bad")}
        hit = {n for n in names if any(n in b.replace(":", " ").replace(".", " ").replace("(", " ").split() for b in bad)}
        want = {n for n in names if n.lower().startswith("bad")}
        never = {n for n in names if n.lower().startswith("good")}
        fixture_info = {"must_report": sorted(want), "must_not_report": sorted(never), "missed": sorted(want - hit), "wrongly_reported": sorted(never & hit)}
        if (want - hit) or (never & hit):
            # the examples use the repository's base classes, so a change there can shift
            # them: this is told, and --strict (tools/selftest.sh) makes it an error
            msg = f"self-examples: not reported {sorted(want - hit)}, wrongly reported {sorted(never & hit)}: " + "; ".join(o["message"] for o in fc.by("bad") if any(n in o["construct"] for n in never))
            if a.strict:
                raise AnalysisBroken(msg)
            print("NOTE " + msg)

    ctx = Ctx(project, pid, tier)
    rule.run(ctx)
    known = load_known(pid)
    bad = ctx.by("bad")
    viol, kf = [], []
    for o in bad:
        o["known"] = listed(project, known, o)
        (kf if o["known"] else viol).append(o)
    byrule = {}
    for o in ctx.obl.values():
        r = byrule.setdefault(o["rule"], {"obligations": 0, "held": 0, "undecided": 0, "violated": 0})
        r["obligations"] += 1
        r[{"ok": "held", "undecided": "undecided", "bad": "violated"}[o["status"]]] += 1
    n = len(ctx.obl)
    ok = len(ctx.by("ok"))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (rule.__doc__ or "").strip(),
            "source_digest": project.digest,
            "modules_parsed": len(project.modules) - (1 if have_fixture else 0),
            "functions_walked": len(ctx.functions),
            "obligations": n,
            "held": ok,
            "undecided": len(ctx.by("undecided")),
            "rules": byrule,
            "self_examples": fixture_info,
            "undecided_list": [f"{o['rule']}: {o['construct']}: {o['message']}" for o in ctx.by("undecided")][:60],
            "samples": [f"{o['rule']}: {o['construct']} {o['message']}".strip() for o in ctx.by("ok")][:: max(1, ok // 12)][:14],
            "known_findings": sorted({o["known"] for o in kf}),
            "notes": dict(ctx.notes),
        },
        "assumptions": list(getattr(rule, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {n} obligations over {len(ctx.functions)} functions, {ok} held, {ev['coverage']['undecided']} undecided, {len(viol)} violated, {len(kf)} known; {ev['wall_s']} s")
    if a.verbose:
        for o in ctx.by("undecided"):
            print(f"  undecided {o['rule']}: {o['construct']} at {o['site']}: {o['message']}")
        for k, v in sorted(byrule.items()):
            print("  rule", k, v)
    for key in sorted({o["known"] for o in kf}):
        print(f"KNOWN-FINDING: property={pid} {key}: {known[key]}")
    if viol:
        rep = os.path.join(HERE, "evidence", f"{pid}.report.txt")
        with open(rep, "w") as f:
            for o in viol:
                f.write(f"{o['site']}: [{pid}/{o['rule']}] {o['construct']}: {o['message']}\n")
        for o in viol:
            print(f"{o['site']}: [{o['rule']}] {o['construct']}: {o['message']}")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    return 0


if __name__ == "__main__":
    if "PYTHONHASHSEED" not in os.environ:
        # sets are walked in the same order in every run
        os.execve(sys.executable, [sys.executable, os.path.abspath(__file__), *sys.argv[1:]], {**os.environ, "PYTHONHASHSEED": "0"})
    try:
        sys.exit(main())
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN: {e}")
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
