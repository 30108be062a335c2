#!/usr/bin/env python3-vt
"""Decides one property: python3-vt check.py C01 [--tier quick|thorough]."""
import argparse
import glob
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONWARNINGS", "ignore")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
import warnings

warnings.simplefilter("ignore")

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("APG_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

sys.path.insert(0, HERE)
sys.path.append(SITE)

from symapg import core, instrument, session  # noqa: E402
from symapg.explore import Explorer  # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.json")


def start_zygote(scratch, seed="random"):
    sock = os.path.join(scratch, "zygote-%s.sock" % seed)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(seed))
    p = subprocess.Popen(
        [VENV_PY, "-B", os.path.join(HERE, "symapg", "zygote.py"), REPO, sock],
        stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL,
        env=env,
        cwd=scratch,
    )
    line = p.stdout.readline()
    if line.strip() != b"ready":
        raise RuntimeError("the replay server did not start")
    return p, sock


def concrete(harness, values, real, seeds=2):
    """Runs a harness with concrete values against the real program."""
    s = session.ConcreteSession(values, real)
    s.seeds = seeds
    try:
        harness.fn(s)
    except session.Stop:
        pass
    return s


def path_body(harness, runner, real, explorer, deadline):
    core.start(explorer, deadline)
    core.reset_tokens()
    core.MAX_SPLIT = getattr(harness, "max_split", 300)
    session.SENT_INT.clear()
    session.SENT_FLOAT.clear()
    session.SENT_NAME.clear()
    session.RAW.clear()
    core.ST.tick_limit = getattr(harness, "ticks", 60000)
    s = session.SymSession(runner)
    rec = {"kind": "leaf", "why": "done"}
    try:
        try:
            harness.fn(s)
        except session.Stop:
            rec["why"] = "check failed"
        except core.PathDead as e:
            rec["kind"] = "dead"
            rec["why"] = str(e)
        if rec["kind"] == "leaf":
            m = core.current_model()
            finish_leaf(harness, s, m, real, rec)
    except core.Inconclusive as e:
        rec["kind"] = "inconclusive"
        rec["why"] = str(e)
    except Exception as e:  # an error of the harness or of the engine
        import traceback

        rec["kind"] = "error"
        rec["why"] = traceback.format_exc()[-3000:]
    if rec["kind"] in ("inconclusive", "error") and "values" not in rec:
        # no verdict for the path; its witness may still show a violation
        try:
            m = core.current_model()
            finish_leaf(harness, s, m, real, rec)
            rec.pop("mismatch", None)
        except BaseException:
            pass
    st = core.ST
    rec.update(
        queries=st.queries,
        solver_time=st.solver_time,
        branches=st.branches,
        functions=st.functions,
        concretised=st.concretised,
        truncated=st.truncated,
        covered=sorted(s.covered),
        checks=s.checks,
    )
    explorer.record(rec)


def finish_leaf(harness, s, m, real, rec):
    values = s.values(m)
    rec["values"] = values
    # counterexamples first
    for label, vals in s.candidates:
        c = concrete(harness, vals, real, 100)
        if c.violations:
            rec.setdefault("violations", []).append(
                {
                    "label": c.violations[0],
                    "solver_label": label,
                    "values": vals,
                    "inputs": [(session.encode_files(f), a) for f, a in c.inputs],
                }
            )
        else:
            rec.setdefault("unconfirmed", []).append(
                {"label": label, "values": vals}
            )
    # every path: one witness on the real program
    c = concrete(harness, values, real)
    rec["validated"] = len(c.results)
    if c.violations:
        rec.setdefault("violations", []).append(
            {
                "label": c.violations[0],
                "solver_label": None,
                "values": values,
                "inputs": [(session.encode_files(f), a) for f, a in c.inputs],
            }
        )
    if not s.candidates or c.violations == []:
        for i, (a, b) in enumerate(zip(s.results, c.results)):
            d = session.compare(a, b, m)
            if d:
                rec["mismatch"] = d[:3000]
                break
        else:
            if len(s.results) != len(c.results) and not c.violations:
                rec["mismatch"] = "number of runs differs"
    rec["covered_real"] = sorted(c.covered)


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [
            k
            for k in json.load(f)["findings"]
            if k["property"] == prop and k["status"] == "open"
        ]


def is_known(known, harness, v):
    for k in known:
        if k["harness"] != harness.name:
            continue
        if k["label"] != v["label"]:
            continue
        want = k.get("values", {})
        if all(v["values"].get(a) == b for a, b in want.items()):
            return k
    return None


def genuine(inputs):
    """Runs the last invocation through the real command line."""
    if not inputs:
        return None
    files, argv = inputs[-1]
    work = tempfile.mkdtemp(prefix="apgcli")
    try:
        for name, text in files.items():
            p = os.path.join(work, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(session.as_bytes(text))
        try:
            r = subprocess.run(
                [VENV_PY, "-B", os.path.join(REPO, "asn1_parser/main.py")]
                + argv,
                cwd=work,
                capture_output=True,
                timeout=60,
            )
            status, err = r.returncode, (r.stdout + r.stderr)[-3000:].decode(
                errors="replace"
            )
        except subprocess.TimeoutExpired:
            status, err = "hang", ""
        out = {}
        for d, _, fs in os.walk(os.path.join(work, "out")):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, work)] = fh.read()
        return {"status": status, "output": err, "files": out}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def save_replay(prop, harness, v):
    key = hashlib.sha256(
        json.dumps([harness.name, v["label"], v["values"]], sort_keys=True).encode()
    ).hexdigest()[:10]
    d = os.path.join(HERE, "replays", "%s-%s" % (prop, key))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "counterexample.json"), "w") as f:
        json.dump(
            {
                "property": prop,
                "harness": harness.name,
                "label": v["label"],
                "values": v["values"],
                "inputs": v["inputs"],
                "replay": "python3-vt check.py %s --replay %s" % (prop, d),
            },
            f,
            indent=1,
        )
    for i, (files, argv) in enumerate(v["inputs"]):
        b = os.path.join(d, "run%d" % i)
        for name, text in files.items():
            p = os.path.join(b, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(session.as_bytes(text))
        with open(os.path.join(b, "cmd.sh"), "w") as f:
            f.write(
                "#!/bin/sh\ncd \"$(dirname \"$0\")\" && exec %s -B %s/asn1_parser/main.py %s\n"
                % (VENV_PY, REPO, " ".join("'%s'" % a for a in argv))
            )
    g = genuine(v["inputs"])
    if g:
        for name, data in g["files"].items():
            p = os.path.join(d, "observed", name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        with open(os.path.join(d, "observed.txt"), "w") as f:
            f.write("exit status: %s\n%s\n" % (g["status"], g["output"]))
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="apgsym")
    zygs = []
    try:
        mod = importlib.import_module("props." + a.prop.lower())
        z, sock = start_zygote(scratch)
        zygs.append(z)
        real = session.Real(sock)
        for n in range(getattr(mod, "HASH_SEEDS", 0)):
            z, sock = start_zygote(scratch, seed * 1000 + n)
            zygs.append(z)
            real.seeded.append(session.Real(sock))
        harnesses = mod.harnesses(a.tier)
        if a.harness:
            harnesses = [h for h in harnesses if h.name == a.harness]
        if a.replay:
            with open(os.path.join(a.replay, "counterexample.json")) as f:
                ce = json.load(f)
            hs = [h for h in mod.harnesses("thorough") + mod.harnesses("quick") if h.name == ce["harness"]]
            c = concrete(hs[0], ce["values"], real, 100)
            for files, argv in c.inputs:
                for n, t in files.items():
                    print("--- %s\n%s" % (n, t))
                print("$ main.py " + " ".join(argv))
            for r in c.results:
                print("exit status:", r.status)
                for n, t in r.files.items():
                    print("--- %s\n%s" % (n, t))
            print("violated:", c.violations)
            return 1 if c.violations else 0
        return decide(a, mod, harnesses, real, scratch, seed, t0)
    finally:
        for z in zygs:
            z.kill()
            z.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, mod, harnesses, real, scratch, seed, t0):
    core.z3.set_param("smt.random_seed", seed)
    core.z3.set_param("sat.random_seed", seed)
    sys.setrecursionlimit(3000)
    rundir = os.path.join(scratch, "run")
    os.makedirs(rundir)
    os.chdir(rundir)
    sys.path.insert(0, REPO)
    instrument.install(REPO)
    runner = session.Runner()
    load_error = None
    try:
        runner.load()
    except Exception as e:
        load_error = repr(e)
    if load_error:
        print("ERROR the instrumented program does not load:", load_error)
        return 2
    budget = 560 if a.tier == "quick" else 6 * 3600
    budget = float(os.environ.get("APG_BUDGET", budget))
    deadline = t0 + budget
    known = load_known(a.prop)
    tot = dict(
        paths=0, dead=0, transitions=0, queries=0, solver_time=0.0,
        validated=0, checks=0, mismatches=0, unconfirmed=0, errors=0,
    )
    functions, concretised, truncated = {}, {}, {}
    per, samples, problems = [], [], []
    violations, findings = [], {}
    for h in harnesses:
        th = time.time()
        out = os.path.join(scratch, "h_" + h.name)
        os.makedirs(out)
        # one harness cannot use up the time of the others
        until = min(deadline, th + max(60.0, 0.4 * (deadline - th)))
        ex = Explorer(a.jobs, out, 0, until)
        def enough(r):
            return a.tier == "quick" and any(
                not is_known(known, h, v) for v in r.get("violations", [])
            )

        recs = ex.run(lambda: path_body(h, runner, real, ex, until), enough)
        cov, hp = set(), dict(paths=0, queries=0, dead=0, violations=0)
        for r in recs:
            k = r["kind"]
            if k in ("crash", "timeout", "inconclusive", "error"):
                tot["errors"] += 1
                problems.append((h.name, k, r.get("why") or r))
            if k in ("crash", "timeout"):
                continue
            tot["queries"] += r["queries"]
            tot["solver_time"] += r["solver_time"]
            tot["transitions"] += r["branches"]
            tot["checks"] += r["checks"]
            hp["queries"] += r["queries"]
            for n, c in r["functions"].items():
                functions[n] = functions.get(n, 0) + c
            for n, c in r["concretised"].items():
                concretised[n] = concretised.get(n, 0) + c
            for n in r["truncated"]:
                truncated[h.name + ": " + n] = truncated.get(h.name + ": " + n, 0) + 1
            if k == "dead":
                tot["dead"] += 1
                hp["dead"] += 1
            if k == "leaf" or r.get("violations"):
                tot["paths"] += 1
                hp["paths"] += 1
                cov.update(r["covered"])
                tot["validated"] += r.get("validated", 0)
                if "mismatch" in r:
                    tot["mismatches"] += 1
                    tot["errors"] += 1
                    problems.append((h.name, "mismatch", r["mismatch"], r["values"]))
                for u in r.get("unconfirmed", []):
                    tot["unconfirmed"] += 1
                    tot["errors"] += 1
                    problems.append((h.name, "unconfirmed", u))
                if len(samples) < 6 and (hp["paths"] in (1, 7)):
                    samples.append(
                        {"harness": h.name, "path_witness": r["values"], "covered": r["covered"]}
                    )
                for v in r.get("violations", []):
                    kf = is_known(known, h, v)
                    if kf:
                        findings[kf["id"]] = kf
                        continue
                    hp["violations"] += 1
                    if not any(
                        x[0] is h and x[1]["label"] == v["label"] for x in violations
                    ):
                        violations.append((h, v))
        missing = [c for c in h.cover if c not in cov]
        if missing and not violations:
            problems.append((h.name, "vacuous", missing))
            tot["errors"] += 1
        per.append(
            {
                "harness": h.name,
                "bounds": h.bounds,
                "paths": hp["paths"],
                "queries": hp["queries"],
                "reached": sorted(cov),
                "wall_s": round(time.time() - th, 2),
            }
        )
        if a.verbose:
            print(per[-1], flush=True)
        if violations and a.tier == "quick":
            break
    for p in problems[:3]:
        print("NOTE", *[str(x)[:1200] for x in p], file=sys.stderr)
    for kf in findings.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, kf["what"]))
    lines = []
    for h, v in violations[:10]:
        d = save_replay(a.prop, h, v)
        lines.append(d)
        print("VIOLATION property=%s replay=%s" % (a.prop, d))
        print("  harness %s: %s" % (h.name, v["label"]))
        print("  values: %s" % json.dumps(v["values"]))
    wall = time.time() - t0
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["validated"],
            "samples": samples,
            "exhaustive": not truncated and not tot["errors"],
            "meaning": "states = feasible symbolic paths of the whole program"
            " (each a solver-described set of inputs); transitions = branch"
            " decisions where the solver found both outcomes feasible;"
            " traces_validated = real program runs compared with the"
            " encoding's prediction",
            "assertions_checked": tot["checks"],
            "solver_queries": tot["queries"],
            "solver_time_s": round(tot["solver_time"], 3),
            "solver": "z3 " + core.z3.get_version_string(),
            "paths_cut_by_assumptions_or_limits": tot["dead"],
            "truncated_case_splits": truncated,
            "encoding_mismatches": tot["mismatches"],
            "unconfirmed_counterexamples": tot["unconfirmed"],
            "paths_without_verdict": tot["errors"],
            "problems": [
                [str(x)[:400] for x in p] for p in problems[:10]
            ],
            "case_splits": dict(
                sorted(concretised.items(), key=lambda kv: -kv[1])[:20]
            ),
            "harnesses": per,
            "functions_encoded": sorted(functions),
            "sources_sha256": instrument.SOURCES,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if not a.no_evidence and not a.harness:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(
        "%s %s: %d paths, %d assertions, %d queries (%.1f s solver), %d real"
        " runs compared, %d mismatches, %.1f s"
        % (
            a.prop,
            a.tier,
            tot["paths"],
            tot["checks"],
            tot["queries"],
            tot["solver_time"],
            tot["validated"],
            tot["mismatches"],
            wall,
        )
    )
    if violations:
        return 1
    if tot["errors"]:
        print(
            "INCOMPLETE: %d paths without a solver verdict (see the evidence);"
            " nothing explored violates the property" % tot["errors"]
        )
    if tot["paths"] == 0 or tot["paths"] < tot["errors"]:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
