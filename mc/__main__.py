"""python -m mc run C01 [--tier quick|thorough] [--unit NAME] | python -m mc replay FILE"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from mc import env

HERE = env.VERIF


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    r = sub.add_parser("run")
    r.add_argument("property")
    r.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    r.add_argument("--unit")
    r.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    r.add_argument("-v", action="store_true")
    r.add_argument("--first", action="store_true", help="stop at the first violation")
    p = sub.add_parser("replay")
    p.add_argument("file")
    args = ap.parse_args()
    if "MC_SCRATCH" not in os.environ or os.environ.get("MC_MAIN") != "1":
        scratch = tempfile.mkdtemp(prefix="mc-")
        e = env.base_env("strip", scratch)
        e["MC_MAIN"] = "1"
        child = subprocess.Popen([sys.executable, "-B", "-m", "mc"] + sys.argv[1:], env=e, cwd=HERE)
        try:
            rc = child.wait()
        except BaseException:
            child.kill()
            raise
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc)
    if args.cmd == "run":
        sys.exit(run(args))
    sys.exit(replay(args))


def specs_of(mod, tier, only_unit):
    out = []
    for u in mod.UNITS:
        if only_unit and u.name not in only_unit.split(","):
            continue
        for kw in u.quick if tier == "quick" else u.thorough:
            out.append((u, kw))
    return out


def die(pid, timeout=None):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def run(args):
    t0 = time.time()
    pid, tier = args.property, args.tier
    scratch = os.environ["MC_SCRATCH"]
    env.prepare("strip")
    from mc import core

    mod = core.load_check(pid)
    if hasattr(mod, "warm"):
        try:  # compile shared kernels once before the units are forked
            mod.warm()
        except Exception:  # pylint: disable=broad-except
            pass
    specs = specs_of(mod, tier, args.unit)
    todo = list(enumerate(specs))
    known = known_findings(pid)
    running, reports, procs = {}, {}, []
    factor = 1 if tier == "quick" else 12

    def start(i, u, kw):
        out = os.path.join(scratch, "out%d.json" % i)
        log = os.path.join(scratch, "log%d" % i)
        if u.mode == "strip":
            sys.stdout.flush()
            cpid = os.fork()
            if cpid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    fd = os.open(log, os.O_WRONLY | os.O_CREAT, 0o600)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                    rep = core.run_unit(pid, u.name, kw, tier)
                    with open(out + ".tmp", "w") as f:
                        json.dump(rep, f)
                    os.replace(out + ".tmp", out)
                    code = 0
                except BaseException:  # pylint: disable=broad-except
                    import traceback

                    traceback.print_exc()
                finally:
                    os._exit(code)
        else:
            spec = os.path.join(scratch, "spec%d.json" % i)
            json.dump({"property": pid, "unit": u.name, "kwargs": kw, "tier": tier}, open(spec, "w"))
            with open(log, "w") as lf:
                proc = subprocess.Popen(
                    [sys.executable, "-B", "-m", "mc.worker", spec, out],
                    env=env.base_env(u.mode, scratch),
                    cwd=HERE,
                    stdout=lf,
                    stderr=lf,
                    start_new_session=True,
                )
            procs.append(proc)  # a collected Popen would reap its child behind our back
            cpid = proc.pid
        running[cpid] = (i, u, kw, time.time(), out, log)

    def finish(cpid, status, timed_out=False):
        i, u, kw, ts, out, log = running.pop(cpid)
        if os.path.exists(out) and not timed_out:
            reports[i] = json.load(open(out))
        else:
            tail = open(log, errors="replace").read()[-2000:] if os.path.exists(log) else ""
            rep = dict(unit=u.name, kwargs=kw, evals=0, nontrivial=0, states=0, transitions=0, traces=0,
                       samples=[], fails=[], outcomes=0, maxerr=0, error=None, wall=time.time() - ts)
            if timed_out:
                rep["fails"].append({"ordinal": None, "case": "whole unit", "data": "",
                                     "message": "did not terminate within %.0f s" % (time.time() - ts)})
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
                signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                rep["fails"].append({"ordinal": None, "case": "whole unit", "data": "",
                                     "message": "the process died with signal %d\n%s" % (os.WTERMSIG(status), tail)})
            else:
                rep["error"] = "worker ended with status %r\n%s" % (status, tail)
            reports[i] = rep
        if args.v:
            r = reports[i]
            print("  unit %s %s: %.1fs evals=%d nontrivial=%d states=%d trans=%d traces=%d fails=%d maxerr=%.2g%s" % (
                r["unit"], r["kwargs"], r["wall"], r["evals"], r["nontrivial"], r["states"], r["transitions"],
                r["traces"], len(r["fails"]), r["maxerr"], " ERROR" if r["error"] else ""), flush=True)

    try:
        while todo or running:
            while todo and len(running) < args.jobs:
                i, (u, kw) = todo.pop(0)
                start(i, u, kw)
            cpid, status = os.waitpid(-1, os.WNOHANG)
            if cpid in running:
                finish(cpid, status)
                if args.first and any(f["case"] not in known for r in reports.values() for f in r["fails"]):
                    break
                continue
            now = time.time()
            for c, rec in list(running.items()):
                if now - rec[3] > rec[1].timeout * factor:
                    die(c)
                    try:
                        os.waitpid(c, 0)
                    except OSError:
                        pass
                    finish(c, 0, timed_out=True)
            time.sleep(0.02)
    finally:
        for c in running:
            die(c)

    return conclude(pid, tier, mod, [reports[i] for i in sorted(reports)], time.time() - t0, partial=bool(args.unit))


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {k["case"]: k for k in data.get("known", []) if k["property"] == pid}


def conclude(pid, tier, mod, reports, wall, partial=False):
    known = known_findings(pid)
    from mc import core

    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    violations, errors, known_seen = 0, [], {}
    for r in reports:
        if r["error"]:
            errors.append(r)
        for f in r["fails"]:
            if f["case"] in known:
                known_seen[f["case"]] = f
                continue
            violations += 1
            spec = {"property": pid, "unit": r["unit"], "kwargs": r["kwargs"], "tier": tier, "only": f["ordinal"],
                    "case": f["case"], "data": f["data"], "message": f["message"]}
            path = os.path.join(outdir, "%s-%s.json" % (pid, core.replay_id(spec)))
            json.dump(spec, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            if violations > 5:
                continue
            print("  unit %s %s case %s" % (r["unit"], r["kwargs"], f["case"]))
            print("  " + f["message"][:400].replace("\n", "\n  "))
    for case, f in known_seen.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, known[case]["what"]))
    tot = {k: sum(r[k] for r in reports) for k in ("evals", "nontrivial", "states", "transitions", "traces")}
    samples = [s for r in reports for s in r["samples"][:1]][:12]
    cov = {
        "evaluations": tot["evals"],
        "distinct_nontrivial": tot["nontrivial"],
        "rule": mod.RULE,
        "samples": samples,
        "exhaustive": not partial and not errors and not violations,
        "units": [
            {k: (round(r[k], 3) if k == "wall" else float("%.3g" % r[k]) if k == "maxerr" else r[k])
             for k in ("unit", "kwargs", "evals", "nontrivial", "states", "transitions", "traces", "maxerr", "wall")}
            for r in reports
        ],
    }
    if mod.LEVEL == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
    ev = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, "." + pid + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(evdir, pid + ".json"))
    print("%s %s: %d units, evaluations=%d distinct_nontrivial=%d states=%d transitions=%d traces=%d violations=%d wall=%.1fs" % (
        pid, tier, len(reports), tot["evals"], tot["nontrivial"], tot["states"], tot["transitions"], tot["traces"], violations, wall))
    if violations:
        for r in errors:
            print("(also: unit %s failed to run: %s)" % (r["unit"], r["error"][-800:]))
        return 1
    if errors:
        for r in errors:
            print("ERROR unit %s %s:\n%s" % (r["unit"], r["kwargs"], r["error"]))
        return 2
    if tot["evals"] == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0


def replay(args):
    spec = json.load(open(args.file))
    from mc import core

    mod_mode = None
    # the mode is that of the unit; importing the check module is cheap and loads no thewalrus code
    env_mode = os.environ.get("MC_REPLAY_MODE")
    if env_mode is None:
        env.prepare("strip")
        mod_mode = core.find_unit(core.load_check(spec["property"]), spec["unit"]).mode
        if mod_mode != "strip":
            e = env.base_env(mod_mode, os.environ["MC_SCRATCH"])
            e.update(MC_MAIN="1", MC_REPLAY_MODE=mod_mode)
            return subprocess.call([sys.executable, "-B", "-m", "mc", "replay", args.file], env=e, cwd=HERE)
    else:
        env.prepare(env_mode)
    rep = core.run_unit(spec["property"], spec["unit"], spec["kwargs"], spec["tier"], spec["only"])
    if rep["error"]:
        print(rep["error"])
        return 2
    for f in rep["fails"]:
        print("REPRODUCED property=%s unit=%s case %s\n  data %s\n  %s" % (spec["property"], spec["unit"], f["case"], f["data"], f["message"]))
    if not rep["fails"]:
        print("not reproduced: the case passes")
    return 1 if rep["fails"] else 0


if __name__ == "__main__":
    main()
