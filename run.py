#!/usr/bin/env python3
"""Driver:  run.py ID [--tier quick|thorough] [--replay FILE] [--leg NAME]
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 3: the check itself failed (never reported as a violation)."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import vf  # noqa

SHRINK_S = 45


def load(pid):
    vf.setup_path()
    m = importlib.import_module("checks." + pid.lower())
    vf.quiet_keri()
    return m


def drop():
    """Run as an unprivileged user when everything we need stays readable."""
    if os.getuid() != 0 or os.environ.get("VERIF_KEEP_ROOT"):
        return False
    pid = os.fork()
    if pid == 0:
        ok = 1
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            ok = 0 if all(os.access(p, os.R_OK | os.X_OK) for p in
                          (HERE, os.path.join(HERE, "shims"), os.path.join(HERE, "checks"), vf.SRC,
                           os.path.join(vf.SRC, "keri"), os.environ["TMPDIR"], sys.prefix)) else 1
        except OSError:
            pass
        os._exit(ok)
    if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) != 0:
        return False
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)
    return True


class _Stop(BaseException):
    pass


def shard_main(a):
    out = dict(legs={}, fail=None, error=None)
    res = os.open(a.out, os.O_WRONLY | os.O_CREAT, 0o600)
    try:
        mod = load(a.id)
        drop()
        os.chdir(os.environ["TMPDIR"])
        deadline = time.monotonic() + a.budget
        legs = [x for x in mod.LEGS if not a.leg or x.name == a.leg]
        for i, lg in enumerate(legs):
            now = time.monotonic()   # an equal share of the time left for each leg left
            r = run_leg(lg, a, now + max(0, deadline - now) / (len(legs) - i))
            out["legs"][lg.name] = r["count"]
            if r["error"]:
                out["error"] = r["error"]
                break
            if r["fail"]:
                out["fail"] = r["fail"]
                break
    except BaseException:
        out["error"] = traceback.format_exc()
    os.write(res, json.dumps(out).encode())
    os.close(res)
    os._exit(0)


def run_leg(lg, a, deadline):
    cnt = dict(evaluations=0, nontrivial=[], labels={}, samples=[], skipped=0)
    seen = set()
    best = {}
    st = {}

    def one(case):
        if "t0" in st and time.monotonic() > st["t0"] + SHRINK_S:
            raise _Stop
        if "t0" not in st and time.monotonic() > deadline:
            cnt["skipped"] += 1
            return
        cnt["evaluations"] += 1
        try:
            lab = vf.run_case(lg, case)
        except vf.Violation as ex:
            st.setdefault("t0", time.monotonic())
            r = repr(case)
            if "r" not in best or len(r) <= len(best["r"]):
                best.update(r=r, msg=str(ex))
            raise
        except vf.HarnessError:
            st["herr"] = traceback.format_exc() + f"\ncase: {vf.short(case, 2000)}"
            raise _Stop
        if lab:
            for x in ([lab] if isinstance(lab, str) else lab):
                cnt["labels"][x] = cnt["labels"].get(x, 0) + 1
            d = vf.digest(case)
            if d not in seen:
                seen.add(d)
                if len(cnt["samples"]) < 2 and (len(seen) in (1, 7)):
                    cnt["samples"].append(vf.short(case, 500))

    err = None
    try:
        if lg.enumerate_ is not None:
            cases = lg.enumerate_() if callable(lg.enumerate_) else lg.enumerate_
            for i, c in enumerate(cases):
                if i % a.of == a.shard:
                    one(c)
        else:
            import hypothesis
            from hypothesis import settings, given, HealthCheck, Phase
            n = lg.quick if a.tier == "quick" else lg.thorough
            n = max(1, -(-n // a.of))
            seed = a.seed * 1000003 + a.shard * 7919 + sum(map(ord, lg.name))

            @hypothesis.seed(seed)
            @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                      print_blob=False, verbosity=hypothesis.Verbosity.quiet)
            @given(lg.strategy)
            def prop(case):
                one(case)
            prop()
    except _Stop:
        err = st.get("herr")
    except vf.Violation:
        pass
    except BaseException:
        if not best:
            err = traceback.format_exc()
    cnt["nontrivial"] = sorted(seen)
    fail = None
    if best and not err:
        fail = dict(leg=lg.name, case=best["r"], message=best["msg"])
        if lg.dd:
            c, m = vf.reduce(lg, vf.literal(best["r"]), best["msg"], time.monotonic() + 15, time.monotonic)
            fail.update(case=repr(c), message=m)
    return dict(count=cnt, fail=fail, error=err)


def replay(pid, path):
    d = json.load(open(path))
    mod = load(pid)
    lg = next(x for x in mod.LEGS if x.name == d["leg"])
    drop()
    os.chdir(os.environ["TMPDIR"])
    try:
        vf.run_case(lg, vf.literal(d["case"]))
    except vf.Violation as ex:
        print(f"{d['leg']}: {ex}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    print("replay passes")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--leg")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--of", type=int, default=8)
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=0)
    a = ap.parse_args()
    if a.shard is not None:
        shard_main(a)
    if a.id == "--setup" or a.id == "setup":
        vf.setup_path()
        import _vfnative  # noqa
        import keri.core  # noqa
        print("setup ok")
        return 0
    t0 = time.monotonic()
    if not a.budget:
        a.budget = 300 if a.tier == "quick" else 3000
    scratch = tempfile.mkdtemp(prefix="vf-")
    os.chmod(scratch, 0o777)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="",
               HOME=scratch, TMPDIR=scratch, LC_ALL="C.UTF-8", TZ="UTC")
    try:
        if a.replay:
            os.environ.update(env)
            tempfile.tempdir = None
            return replay(a.id, os.path.abspath(a.replay))
        return drive(a, env, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(a, env, scratch, t0):
    vf.setup_path()
    import _vfnative  # noqa: build the native part once, before the shards start
    procs = []
    for k in range(a.of):
        d = os.path.join(scratch, f"s{k}")
        os.mkdir(d)
        os.chmod(d, 0o777)
        e = dict(env, HOME=d, TMPDIR=d)
        out = os.path.join(scratch, f"out{k}.json")
        cmd = [sys.executable, os.path.join(HERE, "run.py"), a.id, "--tier", a.tier, "--seed", str(a.seed),
               "--shard", str(k), "--of", str(a.of), "--out", out, "--budget", str(a.budget)]
        if a.leg:
            cmd += ["--leg", a.leg]
        p = subprocess.Popen(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=open(os.path.join(scratch, f"err{k}"), "wb"), cwd=d)
        procs.append((p, out, k))
    results, failed = {}, None
    live = list(procs)
    hard = time.monotonic() + a.budget + 240
    while live:
        for t in list(live):
            p, out, k = t
            if p.poll() is None:
                continue
            live.remove(t)
            try:
                results[k] = json.load(open(out))
            except (OSError, ValueError):
                results[k] = dict(legs={}, fail=None, error=f"shard {k} exited {p.returncode}: " +
                                  open(os.path.join(scratch, f"err{k}"), errors="replace").read()[-3000:])
        if any(r["fail"] for r in results.values()):
            break
        if time.monotonic() > hard:
            break
        time.sleep(0.05)
    late = [k for p, o, k in live]
    for p, o, k in live:
        p.kill()
        p.wait()
    fails = [r["fail"] for r in results.values() if r["fail"]]
    errors = [r["error"] for r in results.values() if r["error"]]
    mod = load(a.id)
    ev, labels, samples, seen, perleg, skipped = 0, {}, [], set(), {}, 0
    for k in sorted(results):
        for name, c in results[k]["legs"].items():
            ev += c["evaluations"]
            skipped += c["skipped"]
            pl = perleg.setdefault(name, dict(evaluations=0, nontrivial=set()))
            pl["evaluations"] += c["evaluations"]
            for x in c["nontrivial"]:
                seen.add((name, x))
                pl["nontrivial"].add(x)
            for lb, n in c["labels"].items():
                labels[f"{name}:{lb}"] = labels.get(f"{name}:{lb}", 0) + n
            if len([1 for s in samples if s["leg"] == name]) < 2:
                samples += [dict(leg=name, case=s) for s in c["samples"][:1]]
    evid = dict(property=a.id, tier=a.tier, seed=a.seed, level=getattr(mod, "LEVEL", "exploration"),
                coverage=dict(evaluations=ev, distinct_nontrivial=len(seen), rule=mod.RULE, samples=samples[:40],
                              labels=dict(sorted(labels.items())),
                              per_leg={n: dict(evaluations=p["evaluations"], distinct_nontrivial=len(p["nontrivial"]))
                                       for n, p in perleg.items()},
                              skipped_over_budget=skipped, shards=a.of),
                assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.monotonic() - t0, 2),
                violations=1 if fails else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    if fails:
        fl = min(fails, key=lambda f: len(f["case"]))
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{a.id}-{fl['leg']}-{vf.digest(fl['case'])}.json")
        with open(path, "w") as f:
            json.dump(dict(property=a.id, **fl), f, indent=1)
        print(f"{fl['leg']}: {fl['message']}\n  case: {vf.short(fl['case'], 3000)}")
        print(f"VIOLATION property={a.id} replay={path}", flush=True)
        return 1
    if errors or late:
        for e in list(dict.fromkeys(errors))[:2]:
            print(e[-3500:], file=sys.stderr)
        if late:
            print(f"shards {late} did not finish in time", file=sys.stderr)
        return 3
    for key, what in vf.known(a.id).items():
        print(f"KNOWN-FINDING: property={a.id} {what}")
    print(f"{a.id} held: {ev} cases, {len(seen)} distinct non-trivial, {evid['wall_s']} s")
    for n, p in perleg.items():
        print(f"  {n}: {p['evaluations']} cases, {len(p['nontrivial'])} non-trivial")
    return 0


if __name__ == "__main__":
    sys.exit(main())
