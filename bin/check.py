#!/usr/bin/env python3
"""Run the check of one property:  bin/check.py ID [--tier quick|thorough] [--seed N]

Each property has generation jobs (TLC enumerates behaviours of a specification, checking the
specification's own invariants, and the harness replays them against /repo) and trace jobs (the
harness records behaviours of /repo, TLC validates them against the same specification).
Exit 0: held.  Exit 1: a VIOLATION line.  Exit 2: the check itself failed.
"""
import json, os, re, subprocess, sys, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from jobs import PROPS  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.path.join(VERIF, "target")
BIN = os.path.join(TARGET, "debug", "geosverif")


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ)
    env.update(RUSTFLAGS="--cfg geos_verif", CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true",
               RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    # cargo decides by mtime: forget the fingerprints of the crate under test so that it is rebuilt
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("geos-rs-"):
                subprocess.run(["rm", "-rf", os.path.join(fp, d)], check=True)
    for attempt in (1, 2):
        p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return
    raise ToolError("harness build failed:\n" + p.stdout[-4000:])


def cfg_text(j, consts, trace):
    out = []
    if j.get("spec"):
        out.append("SPECIFICATION " + j["spec"])
    else:
        out.append("INIT " + j.get("init", "TInit" if trace else "Init"))
        out.append("NEXT " + j.get("next", "TNext" if trace else "Next"))
    if consts:
        out.append("CONSTANTS")
        out += ["  %s = %s" % kv for kv in consts.items()]
    for k, key in (("INVARIANT", "inv"), ("PROPERTY", "props"), ("CONSTRAINT", "constraint"),
                   ("ACTION_CONSTRAINT", "actcon")):
        for x in j.get(key, []):
            out.append("%s %s" % (k, x))
    if j.get("view"):
        out.append("VIEW " + j["view"])
    if trace:
        if j.get("mode", "query") == "query":
            out.append("INVARIANT EventOK")
        else:
            out.append("POSTCONDITION Accepted")
    out.append("CHECK_DEADLOCK FALSE")
    return "\n".join(out) + "\n"


def tlc(name, module, cfg, outdir, env_extra=None, simulate=None, seed=1, workers=4, timeout=840, coverage=False):
    os.makedirs(outdir, exist_ok=True)
    cfgp = os.path.join(outdir, name + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    log = os.path.join(outdir, name + ".log")
    meta = os.path.join(outdir, "states-" + name)
    tmpd = os.path.join(outdir, "tmp-" + name)
    os.makedirs(tmpd, exist_ok=True)
    cmd = ["java", "-Xmx5g", "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmpd, "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp]
    if coverage:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate["num"], "-depth", str(simulate["depth"]), "-seed", str(seed)]
    cmd.append(os.path.join(VERIF, "spec", module + ".tla"))
    env = dict(os.environ)
    env.update(env_extra or {})
    with open(log, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=env, stdout=f, stderr=subprocess.STDOUT,
                               timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + name)
        finally:
            subprocess.run(["rm", "-rf", meta, tmpd])
    return rc, log


def tail_text(log, n=200000):
    with open(log, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - n))
        return f.read().decode("utf8", "replace")


def stats(txt):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    m = re.findall(r"The number of states generated: (\d+)", txt)
    if m:
        return int(m[-1]), int(m[-1])
    m = re.findall(r"Progress: (\d+) states checked", txt)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def harness(args, timeout=840):
    try:
        p = subprocess.run([BIN] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("harness timed out: " + " ".join(args))
    for line in p.stdout.splitlines():
        if line.startswith("RESULT "):
            r = json.loads(line[7:])
            return r
    if p.returncode < 0:
        return {"crash": "the code under test ended the process with signal %d" % -p.returncode,
                "cases": 0, "distinct": 0, "evals": 0, "violations": [{"kind": "crash", "signal": -p.returncode, "args": args}]}
    raise ToolError("harness failed (%s): %s %s" % (p.returncode, " ".join(args), p.stderr[-2000:]))


def pick(j, tier, key, default=None):
    if tier == "thorough" and "thorough" in j and key in j["thorough"]:
        return j["thorough"][key]
    return j.get(key, default)


def gen_job(pid, i, j, tier, seed, outdir):
    name = "gen%d-%s" % (i, j["module"])
    consts = dict(j.get("consts", {}))
    if tier == "thorough":
        consts.update(j.get("thorough", {}).get("consts", {}))
    sim = pick(j, tier, "simulate")
    jj = dict(j, props=pick(j, tier, "props", []))
    jj["inv"] = list(j.get("inv", [])) + [j.get("emit", "EmitCases")]
    rc, log = tlc(name, j["module"], cfg_text(jj, consts, False), outdir, simulate=sim, seed=seed,
                  coverage=(tier == "thorough" and not sim))
    txt = tail_text(log)
    if rc != 0:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (name, rc, "\n".join(x for x in txt.splitlines() if not x.startswith('"['))[-3000:]))
    distinct, generated = stats(txt)
    args = ["replay", j["job"], log, "--seed", str(seed), "--tier", tier]
    per = pick(j, tier, "per")
    if per:
        args += ["--per", str(per)]
    r = harness(args)
    if not r.get("violations") and r["cases"] < j.get("min_cases", 1):
        raise ToolError("%s produced only %d cases" % (name, r["cases"]))
    if not os.environ.get("KEEP"):
        os.remove(log)
    return dict(kind="gen", name=name, module=j["module"], consts=consts, simulate=sim, states=distinct,
                transitions=generated, cases=r["cases"], distinct=r["distinct"], evals=r["evals"],
                samples=r.get("samples", []), judged=r.get("judged", {}), violations=r["violations"])


def ask_job(pid, i, j, tier, seed, outdir):
    """Random inputs from the harness; TLC evaluates the specification on them; the harness replays."""
    name = "ask%d-%s" % (i, j["module"])
    n = pick(j, tier, "n", 2000)
    inp = os.path.join(outdir, name + ".ndjson")
    harness(["inputs", j["job"], inp, "--seed", str(seed), "--tier", tier, "--n", str(n)])
    consts = dict(j.get("consts", {}))
    jj = dict(j)
    jj["init"], jj["next"] = "TInit", "TNext"
    jj["inv"] = list(j.get("inv", [])) + ["EmitAsk"]
    rc, log = tlc(name, j["module"], cfg_text(jj, consts, False), outdir, env_extra={"TRACE": inp})
    txt = tail_text(log)
    if rc != 0:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (name, rc, "\n".join(x for x in txt.splitlines() if not x.startswith('"['))[-3000:]))
    distinct, generated = stats(txt)
    args = ["replay", j["job"], log, "--seed", str(seed), "--tier", tier]
    per = pick(j, tier, "per")
    if per:
        args += ["--per", str(per)]
    r = harness(args)
    if not r.get("violations") and r["cases"] < n:
        raise ToolError("%s: the specification answered %d of %d inputs" % (name, r["cases"], n))
    if not os.environ.get("KEEP"):
        os.remove(log)
        os.remove(inp)
    return dict(kind="ask", name=name, module=j["module"], consts=consts, states=distinct, transitions=generated,
                cases=r["cases"], distinct=r["distinct"], evals=r["evals"], samples=r.get("samples", []), judged=r.get("judged", {}), violations=r["violations"])


def trace_job(pid, i, j, tier, seed, outdir):
    name = "trace%d-%s" % (i, j["module"])
    n = pick(j, tier, "n", 10000)
    tr = os.path.join(outdir, name + ".ndjson")
    os.makedirs(outdir, exist_ok=True)
    r = harness(["record", j["job"], tr, "--seed", str(seed), "--tier", tier, "--n", str(n)])
    res = dict(kind="trace", name=name, module=j["module"], states=0, transitions=0, traces=0, samples=[], violations=[])
    if r.get("violations"):
        res["violations"] = r["violations"]
        return res
    consts = dict(j.get("consts", {}))
    mode = j.get("mode", "query")
    rc, log = tlc(name, j["module"], cfg_text(j, consts, True), outdir, env_extra={"TRACE": tr},
                  workers=4 if mode == "query" else 1)
    txt = tail_text(log)
    distinct, generated = stats(txt)
    res.update(states=distinct, transitions=generated, traces=r["histories"], events=r["events"], distinct=r["distinct"])
    events = open(tr).read().splitlines()
    res["samples"] = [json.loads(x) for x in events[:2]]
    bad = None
    if mode == "query":
        if rc != 0:
            m = re.findall(r"^(?:/\\ )?l = (\d+)", txt, re.M)
            if not m:
                raise ToolError("TLC failed on %s (rc %d):\n%s" % (name, rc, txt[-3000:]))
            bad = int(m[-1])
        elif distinct < len(events):
            raise ToolError("%s: TLC looked at %d of %d events" % (name, distinct, len(events)))
    else:
        if rc != 0:
            m = re.findall(r'REJECT.*?(\d+)', txt) or re.findall(r"^(?:/\\ )?l = (\d+)", txt, re.M)
            if not m:
                raise ToolError("TLC failed on %s (rc %d):\n%s" % (name, rc, txt[-3000:]))
            bad = int(m[-1])
        elif "ACCEPTED" not in txt:
            raise ToolError("%s: no verdict:\n%s" % (name, txt[-2000:]))
    if bad is not None:
        k = min(bad, len(events)) - 1
        hist = [json.loads(events[k])]
        while mode != "query" and not hist[0]["first"] and k > 0:
            k -= 1
            hist.insert(0, json.loads(events[k]))
        res["violations"] = [dict(kind="trace", job=j["job"], module=j["module"], event=bad, history=hist,
                                  note="the recorded event is not a behaviour of the specification")]
    if not res["violations"] and not os.environ.get("KEEP"):
        os.remove(tr)
        os.remove(log)
    return res


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    a = sys.argv[2:]
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    t0 = time.time()
    P = PROPS[pid]
    outdir = os.path.join(VERIF, "out", pid)
    subprocess.run(["rm", "-rf", outdir])
    os.makedirs(outdir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    build()
    t1 = time.time()
    jobs = [(gen_job, i, j) for i, j in enumerate(P.get("gen", []))] + [(ask_job, i, j) for i, j in enumerate(P.get("ask", []))] + [(trace_job, i, j) for i, j in enumerate(P.get("trace", []))]
    results, errors = [], []
    with cf.ThreadPoolExecutor(3) as ex:
        futs = [ex.submit(f, pid, i, j, tier, seed, outdir) for f, i, j in jobs]
        for f in futs:
            try:
                results.append(f.result())
            except ToolError as e:
                errors.append(str(e))
    viol = [v for r in results for v in r["violations"]]
    kf = [k for k in known() if k.get("property") == pid and k.get("status") == "known"]
    rest, hit = [], {}
    for v in viol:
        m = next((k for k in kf if all(s in json.dumps(v, separators=(",", ":")) for s in k["match"])), None)
        if m:
            hit[m["what"]] = v
        else:
            rest.append(v)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov = dict(
        states=sum(r["states"] for r in results), transitions=sum(r["transitions"] for r in results),
        traces_validated_against_impl=sum(r.get("traces", 0) for r in results) + sum(r.get("distinct", 0) for r in results if r["kind"] != "trace"),
        behaviours_replayed_into_impl=sum(r.get("distinct", 0) for r in results if r["kind"] != "trace"),
        replays_over_embeddings=sum(r.get("evals", 0) for r in results),
        events_recorded_and_validated=sum(r.get("events", 0) for r in results),
        exhaustive=False,
        exhaustive_parts=["%s %s" % (r["module"], r["consts"]) for r in results if r["kind"] == "gen" and not r["simulate"]],
        jobs=[{k: v for k, v in r.items() if k not in ("samples", "violations")} for r in results],
        samples=[s for r in results for s in r["samples"][:3]],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(rest))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rest:
        rp = os.path.join(outdir, "violation.json")
        with open(rp, "w") as f:
            json.dump(rest, f, indent=1)
        for v in rest[:3]:
            print(json.dumps(v)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if errors:
        for e in errors:
            print("ERROR " + e)
        sys.exit(2)
    for r in results:
        print("%-28s states %-8d cases/events %-8d evals %d" % (r["name"], r["states"], r.get("cases", r.get("events", 0)), r.get("evals", 0)) +
              "".join("  %s %d+%d" % (k, v[0], v[1]) for k, v in sorted(r.get("judged", {}).items())))
    print("OK property=%s tier=%s seed=%d build %.1fs total %.1fs" % (pid, tier, seed, t1 - t0, time.time() - t0))


if __name__ == "__main__":
    try:
        main()
    except ToolError as e:
        print("ERROR " + str(e))
        sys.exit(2)
