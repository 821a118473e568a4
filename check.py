#!/usr/bin/env python3
"""Decide one property: model-check the specification, build the conformance harness against /repo's
working tree, record traces of the real library (replaying behaviours generated by TLC where the plan
says so), and let TLC validate every recorded trace against the specification.

    check.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)

exit 0: held on everything explored; exit 1: VIOLATION line(s); exit 2: the check itself could not run.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan  # noqa: E402

SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(crate, bins, features=()):
    """build harness binaries from /repo's current working tree"""
    target = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "out", "target-" + crate))
    os.makedirs(target, exist_ok=True)
    cmd = ". /opt/vp/env.sh; cd %s/%s && CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR=%s cargo build --offline --message-format short %s 2>&1" % (
        VERIF, crate, target, " ".join(["--features " + f for f in features] + ["--bin " + b for b in bins]))
    r = sh(["bash", "-c", cmd], timeout=800)
    if r.returncode != 0:
        errs = [x for x in r.stdout.splitlines() if "error" in x][:30]
        raise Broken("harness does not build against /repo:\n" + "\n".join(errs or r.stdout.splitlines()[-30:]))
    return os.path.join(target, "debug")


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue")


def tlc(module, cfg, work, env=None, workers=8, timeout=800, extra=()):
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, "states")
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx10g -Xss16m"
    e.update(env or {})
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, "tlc-%s.out" % module), "w") as f:
        f.write(r.stdout)
    m = STATS.search(r.stdout)
    return r, (int(m[1]), int(m[2]), int(m[3])) if m else None


def model_check(mc, work):
    """mc: {module, cfg, chains?}; returns (generated, distinct, emitted lines)"""
    cfg = mc["cfg_thorough"] if THOROUGH and "cfg_thorough" in mc else mc["cfg"]
    r, st = tlc(mc["module"], cfg, os.path.join(work, "mc-" + cfg), workers=mc.get("workers", 4), timeout=3000 if THOROUGH else 800)
    if mc.get("refutes"):
        # a deliberately wrong variant of the model: the invariants have to notice
        if "Invariant %s is violated" % mc["refutes"] not in r.stdout:
            raise Broken("the wrong variant %s of %s is not refuted:\n%s" % (cfg, mc["module"], r.stdout[-2000:]))
        log("model", mc["module"], cfg, "refuted as it should be")
        return 0, 0, []
    if r.returncode != 0 or st is None or st[2] != 0 or "No error has been found" not in r.stdout:
        raise Broken("specification %s fails its own model check:\n%s" % (mc["module"], "\n".join(r.stdout.splitlines()[-40:])))
    pre = mc.get("emit")
    lines = []
    if pre:
        for x in r.stdout.splitlines():
            if x.startswith('"' + pre + " "):
                lines.append(x[len(pre) + 2:-1])
    log("model", mc["module"], cfg, "states", st[1], "transitions", st[0], "emitted", len(lines))
    return st[0], st[1], lines


def run_trace(tr, bindir, work, emitted):
    """run one driver and validate what it recorded"""
    name = tr["name"]
    w = os.path.join(work, name)
    os.makedirs(w, exist_ok=True)
    trace = os.path.join(w, "trace.ndjson")
    cmd = [os.path.join(bindir[tr.get("crate", "harness")], tr["bin"]), trace, str(SEED), TIER] + [str(x) for x in tr.get("args", [])]
    if tr.get("input"):
        inp = os.path.join(w, "input.txt")
        lines = emitted.get(tr["input"], [])
        if not lines:
            raise Broken("no behaviours were generated for " + name)
        step = tr.get("sample", 1) if not THOROUGH else tr.get("sample_thorough", 1)
        # a different residue class for every seed, all of them in thorough runs
        with open(inp, "w") as f:
            f.write("\n".join(sorted(set(lines))[(SEED % step)::step]) + "\n")
        cmd.append(inp)
    e = dict(os.environ)
    e.update({"OPENBLAS_NUM_THREADS": "2", "OMP_NUM_THREADS": "2", "RUST_BACKTRACE": "0"})
    limit = 1500 if THOROUGH else 400
    crash = None
    t = time.time()
    try:
        r = sh(cmd, env=e, timeout=limit, cwd=w)
        if r.returncode != 0:
            crash = "driver %s ended with status %d: %s" % (tr["bin"], r.returncode, r.stdout[-600:])
    except subprocess.TimeoutExpired:
        crash = "driver %s did not finish within %d s (a call of the library does not return)" % (tr["bin"], limit)
    raw = open(trace, errors="replace").read().splitlines() if os.path.exists(trace) else []
    sess = []
    for line in raw:
        try:
            sess.append(json.loads(line))
        except ValueError:
            break
    if crash:
        with open(trace, "w") as f:
            f.write("".join(json.dumps(x) + "\n" for x in sess))
    t1 = time.time()
    fails, st, viol = [], (0, 0, 0), []
    if crash:
        viol.append({"trace": name, "session": len(sess) + 1, "event": 0, "what": crash, "cmd": cmd})
    if sess:
        spec = tr["spec"]
        r, st = tlc(spec, spec + ".cfg", w, env={"TRACE": trace}, workers=tr.get("workers", 8), timeout=3000 if THOROUGH else 800)
        for line in r.stdout.splitlines():
            m = re.match(r'^"FAIL (\d+) (\d+) (.*)"$', line)
            if m:
                fails.append((int(m[1]), int(m[2]), m[3]))
        if r.returncode != 0 or st is None or "No error has been found" not in r.stdout:
            txt = "\n".join(x for x in r.stdout.splitlines() if not x.startswith('"FAIL'))
            if "Parsing or semantic analysis failed" in txt or "OutOfMemory" in txt or "StackOverflow" in txt or st is None and "rror" not in txt:
                raise Broken("TLC failed on %s:\n%s" % (name, txt[-2500:]))
            m = re.search(r"/\\ s = (\d+)", txt)
            m2 = re.search(r"/\\ l = (\d+)", txt)
            viol.append({"trace": name, "session": int(m[1]) if m else 0, "event": int(m2[1]) if m2 else 0,
                         "what": "the recorded trace cannot be interpreted by the specification: " + txt[-1500:], "cmd": cmd})
        elif st[2] != 0:
            raise Broken("TLC left states on its queue for " + name)
        else:
            stop = {}
            for s, l, _ in fails:
                stop[s] = max(stop.get(s, 0), l)
            cont = tr.get("independent", False)
            want = sum(len(x["ev"]) + 1 if cont or i + 1 not in stop else stop[i + 1] + 1 for i, x in enumerate(sess))
            if st[1] != want:
                raise Broken("trace %s: TLC reached %d states instead of %d: some events were not checked" % (name, st[1], want))
    for s, l, exp in sorted(fails):
        ev = sess[s - 1]["ev"][l - 1]
        viol.append({"trace": name, "session": s, "event": l, "observed": ev, "expected": exp[:3000], "history": sess[s - 1]["ev"][:l],
                     "cmd": cmd, "what": "the specification does not allow this event"})
    nev = sum(len(x["ev"]) for x in sess)
    log("trace", name, "sessions", len(sess), "events", nev, "harness %.1fs tlc %.1fs" % (t1 - t, time.time() - t1), "failures", len(viol))
    kinds = {}
    distinct = set()
    bad = 0
    for x in sess:
        for ev in x["ev"]:
            k = ev.get("e", "?") + ("." + str(ev["op"]) if "op" in ev else "")
            kinds[k] = kinds.get(k, 0) + 1
            rk = ev.get("r", {}).get("k") if isinstance(ev.get("r"), dict) else ev.get("k")
            if rk in ("err", "panic") or any(isinstance(ev.get(q), dict) and ev[q].get("k") in ("err", "panic") for q in ("rf", "rc", "ri")):
                bad += 1
            distinct.add(hash(json.dumps({a: b for a, b in ev.items() if a != "how"}, sort_keys=True)))
    sample = None
    for x in sess:
        if len(json.dumps(x)) < 3000 and len(x["ev"]) > 1:
            sample = x
            break
    return {"name": name, "sessions": len(sess), "events": nev, "states": st[1], "viol": viol, "kinds": kinds, "refused": bad,
            "distinct": len(distinct), "sample": sample or (json.dumps(sess[0])[:3000] if sess else None)}


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                f = json.loads(line)
                if f.get("status") == "known" and f["property"] == pid:
                    out.append(f)
    return out


def matches(f, v):
    """a finding names the exact event (operation, arguments, operand layouts) that fails"""
    obs = v.get("observed")
    if obs is None or f.get("trace") not in (None, v["trace"]):
        return False
    return all(obs.get(k) == val for k, val in f["match"].items())


def main():
    pid = sys.argv[1]
    P = plan.PLAN[pid]
    work = os.path.join(VERIF, "out", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    traces = P["traces"]
    crates, feats = {}, set()
    for tr in traces:
        crates.setdefault(tr.get("crate", "harness"), set()).add(tr["bin"])
        feats.update([tr["features"]] if "features" in tr else [])
    states = trans = 0
    emitted = {}
    mcs = P.get("mc", [])
    with cf.ThreadPoolExecutor(8) as ex:
        fb = {c: ex.submit(build, c, sorted(b), sorted(feats)) for c, b in crates.items()}
        fm = [(m, ex.submit(model_check, m, work)) for m in mcs]
        bindir = {c: f.result() for c, f in fb.items()}
        log("harness built")
        for m, f in fm:
            a, b, lines = f.result()
            trans += a
            states += b
            emitted[m["module"]] = emitted.get(m["module"], []) + lines
    res = [run_trace(tr, bindir, work, emitted) for tr in traces]
    viol, known = [], {}
    for r in res:
        for v in r["viol"]:
            f = next((f for f in known_findings(pid) if matches(f, v)), None)
            if f is not None:
                known.setdefault(f["what"], []).append(v)
            else:
                viol.append(v)
    ev = {
        "property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": P.get("level", "model_checking"),
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": sum(r["sessions"] for r in res),
            "trace_events_validated": sum(r["events"] for r in res),
            "trace_spec_states": sum(r["states"] for r in res),
            "distinct_events": sum(r["distinct"] for r in res),
            "events_refused_by_library": sum(r["refused"] for r in res),
            "behaviours_generated_from_spec": sum(len(x) for x in emitted.values()),
            "models": [{"module": m["module"], "cfg": m["cfg"]} for m in mcs],
            "events_by_kind": {r["name"]: r["kinds"] for r in res},
            "samples": [r["sample"] for r in res if r["sample"]][:3],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for what, vs in known.items():
        print("KNOWN-FINDING: property=%s %s (%d occurrences)" % (pid, what, len(vs)))
    for i, v in enumerate(viol[:3]):
        path = os.path.join(work, "replay-%d.json" % i)
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, seed=SEED, tier=TIER), f, indent=1)
        o = v.get("observed")
        log("violation:", v["what"][:600], "in trace", v["trace"], "session", v["session"], "event", v["event"])
        if o is not None:
            log("  observed:", json.dumps(o)[:900])
            log("  expected:", v["expected"][:900])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    if len(viol) > 3:
        log("%d violations in total" % len(viol))
    if not viol:
        # nothing to replay: drop the bulky traces
        for r in res:
            shutil.rmtree(os.path.join(work, r["name"]), ignore_errors=True)
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK-BROKEN:", e, flush=True)
        sys.exit(2)
