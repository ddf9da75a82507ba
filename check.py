#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]

Discharges the contracts of one property with Kani over /repo's current source
and writes evidence/ID.json.  Exit 0: every obligation discharged.  Exit 1 and
a VIOLATION line: a named obligation fails.  Exit 2: no answer (build failed,
limit of the tool, time out)."""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
KANI = os.path.join(ROOT, "kani")
T0 = time.time()
REPO = os.environ.get("TOWER_REPO", "/repo")


kind = None


def left(limit):
    return max(1.0, limit - (time.time() - T0))


def run(cmd, timeout, env, out):
    """Run in its own process group; None on time out."""
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, cwd=KANI, stdout=f, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, env=env, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()


def metadata(mod):
    """The //@ lines above each harness in src/<mod>.rs."""
    res, cur = {}, {}
    text = open(os.path.join(KANI, "src", mod + ".rs")).read()
    trusted = re.findall(r'^//! trusted: (.*)$', text, re.M)
    global kind
    m = re.search(r"(?m)^//! kind: (\w+)$", text)
    kind = m.group(1) if m else None
    for line in text.split("\n"):
        m = re.match(r"\s*//@ (.*)", line)
        if m:
            w = m.group(1)
            for k in re.match(r"((?:\w+\s+|\w+$)*)", w).group(1).split():
                if k in ("proof", "bounded", "thorough", "hook"):
                    cur[k] = True
            for k, v in re.findall(r'(\w+)="([^"]*)"', w):
                cur[k] = v
        m = re.match(r"\s*(?:crate::)?(?:proof|case)!\((\w+),\s*(\d+)", line)
        if m:
            cur["unwind"] = int(m.group(2))
            res[mod + "::" + m.group(1)] = cur
            cur = {}
    return res, trusted


LIMIT = re.compile(r"unwinding assertion|recursion unwinding|not currently supported|unsupported|model capacity exceeded|is not supported|Undetermined|reached an unreachable model|vacuity", re.I)


# constant propagation through objects of up to this many fields (must come last)
CBMC = ["--cbmc-args", "--max-field-sensitivity-array-size", "1024"]


def kani_cmd(feats, target, harnesses, timeout, unwind, jobs, js):
    c = ["cargo", "kani", "--features", ",".join(feats), "--target-dir", target]
    for h in harnesses:
        c += ["--harness", h]
    if harnesses:
        c += ["--exact"]
    c += ["-Z", "unstable-options", "-Z", "stubbing", "--no-memory-safety-checks", "--harness-timeout", str(int(timeout)),
          "--output-format", "terse", "--export-json", js]
    if unwind:
        c += ["--unwind", str(unwind)]
    if jobs > 1:
        c += ["-j", str(jobs)]
    return c + CBMC


def load(js):
    if not os.path.exists(js):
        return None
    d = json.load(open(js))
    stats = {}
    for c in d.get("cbmc", []):
        stats[c["harness_id"]] = c.get("cbmc_stats") or {}
    return {r["harness_id"]: dict(status=r["status"], s=r["duration_ms"] / 1000.0, checks=r.get("checks") or [],
                                  stats=stats.get(r["harness_id"], {})) for r in d["verification_results"]["results"]}


def judge(r):
    """-> (kind, list of failing obligations); kind in ok, violation, limit."""
    fails, limits, covers = [], [], {}
    for c in r["checks"]:
        st, d = c["status"], c["description"].strip('"')
        where = "%s:%s" % (c["location"].get("file", "?"), c["location"].get("line", "?"))
        if st in ("Satisfied", "Unsatisfiable") or c.get("category") == "cover":
            k = (d, where)
            covers[k] = covers.get(k, False) or st == "Satisfied"
        elif st in ("Success", "Unreachable"):
            pass
        elif st == "Failure":
            (limits if LIMIT.search(d) else fails).append(dict(obligation=d, at=where, function=c.get("function", "")))
    if fails and not limits:
        return "violation", fails
    if limits:
        # an assertion that failed before any bound was exceeded is still a failure
        return ("violation", fails) if fails else ("limit", limits)
    dead = [dict(obligation="reachable: " + k[0], at=k[1], function="") for k, v in covers.items() if not v]
    if not r["checks"] or r["status"] != "Success":
        return "limit", [dict(obligation="no result (%s)" % r["status"], at="", function="")]
    if dead:
        return "violation", dead
    n = sum(1 for c in r["checks"] if c["status"] == "Success")
    if n == 0:
        return "limit", [dict(obligation="vacuous: no obligations", at="", function="")]
    return "ok", []


def playback(feats, target, h, env, tmp, unwind, limit):
    """The verifier's counterexample for harness h, as lists of byte lists."""
    out = os.path.join(tmp, "playback.txt")
    c = ["cargo", "kani", "--features", ",".join(feats), "--target-dir", target, "--harness", h, "--exact",
         "-Z", "concrete-playback", "--concrete-playback", "print", "-Z", "unstable-options",
         "-Z", "stubbing", "--no-memory-safety-checks"]
    if unwind:
        c += ["--unwind", str(unwind)]
    c += CBMC
    run(c, limit, env, out)
    text = open(out, errors="replace").read()
    res = []
    for blk in re.split(r"(?m)^Concrete playback unit test for", text)[1:]:
        m = re.search(r"Check for `(\w+)`: (.*)", blk)
        if not m or m.group(1) == "cover":
            continue
        b = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", blk, re.S)
        vals = re.findall(r"(?m)^\s*vec!\[([0-9, ]*)\]", b.group(1)) if b else []
        res.append((m.group(2).strip('"'), [v.replace(",", " ").split() for v in vals]))
    # the failed assertions' own text
    detail = [l for l in text.split("\n") if "Status: FAILURE" in l or "Failed Checks" in l or "File:" in l][:40]
    return res, detail


def native(feats, target, h, env, tmp, replay, limit):
    out = os.path.join(tmp, "native.txt")
    e = dict(env, ND_REPLAY=replay)
    rc = run(["cargo", "test", "--offline", "-q", "--features", ",".join(feats), "--target-dir", target, "--lib",
              "--", h, "--exact", "--nocapture", "--test-threads=1"], limit, e, out)
    text = open(out, errors="replace").read()
    m = re.search(r"REPLAY-PANIC: (.*(?:\n.*)?)", text)
    return (m.group(1) if m else None), text[-3000:], rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness", action="append", default=[])
    a = ap.parse_args()
    pid, mod = a.id, a.id.lower()
    tier = "thorough" if a.tier == "thorough" else "quick"
    limit = 860 if tier == "quick" else 7200
    htime = 600 if tier == "quick" else 3000
    meta, trusted = metadata(mod)
    feats = [mod] + (["thorough"] if tier == "thorough" else [])
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    target = os.path.join(KANI, "target", mod)
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % mod)
    code = 2
    try:
        env, state = hooked(mod, env, target)
        code = check(pid, mod, tier, limit, htime, meta, trusted, feats, env, target, tmp, a.harness, state)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if os.environ.get("VERIF_KEEP") is None and os.environ.get("VERIF_TIER"):
            shutil.rmtree(target, ignore_errors=True)
    sys.exit(code)


HOOKS = ("backoff", "rng", "tps_budget", "rate", "peak_ewma", "hedge", "rotating_histogram")


def hooked(mod, env, target):
    """The environment that turns the guarded hooks of /repo on, if this module uses any."""
    m = re.search(r"(?m)^//! hooks: (.*)$", open(os.path.join(KANI, "src", mod + ".rs")).read())
    if not m:
        return env, None
    d = target + "-hooks"
    os.makedirs(d, exist_ok=True)
    for h in HOOKS:
        text = open(os.path.join(ROOT, "hooks", h + ".rs")).read() if h in m.group(1).split() else ""
        p = os.path.join(d, h + ".rs")
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
    return dict(env, RUSTFLAGS="--cfg tower_verif", TOWER_VERIF_DIR=d), "on"


def known(pid):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res


def check(pid, mod, tier, limit, htime, meta, trusted, feats, env, target, tmp, only, state):
    js = os.path.join(tmp, "out.json")
    log = os.path.join(tmp, "log.txt")
    cmd = kani_cmd(feats, target, only, htime, None, 8, js)
    rc = run(cmd, left(limit - 30), env, log)
    text = open(log, errors="replace").read()
    res = load(js)
    if res is None and rc is not None and state == "on" and re.search(r"(?m)^error", text):
        # private state was renamed or reshaped: the contracts over the public interface remain
        state = "off: the hooks did not compile"
        env = {k: v for k, v in env.items() if k not in ("RUSTFLAGS", "TOWER_VERIF_DIR")}
        only = [h for h in only if not meta.get(h, {}).get("hook")]
        meta = {h: m for h, m in meta.items() if not m.get("hook")}
        rc = run(kani_cmd(feats, target, only, htime, None, 8, js), left(limit - 30), env, log)
        text = open(log, errors="replace").read()
        res = load(js)
    if res is None:
        why = "timed out" if rc is None else "did not build or run"
        errs = re.findall(r"(?m)^error.*(?:\n.*){0,6}", text)
        print("NO-ANSWER property=%s Kani %s" % (pid, why))
        print("\n".join(errs[:5])[:3000] or text[-2000:])
        return 2
    want = [h for h, m in meta.items() if not only or h in only]
    if tier == "quick":
        want = [h for h in want if not meta[h].get("thorough")]
    missing = [h for h in want if h not in res]
    # a bound of the harness exceeded: the code may have changed shape; look deeper once
    unw = {}
    for h, r in list(res.items()):
        k, f = judge(r)
        if k == "limit" and any("unwinding" in x["obligation"] for x in f) and left(limit) > 120:
            unw[h] = 2 * meta.get(h, {}).get("unwind", 6) + 2
            js2 = os.path.join(tmp, "retry.json")
            run(kani_cmd(feats, target, [h], left(limit - 60), unw[h], 1, js2), left(limit - 40), env, log)
            r2 = load(js2)
            if r2 and h in r2:
                res[h] = r2[h]
            if os.path.exists(js2):
                os.remove(js2)
    verdicts = {h: judge(r) for h, r in res.items()}
    bad = {h: f for h, (k, f) in verdicts.items() if k == "violation"}
    lim = {h: f for h, (k, f) in verdicts.items() if k == "limit"}
    fuzz = None
    violations = 0
    if bad:
        rp = os.path.join(ROOT, "evidence", "replay-%s.txt" % pid)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        confirmed, body = None, []
        for h in sorted(bad, key=lambda h: res[h]["s"]):
            if confirmed:
                break
            if left(limit) < 40:
                break
            if all(f["obligation"].startswith("reachable:") for f in bad[h]):
                continue
            tests, detail = playback(feats, target, h, env, tmp, unw.get(h), left(limit - 60))
            for what, vals in tests[:4]:
                if left(limit) < 20:
                    break
                with open(rp, "w") as f:
                    f.write("harness: %s\n" % h + "".join("value: %s\n" % " ".join(v) for v in vals))
                msg, tail, _ = native(feats, target + "-native", h, env, tmp, rp, left(limit - 5))
                if msg:
                    confirmed = (h, what, vals, msg)
                    break
                body.append("not reproduced natively: %s %s\n%s" % (h, what, tail[-800:]))
        with open(rp, "w") as f:
            f.write("property: %s\n" % pid)
            for h, fs in sorted(bad.items()):
                for x in fs:
                    f.write("failed obligation: %s: %s (%s) in %s\n" % (h, x["obligation"], x["at"], x["function"]))
            if confirmed:
                h, what, vals, msg = confirmed
                f.write("harness: %s\nobligation: %s\nnative run against the real code panicked: %s\n" % (h, what, msg))
                f.write("# rerun: cd %s && ND_REPLAY=%s cargo test --offline --features %s --lib -- %s --exact --nocapture\n" % (KANI, rp, ",".join(feats), h))
                f.write("".join("value: %s\n" % " ".join(v) for v in vals))
            else:
                f.write("\n".join(body) + "\n")
        violations = len(bad)
        for h, fs in sorted(bad.items()):
            for x in fs[:6]:
                print("FAILED OBLIGATION %s: %s (%s)" % (h, x["obligation"], x["at"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if confirmed else " no-failing-input-found"))
    # evidence
    def tot(hs, pred):
        return sum(1 for h in hs for c in res[h]["checks"] if pred(c))
    P = [h for h in res if not meta.get(h, {}).get("bounded")]
    B = [h for h in res if meta.get(h, {}).get("bounded")]
    okP = [h for h in P if verdicts[h][0] == "ok"]
    real = lambda c: c["status"] in ("Success", "Failure", "Undetermined")
    good = lambda c: c["status"] == "Success"
    fns = sorted({f.strip() for h in P for f in meta.get(h, {}).get("fns", "").split(",") if f.strip()})
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=kind or ("proof" if P else "other"),
              violations=violations, wall_s=round(time.time() - T0, 1),
              coverage=dict(
                  obligations=tot(P, real), discharged=tot(P, good),
                  checker_cmd=" ".join(kani_cmd(feats, os.path.relpath(target, KANI), [], htime, None, 8, "out.json")) + "   (in %s)" % KANI,
                  trusted_base=["Kani 0.68.0 (MIR to GOTO translation), CBMC 6.11.0, MiniSat", "rustc nightly front end"] + [
                      "model crate standing in for " + m for m in
                      ("tokio (time, sync, task)", "tokio-util (PollSemaphore, PollSender)", "tracing (no-op)", "indexmap", "hdrhistogram", "FuturesUnordered")] + trusted,
                  hooks=state or "none used",
                  back_end="CBMC 6.11.0 bit-precise symbolic execution, MiniSat",
                  functions_under_contract=fns,
                  vccs_generated=sum(int(res[h]["stats"].get("vccs_generated") or 0) for h in P),
                  vccs_remaining_for_solver=sum(int(res[h]["stats"].get("vccs_remaining") or 0) for h in P),
                  solver_s=round(sum(float(r["stats"].get("runtime_decision_procedure_s") or 0) for r in res.values()), 2),
                  symex_s=round(sum(float(r["stats"].get("runtime_symex_s") or 0) for r in res.values()), 2),
                  covers_satisfied=tot(res, lambda c: c["status"] == "Satisfied"),
                  trivially_unreachable=tot(P, lambda c: c["status"] == "Unreachable"),
                  contracts=[dict(harness=h, verdict=verdicts[h][0], seconds=res[h]["s"],
                                  obligations=tot([h], real), functions=meta.get(h, {}).get("fns", ""),
                                  note=meta.get(h, {}).get("note", "")) for h in sorted(P)],
                  bounded_checks_not_counted=[dict(harness=h, verdict=verdicts[h][0], seconds=res[h]["s"], bound=meta[h].get("bound", ""),
                                                   obligations=tot([h], real), functions=meta[h].get("fns", ""), note=meta[h].get("note", "")) for h in sorted(B)],
                  explanation="each obligation is an assertion (or implicit panic/overflow check) in the real code or in its contract, decided for every input by CBMC"),
              assumptions=ASSUME + trusted)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        return 1
    if lim or missing:
        for h in missing:
            print("NO-ANSWER property=%s harness %s did not run" % (pid, h))
        for h, fs in lim.items():
            print("NO-ANSWER property=%s %s: %s" % (pid, h, fs[0]))
        return 2
    for k in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("OK property=%s contracts=%d obligations=%d bounded=%d wall=%.0fs" % (pid, len(okP), ev["coverage"]["discharged"], len(B), time.time() - T0))
    return 0


ASSUME = [
    "single thread: Kani has no threads; Arc and atomics are verified sequentially",
    "the wrapped service, future, policy, layer is an arbitrary environment that keeps the Service contract and does not panic",
    "memory-safety checks of CBMC are off (tower forbids unsafe code)",
    "termination is not proved",
    "the dependencies named in trusted_base are replaced by specification models",
]

if __name__ == "__main__":
    main()
