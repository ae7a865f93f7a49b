#!/usr/bin/env python3
"""Driver of the checks: builds the model checker against /repo, explores, reports.

  check.py setup            build all flavours and validate the machinery
  check.py PROP [TIER]      run the check of one property (tier: argument, VERIF_TIER or quick)

Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: the check itself failed.
"""
import glob, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time, zlib, gzip

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
EVID = os.path.join(HERE, "evidence")
REPO = "/repo"
FLAVOURS = {
    # Build with the shipped constants / with the scaled-down constants of the hook.
    "real": ("target", "", {}),
    "small": ("target-small", "--cfg deflate_mc_small", {}),
    # The scaled-down build as a release build is: without debug assertions and overflow checks. Always explored to
    # the quick bounds.
    "release": ("target-release", "--cfg deflate_mc_small", {"CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false"}),
}
# Properties which only have families in one of the builds need not run the other.
DEADLINE = {"quick": 840, "thorough": 6 * 3600}


def log(*a):
    print(*a, flush=True)


def source_hash():
    h = hashlib.sha256()
    fs = [os.path.join(REPO, "Cargo.toml")]
    for d in (os.path.join(REPO, "src"), os.path.join(MC, "src")):
        for r, _, names in sorted(os.walk(d)):
            fs += [os.path.join(r, n) for n in sorted(names)]
    fs.append(os.path.join(MC, "Cargo.toml"))
    for f in fs:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build():
    """Build all flavours concurrently; returns {flavour: (ok, log)}."""
    sh = source_hash()
    procs = {}
    for fl, (tdir, flags, profile) in FLAVOURS.items():
        t = os.path.join(MC, tdir)
        mark = os.path.join(t, "source-hash")
        old = open(mark).read() if os.path.exists(mark) else ""
        if old != sh:
            # Do not rely on modification times alone.
            for p in glob.glob(os.path.join(t, "release", ".fingerprint", "deflate-*")) + glob.glob(os.path.join(t, "release", ".fingerprint", "mc-*")):
                shutil.rmtree(p, ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=t, CARGO_NET_OFFLINE="true")
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        env["RUSTFLAGS"] = flags
        env.update(profile)
        procs[fl] = (mark, subprocess.Popen(["cargo", "build", "--release", "--offline", "--locked"], cwd=MC, env=env,
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    res = {}
    for fl, (mark, p) in procs.items():
        out = p.communicate()[0]
        if p.returncode == 0:
            open(mark, "w").write(sh)
        res[fl] = (p.returncode == 0, out)
    return res


def mc(fl):
    return os.path.join(MC, FLAVOURS[fl][0], "release", "mc")


def run_one(fl, prop, tier, fam, idx, limit):
    """Replay one case in its own process. Returns (status, output)."""
    # A limit of processor time, and one of elapsed time for a case that waits for something.
    pre = lambda: resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
    p = subprocess.Popen([mc(fl), "one", prop, tier, str(fam), str(idx)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre)
    try:
        out = p.communicate(timeout=5 * limit)[0].decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        p.kill()
        out = p.communicate()[0].decode("utf-8", "replace")
        return "hang", out
    if p.returncode == 0:
        return "held", out
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return "hang", out
    if p.returncode == 1:
        return "violated", out
    return "crash (%s)" % (signal.Signals(-p.returncode).name if p.returncode < 0 else "exit %d" % p.returncode), out


def families(fl, prop, tier):
    out = subprocess.run([mc(fl), "list"], stdout=subprocess.PIPE, text=True).stdout
    return [l.split()[2:4] for l in out.splitlines() if l.split()[:2] == [prop, tier]]


def known_findings(prop):
    """Lines `known: property=<id> build=<b> family=<f> index=<i> clause=<c> -- <what fails>`."""
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("known:"):
                head, _, what = l[6:].partition("--")
                d = dict(x.split("=", 1) for x in head.split())
                if d["property"] == prop:
                    d["what"] = what.strip()
                    res.append(d)
    return res


def explore(fl, prop, tier, tmp, known, deadline, limit):
    """One exploration. Returns (json or None, violation or None, error or None)."""
    out, slots, kf = (os.path.join(tmp, fl + x) for x in (".json", ".slots", ".known"))
    with open(kf, "w") as f:
        for k in known:
            f.write("%s %s %s %s\n" % (k["build"], k["family"], k["index"], k["clause"]))
    for attempt in (0, 1):
        env = dict(os.environ, MC_CASE_LIMIT=str(limit * (1 + 2 * attempt)))
        if os.path.exists(out):
            os.unlink(out)
        left = deadline - time.time()
        if left < 5:
            return None, None, "out of time"
        p = subprocess.Popen([mc(fl), "check", prop, tier, out, slots, kf], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            text = p.communicate(timeout=left)[0].decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None, None, "out of time"
        rc = p.returncode
        if rc in (0, 1) and os.path.exists(out):
            d = json.load(open(out))
            v = None
            if d["violations"]:
                x = d["violations"][0]
                v = dict(build=fl, family=x["family"], index=x["index"], clause=x["clause"], msg=x["msg"], desc=x["desc"])
            elif rc == 1:
                return None, None, "exit 1 without a violation"
            return d, v, None
        if rc == 3 and os.path.exists(out):
            h = json.load(open(out))["hang"]
            st, o = run_one(fl, prop, tier, h["family"], h["index"], limit * 2)
            if st == "hang":
                return {}, dict(build=fl, family=h["family"], index=h["index"], clause="hang", msg="the case does not end (limit %d s)" % (limit * 2), desc=o), None
            if st == "violated":
                return {}, dict(build=fl, family=h["family"], index=h["index"], clause="slow", msg=o, desc=""), None
            continue  # Only slow once: try again with a higher limit.
        # The process died: find the case that kills it.
        raw = open(slots, "rb").read() if os.path.exists(slots) else b""
        fams = families(fl, prop, tier)
        for i in range(0, len(raw) - 15, 16):
            fi, idx = struct.unpack("<QQ", raw[i:i + 16])
            if fi == 0 or fi > len(fams):
                continue
            fam = fams[fi - 1][0]
            st, o = run_one(fl, prop, tier, fam, idx, limit * 2)
            if st.startswith("crash") or st == "hang":
                return {}, dict(build=fl, family=fam, index=idx, clause="crash", msg="the process does not survive the case: " + st, desc=o[-2000:]), None
        return None, None, "the explorer died with code %s and no case reproduces it: %s" % (rc, text[-500:])
    return None, None, "a case was slow twice but ended when run alone"


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deadline = t0 + DEADLINE[tier]
    limit = 40 if tier == "quick" else 300
    b = build()
    built = time.time() - t0
    if not b["real"][0]:
        log(b["real"][1][-3000:])
        log("ERROR: the crate does not build")
        return 2
    flavours = ["real"]
    notes = []
    if b["small"][0] and b["release"][0]:
        flavours += ["small", "release"]
    else:
        notes.append("the scaled-down build does not compile; only the shipped constants were explored")
        log("NOTE:", notes[-1])
    known = known_findings(prop)
    tmp = tempfile.mkdtemp(prefix="mc-")
    runs, viol, err = {}, None, None
    try:
        for fl in flavours:
            ftier = "quick" if fl == "release" else tier
            if not families(fl, prop, ftier):
                continue
            d, v, e = explore(fl, prop, ftier, tmp, known, deadline, limit)
            if v:
                v["tier"] = ftier
            if d is not None:
                runs[fl] = d
            if v:
                viol = v
                break
            if e:
                err = "%s: %s" % (fl, e)
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    hits = set()
    for fl, d in runs.items():
        for x in d.get("known", []):
            for i, k in enumerate(known):
                if (k["build"], k["family"], int(k["index"]), k["clause"]) == (fl, x["family"], x["index"], x["clause"]):
                    hits.add(i)
    for i in sorted(hits):
        log("KNOWN-FINDING: property=%s %s" % (prop, known[i]["what"]))
    tot = lambda k: sum(d.get(k, 0) for d in runs.values())
    cov = dict(
        states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"),
        cases=tot("cases"), distinct_outcomes=tot("outcomes"),
        samples=[fl + " " + s for fl, d in runs.items() for s in d.get("samples", [])],
        families=[dict(build=fl, **f) for fl, d in runs.items() for f in d.get("families", [])],
        counters={fl + "." + k: v for fl, d in runs.items() for k, v in d.get("counters", {}).items()},
        state_counts_are_lower_bounds=any(d.get("capped") for d in runs.values()),
        exhaustive=viol is None and err is None,
        explanation="Every execution is an execution of the real crate (debug assertions on, except in the build called release): traces counts them, each compared with the reference model; "
                    "transitions counts public calls plus sink calls; states counts distinct (history position, delivered stream, accepted data) observations.",
        notes=notes,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 3), violations=1 if viol else 0,
              assumptions=["bounds as stated per family", "the small build differs from the shipped crate only in the constants and hook listed in DESIGN.md"])
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if viol:
        rd = os.path.join(EVID, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%s-%s.json" % (prop, viol["build"], viol["family"], viol["index"]))
        viol.update(property=prop, replay="python3 /verif/check.py replay " + path)
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
            f.write("\n")
        log("[%s] %s" % (viol["clause"], viol["msg"][:2000]))
        log(viol["desc"][:2000])
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if err:
        log("ERROR:", err)
        return 2
    log("%s %s: held; %d executions, %d transitions, %d states, %d cases in %d families (build %.0f s, total %.0f s)" % (
        prop, tier, tot("traces"), tot("transitions"), tot("states"), tot("cases"), len(cov["families"]), built, time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    b = build()
    if not b[d["build"]][0]:
        log(b[d["build"]][1][-3000:])
        return 2
    st, o = run_one(d["build"], d["property"], d["tier"], d["family"], d["index"], 120)
    log(o)
    log("status:", st)
    return 0 if st == "held" else 1


def setup():
    b = build()
    for fl, (ok, o) in b.items():
        if not ok:
            log(o[-3000:])
            log("ERROR: build", fl)
            return 2
    # The strict decoder against miniz_oxide, the Huffman references, the checksums.
    for fl in FLAVOURS:
        p = subprocess.run([mc(fl), "selftest"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log(fl, p.stdout[-500:].strip())
        if p.returncode:
            return 2
    # The streams against zlib (a third decoder).
    tmp = tempfile.mkdtemp(prefix="mc-")
    n = bad = 0
    try:
        subprocess.run([mc("real"), "emit", tmp], check=True, stdout=subprocess.DEVNULL)
        for f in glob.glob(os.path.join(tmp, "*.in")):
            want = open(f, "rb").read()
            r = lambda x: open(f[:-2] + x, "rb").read()
            for got in (lambda: zlib.decompress(r("raw"), -15), lambda: zlib.decompress(r("zlib")), lambda: gzip.decompress(r("gz"))):
                n += 1
                try:
                    ok = got() == want
                except Exception as e:
                    ok = False
                if not ok:
                    bad += 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log("zlib decodes %d streams, %d disagreements" % (n, bad))
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "setup":
        sys.exit(setup())
    if a[0] == "replay":
        sys.exit(replay(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER") or "quick"
    sys.exit(check(a[0], tier))
