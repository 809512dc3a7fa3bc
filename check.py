#!/usr/bin/env python3
"""check.py PROP [--tier T]: decide one property on /repo's working tree.

 1. proof: the contract units of the property (contracts/*.vrs) are expanded with the current
    text of /repo's functions and given to Verus; a second run with `assert(false)` at the
    start of every function under contract shows that no contract is vacuous.
 2. bounded part: the harness modules of the property are compiled into a scratch copy of /repo
    and run (they replay a broken obligation on the real code, and stand in, labelled bounded,
    for what is outside the proof).
exit 0: held.  exit 1: VIOLATION line.  exit 2: neither part could give an answer."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
import rsx, vrun
from props import PROPS

# ------------------------------------------------------------------ proof part

OPAQUE = [
    ("a comparison with a string literal", re.compile(r'[!=]=\s*&?"|"\s*[!=]=(?!=)')),
    ("a string literal in a pattern", re.compile(r'(?:\(|,|\||\{|\})\s*"[^"\n]*"\s*(?:,[^=;{}]*|\)\s*)*(?:\|[^=;{}]*)?=>|\b(?:Some|Ok)\s*\(\s*"[^"\n]*"\s*\)\s*(?:=(?!=)|\||if\b)')),
]
CLOSURE = re.compile(r'(?:[(,={;]|=>|\bmove|\breturn)\s*(\|\||\|(?!\|)[^|;{}]*\|)(\s*->)?')
def opaque(text):
    """how often a function's verified text uses a construct to which the verifier gives no meaning
    (a closure without a contract returns anything; so does a comparison with a string literal)"""
    bare = re.sub(r'"(?:[^"\\]|\\.)*"', '""', text)
    n = {"a closure without a contract": sum(1 for m in CLOSURE.finditer(bare) if not m.group(2))}
    for name, rx in OPAQUE:
        if rx: n[name] = len(rx.findall(text))
    return n

def prove(unit, work, baseline):
    r = dict(unit=unit, status="undecided", why="", fns=[], log=[], verified=0, smt_ms=0, errors=[], trusted=[], cmd="", sha="")
    try:
        u = rsx.Unit(f"contracts/{unit}.vrs", REPO, V)
        uv = rsx.Unit(f"contracts/{unit}.vrs", REPO, V, vacuity=True)
    except rsx.Lost as e:
        r["why"] = "extraction: " + str(e); return r
    except (AssertionError, IndexError, ValueError, KeyError, UnicodeError) as e:
        r["why"] = "extraction: the source could not be parsed: " + repr(e); return r
    r["fns"] = [f"{f['file']}:{f['sel']}" for f in u.fns]
    r["log"] = u.log
    r["trusted"] = vrun.trusted(u.text)
    r["sha"] = hashlib.sha256(u.text.encode()).hexdigest()
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(vrun.run_verus, u.text, work, unit)
        b = ex.submit(vrun.run_verus, uv.text, work, unit + "_vacuity")
        res, vac = a.result(), b.result()
    for k in ("status", "why", "verified", "smt_ms", "cmd", "wall", "raw"): r[k] = res.get(k)
    r["nerr"] = res.get("nerr", 0)
    for e in res["errors"]:
        fn = None
        for f in u.fns:
            if any(f["first"] <= l <= f["last"] for (l, _, _) in e["spans"]): fn = f
        e["fn"] = f"{fn['file']}:{fn['sel']} (lines {fn['lines'][0]}-{fn['lines'][1]})" if fn else None
        r["errors"].append(e)
    if res["status"] == "failed":
        if not any(e["fn"] for e in res["errors"]):
            r["status"], r["why"] = "undecided", "a lemma of the contract file no longer goes through: " + res["errors"][0]["msg"]
        elif baseline.get(unit, {}).get("sha") == r["sha"]:
            r["status"], r["why"] = "undecided", "the verified text is the one that was accepted before: solver instability"
        else:
            # a function that now leans on a construct the verifier gives no meaning to cannot be told right from wrong by this proof
            lines, odd, told = u.text.split("\n"), [], False
            for e in r["errors"]:
                f = next((f for f in u.fns if any(f["first"] <= l <= f["last"] for (l, _, _) in e["spans"])), None)
                if f is None: continue
                now = opaque("\n".join(lines[f["first"] - 1:f["last"]]))
                was = baseline.get(unit, {}).get("opaque", {}).get(f"{f['file']}:{f['sel']}", now)
                more = [k for k in now if now[k] > was.get(k, 0)]
                if more: odd.append(f"{f['sel']} now uses {' and '.join(more)}")
                else: told = True
            if odd and not told:
                r["status"], r["why"] = "undecided", "beyond the contracts: " + "; ".join(sorted(set(odd)))
    if r["status"] == "proved":
        # vacuity: every function's probe must fail
        probes = {i + 1 for i, L in enumerate(uv.text.split("\n")) if "VACUITY-PROBE" in L}
        hit = {l for e in vac["errors"] for (l, _, _) in e["spans"]} & probes
        r["probes"] = len(probes)
        r["probes_failed"] = len(hit)
        if probes - hit:
            r["status"] = "undecided"
            r["why"] = f"vacuous: {len(probes-hit)} functions accept assert(false)" if vac["errors"] else "the vacuity run gave no answer: " + vac["why"]
    return r

# ------------------------------------------------------------------ bounded part

SCRATCH = "/tmp/posy-verif-build"
COPY = ["Cargo.toml", "Cargo.lock", "src", "test-data", "rust-toolchain.toml", "README.md", "pybi", "LICENSE", "build.rs"]

def harness_env(target):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.70", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="1",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target, RUSTC_WRAPPER="", INSTA_UPDATE="no",
             PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""))
    return e

def build_harness(mods, work):
    """-> (binary, dropped modules, log)"""
    lk = open("/tmp/posy-verif.lock", "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    target = os.path.join(REPO, "target")
    if not os.path.isdir(os.path.join(target, "debug", "deps")) or not os.access(target, os.W_OK):
        target = "/tmp/posy-verif-target"
    mods, dropped, log = list(mods), [], ""
    try:
        while True:
            shutil.rmtree(SCRATCH, ignore_errors=True)
            os.makedirs(SCRATCH)
            for c in COPY:
                s = os.path.join(REPO, c)
                if os.path.isdir(s):
                    shutil.copytree(s, os.path.join(SCRATCH, c), copy_function=shutil.copyfile, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
                elif os.path.exists(s):
                    shutil.copyfile(s, os.path.join(SCRATCH, c))
            for f in ("Cargo.toml", "Cargo.lock"):
                p = os.path.join(SCRATCH, f)
                t = open(p).read()
                t = re.sub(r'^name = "posy"$', 'name = "posy-verif"', t, flags=re.M)
                open(p, "w").write(t)
            hd = os.path.join(SCRATCH, "src", "verif_harness")
            os.makedirs(hd)
            def attach(rel, name, pub=""):
                src = os.path.join(V, "harness", name + ".rs")
                dst = os.path.join(hd, name + ".rs")
                shutil.copyfile(src, dst)
                p = os.path.join(SCRATCH, rel)
                if not os.path.exists(p): return False
                with open(p, "a") as h:
                    h.write(f'\n#[cfg(test)] #[path = "{dst}"] {pub}mod verif_{name};\n')
                return True
            attach("src/main.rs", "support", "pub(crate) ")
            t = open(os.path.join(SCRATCH, "src/main.rs")).read().replace("mod verif_support;", "mod verif_support;")
            open(os.path.join(SCRATCH, "src/main.rs"), "w").write(t)
            for m in list(mods):
                head = open(os.path.join(V, "harness", m + ".rs")).readline()
                rel = head.split("@attach", 1)[1].strip()
                if not attach(rel, m): mods.remove(m); dropped.append((m, f"{rel} does not exist"))
            if not mods: return None, dropped, log
            p = subprocess.run(["cargo", "test", "--offline", "--no-run", "--message-format=json"],
                               cwd=SCRATCH, env=harness_env(target), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
            log = p.stderr.decode(errors="replace")[-6000:]
            exe = None
            bad = {}
            other = []
            for L in p.stdout.decode(errors="replace").split("\n"):
                if not L.startswith("{"): continue
                try: d = json.loads(L)
                except Exception: continue
                if d.get("reason") == "compiler-artifact" and d.get("executable") and d["target"]["name"] == "posy-verif" and d["profile"]["test"]:
                    exe = d["executable"]
                if d.get("reason") == "compiler-message" and d["message"]["level"] == "error":
                    msg = d["message"]
                    files = [s["file_name"] for s in msg["spans"] if s["is_primary"]]
                    hs = [os.path.basename(f)[:-3] for f in files if "verif_harness" in f]
                    if hs: bad.setdefault(hs[0], msg["rendered"] or msg["message"])
                    elif files: other.append(msg["rendered"] or msg["message"])
            if p.returncode == 0 and exe:
                out = os.path.join(work, "harness")
                shutil.copy2(exe, out)
                return out, dropped, log
            todrop = [m for m in bad if m in mods]
            if other and not todrop or not todrop:
                return None, dropped, "the tree does not build: " + ("".join(other)[:1500] or log[-1500:])
            for m in todrop:
                mods.remove(m); dropped.append((m, bad[m].strip()[:1500]))
            if not mods: return None, dropped, log
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        lk.close()

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()

def run_bin(exe, work, filt, tier, seed, timeout, trace=False, exact=False):
    out = os.path.join(work, f"out_{tier}_{seed}_" + re.sub(r"\W", "_", filt))
    os.makedirs(out, exist_ok=True)
    tmp = os.path.join(work, "tmp"); os.makedirs(tmp, exist_ok=True)
    home = os.path.join(work, "home"); os.makedirs(home, exist_ok=True)
    e = dict(os.environ, VERIF_OUT=out, VERIF_TIER=tier, VERIF_SEED=str(seed), RUST_BACKTRACE="0", TMPDIR=tmp, HOME=home,
             XDG_CACHE_HOME=home, CARGO_MANIFEST_DIR=REPO, INSTA_UPDATE="no", RUST_MIN_STACK=str(64 << 20))
    if trace: e["VERIF_TRACE"] = "1"
    cmd = [exe, filt or "verif_", "--test-threads", "6", "--nocapture"]
    if exact: cmd.insert(2, "--exact")
    log = os.path.join(work, "run.log")
    with open(log, "ab") as lh:
        p = subprocess.Popen(cmd, cwd=work, env=e, stdout=lh, stderr=lh, stdin=subprocess.DEVNULL, preexec_fn=limit)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
    return rc, out, open(log, errors="replace").read()

def bounded(prop, mods, work, tier, seed):
    r = dict(status="none", reports=[], failures=[], dropped=[], why="", expected=[])
    if not mods: return r
    try:
        exe, dropped, log = build_harness(mods, work)
    except subprocess.TimeoutExpired:
        r["status"], r["why"] = "undecided", "build timed out"; return r
    r["dropped"] = dropped
    if not exe:
        r["status"] = "undecided"
        r["why"] = "; ".join(f"{m}: {w}" for m, w in dropped) or log
        return r
    lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=work).stdout.decode()
    # a module may hold tests of several properties; only this property's decide it
    pre = f"v_{prop.lower()}_"
    tests = [l[:-6] for l in lst.split("\n") if l.endswith(": test") and "::verif_" in "::" + l and l.split("::")[-1].startswith(pre)]
    short = {t.split("::")[-1]: t for t in tests}
    r["expected"] = sorted(short)
    r["exe"] = exe
    budget = 3000 if tier == "thorough" else 420
    rc, out, log = run_bin(exe, work, "::" + pre, tier, seed, budget)
    got = {}
    def load(out):
        for f in glob.glob(os.path.join(out, "*.json")) + glob.glob(os.path.join(out, "*.hang")):
            try: d = json.load(open(f))
            except Exception: continue
            got[d["test"]] = d
    load(out)
    missing = [s for s in short if s not in got]
    for s in missing[:4]:
        # crashed, aborted or never ran: once more, alone, recording the input before each case
        rc2, out2, log2 = run_bin(exe, work, short[s], tier, seed, 150, trace=True, exact=True)
        load(out2)
        if s not in got:
            cur = os.path.join(out2, s + ".cur")
            inp = open(cur, errors="replace").read()[:2000] if os.path.exists(cur) else None
            m = re.search(r"panicked at '(.*?)', (\S+)", log2, re.S)
            where = m.group(2) if m else ""
            aborted = isinstance(rc2, int) and rc2 < 0
            if (aborted or rc2 == "timeout") and inp is not None:
                got[s] = dict(prop=prop, test=s, rule="", evaluations=1, distinct=1, exhaustive=False, samples=[],
                              failures=[dict(kind="crash", input=inp, what=f"the process ended with {rc2} on this input")])
            else:
                r["why"] += f"test {s} gave no result ({rc2}); {log2[-800:]}"
    r["reports"] = [got[s] for s in sorted(got)]
    for d in r["reports"]:
        for f in d["failures"]:
            f["test"] = d["test"]; r["failures"].append(f)
    r["status"] = "failed" if r["failures"] else ("held" if not [s for s in short if s not in got] else "undecided")
    if r["status"] == "undecided" and not r["why"]: r["why"] = "some tests gave no result"
    return r

def search(prop, b, work, seed):
    """an obligation failed and the bounded part found nothing: look longer, on other inputs"""
    found = []
    for k in (1, 2):
        rc, out, log = run_bin(b["exe"], work, f"::v_{prop.lower()}_", "thorough", seed + 1000 * k, 180)
        for f in glob.glob(os.path.join(out, "*.json")) + glob.glob(os.path.join(out, "*.hang")):
            try: d = json.load(open(f))
            except Exception: continue
            for x in d["failures"]: found.append(dict(x, test=d["test"], found_with=f"VERIF_SEED={seed + 1000 * k} VERIF_TIER=thorough"))
        if found: break
    return found

# ------------------------------------------------------------------ known findings

def known_findings(prop):
    """KNOWN-FINDING: property=<id> test=<t> kind=<k> input~<regex> :: text"""
    res = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for L in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) test=(\S+) kind=(\S+) match=(.*?) :: (.*)$", L.strip())
            if m and m.group(1) == prop:
                res.append(dict(test=m.group(2), kind=m.group(3), match=re.compile(m.group(4)), text=m.group(5)))
    return res

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    work = tempfile.mkdtemp(prefix=f"posy-verif-{prop}-")
    try:
        return decide(prop, cfg, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(prop, cfg, tier, seed, work, t0):
    try: baseline = json.load(open(os.path.join(V, "contracts", "baseline.json")))
    except Exception: baseline = {}
    units = cfg.get("units", [])
    with cf.ThreadPoolExecutor(4) as ex:
        bf = ex.submit(bounded, prop, cfg.get("harness", []), work, tier, seed)
        pf = [ex.submit(prove, u, work, baseline) for u in units]
        proofs = [f.result() for f in pf]
        b = bf.result()
    known = known_findings(prop)
    if any(p["status"] == "failed" for p in proofs) and not b["failures"] and b["status"] == "held" and b.get("exe"):
        b["failures"] = search(prop, b, work, seed)
    unlisted, seen = [], set()
    for f in b["failures"]:
        k = next((i for i, k in enumerate(known) if k["test"] == f["test"] and k["kind"] == f["kind"] and k["match"].search(f["input"])), None)
        if k is None: unlisted.append(f)
        else: seen.add(k)
    for i in sorted(seen):
        print(f"KNOWN-FINDING: property={prop} {known[i]['text']}")
    failed = [p for p in proofs if p["status"] == "failed"]
    undec = [p for p in proofs if p["status"] == "undecided"]
    for p in proofs:
        print(f"proof {p['unit']}: {p['status']} ({p['verified']} verified, {p.get('nerr',0)} failed) {p['why']}")
    for d in b["reports"]:
        print(f"bounded {d['test']}: {d['evaluations']} evaluations, {d['distinct']} distinct non-trivial, {len(d['failures'])} failures")
    for m, w in b["dropped"]:
        print(f"bounded module {m} left out: {w[:1500]}")
    if b["status"] == "undecided": print("bounded part undecided: " + b["why"][-1500:])
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"{prop}.json")
    code = 0
    nviol = len(unlisted) + sum(len(p["errors"]) for p in failed)
    if unlisted or failed:
        obl = [dict(unit=p["unit"], function=e["fn"], obligation=e["msg"], verifier_output=e["rendered"]) for p in failed for e in p["errors"]]
        json.dump(dict(property=prop, tier=tier, seed=seed, failing_inputs=unlisted, failed_obligations=obl,
                       rerun=f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {prop}"), open(rpath, "w"), indent=1)
        for f in unlisted[:5]: print(f"  [{f['test']}/{f['kind']}] {f['input'][:300]}\n      -> {f['what'][:300]}")
        for o in obl[:5]: print(f"  obligation: {o['obligation']} in {o['function']}")
        print(f"VIOLATION property={prop} replay={rpath}" + ("" if unlisted else " no-failing-input-found"))
        code = 1
    else:
        if os.path.exists(rpath): os.remove(rpath)
        decided = (proofs and not undec) or b["status"] == "held" or (b["status"] == "failed")
        if not decided:
            print(f"ERROR property={prop}: no answer"); code = 2
        elif undec:
            print(f"note: property={prop}: not decided by proof on this tree; the bounded part held")
    write_evidence(prop, cfg, tier, seed, proofs, b, nviol, sorted(seen), known, t0)
    return code

def write_evidence(prop, cfg, tier, seed, proofs, b, nviol, seen, known, t0):
    obligations = sum((p["verified"] or 0) + (p.get("nerr") or 0) for p in proofs)
    if any(p["status"] == "undecided" and not p["verified"] for p in proofs):
        # nothing was generated for that unit: its functions count as undischarged
        obligations += sum(max(1, len(p["fns"])) for p in proofs if p["status"] == "undecided" and not p["verified"])
    ev = sum(d["evaluations"] for d in b["reports"])
    dn = sum(d["distinct"] for d in b["reports"])
    cov = dict()
    if proofs:
        cov.update(obligations=obligations, discharged=sum(p["verified"] or 0 for p in proofs),
                   checker_cmd="; ".join(re.sub(r"/tmp/\S*/", "", p["cmd"]) for p in proofs if p["cmd"]) or "verus",
                   trusted_base=sorted({f"{p['unit']}: {t}" for p in proofs for t in p["trusted"]} | {"Verus 0.2026.09.13 and its Z3", "tools/rsx.py (extraction and rewrites, logged below)"}),
                   units=[dict(unit=p["unit"], status=p["status"], why=p["why"], back_end="Verus/Z3", functions_under_contract=p["fns"], verified=p["verified"],
                               failed=p.get("nerr", 0), solver_ms=p["smt_ms"], wall_s=round(p.get("wall") or 0, 2), vacuity_probes=p.get("probes"),
                               vacuity_probes_rejected=p.get("probes_failed"), extraction_log=p["log"], text_sha256=p["sha"]) for p in proofs])
    cov.update(evaluations=ev, distinct_nontrivial=dn,
               rule=" || ".join(f"{d['test']}: {d['rule']}" for d in b["reports"]) or "no bounded part",
               samples=[s for d in b["reports"] for s in d["samples"]][:12] or ["none"],
               bounded_tests=[dict(test=d["test"], evaluations=d["evaluations"], distinct_nontrivial=d["distinct"], exhaustive=d["exhaustive"], failures=len(d["failures"])) for d in b["reports"]],
               bounded_modules_left_out=[f"{m}: {w[:200]}" for m, w in b["dropped"]],
               bounded_status=b["status"], known_findings_seen=[known[i]["text"] for i in seen],
               explanation=cfg.get("explain", ""))
    e = dict(property=prop, tier=tier, seed=seed, level=cfg["level"] if cfg.get("units") else "exploration", coverage=cov, assumptions=cfg.get("assume", []),
             wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
