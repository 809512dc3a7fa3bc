"""run Verus on a generated unit and classify what it says"""
import json, os, re, subprocess, hashlib, tempfile, time

VERUS = "verus"
FAIL_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed",
             "invariant not satisfied", "possible arithmetic", "possible division", "possible bit shift",
             "decreases not satisfied", "could not prove termination", "unreachable", "recommendation not met",
             "requires not satisfied", "assert_by", "loop invariant", "possible overflow", "unable to prove",
             "panic", "constructed value may fail", "failed this postcondition", "could not show")
RLIMIT = ("resource limit", "rlimit", "timed out", "timeout")

def run_verus(text, workdir, name, rlimit=30, timeout=600, threads=4):
    os.makedirs(workdir, exist_ok=True)
    f = os.path.join(workdir, name + ".rs")
    with open(f, "w") as h: h.write(text)
    cmd = [VERUS, f, "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--num-threads", str(threads),
           "--multiple-errors", "5", "--error-format=json"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=workdir)
    except subprocess.TimeoutExpired:
        return dict(status="undecided", why="verifier timed out", verified=0, errors=[], cmd=" ".join(cmd), wall=time.time() - t0, smt_ms=0, raw="")
    except FileNotFoundError:
        return dict(status="undecided", why="verus is not installed", verified=0, errors=[], cmd=" ".join(cmd), wall=0, smt_ms=0, raw="")
    err = p.stderr.decode(errors="replace")
    out = p.stdout.decode(errors="replace")
    try: js = json.loads(out)
    except Exception: js = {}
    vr = js.get("verification-results", {})
    fails, rl, hard = [], [], []
    rawlines = []
    for line in err.split("\n"):
        if not line.startswith("{"):
            if line.strip(): rawlines.append(line)
            continue
        try: d = json.loads(line)
        except Exception: continue
        if d.get("level") not in ("error",): continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to"): continue
        spans = [(s["line_start"], s.get("is_primary"), s.get("label")) for s in d.get("spans", []) if s["file_name"].endswith(name + ".rs")]
        rec = dict(msg=msg, spans=spans, rendered=d.get("rendered", ""))
        low = msg.lower()
        if any(x in low for x in RLIMIT): rl.append(rec)
        elif d.get("code") is None and any(x in low for x in FAIL_MSGS): fails.append(rec)
        else: hard.append(rec)
    verified = vr.get("verified", 0)
    t = js.get("times-ms", {})
    smt = t.get("smt", {}).get("smt-run", 0) if isinstance(t.get("smt"), dict) else 0
    status, why = "proved", ""
    if hard or "verified" not in vr:
        status = "undecided"
        why = "generated file does not go through the verifier: " + (hard[0]["msg"] if hard else "\n".join(rawlines[-3:]))
    elif fails: status = "failed"
    elif rl: status, why = "undecided", "resource limit: " + rl[0]["msg"]
    elif vr.get("errors", 0): status, why = "undecided", "unclassified error"
    elif verified == 0: status, why = "undecided", "no obligations"
    return dict(status=status, why=why, verified=verified, nerr=vr.get("errors", 0), errors=fails, hard=hard, rl=rl,
                cmd=" ".join(cmd), wall=time.time() - t0, smt_ms=smt, raw=err[-20000:], times=t, file=f)

TRUST = re.compile(r"assume_specification|external_body|external_type_specification|external_trait|\badmit\s*\(|\bassume\s*\(|\baxiom\b|uninterp")

def trusted(text):
    """names every assumption the verified text makes"""
    res = []
    lines = text.split("\n")
    for i, L in enumerate(lines):
        code = L.split("//")[0]
        m = TRUST.search(code)
        if not m: continue
        ctx = code.strip()
        if m.group(0) in ("external_body",) or code.strip().startswith("#["):
            for k in range(i, min(i + 5, len(lines))):
                if re.search(r"\b(fn|struct|enum|type|trait)\b", lines[k]):
                    ctx = m.group(0) + ": " + lines[k].strip(); break
        res.append(re.sub(r"\s+", " ", ctx)[:160])
    return sorted(set(res))
