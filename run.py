#!/usr/bin/env python3
"""Runs the check of one property: run.py C01 [--tier quick|thorough] [--case PREFIX]

Builds the harness of the property (package internal/zzverif/<id>, laid over
/repo with go's -overlay, nothing is written to /repo), runs it under watch in a
scratch directory, judges the outcome and rewrites evidence/<id>.json.
Exit 0: held. Exit 1 + VIOLATION line: broken. Exit 2: no verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

def goenv():
    e = dict(os.environ)
    g = "/opt/veriftools/go1.27.3"
    e.update(HOME="/root", GOROOT=g, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local",
             GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", GOSUMDB="off", GONOSUMDB="*",
             PATH=g + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["GOCACHE"] = os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build")
    return e

def overlay(tmp):
    rep = {}
    root = os.path.join(VERIF, "harness")
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".go"):
                rel = os.path.relpath(os.path.join(d, f), root)
                rep[os.path.join(REPO, "internal", "zzverif", rel)] = os.path.join(d, f)
    # web embeds a submodule directory that is empty here; lay a copy without it
    # over the package so that the command line program can be built as well
    w = os.path.join(REPO, "web", "static.go")
    if os.path.exists(w):
        s = open(w).read().replace("//go:embed blockly\n", "")
        p = os.path.join(tmp, "web_static.go")
        open(p, "w").write(s)
        rep[w] = p
    p = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": rep}, open(p, "w"))
    return p

def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    case = ""
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier": tier = a[1]; a = a[2:]
        elif a[0] == "--case": case = a[1]; a = a[2:]
        else: sys.exit("bad argument " + a[0])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vk_%s_" % prop)
    evfile = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evfile), exist_ok=True)
    try:
        rc = run(prop, tier, case, seed, spec, tmp, evfile, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, case, seed, spec, tmp, evfile, t0):
    env = goenv()
    ov = overlay(tmp)
    phases = spec.get("phases", ["plain"])
    res_all, viol, inconcl = [], [], []
    bins = {}
    for ph in phases:
        pkg = spec.get("pkg", prop.lower())
        cmd = ["go", "build", "-overlay", ov, "-tags", "jsoniter"]
        if ph.startswith("race"): cmd += ["-race"]
        if ph.startswith("checkptr"): cmd += ["-gcflags=all=-d=checkptr"]
        out = os.path.join(tmp, "bin_" + ph)
        b = subprocess.run(cmd + ["-o", out, "./internal/zzverif/" + pkg], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0:
            print("BUILD-FAILED", " ".join(cmd)); print(b.stdout[-6000:]); return 2
        bins[ph] = out
        extra = {}
        for name, target in spec.get("tools", {}).items():
            o2 = os.path.join(tmp, name + "_" + ph)
            b = subprocess.run(cmd + ["-o", o2, target], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode != 0:
                print("BUILD-FAILED", " ".join(cmd)); print(b.stdout[-6000:]); return 2
            extra["VK_TOOL_" + name.upper()] = o2
        scratch = os.path.join(tmp, "scratch_" + ph)
        os.makedirs(scratch)
        os.chmod(tmp, 0o755)
        e = dict(env)
        e.update(extra)
        rf, cf = os.path.join(tmp, "res_" + ph), os.path.join(tmp, "cur_" + ph)
        e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VK_RESULT=rf, VK_CURRENT=cf, VK_CASE=case, VK_PHASE=ph, TMPDIR=scratch)
        racelog = os.path.join(tmp, "race_" + ph)
        e["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s history_size=3" % racelog
        e["GOTRACEBACK"] = "all"
        try:
            r = subprocess.run([out], cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=spec.get("timeout", 800) * (12 if tier == "thorough" else 1))
            code, err = r.returncode, r.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as x:
            code, err = None, (x.stderr or b"").decode("utf8", "replace")
        cur = open(cf).read() if os.path.exists(cf) else "?"
        try: res = json.load(open(rf))
        except Exception: res = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "observed": {}, "violations": [], "done": False}
        res["phase"] = ph
        res_all.append(res)
        for v in res.get("violations") or []:
            v["phase"] = ph; viol.append(v)
        if code == 97:
            viol.append(dict(case=cur, key="hang", msg=err[-4000:], phase=ph))
        elif code is None:
            inconcl.append("phase %s timed out in case %s" % (ph, cur))
        elif code != 0 or not res.get("done"):
            if re.search(r"^(panic:|fatal error:|unexpected fault address|SIG[A-Z]+:)", err, re.M):
                viol.append(dict(case=cur, key="crash", msg=crash_msg(err), phase=ph))
            else:
                inconcl.append("phase %s ended with %s in case %s: %s" % (ph, code, cur, err[-1500:]))
        # race reports
        reps = []
        for f in sorted(os.listdir(tmp)):
            if f.startswith("race_%s." % ph):
                reps += [b for b in open(os.path.join(tmp, f), errors="replace").read().split("==================") if "DATA RACE" in b]
        res["observed"]["race_reports"] = len(reps) if ph.startswith("race") else 0
        seen = set()
        for b in reps:
            fn = re.findall(r"^\s+(github\.com/mlnoga/nightlight/internal/\S+?)\(", b, re.M)
            key = "race:" + "|".join(sorted({x.split("/internal/")[1] for x in fn[:2]}))
            if "/zzverif/" in " ".join(fn[:1]) and not any("/zzverif/" not in x for x in fn):
                inconcl.append("race inside the harness: " + b[:1500]); continue
            if key in seen: continue
            seen.add(key)
            viol.append(dict(case=cur, key=key, msg=b[:3500], phase=ph))
        shutil.rmtree(scratch, ignore_errors=True)
        for f in os.listdir(tmp):
            if f.startswith("bin_") or f.endswith("_" + ph) and os.path.isfile(os.path.join(tmp, f)) and not f.startswith(("res_", "cur_")):
                os.unlink(os.path.join(tmp, f))
    kn = known(prop)
    real, knownhits = [], {}
    for v in viol:
        for key, desc in kn:
            if v["key"] == key:
                knownhits[key] = desc; break
        else:
            real.append(v)
    for key, desc in knownhits.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, desc))
    ev = sum(r["evaluations"] for r in res_all)
    dn = sum(r["distinct_nontrivial"] for r in res_all) if len(res_all) == 1 else max(r["distinct_nontrivial"] for r in res_all)
    obs = {r["phase"]: r["observed"] for r in res_all}
    cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=next((r["rule"] for r in res_all if r["rule"]), "") or spec.get("rule", ""),
               samples=[s for r in res_all for s in (r["samples"] or [])][:14] or ["none"], observed=obs, known_findings=sorted(knownhits))
    evd = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=spec.get("level", "exploration"),
               coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(real))
    if spec.get("assumptions"): evd["assumptions"] = spec["assumptions"]
    json.dump(evd, open(evfile, "w"), indent=1)
    if real:
        rp = os.path.join(VERIF, "evidence", prop + ".replay.json")
        json.dump(dict(property=prop, seed=seed, tier=tier, violations=real,
                       replay=["VERIF_SEED=%d %s/run.py %s --tier %s --case '%s'" % (seed, VERIF, prop, tier, v["case"]) for v in real[:10]]),
                  open(rp, "w"), indent=1)
        for v in real[:6]:
            print("  [%s] case=%s key=%s: %s" % (v["phase"], v["case"], v["key"], v["msg"][:700].replace("\n", "\n      ")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if inconcl:
        print("INCONCLUSIVE", *inconcl, sep="\n  "); return 2
    if case == "" and dn < spec.get("min_distinct", 2):
        print("INCONCLUSIVE observed too little: %d" % dn); return 2
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (prop, ev, dn, time.time() - t0))
    return 0

def crash_msg(err):
    m = re.search(r"^(panic:|fatal error:|unexpected fault address|SIG[A-Z]+:)", err, re.M)
    s = err[m.start():]
    lines = s.split("\n")
    keep = lines[:6] + [l for l in lines[6:] if "nightlight/internal" in l or "/repo/internal" in l][:20]
    return "process crashed: " + "\n".join(keep)

if __name__ == "__main__":
    main()
