#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and decides one property.

usage: run.py ID [--tier quick|thorough] [--seed N] [--part NAME] [--replay FILE] [--build-only]
exit: 0 held, 1 VIOLATION, 2 the check itself failed
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/strangelove-ventures/horcrux/"
RACE = {"C19"}
NEEDS_HX = {"C24", "C25", "C26", "C09", "C14", "C15", "C16", "C17", "C18", "C20", "C22", "C23", "C05"}


def go_env(scratch):
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["GOTMPDIR"] = scratch
    return e


def build(scratch, race, hx):
    """Overlay the harness into /repo's module and build it; returns an error text or None."""
    rep = {}
    hd = os.path.join(VERIF, "harness")
    for d, _, fs in os.walk(hd):
        for f in fs:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                rep[os.path.join(REPO, "verifharness", os.path.relpath(p, hd))] = p
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(scratch, f))
    env = go_env(scratch)
    cmds = [["go", "build", "-overlay", ov, "-modfile", os.path.join(scratch, "go.mod")] + (["-race", "-gcflags=all=-d=checkptr=0"] if race else []) +
            ["-o", os.path.join(scratch, "vh"), "./verifharness/vh"]]
    if hx:
        cmds.append(["go", "build", "-modfile", os.path.join(scratch, "go.mod"), "-o", os.path.join(scratch, "hx"), "./cmd/horcrux"])
    ps = [subprocess.Popen(c, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
    for c, p in zip(cmds, ps):
        out, _ = p.communicate()
        if p.returncode != 0:
            return "build failed: %s\n%s" % (" ".join(c), out)
    return None


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) part=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups())
    return out


def sut_death(text):
    """The process died in the background: does the crashing goroutine run through horcrux code?"""
    if "WARNING: DATA RACE" in text:
        i = text.index("WARNING: DATA RACE")
        blk = text[i:i + 6000]
        return MOD in blk.replace(MOD + "verifharness", "") and "data race"
    m = re.search(r"^(panic: .*|fatal error: .*)$", text, re.M)
    if not m:
        return None
    rest = text[m.end():]
    # first goroutine block after the panic line
    blk = rest.split("\n\ngoroutine ")
    first = blk[0] if "goroutine " in blk[0] else (blk[1] if len(blk) > 1 else "")
    if "fatal error: all goroutines" in m.group(1):
        first = rest
    for l in first.splitlines():
        if l.startswith("\t"):
            continue
        if MOD + "verifharness/" in l or l.startswith("main."):
            return None
        if MOD in l:
            return m.group(1)
    return None


def warm():
    for race in (False, True):
        scratch = tempfile.mkdtemp(prefix="hvf-")
        try:
            err = build(scratch, race, not race)
            if err:
                print(err)
                return 2
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?", default="")
    ap.add_argument("--warm", action="store_true", help="build everything once, to fill the build cache")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--part", default="")
    ap.add_argument("--replay", default="")
    a = ap.parse_args()
    if a.warm:
        return warm()
    pid = a.prop
    t0 = time.time()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="hvf-", dir=base)
    rc = 2
    try:
        err = build(scratch, pid in RACE, pid in NEEDS_HX)
        if err:
            print("HARNESS-ERROR: " + err)
            return 2
        tries = 0
        while True:
            tries += 1
            rc, again = run(a, pid, scratch, t0, tries)
            if not (again and tries < 3):
                return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, pid, scratch, t0, tries):
    work = os.path.join(scratch, "w%d" % tries)
    os.mkdir(work)
    out = os.path.join(work, "result.json")
    cmd = [os.path.join(scratch, "vh"), "-prop", pid, "-tier", a.tier, "-seed", str(a.seed), "-out", out,
           "-scratch", work, "-hx", os.path.join(scratch, "hx"), "-repo", REPO]
    if a.part:
        cmd += ["-part", a.part]
    if a.replay:
        cmd += ["-replay", os.path.abspath(a.replay)]
    env = dict(os.environ)
    env["TMPDIR"] = work
    env["GORACE"] = "halt_on_error=1 exitcode=66"
    env["GOTRACEBACK"] = "all"
    env.pop("HORCRUX_HOME", None)
    limit = 780 if a.tier == "quick" else 6 * 3600
    logf = open(os.path.join(work, "output.txt"), "w+")
    p = subprocess.Popen(cmd, cwd=work, env=env, stdout=logf, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        pass
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    logf.flush()
    logf.seek(0)
    text = logf.read()
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
    viol = None
    harness = None
    if res is None:
        why = sut_death(text)
        if why:
            cur = ""
            cf = os.path.join(work, "current.txt")
            if os.path.exists(cf):
                cur = open(cf, errors="replace").read()
            viol = {"property": pid, "part": "process", "message": "the process under test died: %s" % why, "log": cur.splitlines()[-400:], "stack": tail_at(text)}
        else:
            m = re.search(r"^(panic: |fatal error: )", text, re.M)
            harness = "harness process ended with %s\n%s" % (p.returncode, text[m.start():m.start() + 3000] if m else text[-4000:])
    else:
        viol = res.get("violation")
        harness = res.get("harness_error")
        if not viol and not harness and "WARNING: DATA RACE" in text:
            viol = {"property": pid, "part": "race", "message": "data race", "log": [], "stack": tail_at(text)}
    if harness and "address already in use" in harness + text and tries < 3:
        return 2, True
    lines = []
    for (_, part, pat, what) in known_findings(pid):
        # a listed finding: printed when reproduced, and suppresses only the violation it describes
        if viol and viol["part"] == part and re.search(pat, viol["message"]):
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
            viol = None
    if not a.replay and not a.part:
        write_evidence(a, pid, res, viol, time.time() - t0)
    if viol:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(viol, sort_keys=True).encode()).hexdigest()[:10]
        rp = os.path.join(d, "%s-%s.json" % (pid, h))
        json.dump(viol, open(rp, "w"), indent=1)
        print("%s [%s]: %s" % (pid, viol.get("part"), viol["message"][:3000]))
        for l in (viol.get("log") or [])[-60:]:
            print("   " + l[:400])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1, False
    for l in lines:
        print(l)
    if harness:
        print("HARNESS-ERROR: " + harness[-6000:])
        return 2, False
    for pr in res["parts"]:
        print("%s/%s: %d cases, %d distinct non-trivial, %.1f s%s%s" % (pid, pr["name"], pr["evaluations"], pr["distinct_nontrivial"], pr["wall_s"],
              (" SKIPPED " + pr["skipped"]) if pr.get("skipped") else "",
              (" unconfirmed timing failures: %d" % pr["unconfirmed_timing_failures"]) if pr.get("unconfirmed_timing_failures") else ""))
        if os.environ.get("VERIF_LABELS"):
            print("     ", pr["labels"])
    for l in text.splitlines():
        if l.startswith("note: unconfirmed"):
            print("   " + l[:600])
    print("%s held on everything explored (%.1f s)" % (pid, time.time() - t0))
    return 0, False


def tail_at(text):
    for k in ("WARNING: DATA RACE", "panic: ", "fatal error: "):
        i = text.find(k)
        if i >= 0:
            return text[i:i + 12000]
    return text[-6000:]


def write_evidence(a, pid, res, viol, wall):
    res = res or {"evaluations": 0, "distinct_nontrivial": 0, "rule": "process died", "samples": [], "parts": []}
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": level_of(pid),
          "coverage": {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"],
                       "samples": (res.get("samples") or ["none completed"])[:12],
                       "parts": res.get("parts") or []},
          "assumptions": res.get("assumptions") or [], "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


def level_of(pid):
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "exploration"


if __name__ == "__main__":
    sys.exit(main())
