#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree.

1. builds the verifier (gover/) and proves every contract that carries the property,
2. beside it, runs the property's falsifier (falsify/) on the real code, which turns a broken
   property into a failing input where it finds one and covers what is outside the contracts,
3. writes evidence/PROPERTY.json and reports.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOVER_PROP=PID)
TMP = tempfile.mkdtemp(prefix="verif-%s-" % PID)
EVID = os.path.join(HERE, "evidence")
os.makedirs(EVID, exist_ok=True)
LIMIT = 860 if TIER == "quick" else 6 * 3600


def run(cmd, cwd, timeout, env=None, out=None):
    """Runs cmd in its own process group; returns (rc or None when stopped, output)."""
    f = open(out or os.path.join(TMP, "out-%d" % time.time_ns()), "w+")
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        rc = p.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    f.seek(0)
    return rc, f.read()


def left():
    return LIMIT - (time.time() - T0)


class Falsifier:
    """The bounded side: random histories and inputs on the real code."""

    def __init__(self):
        self.found, self.tried, self.note, self.detail = [], {}, "", ""
        self.done = threading.Event()

    def run(self):
        try:
            self.run_()
        except Exception as e:  # never the reason for an alarm
            self.note = "falsifier: %r" % e
        self.done.set()

    def run_(self):
        ov = os.path.join(TMP, "overlay.json")
        src = os.path.join(HERE, "falsify")
        rep = {}
        for n in sorted(os.listdir(src)):
            if n.endswith("_test.go"):
                rep[os.path.join(REPO, "zzfalsify", n)] = os.path.join(src, n)
        json.dump({"Replace": rep}, open(ov, "w"))
        b = os.path.join(TMP, "falsify.test")
        rc, o = run(["go", "test", "-vet=off", "-overlay", ov, "-c", "-o", b, "./zzfalsify"], REPO, 300)
        if rc != 0 or not os.path.exists(b):
            self.note = "falsifier did not build: " + o[-1500:]
            return
        det = os.path.join(TMP, "detail.txt")
        rounds = 1 if TIER == "quick" else 8
        for r in range(rounds):
            e = dict(ENV, FALSIFY_OUT=det, FALSIFY_QUIET="1", VERIF_SEED=str(SEED + 101 * r),
                     FALSIFY_MULT="10" if TIER == "quick" else "60",
                     FALSIFY_SECS="25" if TIER == "quick" else "150", TMPDIR=TMP)
            rc, o = run([b, "-test.run", "^Test%s" % PID, "-test.timeout", "3000s", "-test.v"], TMP,
                        330 if TIER == "quick" else 2400, e)
            for l in o.splitlines():
                m = re.match(r"FALSIFIED\t(\w+)\t(.*)", l)
                if m and m.group(1) == PID:
                    self.found.append(m.group(2))
                m = re.match(r"TRIED\t(\w+)\t(.*)\t(\d+)", l)
                if m and m.group(1) == PID:
                    self.tried[m.group(2)] = self.tried.get(m.group(2), 0) + int(m.group(3))
            if not self.found and rc != 0:
                # a crash of the whole process (fatal error, data race, out of memory) or no end
                if rc is None:
                    self.found.append("the falsifier's calls do not return (seed %d)" % e_seed(e))
                elif "no tests to run" not in o:
                    self.found.append("process died: " + first_panic(o))
                self.detail = o[-6000:]
            if os.path.exists(det):
                self.detail = open(det).read()[:20000]
            if self.found:
                return


def e_seed(e):
    return int(e["VERIF_SEED"])


def first_panic(o):
    for l in o.splitlines():
        if l.startswith(("panic:", "fatal error:", "unexpected fault", "WARNING: DATA RACE")):
            return l[:300]
    return o[-300:].replace("\n", " ")


class Verifier:
    def __init__(self):
        self.bin = os.path.join(TMP, "gover")
        self.outs, self.note, self.names = [], "", []

    def build(self):
        rc, o = run(["go", "build", "-o", self.bin, "."], os.path.join(HERE, "gover"), 300)
        if rc != 0:
            self.note = "verifier did not build: " + o[-2000:]
            return False
        rc, o = run([self.bin, "-specs", os.path.join(HERE, "specs"), "-prop", PID, "-list"], HERE, 60)
        self.names = [l for l in o.split("\n") if l.strip()] if rc == 0 else []
        if rc != 0:
            self.note = "contracts do not load: " + o[-2000:]
            return False
        return True

    def prove(self, fns, secs, limit, tag):
        js = os.path.join(TMP, "gover-%s.json" % tag)
        cmd = [self.bin, "-repo", REPO, "-specs", os.path.join(HERE, "specs"), "-prop", PID, "-j", "8", "-t", str(secs), "-o", js,
               "-limit", str(int(max(30, limit - 15)))]
        if fns:
            cmd += ["-fn", ",".join("lemmas" if f == "theory lemmas" else f for f in fns)]
        rc, o = run(cmd, HERE, limit, out=os.path.join(TMP, "gover-%s.txt" % tag))
        if not os.path.exists(js):
            return None, o
        return json.load(open(js)), o


def failed(o):
    return bool(o.get("Error")) or any(not b["Proved"] for b in o.get("Obls") or [])


def main():
    fz = Falsifier()
    th = threading.Thread(target=fz.run, daemon=True)
    th.start()
    ve = Verifier()
    text = ""
    ok = ve.build()
    if ok and ve.names:
        outs, text = ve.prove(None, 6 if TIER == "quick" else 20, min(left() - 60, 520 if TIER == "quick" else 3600), "a")
        if outs is None:
            ve.note = "the verifier gave no report: " + text[-2000:]
        else:
            ve.outs = outs
            bad = [o["Fn"] for o in outs if failed(o)]
            fz.done.wait(5)
            if bad and not fz.found and left() > 120:
                # a second, longer attempt before a failed obligation counts
                outs2, text2 = ve.prove(bad, 20 if TIER == "quick" else 60, left() - 40, "b")
                if outs2 is not None:
                    text += "\n-- second attempt\n" + text2
                    by = {o["Fn"]: o for o in outs2}
                    ve.outs = [by.get(o["Fn"], o) if failed(o) and not failed(by.get(o["Fn"], o)) else o for o in outs]
    th.join(max(1, left() - 15))
    if not fz.done.is_set():
        fz.note = "falsifier stopped at the time limit"

    known = load_known()
    bad = []
    for o in ve.outs:
        if o.get("Error"):
            bad.append((o["Fn"], "contract of " + o["Fn"], "", o["Error"]))
        for b in o.get("Obls") or []:
            if not b["Proved"]:
                bad.append((o["Fn"], b["Name"], b.get("Pos", ""), b.get("Detail", "")))
    if not ok or (ve.names and not ve.outs):
        bad.append(("verifier", "verifier run", "", ve.note))

    printed_known = set()

    def is_known(s):
        for k in known:
            if k in s:
                if k not in printed_known:
                    printed_known.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (PID, k))
                return True
        return False

    found = [f for f in fz.found if not is_known(f)]
    bad = [b for b in bad if not is_known(b[1] + " " + b[2])]

    nobl = sum(len(o.get("Obls") or []) for o in ve.outs)
    nok = sum(1 for o in ve.outs for b in (o.get("Obls") or []) if b["Proved"])
    by = {}
    for o in ve.outs:
        for k, v in (o.get("By") or {}).items():
            by[k] = by.get(k, 0) + v
    ass = json.load(open(os.path.join(HERE, "assumptions.json")))
    assumptions = ass["all"] + ass.get(PID, [])
    trusted = sorted({c for o in ve.outs for c in (o.get("Trusted") or [])})
    ev = {
        "property": PID, "tier": TIER, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": nobl, "discharged": nok,
            "checker_cmd": "gover -repo /repo -specs /verif/specs -prop %s" % PID,
            "trusted_base": ass["trusted_base"] + ["contract assumed of " + t for t in trusted],
            "functions_under_contract": [
                {"function": o["Fn"], "contract": "specs/" + os.path.basename(o.get("Contract") or ""),
                 "obligations": len(o.get("Obls") or []),
                 "discharged": sum(1 for b in (o.get("Obls") or []) if b["Proved"]),
                 "exits": o.get("Exits"), "calls_by_contract": o.get("Calls"), "inlined": o.get("Inlined"),
                 "loop_invariants": len(o.get("Invs") or []),
                 "solver_runs": o.get("SolverQ"), "solver_s": round(o.get("SolverS") or 0, 2),
                 "skipped": o.get("Skipped") or ""} for o in ve.outs],
            "discharged_by": by,
            "solver_s": round(sum(o.get("SolverS") or 0 for o in ve.outs), 1),
            "bounded": {"what": "random inputs and histories on the real code, compared with a reference; decides nothing where it is quiet",
                        "cases": fz.tried, "note": fz.note},
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - T0, 1),
        "violations": len(found) + len(bad),
    }
    json.dump(ev, open(os.path.join(EVID, PID + ".json"), "w"), indent=1)

    for o in ve.outs:
        n = len(o.get("Obls") or [])
        k = sum(1 for b in (o.get("Obls") or []) if b["Proved"])
        print("%s %s: %d/%d obligations" % ("FAILED " if failed(o) else "ok     ", o["Fn"], k, n))
    print("falsifier: %s %s" % (fz.tried, fz.note[:300]))
    if not found and not bad:
        print("property=%s held: %d obligations discharged, %.0f s" % (PID, nok, time.time() - T0))
        return 0
    replay = os.path.join(EVID, PID + ".replay.txt")
    with open(replay, "w") as f:
        f.write("property %s\n\n" % PID)
        if found:
            f.write("Failing input found on the real code:\n")
            for x in found:
                f.write("  %s\n" % x)
            f.write("\n%s\n" % fz.detail)
            f.write("Replay: falsify/mkoverlay.sh %s /tmp/ov.json; cd %s && export VERIF_SEED=<seed> FALSIFY_MULT=10 && go test -vet=off -overlay /tmp/ov.json -c -o /tmp/fz ./zzfalsify && cd /tmp && ./fz -test.run '^Test%s'\n\n" % (REPO, REPO, PID))
        for b in bad:
            f.write("Failed obligation: %s: %s\n  at %s\n  %s\n\n" % b)
        f.write("\nVerifier output:\n%s\n" % text)
    for b in bad[:20]:
        print("failed obligation: %s: %s at %s: %s" % (b[0], b[1], b[2], str(b[3])[:300]))
    for x in found:
        print("failing input: %s" % x)
    print("VIOLATION property=%s replay=%s%s" % (PID, replay, "" if found else " no-failing-input-found"))
    return 1


def load_known():
    """Entries 'known: property=ID TEXT': TEXT names the failing input, call site or history."""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) (.*)", l)
            if m and m.group(1) == PID:
                r.append(m.group(2).strip())
    return r


try:
    rc = main()
except SystemExit:
    raise
except BaseException as e:
    import traceback
    traceback.print_exc()
    p = os.path.join(EVID, PID + ".replay.txt")
    open(p, "w").write("the check itself failed\n" + traceback.format_exc())
    print("VIOLATION property=%s replay=%s no-failing-input-found" % (PID, p))
    rc = 1
finally:
    shutil.rmtree(TMP, ignore_errors=True)
sys.stdout.flush()
os._exit(rc)
