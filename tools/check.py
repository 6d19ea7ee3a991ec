#!/usr/bin/env python3
"""Decides one property on /repo's working tree.

1. gvc generates the proof obligations of the property's contracts from the current source and has
   the solvers discharge them (the deciding step);
2. vcrt searches for a failing input with the real code (bounded; also what turns a failed
   obligation into a replayable failure).
Exit 0: holds.  Exit 1 with a VIOLATION line: broken.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
prop = sys.argv[1]
if prop == "--digest":
    prop = None
tier = os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or "1")
cfg = json.load(open(os.path.join(V, "tools/props.json")))[prop] if prop else None
ENV = "set -a; . /opt/vp/env.sh 2>/dev/null; set +a; "


def sh(cmd, timeout, cwd=V):
    """Runs a shell command in a process group of its own; returns (code, output)."""
    import signal
    p = subprocess.Popen(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out.decode("utf-8", "replace") + "\n(timed out after %d s)" % timeout


def source_digest():
    """Digest of the sources without comments and white space: only decides how long to search."""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO)):
        ds[:] = sorted(x for x in ds if not x.startswith(".") and x != "testdata")
        for f in sorted(fs):
            if f.endswith(".go") and not f.endswith("_test.go"):
                s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                s = re.sub(r"(?m)^\s*//.*$", "", s)
                h.update((os.path.relpath(os.path.join(d, f), REPO) + "\0" + re.sub(r"\s+", " ", s).strip() + "\0").encode())
    return h.hexdigest()


if prop is None:
    print(source_digest())
    sys.exit(0)
t0 = time.time()
ev_dir = os.path.join(V, "evidence")
os.makedirs(ev_dir, exist_ok=True)
replay = os.path.join(ev_dir, prop + ".replay.txt")
if os.path.exists(replay):
    os.unlink(replay)
tmp = tempfile.mkdtemp(prefix="vcheck-" + prop + "-")


def build_gvc():
    bd = os.path.join(V, ".build")
    exe = os.path.join(bd, "gvc")
    srcs = [os.path.join(V, "gvc", f) for f in os.listdir(os.path.join(V, "gvc")) if f.endswith((".go", ".mod", ".sum"))]
    if os.path.exists(exe) and os.path.getmtime(exe) >= max(map(os.path.getmtime, srcs)):
        return exe, ""
    try:
        os.makedirs(bd, exist_ok=True)
        part = os.path.join(bd, "gvc.%d" % os.getpid())
    except OSError:
        part = exe = os.path.join(tmp, "gvc")
    rc, out = sh("cd %s/gvc && go build -o %s ." % (V, part), 600)
    if rc != 0:
        return None, out
    if part != exe:
        os.replace(part, exe)
    return exe, ""


fails = []   # (title, text) without a failing input
inputs = []  # violations with a failing input
cov = {}
assumptions = list(cfg.get("assumptions", []))
known_lines = []

try:
    changed = True
    try:
        changed = source_digest() != open(os.path.join(V, "tools/basedigest.txt")).read().strip()
    except OSError:
        pass
    # ---- proof obligations
    if cfg.get("gvc"):
        exe, msg = build_gvc()
        if exe is None:
            print("gvc does not build:\n" + msg)
            sys.exit(2)
        res = os.path.join(tmp, "gvc.json")
        keep = os.path.join(tmp, "q")
        cmd = "%s -repo %s -contracts %s/contracts -ref %s/ref -prop %s -out %s -keep %s -tier %s -budget %d" % (exe, REPO, V, V, prop, res, keep, tier, cfg.get("gvc_timeout", 420) - 20)
        rc, out = sh(cmd, cfg.get("gvc_timeout", 420))
        try:
            g = json.load(open(res))
        except (OSError, ValueError):
            g = None
        if g is None:
            fails.append(("the verifier gave no verdict on this source", out[-6000:]))
            cov.update(obligations=0, discharged=0)
        else:
            cov.update(obligations=g["obligations"], discharged=g["proved"])
            cov["by_kind"] = g["by_kind"]
            cov["by_back_end"] = g["by_solver"]
            cov["solver_ms"] = {k: round(v) for k, v in (g.get("solver_ms") or {}).items()}
            cov["functions_under_contract"] = g["functions"]
            cov["contracts_used_at_calls"] = g["contracts_used"]
            cov["harnesses"] = {h["name"]: "%d/%d" % (h["proved"], h["obligations"]) for h in g["harnesses"] or []}
            cov["loops"] = g["loops"]
            if g.get("extra"):
                cov["extraction"] = g["extra"]
            cov["checker_cmd"] = "gvc -repo /repo -contracts /verif/contracts -prop " + prop
            cov["trusted_base"] = ["gvc (SSA to SMT translation)", "golang.org/x/tools/go/ssa", "z3 4.8.12", "z3-new", "cvc5 1.1.2"] + sorted(g["assumed"] or [])
            if g.get("load_error"):
                fails.append(("the source does not load", g["load_error"]))
            for h in g["harnesses"] or []:
                if h.get("error"):
                    fails.append(("%s: %s" % (h["name"], h["error"]), ""))
            for o in g["failed"] or []:
                fails.append(("%s: %s [%s] at %s: %s" % (o["harness"], o["name"], o["kind"], o.get("pos", ""), o["status"]), o.get("goal", "")[:3000]))
            if g["obligations"] == 0 and not fails:
                fails.append(("no obligation was generated", out[-3000:]))
    # ---- search with the real code
    if cfg.get("rt", True):
        exe = os.path.join(tmp, "vcrt")
        rc, out = sh("bash %s/rt/build.sh %s %s" % (V, exe, REPO), 300)
        if rc != 0:
            fails.append(("the search program does not build against this source", out[-4000:]))
        else:
            binf = ""
            if cfg.get("bin"):
                binf = os.path.join(tmp, "mustache")
                rc, out = sh("cd %s && go build -o %s ./cmd/mustache" % (REPO, binf), 300)
                if rc != 0:
                    fails.append(("the command does not build", out[-4000:]))
            if tier == "thorough":
                secs = cfg.get("secs_thorough", 300)
            elif changed or fails:
                secs = cfg.get("secs_changed", 60)
            else:
                secs = cfg.get("secs", 15)
            # ---- what the contracts assume about the grammar table, evaluated on the table itself
            if cfg.get("table"):
                to = os.path.join(tmp, "table.json")
                rc, out = sh("%s -table -out %s -ref %s/ref/logstash.peg -repo %s" % (exe, to, V, REPO), 60)
                try:
                    tb = json.load(open(to))
                except (OSError, ValueError):
                    tb = {"known": False}
                if not tb["known"]:
                    cov["grammar_table"] = "could not be read: its shape is assumed"
                    assumptions.append("the grammar table is well-formed (not evaluated on this source)")
                else:
                    cov["grammar_table"] = {
                        "rules": tb["rules"], "nodes": tb["nodes"],
                        "well-formed as the contracts assume": "evaluated: " + ("yes" if not tb["shape"] else "NO"),
                        "no left recursion, no repetition of what can match the empty text": "evaluated: " + ("yes" if not tb["terminate"] else "NO"),
                        "is the reference grammar, node by node": "evaluated: yes" if tb["same"] else "no (%s): left to the bounded search" % "; ".join((tb["differ"] or [])[:4]),
                        "actions and predicates are wired as in the reference": "evaluated: yes, %d of %d" % (tb["wired"], tb["wired"]) if tb["same_code"] else "no (%s): left to the bounded search" % "; ".join((tb["differ_code"] or tb["differ"] or [])[:4])}
                    for x in tb["shape"] or []:
                        fails.append(("grammar table: not well-formed: " + x, ""))
                    for x in tb["terminate"] or []:
                        fails.append(("grammar table: parsing need not end: " + x, ""))
            o = os.path.join(tmp, "rt.json")
            common = "-base %s/rt/baselits.txt -ref %s/ref/logstash.peg -repo %s -bin '%s'" % (V, V, REPO, binf)
            rc, out = sh("%s -prop %s -seed %d -secs %d -workers 8 -out %s %s" % (exe, prop, seed, secs, o, common), secs + 150)
            try:
                r = json.load(open(o))
            except (OSError, ValueError):
                r = None
                fails.append(("the search gave no answer", out[-4000:]))
            if r is not None:
                cov["evaluations"] = r["evaluations"]
                cov["distinct_nontrivial"] = r["distinct_nontrivial"]
                cov["rule"] = cfg["rule"]
                cov["samples"] = (r.get("samples") or [])[:6]
                cov["search_is"] = "a bounded search (random cases for %d s) with the real code, never counted as proved" % secs
                inputs = r.get("violations") or []
            kf = os.path.join(V, "known-findings.txt")
            rc, out = sh("%s -known %s -prop %s" % (exe, kf, prop), 60)
            known_lines = [l for l in out.splitlines() if l.startswith("KNOWN-FINDING: ")]
finally:
    shutil.rmtree(tmp, ignore_errors=True)

ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
      "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(inputs) + len(fails)}
if known_lines:
    cov["known_findings"] = len(known_lines)
if not cov:
    cov["explanation"] = "nothing could be run on this source"
with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
    json.dump(ev, f, indent=1)
for l in known_lines:
    print(l)
if not inputs and not fails:
    print("%s holds: %s" % (prop, ", ".join("%s=%s" % (k, cov[k]) for k in ("obligations", "discharged", "evaluations", "distinct_nontrivial") if k in cov)))
    sys.exit(0)
with open(replay, "w") as f:
    f.write("property %s, tier %s, seed %d\n" % (prop, tier, seed))
    for v in inputs:
        f.write("\n== failing input found with the real code: %s (%s)\n" % (v["what"], v["key"]))
        for k in ("input", "expected", "got"):
            f.write("-- %s:\n%s\n" % (k, v.get(k, "")))
        f.write("-- replay: bash /verif/rt/build.sh /tmp/vcrt && /tmp/vcrt -prop %s -case %s -bin <mustache binary>\n" % (prop, v["case_seed"]))
    for t, x in fails:
        f.write("\n== failed: %s\n%s\n" % (t, x))
for t, _ in fails[:8]:
    print("failed:", t)
for v in inputs[:2]:
    print("failing input: %s: %s" % (v["what"], json.dumps(v["input"][:300])))
print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if inputs else " no-failing-input-found"))
sys.exit(1)
