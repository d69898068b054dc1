"""Driver: discharges the contract obligations of /verif with CBMC on /repo's
current sources and replays counterexamples natively."""
import json, os, re, subprocess, sys, time, shutil, tempfile, signal, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
JOBS = int(os.environ.get("VP_JOBS", str(os.cpu_count() or 4)))


class Unit:
    def __init__(self, name, src, defs=(), unwind=9, unwindset=(), opts=(), timeout=300, functions=(),
                 backend="sat", bounded=None, incs=(), replay_libs=(), checks=(), weight=1, contract=None,
                 replace=(), calls=(), paths=False, fs=None, exact=None, optional=False, search=()):
        self.name, self.src, self.defs = name, src, list(defs)
        self.unwind, self.unwindset, self.opts, self.timeout = unwind, list(unwindset), list(opts), timeout
        self.functions, self.backend, self.bounded = list(functions), backend, bounded
        self.incs, self.replay_libs, self.checks, self.weight = list(incs), list(replay_libs), list(checks), weight
        self.contract, self.replace = contract, list(replace)
        self.calls = list(calls)      # (callee, contract stub): calls go to the stub instead
        self.paths = paths            # path-by-path symbolic execution
        self.fs = fs                  # field sensitivity limit for arrays
        self.optional = optional      # where it cannot be established, a bounded unit stands in
        self.search = list(search)    # inputs (slot: value) to try natively when an obligation fails
        self.exact = exact            # define that turns off arithmetic abstraction (for counterexamples)


def run(cmd, timeout, cwd=None, env=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", "timeout", time.time() - t


def show_properties(gb):
    rc, o, e, t = run(["cbmc", gb, "--no-standard-checks", "--unwinding-assertions", "--show-properties", "--json-ui"], 60)
    for x in json.loads(o):
        if "properties" in x:
            return x["properties"]
    return []


def uf_decide(u, cmd, base, gbdefs, src):
    """Decide all obligations of a unit at once with mul/div/rem abstracted to
    uninterpreted functions.  Returns (verdict, properties, covers, secs)."""
    t0 = time.time()
    gb = base + "_nc.gb"
    rc, o, e, t = run(["goto-cc", *incflags(u), "-DVP_NOCOVER", *gbdefs, "--function", "harness", src, "-o", gb], 60)
    smt, uf = base + ".smt2", base + "_uf.smt2"
    c2 = [gb if c.endswith(".gb") else c for c in cmd if c != "--json-ui"]
    rc, o, e, t = run(c2 + ["--cvc5", "--outfile", smt], 120)
    if not os.path.exists(smt):
        return "error", [], [], time.time() - t0
    import uf as ufmod
    txt, n = ufmod.abstract(open(smt).read())
    open(uf, "w").write(txt)
    for z in ("z3-new", "cvc5"):
        rc, o, e, t = run([z, uf], u.timeout / 2)
        v = o.strip().split("\n")[0] if rc is not None else ""
        if v in ("sat", "unsat"):
            return v, show_properties(gb), [x for x in show_properties(base + ".gb") if x["description"].startswith("cover:")], time.time() - t0
    return "unknown", [], [], time.time() - t0


BACKENDS = {"uf": [], "sat": [], "cvc5": ["--cvc5"], "z3": ["--z3"], "cadical": ["--sat-solver", "cadical"]}


def incflags(u):
    r = ["-I", REPO, "-I", VERIF + "/lib", "-I", os.path.dirname(os.path.join(VERIF, u.src))]
    for i in u.incs:
        r += ["-I", i]
    return r


def parse(out):
    try:
        d = json.loads(out)
    except ValueError:
        return None, None, out[-2000:]
    res, status, msgs = None, None, []
    for x in d:
        if "result" in x:
            res = x["result"]
        if "cProverStatus" in x:
            status = x["cProverStatus"]
        if x.get("messageType") == "ERROR":
            msgs.append(x.get("messageText", ""))
    return res, status, "\n".join(msgs)


def trace_inputs(res, prop):
    vals = {}
    for r in res:
        if r.get("property") != prop or "trace" not in r:
            continue
        for s in r["trace"]:
            if s.get("stepType") != "assignment":
                continue
            m = re.fullmatch(r"vp_in\[(\d+)l*\]", s.get("lhs", ""))
            if m:
                v = s.get("value", {})
                b = v.get("binary")
                if b is not None:
                    x = int(b, 2)
                    if x >= 1 << 31:
                        x -= 1 << 32
                elif re.fullmatch(r"-?\d+", str(v.get("data", ""))):
                    x = int(v["data"])
                else:
                    continue
                vals[int(m.group(1))] = x
    return [vals.get(i, 0) for i in range(160)]


def redirect(u, gb, base):
    """replace calls of a function by its contract stub"""
    if not u.calls:
        return gb, None
    gr = base + "_r.gb"
    rc, o, e, t = run(["goto-instrument"] + sum([["--replace-calls", a + ":" + b] for a, b in u.calls], []) + [gb, gr], 60)
    if rc != 0:
        return gb, "goto-instrument: " + (o + e)[-1500:]
    return gr, None


def exact_trace(u, cmd, gb, base, prop):
    """counterexample search without the arithmetic abstraction"""
    g1 = base + "_x.gb"
    src = os.path.join(VERIF, u.src)
    rc, o, e, t = run(["goto-cc", *incflags(u), *["-D" + d for d in u.defs + [u.exact]], "--function", "harness", src, "-o", g1], 60)
    if rc != 0:
        return None
    g2, err = redirect(u, g1, base + "_x")
    rc, o, e, t = run([g2 if c == gb else c for c in cmd if c != "--slice-formula"] + ["--property", prop, "--trace"] + BACKENDS[u.backend], 60)
    return parse(o)[0] if rc is not None else None


def verify(u, work, prop_id, replay_dir):
    """returns dict(status=ok|violation|error, ...)"""
    r = dict(unit=u.name, functions=u.functions, backend=u.backend, bounded=u.bounded, obligations=0,
             discharged=0, solver_s=0.0, failed=[], status="ok")
    src = os.path.join(VERIF, u.src)
    base = os.path.join(work, re.sub(r"\W", "_", u.name))
    gb = base + ".gb"
    rc, o, e, t = run(["goto-cc", *incflags(u), *["-D" + d for d in u.defs], "--function", "harness", src, "-o", gb], 60)
    if rc != 0:
        r.update(status="error", detail="goto-cc: " + (o + e)[-1500:])
        return r
    if u.contract:
        gi = base + "_c.gb"
        cmd = ["goto-instrument", "--dfcc", "harness", "--enforce-contract", u.contract]
        for f in u.replace:
            cmd += ["--replace-call-with-contract", f]
        rc, o, e, t = run(cmd + [gb, gi], 120)
        if rc != 0:
            r.update(status="error", detail="goto-instrument: " + (o + e)[-1500:])
            return r
        gb = gi
    gb, err = redirect(u, gb, base)
    if err:
        r.update(status="error", detail=err)
        return r
    checks = ["--no-standard-checks"] + u.checks
    if u.paths:
        checks += ["--paths", "lifo"]
    if u.fs:
        checks += ["--max-field-sensitivity-array-size", str(u.fs)]
    cmd = ["cbmc", gb, "--json-ui", "--unwind", str(u.unwind), "--slice-formula", "--unwinding-assertions", *checks]
    if u.unwindset:
        cmd += ["--unwindset", ",".join(u.unwindset)]
    cmd += u.opts
    r["cmd"] = " ".join(cmd + BACKENDS[u.backend])
    if u.backend == "uf":
        v, ps, cv, t = uf_decide(u, cmd, base, ["-D" + d for d in u.defs], src)
        r["solver_s"] += t
        r["uf_verdict"] = v
        if v == "unsat":
            res = [dict(property=x["name"], description=x["description"], status="SUCCESS") for x in ps]
            n = len([x for x in res if not x["property"].startswith(("malloc", "calloc"))])
            # reachability of the precondition, with the SAT back end
            rc, o, e, t = run(cmd + sum([["--property", x["name"]] for x in cv], []), u.timeout)
            r["solver_s"] += t
            res2 = parse(o)[0] if rc is not None else None
            if not res2 or not cv or any(x["status"] != "FAILURE" for x in res2 if x["description"].startswith("cover:")):
                r.update(status="error", detail="vacuous or undecided precondition")
            r.update(obligations=n, discharged=n, covers=len(cv))
            return r
        if v == "error":
            r.update(status="error", detail="no SMT output")
            return r
    rc, o, e, t = run(cmd + BACKENDS[u.backend], u.timeout)
    r["solver_s"] += t
    res = None
    if rc is not None:
        res, status, msg = parse(o)
    if res is None:
        r.update(status="error", detail=("timeout after %ds" % u.timeout) if rc is None else "cbmc rc=%s: %s %s" % (rc, msg, e[-500:]))
        return r
    real, covers, unwind = [], [], []
    for x in res:
        d = x.get("description", "")
        if d.startswith("cover:"):
            covers.append(x)
        elif ".unwind." in x["property"] or "unwinding assertion" in d:
            unwind.append(x)
        elif x["property"].startswith("malloc.") or x["property"].startswith("calloc."):
            continue
        else:
            real.append(x)
    r["obligations"] = len(real) + len(unwind)
    bad = [x for x in real if x["status"] == "FAILURE"]
    undec = [x for x in real + unwind if x["status"] not in ("SUCCESS", "FAILURE")]
    ubad = [x for x in unwind if x["status"] == "FAILURE"]
    r["discharged"] = len([x for x in real + unwind if x["status"] == "SUCCESS"])
    r["covers"] = len(covers)
    if not bad and not ubad:
        vac = [x for x in covers if x["status"] != "FAILURE"]
        if undec:
            r.update(status="error", detail="undecided: " + ", ".join(x["description"] for x in undec[:5]))
        elif not real:
            r.update(status="error", detail="no obligations generated")
        elif not covers or vac:
            r.update(status="error", detail="vacuous: precondition not reachable (%s)" % ", ".join(x["description"] for x in vac))
        return r
    # some obligation fails: obtain a counterexample and replay it
    r["failed"] = [x["description"] for x in bad] + ["unwinding: " + x["description"] for x in ubad]
    r["status"] = "violation" if bad else "unwind"
    r["confirmed"] = False
    os.makedirs(replay_dir, exist_ok=True)
    tried = []
    for x in (bad or ubad)[:3]:
        rc, o2, e2, t = run([c for c in cmd if c != "--slice-formula"] + ["--property", x["property"], "--trace"] + BACKENDS[u.backend], u.timeout)
        r["solver_s"] += t
        if rc is None:
            continue
        res2, st, msg = parse(o2)
        if not res2:
            continue
        vals = trace_inputs(res2, x["property"])
        rp = replay(u, vals, base)
        if not rp["confirmed"] and u.exact:
            res2 = exact_trace(u, cmd, gb, base, x["property"])
            if res2:
                v2 = trace_inputs(res2, x["property"])
                rp2 = replay(u, v2, base)
                if rp2["confirmed"]:
                    vals, rp = v2, rp2
        tried.append(dict(obligation=x["description"], location=x.get("sourceLocation"), inputs=vals, native=rp))
        for c in [] if rp["confirmed"] else u.search:
            v2 = list(vals)
            for k, x2 in c.items(): v2[k] = x2
            rp2 = replay(u, v2, base)
            if rp2["confirmed"]:
                tried.append(dict(obligation=x["description"], location=x.get("sourceLocation"), inputs=v2, native=rp2))
                rp = rp2
                break
        if rp["confirmed"]:
            r["confirmed"] = True
            break
    path = os.path.join(replay_dir, re.sub(r"\W", "_", u.name) + ".json")
    with open(path, "w") as f:
        json.dump(dict(property=prop_id, unit=u.name, failed_obligations=r["failed"], verifier=r["cmd"],
                       defines=u.defs, harness=u.src, calls=u.calls, attempts=tried,
                       replay_how="python3 %s/bin/replay.py <this file>" % VERIF,
                       verifier_output=[dict(p=x["property"], d=x["description"], s=x["status"]) for x in res]), f, indent=1)
    r["replay"] = path
    if not r["confirmed"] and not bad:
        r["status"] = "error"
        r["detail"] = "loop bound exceeded (%s) and no failing input" % ", ".join(r["failed"][:3])
    return r


def build_replay(u, exe, base):
    src = os.path.join(VERIF, u.src)
    flags = ["-w", "-g", "-fwrapv", "-DVP_REPLAY", *incflags(u), *["-D" + d for d in u.defs]]
    if not u.calls:
        rc, o, e, t = run(["gcc", "-O1", *flags, src, VERIF + "/lib/replay.c", "-o", exe, *u.replay_libs], 60)
        return e if rc != 0 else None
    # direct calls are redirected in the generated assembly
    asm = exe + ".s"
    rc, o, e, t = run(["gcc", "-O0", "-fno-pic", "-no-pie", *flags, "-S", src, "-o", asm], 60)
    if rc != 0:
        return e
    txt = open(asm).read()
    for a, b in u.calls:
        txt = re.sub(r"(\bcall\s+)%s\b" % re.escape(a), r"\g<1>" + b, txt)
    open(asm, "w").write(txt)
    rc, o, e, t = run(["gcc", "-no-pie", "-g", "-I", VERIF + "/lib", asm, VERIF + "/lib/replay.c", "-o", exe, *u.replay_libs], 60)
    return e if rc != 0 else None


def replay(u, vals, base):
    exe = base + ".replay"
    if not os.path.exists(exe):
        e = build_replay(u, exe, base)
        if e is not None:
            return dict(confirmed=False, output="replay build failed: " + e[-800:])
    inp = base + ".in"
    with open(inp, "w") as f:
        f.write("\n".join(map(str, vals)) + "\n")
    rc, o, e, t = run([exe, inp], 20)
    hang = rc is None or rc == -signal.SIGALRM
    crash = rc is not None and rc < 0 and not hang
    return dict(confirmed=rc == 1 or crash or hang, rc=rc, output=o[-3000:] + e[-500:] +
                (" HANG" if hang else "") + (" CRASH signal %d" % -rc if crash else ""))


def load_known():
    p = os.path.join(VERIF, "known-findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("status") == "known":
                    r.append(d)
    return r


def listed(known, r):
    return all(any(re.fullmatch(k["unit"], r["unit"]) and re.fullmatch(k["obligation"], d) for k in known) for d in r["failed"])


def check(prop, units, level, assumptions, tier):
    t0 = time.time()
    replay_dir = os.path.join(VERIF, "evidence", "replay", prop)
    shutil.rmtree(replay_dir, ignore_errors=True)
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    results = []
    nconf = 0
    known = [k for k in load_known() if k["property"] == prop]
    only = os.environ.get("VP_ONLY")
    if only:
        units = [u for u in units if re.search(only, u.name)]
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            fs = {ex.submit(verify, u, work, prop, replay_dir): u for u in sorted(units, key=lambda u: -u.weight)}
            for f in as_completed(fs):
                if f.cancelled():
                    continue
                try:
                    r = f.result()
                except Exception as exn:
                    r = dict(unit=fs[f].name, status="error", detail=repr(exn), obligations=0, discharged=0,
                             solver_s=0, failed=[], functions=[], backend="?", bounded=None)
                if fs[f].optional and r["status"] == "error":
                    r["status"] = "open"
                    print("unit %s: not established (%s); the bounded units stand in" % (r["unit"], r.get("detail")))
                results.append(r)
                if tier == "quick" and r.get("confirmed") and not listed(known, r):
                    nconf += 1
                    if nconf == 3:      # enough evidence: don't start the rest
                        for g in fs:
                            g.cancel()
                if os.environ.get("VP_VERBOSE"):
                    print("%-40s %-9s %3d/%3d %6.1fs %s" % (r["unit"], r["status"], r["discharged"], r["obligations"],
                          r["solver_s"], r.get("detail") or "; ".join(r["failed"])), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rc = 0
    nviol = 0
    errs = [r for r in results if r["status"] == "error"]
    viol = [r for r in results if r["status"] in ("violation", "unwind")]
    for r in sorted(viol, key=lambda r: not r["confirmed"]):
        left = []
        for d in r["failed"]:
            k = next((k for k in known if re.fullmatch(k["unit"], r["unit"]) and re.fullmatch(k["obligation"], d)), None)
            if k:
                k["hit"] = True
            else:
                left.append(d)
        if left:
            nviol += 1
            rc = 1
            print("unit %s: obligation failed: %s" % (r["unit"], "; ".join(left[:6])))
            print("VIOLATION property=%s replay=%s%s" % (prop, r["replay"], "" if r["confirmed"] else " no-failing-input-found"))
    for k in known:
        if k.get("hit"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if rc == 0 and errs:
        rc = 2
    for r in errs:
        print("ERROR unit %s: %s" % (r["unit"], r.get("detail")), file=sys.stderr)
    proved = [r for r in results if not r["bounded"]]
    bnd = [r for r in results if r["bounded"]]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level,
              coverage=dict(
                  obligations=sum(r["obligations"] for r in results if not r["bounded"]),
                  discharged=sum(r["discharged"] for r in results if not r["bounded"]),
                  checker_cmd="goto-cc + cbmc 6.11.0, e.g. " + (results[0].get("cmd", "") if results else ""),
                  trusted_base=["CBMC 6.11.0 (goto-cc front end, symbolic execution, loop unwinding with unwinding assertions)",
                                "MiniSAT / cvc5 back ends", "the contract and specification files under /verif"],
                  units=len(results), units_proved_unbounded=len(proved), units_bounded=len(bnd),
                  bounded_obligations=sum(r["obligations"] for r in bnd),
                  bounded_discharged=sum(r["discharged"] for r in bnd),
                  bounds=sorted(set(r["bounded"] for r in bnd)),
                  functions_under_contract=sorted(set(f for r in results for f in r["functions"])),
                  solver_seconds=round(sum(r["solver_s"] for r in results), 1),
                  backends=sorted(set(r["backend"] for r in results)),
                  unit_results=[dict(unit=r["unit"], status=r["status"], obligations=r["obligations"],
                                     discharged=r["discharged"], s=round(r["solver_s"], 1)) for r in sorted(results, key=lambda r: r["unit"])]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s: %d/%d obligations discharged (+ %d/%d bounded) in %d units, %.0fs wall" % (prop, c["discharged"],
          c["obligations"], c["bounded_discharged"], c["bounded_obligations"], len(results), time.time() - t0))
    return rc
