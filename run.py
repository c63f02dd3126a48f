#!/usr/bin/env python3
"""
run.py PROPERTY: decide one property of /repo's current working tree.

Every unit of the property (see spec.py) is a set of proof obligations which
CBMC generates from the real source files on this run.  Outcomes:
  exit 0  every obligation was discharged (or, for a unit labelled bounded in
          the evidence file, nothing failed in what was explored)
  exit 1  "VIOLATION property=ID replay=FILE[ no-failing-input-found]"
  exit 2  no answer (a unit could be neither proved nor explored)
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
INCS = ["lib", "", "lib/proto", "lib/util", "lib/dnsthread", "libcperciva/alg",
        "libcperciva/cpusupport", "libcperciva/crypto", "libcperciva/datastruct",
        "libcperciva/events", "libcperciva/external/queue", "libcperciva/netbuf",
        "libcperciva/network", "libcperciva/util", "spiped", "spipe"]
DEFS = ["-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700",
        '-DCPUSUPPORT_CONFIG_FILE="vc-cpusupport.h"',
        '-DAPISUPPORT_CONFIG_FILE="vc-apisupport.h"']
SLOTS = threading.Semaphore(8)
MEMLIMIT = 12 << 30


def sh(cmd, timeout, cwd=None, env=None, inp=None):
    """Run cmd; returns (rc, stdout, stderr, seconds); rc is None on timeout."""
    t = time.time()
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (MEMLIMIT, MEMLIMIT))
    asan = any("fsanitize" in c for c in cmd) or (env or {}).get("VC_ASAN")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         cwd=cwd, env=env, text=True, errors="replace",
                         preexec_fn=os.setsid if asan else lim)
    try:
        o, e = p.communicate(input=inp, timeout=timeout)
        return p.returncode, o, e, time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout after %ds" % timeout, time.time() - t


def incs():
    r = ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "replay"), "-I" + os.path.join(VERIF, "units")]
    return r + ["-I" + os.path.join(REPO, i).rstrip("/") for i in INCS if i != "lib"]


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.state = None          # proved | failed | undecided
        self.obl = self.ok = 0     # obligations generated / discharged
        self.vacuous = []
        self.failed = []           # failing obligations
        self.reason = ""
        self.solver_s = 0.0
        self.cmd = ""
        self.steps = []
        self.native = None


def parse(out):
    try:
        js = json.loads(out)
    except ValueError:
        return None
    for x in js:
        if "result" in x:
            return x["result"]
    return None


def backend(u):
    return {None: "CBMC bit-precise SAT (MiniSat 2.2.1)", "cadical": "CBMC SAT (CaDiCaL)",
            "z3": "z3 4.8.12 via SMT-LIB2", "cvc5": "cvc5 1.1.2 via SMT-LIB2",
            "": ""}[u.get("solver")]


def prove(u, work):
    r = Result(u)
    d = tempfile.mkdtemp(prefix=u["name"] + ".", dir=work)
    a, b = os.path.join(d, "a.gb"), os.path.join(d, "b.gb")
    src = os.path.join(VERIF, "units", u["src"])
    cc = ["goto-cc", "-std=c99", "-DVC_CBMC", "-I" + os.path.join(VERIF, "lib", "intrin"), *DEFS, *incs(), *u.get("defs", []),
          "--function", u.get("entry", "harness"), src,
          *[os.path.join(REPO, s) for s in u.get("extra", [])], "-o", a]
    rc, o, e, s = sh(cc, 120)
    if rc != 0:
        r.state, r.reason = "undecided", "goto-cc: " + (o + e)[-1500:]
        return r
    if u.get("pre"):
        for step in u["pre"]:
            rc, o, e, s = sh(["goto-instrument", *step, a, a + "x"], 120)
            if rc != 0:
                r.state, r.reason = "undecided", "goto-instrument: " + (o + e)[-1500:]
                return r
            os.replace(a + "x", a)
    if u.get("enforce") or u.get("replace") or u.get("loops"):
        gi = ["goto-instrument", "--dfcc", u.get("entry", "harness")]
        for f in u.get("enforce", []):
            gi += ["--enforce-contract", f]
        for f in u.get("replace", []):
            gi += ["--replace-call-with-contract", f]
        if u.get("loops"):
            gi += ["--apply-loop-contracts"]
            if u["loops"] is not True:
                gi += ["--loop-contracts-file", os.path.join(VERIF, "units", u["loops"])]
        gi += [a, b]
        rc, o, e, s = sh(gi, 300)
        if rc != 0:
            r.state, r.reason = "undecided", "goto-instrument: " + (o + e)[-1500:]
            return r
    else:
        os.replace(a, b)
    solver = {None: [], "cadical": ["--sat-solver", "cadical"], "z3": ["--z3"],
              "cvc5": ["--cvc5"]}[u.get("solver")]
    unwinds = [u.get("unwind", 10)]
    if u.get("unwind_retry", True):
        unwinds.append(unwinds[0] * 2 + 3)
    tmo = u.get("timeout", 400)
    end = time.time() + tmo
    for i, uw in enumerate(unwinds):
        cb = ["cbmc", b, "--unwind", str(uw), *solver, *u.get("cbmc", [])]
        if u.get("unwindset"):
            cb += ["--unwindset", ",".join(u["unwindset"])]
        r.cmd = " ".join(cb).replace(b, "<unit>.gb")
        rc, o, e, s = sh(cb + ["--json-ui"], max(5, end - time.time()))
        r.solver_s += s
        if rc is None:
            r.state, r.reason = "undecided", "solver time limit (%d s)" % tmo
            return r
        res = parse(o)
        if res is None:
            r.state, r.reason = "undecided", "cbmc gave no result: " + (o[-800:] + e[-800:])
            return r
        reach = [x for x in res if x["description"].startswith("REACH")]
        unw = [x for x in res if "unwind" in x["property"].split(".") or
               "recursion" in x["property"].split(".")]
        obl = [x for x in res if x not in reach]
        r.obl = len(obl)
        r.ok = sum(x["status"] == "SUCCESS" for x in obl)
        bad = [x for x in obl if x["status"] == "FAILURE" and x not in unw]
        badu = [x for x in unw if x["status"] != "SUCCESS"]
        # Counterexamples on paths within the unwinding bound are real paths.
        if bad:
            r.state, r.failed = "failed", bad
            r.cbargs = (b, uw, solver, u)
            return r
        if badu:
            r.state, r.reason = "undecided", "loop bound %d exceeded at %s" % (
                uw, badu[0].get("sourceLocation", {}).get("function", badu[0]["property"]))
            continue
        if r.ok != r.obl:
            r.state, r.reason = "undecided", "%d obligations unknown" % (r.obl - r.ok)
            return r
        r.vacuous = [x["description"] for x in reach if x["status"] != "FAILURE" and
                     (u.get("reach") is None or x["description"][6:] in u["reach"])]
        if r.vacuous or not reach or r.obl == 0:
            r.state, r.reason = "undecided", "vacuous: " + "; ".join(r.vacuous or ["no reach point"])
            return r
        r.state = "proved"
        r.reach = len(reach)
        return r
    return r


def trace(r, prop, tmo=200):
    """Counterexample: the values nd_*() returned, in order, plus a text trace."""
    b, uw, solver, u = r.cbargs
    cb = ["cbmc", b, "--unwind", str(uw), *solver, *u.get("cbmc", []),
          "--property", prop["property"], "--trace"]
    if u.get("unwindset"):
        cb += ["--unwindset", ",".join(u["unwindset"])]
    rc, o, e, s = sh(cb + ["--json-ui"], tmo)
    vals, named, text = [], {}, []
    if rc is None:
        return vals, named, "no trace within %d s" % tmo
    for x in parse(o) or []:
        if x["property"] != prop["property"]:
            continue
        for st in x.get("trace", []):
            if st.get("stepType") == "assignment":
                lhs, v = st.get("lhs", ""), st.get("value", {})
                if lhs == "vc_ndv" and "data" in v and v.get("name") != "unknown" and "binary" in v:
                    if st.get("assignmentType") == "variable":
                        vals.append(int(v["binary"], 2))
                if "data" in v and not st.get("hidden") and not lhs.startswith("__"):
                    named[lhs] = v["data"]
                    f = st.get("sourceLocation", {})
                    text.append("%s:%s %s = %s" % (f.get("function", "?"), f.get("line", "?"), lhs, v["data"]))
            elif st.get("stepType") == "function-call" and not st.get("hidden"):
                text.append("call %s" % st.get("function", {}).get("displayName", "?"))
    return vals, named, "\n".join(text[-400:])


def native_build(n, u, work):
    """Compile the replay program from /repo's current sources."""
    d = tempfile.mkdtemp(prefix="nat.", dir=work)
    exe = os.path.join(d, "replay")
    if n["mode"] == "self":
        srcs = [os.path.join(VERIF, "units", u["src"]), os.path.join(VERIF, "lib", "vc_native.c")]
    else:
        srcs = [os.path.join(VERIF, "replay", n["src"]), os.path.join(VERIF, "replay", "oracle.c")]
        srcs += [os.path.join(VERIF, "replay", x) for x in n.get("parts", [])]
    san = [] if n.get("nosan") else ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    cc = ["gcc", "-std=gnu99", "-g", "-O1", "-w", "-DVC_NATIVE", *san, *DEFS, *incs(),
          *(u.get("defs", []) if n["mode"] == "self" else []), *n.get("defs", []), *srcs,
          *(["-DVC_ENTRY=" + u.get("entry", "harness")] if n["mode"] == "self" else []),
          *(["-I" + os.path.join(VERIF, "lib", "intrin")] if n.get("intrin") else []),
          *[os.path.join(REPO, s) for s in (u.get("extra", []) if n["mode"] == "self" else [])],
          *[os.path.join(REPO, s) for s in n.get("extra", [])],
          "-o", exe, *n.get("libs", [])]
    rc, o, e, s = sh(cc, 120)
    return (exe if rc == 0 else None), (o + e)[-1500:]


def native_run(exe, n, vals, named, work):
    """Returns (confirmed, text, tries)."""
    env = dict(os.environ, VC_SEED=str(SEED), VC_ASAN="1",
               ASAN_OPTIONS="detect_leaks=0:exitcode=1:abort_on_error=0",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=1")
    scratch = tempfile.mkdtemp(prefix="scr.", dir=work)
    if n["mode"] == "self":
        tries = 0
        if vals:
            f = os.path.join(scratch, "values")
            with open(f, "w") as h:
                h.write("\n".join(str(v) for v in vals) + "\n")
            rc, o, e, s = sh([exe], 60, cwd=scratch, env=dict(env, VC_VALUES=f))
            tries += 1
            if rc not in (0, None):
                return True, "counterexample replayed:\n" + (o + e)[-3000:], tries
            if rc is None and n.get("hang"):
                return True, "counterexample replayed: the program does not terminate", tries
        end = time.time() + n.get("secs", 20)
        k = 0
        while time.time() < end and k < n.get("tries", 100):
            # Eight seeds at a time.
            ps = []
            for _ in range(8):
                k += 1
                ps.append((k, subprocess.Popen([exe], cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=os.setsid,
                    env=dict(env, VC_SEED=str(SEED * 1000003 + k), VC_BATCH="200"))))
            for kk, p in ps:
                try:
                    o, _ = p.communicate(timeout=30)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    p.communicate()
                    continue
                m = re.search(r"TRIES (\d+)", o)
                tries += int(m.group(1)) if m else 0
                if p.returncode != 0:
                    for _, q in ps:
                        try:
                            os.killpg(q.pid, 9)
                        except OSError:
                            pass
                        q.communicate()
                    return True, "search, seed %d:\n" % (SEED * 1000003 + kk) + o[-3000:], tries
        return False, "not reproduced in %d runs" % tries, tries
    else:
        f = os.path.join(scratch, "named.json")
        with open(f, "w") as h:
            json.dump(named, h)
        envd = dict(env, VC_NAMED=f)
        for k in ("len", "buflen", "n"):
            if k in named:
                envd["VC_" + k] = re.sub(r"[^0-9-]", "", str(named[k]))
        rc, o, e, s = sh([exe], n.get("secs", 60), cwd=scratch, env=envd)
        m = re.search(r"TRIES (\d+)", o)
        if rc not in (0, None):
            return True, (o + e)[-3000:], int(m.group(1)) if m else 0
        if rc is None and n.get("hang"):
            return True, "the real code does not terminate within %d s" % n.get("secs", 60), 0
        return False, ("time limit" if rc is None else "not reproduced: " + o[-300:]), int(m.group(1)) if m else 0


def decide(u, work):
    with SLOTS:
        r = prove(u, work)
    n = u.get("native")
    if r.state == "proved" and u.get("always"):
        # What the proof abstracts from is also explored (not counted as proved).
        exe, err = native_build(n, u, work)
        if exe:
            ok, txt, k = native_run(exe, dict(n, secs=u["always"]), [], {}, work)
            r.native = (ok, txt, k)
            if ok:
                r.state = "failed"
                r.main = {"property": "exploration." + u["name"], "description": "a run of the real code fails its contract", "sourceLocation": {}}
                r.vals, r.named, r.text = [], {}, ""
        return r
    if r.state == "proved":
        return r
    if r.state == "failed":
        # Prefer the property's own obligations over memory-safety side conditions.
        pr = sorted(r.failed, key=lambda x: (0 if ("assertion" in x["property"] or "postcondition" in x["property"]) else 1))
        r.main = pr[0]
        r.vals, r.named, r.text = [], {}, ""
        attempts, tries = [], 0
        if not n:
            r.vals, r.named, r.text = trace(r, pr[0])
            r.native = (False, "this unit has no native replay", 0)
            return r
        exe, err = native_build(n, u, work)
        if not exe:
            r.vals, r.named, r.text = trace(r, pr[0])
            r.native = (False, "replay program does not build: " + err, 0)
            return r
        for x in pr[:3]:
            vals, named, text = trace(r, x)
            if not r.text:
                r.main, r.vals, r.named, r.text = x, vals, named, text
            nn = dict(n)
            if x is not pr[min(2, len(pr) - 1)]:
                nn["secs"] = n.get("secs", 20) if n["mode"] != "self" else 0.5
            ok, txt, k = native_run(exe, nn, vals, named, work)
            attempts.append(txt)
            tries += k
            if ok:
                r.main, r.vals, r.named, r.text = x, vals, named, text
                r.native = (True, txt, k)
                return r
            if n["mode"] != "self":
                break
        r.native = (False, "\n".join(attempts), tries)
        # Only intermediate steps of the argument failed: the argument does
        # not apply to this code, which says nothing about the property.
        if tries and (u.get("lemma") or all(x["description"].startswith("LEMMA") for x in r.failed)):
            r.state, r.reason = "explored", "proof step does not apply: " + r.failed[0]["description"]
        return r
    # Undecided: explore natively, labelled as exploration.
    if n:
        exe, err = native_build(n, u, work)
        if exe:
            ok, txt, k = native_run(exe, n, [], {}, work)
            r.native = (ok, txt, k)
            if ok:
                r.state = "failed"
                r.main = {"property": "native exploration of " + u["name"],
                          "description": "proof undecided (%s); the real code fails" % r.reason[:200],
                          "sourceLocation": {}}
                r.vals, r.named, r.text = [], {}, ""
            elif k > 0 or txt.startswith("not reproduced"):
                r.state = "explored"
        else:
            r.reason += " | native: " + err
    return r


def main():
    import spec
    pid = sys.argv[1]
    prop = spec.PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(VERIF, ".work"))
    only = os.environ.get("VC_UNIT")
    known = []
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) unit=(\S+) obligation=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                known.append(m.groups())
    try:
        units = [u for u in prop["units"] if (TIER == "thorough" or not u.get("thorough"))]
        if only:
            units = [u for u in units if u["name"] == only]
        with cf.ThreadPoolExecutor(16) as ex:
            rs = list(ex.map(lambda u: decide(u, work), units))
        # A unit that could not be applied may name stand-ins.
        extra = []
        for r in list(rs):
            if r.state == "undecided" and r.unit.get("fallback"):
                with cf.ThreadPoolExecutor(8) as ex:
                    fb = list(ex.map(lambda u: decide(u, work), [spec.FALLBACK[f] for f in r.unit["fallback"]]))
                extra += fb
                if all(x.state in ("proved", "explored") for x in fb):
                    r.state = "explored"
                    r.native = (False, "stand-in units: " + ", ".join(
                        "%s %s" % (x.unit["name"], "complete within its bounds" if x.state == "proved" else "explored") for x in fb),
                        sum((x.native or (0, 0, 0))[2] for x in fb))
        rs += extra
        rc = report(pid, prop, rs, known, time.time() - t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def report(pid, prop, rs, known, wall):
    viol, undecided, kn = [], [], []
    for r in rs:
        u = r.unit
        print("%-28s %-10s obligations %d/%d  %.1fs  %s" % (u["name"], r.state, r.ok, r.obl, r.solver_s, r.reason[:300].replace("\n", " ")))
        if r.state == "failed":
            for x in r.failed or [r.main]:
                print("    failed: %s: %s (%s)" % (x["property"], x["description"], x.get("sourceLocation", {}).get("line", "?")))
            unknown = [x for x in (r.failed or [r.main]) if not any(
                k[1] == u["name"] and re.fullmatch(k[2], x["property"] + ":" + x["description"].replace(" ", "_")) for k in known)]
            if unknown:
                viol.append(r)
            else:
                kn.append(r)
        elif r.state == "undecided":
            undecided.append(r)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    proofs = [r for r in rs if r.unit.get("kind", "proof") == "proof"]
    bounded = [r for r in rs if r.unit.get("kind", "proof") != "proof"]
    cov = {
        "obligations": sum(r.obl for r in rs),
        "discharged": sum(r.ok for r in rs),
        "checker_cmd": "goto-cc; goto-instrument --dfcc; cbmc (see units[].cmd)",
        "trusted_base": spec_trusted(prop),
        "functions_under_contract": sorted({f for r in rs for f in r.unit.get("functions", [])}),
        "units": [{
            "name": r.unit["name"], "kind": r.unit.get("kind", "proof"), "state": r.state,
            "bound": r.unit.get("bound"),
            "obligations": r.obl, "discharged": r.ok, "reachability_witnesses": getattr(r, "reach", 0),
            "back_end": backend(r.unit), "solver_s": round(r.solver_s, 2), "cmd": r.cmd,
            "contracts_enforced": r.unit.get("enforce", []), "functions": r.unit.get("functions", []),
            "note": r.reason[:500],
            "exploration": ({"runs": r.native[2], "outcome": r.native[1][:300]} if r.native else None),
        } for r in rs],
        "solver_s_total": round(sum(r.solver_s for r in rs), 2),
        "obligations_proof_units": sum(r.obl for r in proofs),
        "obligations_bounded_units": sum(r.obl for r in bounded),
    }
    level = prop.get("level", "proof")
    fell = [r for r in rs if r.state != "proved"]
    if fell or level == "other":
        cov["explanation"] = prop.get("explanation", "Contract obligations discharged by CBMC.") + (
            " On this run these units were not proved: " + ", ".join("%s (%s)" % (r.unit["name"], r.state) for r in fell) if fell else "")
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level if not fell else "other",
          "coverage": cov, "assumptions": prop.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": len(viol)}
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    if viol:
        d = os.path.join(VERIF, "evidence", "replay", pid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        viol.sort(key=lambda r: 0 if r.native and r.native[0] else 1)
        first = None
        for r in viol:
            f = os.path.join(d, r.unit["name"] + ".json")
            with open(f, "w") as h:
                json.dump({
                    "property": pid, "unit": r.unit["name"], "source": "units/" + r.unit["src"],
                    "obligation": r.main["property"], "description": r.main["description"],
                    "location": r.main.get("sourceLocation", {}),
                    "all_failed": [x["property"] + ": " + x["description"] for x in r.failed],
                    "counterexample_values": r.vals, "counterexample_variables": r.named,
                    "native_replay": {"confirmed": bool(r.native and r.native[0]), "output": r.native[1] if r.native else ""},
                    "verifier": {"cmd": r.cmd, "trace": r.text},
                    "how_to_replay": "VC_UNIT=%s python3 /verif/run.py %s" % (r.unit["name"], pid)}, h, indent=1)
            first = first or f
        r = viol[0]
        conf = r.native and r.native[0]
        print("obligation %s: %s" % (r.main["property"], r.main["description"]))
        if conf:
            print("confirmed on the real code: " + r.native[1].strip()[-600:])
        print("VIOLATION property=%s replay=%s%s" % (pid, first, "" if conf else " no-failing-input-found"))
        return 1
    if undecided:
        print("NO ANSWER: " + "; ".join("%s: %s" % (r.unit["name"], r.reason[:400]) for r in undecided))
        return 2
    print("property %s holds: %d obligations discharged in %d units, %.0f s" % (pid, cov["discharged"], len(rs), wall))
    return 0


def spec_trusted(prop):
    import spec
    return spec.TRUSTED + prop.get("trusted", [])


if __name__ == "__main__":
    main()
