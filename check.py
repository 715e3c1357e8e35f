#!/usr/bin/env python3
"""Solver-based checks for harbol.

  check.py PID                 run every job of property PID for the tier in $VERIF_TIER
  check.py --replay FILE       re-run a stored counterexample against the real code
  check.py --list              list properties and jobs

A job is one CBMC query set: a harness function in harness/*.c plus the real
sources of $REPO (default /repo), encoded afresh on every run.  Jobs are declared
in the harness files:

  //@src array/array.c ...                     repo sources linked into every job of the file
  //@rt  file.c ...                            extra harness-side files (libc models)
  //@job C01 func=H_x unwind=8 [defs=A=1,B=2] [timeout=..] [tier=thorough] [opts=--a,--b]
"""
import fcntl, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, time
import concurrent.futures as cf
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
HARN = os.path.join(HERE, "harness")
EVID = os.environ.get("VP_EVIDENCE", os.path.join(HERE, "evidence"))
CBMC = shutil.which("cbmc") or "/usr/bin/cbmc"
NATIVE = ["-x", "c", "-std=gnu99", "-w", "-g"]
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-sanitize=alignment,vla-bound", "-fno-omit-frame-pointer"]
PLAIN = ["-O2"]
UNWIND_RETRY = (2, 5)
KNOWN = os.path.join(HERE, "known_findings.txt")


class Job:
    def __init__(self, pid, path, kv, srcs, rts):
        self.pid, self.path, self.srcs, self.rts = pid, path, srcs, rts
        self.func = kv["func"]
        self.unwind = int(kv.get("unwind", "8"))
        self.tier = kv.get("tier", "quick")
        self.timeout = int(kv.get("timeout", "240" if self.tier == "quick" else "2400"))
        self.mem = float(kv.get("mem", "5"))
        self.defs = [d for d in kv.get("defs", "").split(",") if d]
        self.opts = [d for d in kv.get("opts", "").split(",") if d]
        self.us = [u.rsplit(":", 1) for u in kv.get("us", "").split(",") if u]
        self.engine = kv.get("engine", "cbmc")
        self.steps = kv.get("steps", "20000000")
        self.noreach = kv.get("noreach") == "1"
        self.sat = kv.get("sat", "cadical")
        self.cost = int(kv.get("cost", "10"))
        self.replay_timeout = int(kv.get("rto", "20"))

    @property
    def name(self):
        s = self.func
        if self.defs:
            s += "[" + ",".join(self.defs) + "]"
        return s

    @property
    def slug(self):
        return re.sub(r"[^A-Za-z0-9_]+", "_", self.name).strip("_")


def load_jobs():
    jobs = []
    for f in sorted(glob.glob(os.path.join(HARN, "h_*.c"))):
        srcs, rts = [], []
        for line in open(f):
            m = re.match(r"\s*//@src\s+(.*)", line)
            if m:
                srcs = m.group(1).split()
            m = re.match(r"\s*//@rt\s+(.*)", line)
            if m:
                rts = m.group(1).split()
            m = re.match(r"\s*//@job\s+(\S+)\s+(.*)", line)
            if m:
                kv = dict(t.split("=", 1) for t in m.group(2).split())
                for pid in m.group(1).split(","):
                    jobs.append(Job(pid, f, kv, list(srcs), list(rts)))
    return jobs


def limits(mem_gb):
    def f():
        os.setsid()
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, mem=5, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=limits(mem), **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, b"", b""


def goto_build(job, out, extra=()):
    """compile the harness and the current repo sources to one goto binary"""
    objs = []
    tmp = os.path.dirname(out)
    base = os.path.join(tmp, "o_" + job.slug)
    common = ["-std=gnu99", "-DVP_CBMC", "-I", HARN, "-I", REPO] + ["-D" + d for d in job.defs] + list(extra)
    def one(src, wrap, n):
        o = "%s_%d.gb" % (base, n)
        cmd = ["goto-cc", "-c", src, "-o", o] + common
        if wrap:
            cmd += ["-include", os.path.join(HARN, "vp_wrap.h")]
        rc, so, se = run(cmd, 120)
        if rc != 0:
            raise BuildError("goto-cc %s: %s" % (src, (so + se).decode(errors="replace")[-1500:]))
        objs.append(o)
    one(job.path, True, 0)
    n = 1
    for s in job.srcs:
        one(os.path.join(REPO, s), True, n); n += 1
    for s in job.rts:
        one(os.path.join(HARN, s), False, n); n += 1
    one(os.path.join(HARN, "vp_rt.c"), False, n)
    rc, so, se = run(["goto-cc", "--function", job.func, "-o", out] + objs, 120)
    if rc != 0:
        raise BuildError("goto-cc link: %s" % (so + se).decode(errors="replace")[-1500:])
    for o in objs:
        os.unlink(o)


class BuildError(Exception):
    pass


def cbmc_cmd(job, gb, unwind, extra):
    us = []
    if job.us:
        k = unwind // job.unwind
        us = ["--unwindset", ",".join("%s:%d" % (n, int(b) * k) for n, b in job.us)]
    return [CBMC, gb] + us + ["--unwind", str(unwind), "--unwinding-assertions",
            "--no-malloc-may-fail", "--drop-unused-functions", "--object-bits", "10",
            "--verbosity", "8", "--sat-solver", job.sat] + job.opts + extra


def parse(out):
    """plain-text CBMC output -> per-property results and statistics"""
    r = {"results": None, "solver_s": 0.0, "vccs": 0, "vars": 0, "clauses": 0, "steps": 0, "errors": []}
    txt = out.decode(errors="replace")
    where = "?"
    started = False
    for t in txt.split("\n"):
        if t.startswith("** Results:"):
            started = True
            r["results"] = []
            continue
        if started:
            m = re.match(r"\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", t)
            if m:
                r["results"].append({"property": m.group(1), "description": m.group(3), "status": m.group(4),
                                     "where": "%s:%s" % (where, m.group(2) or "?")})
                continue
            m = re.match(r"(\S.*) function (\S+)$", t)
            if m:
                where = m.group(1)
        m = re.match(r"Runtime decision procedure: ([\d.e+-]+)s", t)
        if m:
            r["solver_s"] += float(m.group(1))
        m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if m:
            r["vccs"] = int(m.group(1)); r["remaining"] = int(m.group(2))
        m = re.match(r"(\d+) variables, (\d+) clauses", t)
        if m:
            r["vars"] = max(r["vars"], int(m.group(1))); r["clauses"] = max(r["clauses"], int(m.group(2)))
        m = re.match(r"size of program expression: (\d+) steps", t)
        if m:
            r["steps"] = int(m.group(1))
    if "VERIFICATION SUCCESSFUL" not in txt and "VERIFICATION FAILED" not in txt:
        r["results"] = None
        r["errors"].append(txt[-600:])
    return r


def trace_inputs(out):
    """values the counterexample gives to the harness inputs, in program order"""
    vals, init, seen = [], False, False
    for t in out.decode(errors="replace").split("\n"):
        if t.startswith("Trace for "):
            seen = True
            vals = []
        m = re.match(r"State \d+ .*function (\S+)", t)
        if m:
            init = m.group(1) == "__CPROVER_initialize"
        elif t.startswith("State "):
            init = True
        m = re.match(r"  vp_log=.*\(([01 ]+)\)\s*$", t)
        if m and seen and not init:
            vals.append(int(m.group(1).replace(" ", ""), 2))
    return vals if seen else None


def repo_functions(cov):
    fns = set()
    try:
        for cls in ET.parse(cov).iter("class"):
            fn = cls.get("filename", "")
            for m in cls.iter("method"):
                hit = any(int(l.get("hits", "0")) > 0 for l in m.iter("line"))
                if hit and (os.path.realpath(fn).startswith(os.path.realpath(REPO) + "/")):
                    fns.add(os.path.relpath(fn, REPO) + ":" + m.get("name"))
    except Exception:
        pass
    return fns


def native_build(job, tmp, flags, tag):
    exe = os.path.join(tmp, "n_%s_%s" % (job.slug, tag))
    objs = []
    common = NATIVE + flags + ["-I", HARN, "-I", REPO] + ["-D" + d for d in job.defs]
    units = [(job.path, True)] + [(os.path.join(REPO, s), True) for s in job.srcs] \
        + [(os.path.join(HARN, s), False) for s in job.rts] + [(os.path.join(HARN, "vp_rt.c"), False)]
    for i, (s, wrap) in enumerate(units):
        o = "%s_%d.o" % (exe, i)
        cmd = ["gcc", "-c", "-o", o] + common + ["-DVP_ENTRY=" + job.func]
        if wrap:
            cmd += ["-include", os.path.join(HARN, "vp_wrap.h")]
        rc, so, se = run(cmd + [s], 120, mem=1 << 10)
        if rc != 0:
            raise BuildError("gcc %s: %s" % (s, se.decode(errors="replace")[-1500:]))
        objs.append(o)
    rc, so, se = run(["gcc", "-o", exe] + flags + objs + ["-lm", "-ldl"], 120, mem=1 << 10)
    if rc != 0:
        raise BuildError("link: %s" % se.decode(errors="replace")[-1500:])
    return exe


def replay(job, exe, path):
    """-> (confirmed, text)"""
    env = dict(os.environ, ASAN_OPTIONS="allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")
    rc, so, se = run([exe, path], job.replay_timeout, mem=1 << 20, env=env, cwd=os.path.dirname(exe))
    txt = (se or b"").decode(errors="replace")
    if rc is None:
        return True, "no termination within %ds" % job.replay_timeout
    if rc == 99:
        m = re.search(r"VP-ASSERT .*", txt)
        return True, m.group(0) if m else "assertion"
    if rc == 77:
        return False, "infeasible in replay"
    if rc == 98 or "Sanitizer" in txt or "runtime error" in txt:
        m = re.search(r"(ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*)", txt)
        s = m.group(0) if m else "sanitizer report"
        fr = re.findall(r"#\d+ \S+ in (\w+)", txt)
        return True, s[:200] + (" in " + "<".join(fr[:4]) if fr else "")
    if rc < 0:
        return True, "killed by signal %d" % -rc
    if rc != 0:
        return True, "exit %d" % rc
    return False, "replay clean"


def known_list(pid):
    """known findings of pid: list of (job slug, substring)"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) job=(\S+) match=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


SX_SAN = "signed-integer-overflow,shift,integer-divide-by-zero,bounds"
SX_PASSES = "function(sroa,early-cse,simplifycfg)"
LLVM = "/usr/lib/llvm-18"


def sx_binary():
    """build the path-wise engine when its binary is missing or older than its source"""
    src = os.path.join(HERE, "engine", "sx.cpp")
    exe = os.path.join(HERE, "build", "sx")
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    with open(os.path.join(HERE, "build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
            new = exe + ".new"
            rc, so, se = run(["g++", "-O2", "-march=x86-64-v2", "-std=c++17", "-w", "-I" + LLVM + "/include", src, "-o", new,
                              "-L" + LLVM + "/lib", "-lLLVM-18", "-lz3"], 300, mem=8)
            if rc != 0:
                raise BuildError("engine: %s" % se.decode(errors="replace")[-1500:])
            os.replace(new, exe)
    return exe


def sx_build(job, out):
    """compile the harness and the current repo sources to one LLVM bitcode file"""
    base = os.path.join(os.path.dirname(out), "b_" + job.slug)
    common = ["-std=gnu99", "-w", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-emit-llvm", "-c", "-DVP_SX",
              "-fsanitize=" + SX_SAN, "-fsanitize-trap=all",
              "-I", HARN, "-I", REPO] + ["-D" + d for d in job.defs]
    objs = []
    todo = [(job.path, True)] + [(os.path.join(REPO, s), True) for s in job.srcs]
    todo += [(os.path.join(HARN, s), False) for s in job.rts if s != "vp_libc.c"]
    todo += [(os.path.join(HARN, "vp_rt.c"), False), (os.path.join(HARN, "vp_sxlibc.c"), False)]
    for n, (src, wrap) in enumerate(todo):
        o = "%s_%d.bc" % (base, n)
        rc, so, se = run(["clang", src, "-o", o] + common + (["-include", os.path.join(HARN, "vp_wrap.h")] if wrap else []), 120)
        if rc != 0:
            raise BuildError("clang %s: %s" % (src, se.decode(errors="replace")[-1500:]))
        objs.append(o)
    for cmd in ([LLVM + "/bin/llvm-link", "-o", out + ".0"] + objs, [LLVM + "/bin/opt", "-passes=" + SX_PASSES, out + ".0", "-o", out]):
        rc, so, se = run(cmd, 120)
        if rc != 0:
            raise BuildError("%s: %s" % (cmd[0], se.decode(errors="replace")[-1500:]))
    for o in objs + [out + ".0"]:
        os.unlink(o)


def sx_job(job, tmp, deadline, res):
    exe = sx_binary()
    bc = os.path.join(tmp, job.slug + ".bc")
    sx_build(job, bc)
    left = min(job.timeout, deadline - time.time())
    if left < 5:
        res["status"], res["detail"] = "timeout", "out of time"
        return
    rc, out, err = run([exe, bc, job.func, str(left), job.steps], left + 90, job.mem)
    os.unlink(bc)
    try:
        r = json.loads(out.decode(errors="replace"))
    except ValueError:
        res["status"] = "timeout" if rc is None else "error"
        res["detail"] = "sx rc=%s %s" % (rc, (err or b"")[-300:].decode(errors="replace"))
        return
    res["solver_s"], res["reach"] = r["solver_s"], len(r["reach_hit"])
    res["obligations"] = res["discharged"] = r["asserts"]
    res["functions"] = [f for f in r["functions"] if not f.startswith(("vp_", "H_"))]
    res["paths"], res["queries"], res["instructions"] = r["paths"], r["queries"], r["instr"]
    repo_fns = None
    notes, seen, exes = [], set(), {}
    for i, e in enumerate(r["errors"]):
        key = tuple(e["inputs"])
        if key in seen:
            continue
        seen.add(key)
        inp = os.path.join(tmp, "%s-%d.in" % (job.slug, i))
        body = "".join(v + "\n" for v in e["inputs"])
        open(inp, "w").write(body)
        ok, why = False, ""
        for tag, flags in (("san", SAN), ("plain", PLAIN)):
            if tag not in exes:
                exes[tag] = native_build(job, tmp, flags, tag)
            ok, why = replay(job, exes[tag], inp)
            if ok:
                break
        if ok:
            rd = os.path.join(HERE, "replay", job.pid)
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%d.txt" % (job.slug, i))
            with open(rp, "w") as f:
                f.write("# property=%s job=%s file=%s func=%s\n# sx: %s: %s at %s\n# replay: %s\n" % (
                    job.pid, job.name, os.path.basename(job.path), job.func, e["kind"], e["msg"], e["loc"], why))
                f.write(body)
            res["violations"].append({"cbmc": e["kind"], "desc": e["msg"], "replay": rp, "why": why, "line": e["loc"]})
            res["status"] = "violation"
        else:
            notes.append("%s: %s at %s: %s" % (e["kind"], e["msg"], e["loc"], why))
    if res["violations"]:
        return
    if notes:
        res["status"], res["detail"] = "unconfirmed", "; ".join(notes)[:1500]
    elif r["status"] != "ok":
        res["status"] = "timeout" if r["status"] == "timeout" else "error"
        res["detail"] = "sx: %s %s after %d paths, %d pending" % (r["status"], r["detail"], r["paths"], r["pending"])
    else:
        miss = sorted(set(r["reach_all"]) - set(r["reach_hit"]))
        if miss and not job.noreach:
            res["status"], res["detail"] = "vacuous", "witness not reached: " + "; ".join(miss)
        elif not r["reach_hit"] and not job.noreach:
            res["status"], res["detail"] = "vacuous", "no witness"
        else:
            res["status"] = "ok"


def do_job(job, tmp, deadline):
    t0 = time.time()
    res = {"job": job.name, "file": os.path.basename(job.path), "func": job.func, "defs": job.defs,
           "status": "error", "detail": "", "unwind": job.unwind, "obligations": 0, "discharged": 0,
           "reach": 0, "solver_s": 0.0, "vars": 0, "clauses": 0, "functions": [], "violations": [], "paths": 0, "queries": 0, "instructions": 0}
    gb = os.path.join(tmp, job.slug + ".gb")
    cov = os.path.join(tmp, job.slug + ".cov")
    if job.engine == "sx":
        try:
            sx_job(job, tmp, deadline, res)
        except BuildError as e:
            res["status"], res["detail"] = "build", str(e)
        res["wall_s"] = round(time.time() - t0, 2)
        return res
    try:
        goto_build(job, gb)
        unwind = job.unwind
        tries = [unwind] + [unwind * k for k in UNWIND_RETRY]
        for n, unwind in enumerate(tries):
            left = min(job.timeout, deadline - time.time())
            if left < 5:
                res["detail"] = res["detail"] or "out of time"
                res["status"] = "timeout" if res["status"] == "error" else res["status"]
                break
            rc, out, err = run(cbmc_cmd(job, gb, unwind, ["--slice-formula", "--symex-coverage-report", cov]), left, job.mem)
            if rc is None:
                res["status"], res["detail"] = "timeout", "solver budget %ds, unwind %d" % (left, unwind)
                break
            r = parse(out)
            if r is None or r["results"] is None:
                res["status"] = "error"
                res["detail"] = "cbmc rc=%s %s" % (rc, (r["errors"] if r else (out[-300:] + err[-300:]).decode(errors="replace")))
                break
            res["solver_s"] += r["solver_s"]
            res["unwind"] = unwind
            for k in ("vars", "clauses", "vccs", "steps"):
                res[k] = r[k]
            props = r["results"]
            reach = [p for p in props if p["description"].startswith("REACH ")]
            obl = [p for p in props if not p["description"].startswith("REACH ")]
            res["reach"] = sum(p["status"] == "FAILURE" for p in reach)
            res["obligations"] = len(obl)
            res["discharged"] = sum(p["status"] == "SUCCESS" for p in obl)
            res["functions"] = sorted(repo_functions(cov))
            bad = [p for p in obl if p["status"] == "FAILURE"]
            unw = [p for p in bad if ".unwind." in p["property"] or "recursion" in p["property"]]
            other = [p for p in bad if p not in unw]
            unreached = [p for p in reach if p["status"] != "FAILURE"]
            if not bad:
                if unreached and not job.noreach and n + 1 == len(tries):
                    pass
                if unreached:
                    res["status"] = "vacuous"
                    res["detail"] = "witness not reached: " + "; ".join(p["description"] for p in unreached)
                elif not reach and not job.noreach:
                    res["status"], res["detail"] = "vacuous", "no witness"
                else:
                    res["status"] = "ok"
                break
            # counterexamples: own assertions first, then memory/UB, unwinding last
            other.sort(key=lambda p: 0 if p["description"].startswith("VP ") else 1)
            cands = other[:12] if other else unw[:2]
            exe = exe2 = None
            confirmed = False
            notes = []
            seen = set()
            for i, p in enumerate(cands):
                left = min(job.timeout, deadline - time.time())
                if left < 5:
                    notes.append("out of time"); break
                rc, out, err = run(cbmc_cmd(job, gb, unwind, ["--trace", "--property", p["property"]]), left, job.mem)
                vals = trace_inputs(out) if rc is not None and out else None
                if vals is None:
                    notes.append("no trace for " + p["property"]); continue
                key = tuple(vals)
                if key in seen:
                    continue
                seen.add(key)
                rd = os.path.join(HERE, "replay", job.pid)
                os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, "%s-%d.txt" % (job.slug, i))
                if exe is None:
                    exe = native_build(job, tmp, SAN, "san")
                body = "".join("%d\n" % v for v in vals)
                inp = os.path.join(tmp, "%s-%d.in" % (job.slug, i))
                open(inp, "w").write(body)
                ok, why = replay(job, exe, inp)
                if not ok:
                    if exe2 is None:
                        exe2 = native_build(job, tmp, PLAIN, "plain")
                    ok, why2 = replay(job, exe2, inp)
                    why = why2 if ok else why
                if ok:
                    with open(rp, "w") as f:
                        f.write("# property=%s job=%s file=%s func=%s\n# cbmc: %s: %s\n# replay: %s\n" % (
                            job.pid, job.name, os.path.basename(job.path), job.func, p["property"], p["description"], why))
                        f.write(body)
                    res["violations"].append({"cbmc": p["property"], "desc": p["description"], "replay": rp, "why": why,
                                              "line": p["where"]})
                    confirmed = True
                    break
                notes.append("%s (%s): %s" % (p["property"], p["description"], why))
            if confirmed:
                res["status"] = "violation"
                break
            if other:
                res["status"], res["detail"] = "unconfirmed", "; ".join(notes)[:1500]
                break
            # only unwinding assertions failed and the run terminates natively: bound too small, retry larger
            res["status"], res["detail"] = "unwind", "bound %d too small: %s" % (unwind, "; ".join(notes)[:600])
    except BuildError as e:
        res["status"], res["detail"] = "build", str(e)
    res["wall_s"] = round(time.time() - t0, 2)
    for f in (gb, cov):
        if os.path.exists(f):
            os.unlink(f)
    return res


EXPLAIN = {
    "cbmc": "CBMC bounded model checking of the real sources: each job symbolically executes a harness plus the current "
            "repo sources; all inputs are symbolic; every obligation (property assertions, memory safety, arithmetic UB, "
            "unwinding assertions) is decided by the SAT/SMT back end for every value within the bounds in the job's "
            "defines and unwind; witnesses are reachability assertions the solver had to violate (non-vacuity).",
    "sx": "Path-wise symbolic execution of the LLVM IR of the harness and the current repo sources (engine/sx.cpp): inputs are "
          "symbolic bit-vectors, Z3 decides which sides of each branch, which addresses of each access and which verdicts of each "
          "assertion are possible, and every feasible path within the bounds in the job's defines is followed to its end; witnesses "
          "are program points some feasible path had to reach.",
}
CMD = {"cbmc": "cbmc --unwind N --unwinding-assertions --no-malloc-may-fail --slice-formula --object-bits 10 (6.11.0)",
       "sx": "build/sx FILE.bc ENTRY SECONDS (Z3 4.8.12, LLVM 18)"}


def main(argv):
    jobs = load_jobs()
    if argv and argv[0] == "--list":
        for j in jobs:
            print(j.pid, j.tier, os.path.basename(j.path), j.name, "unwind=%d" % j.unwind)
        return 0
    if argv and argv[0] == "--replay":
        head = open(argv[1]).readline()
        m = re.match(r"# property=(\S+) job=(\S+) file=(\S+) func=(\S+)", head)
        job = [j for j in jobs if j.pid == m.group(1) and j.name == m.group(2) and os.path.basename(j.path) == m.group(3)][0]
        tmp = tempfile.mkdtemp(prefix="vp_")
        try:
            inp = os.path.join(tmp, "in")
            open(inp, "w").write("".join(l for l in open(argv[1]) if not l.startswith("#")))
            ok, why = replay(job, native_build(job, tmp, SAN, "san"), inp)
            if not ok:
                ok, why = replay(job, native_build(job, tmp, PLAIN, "plain"), inp)
            print(("REPRODUCED " if ok else "NOT REPRODUCED ") + why)
            return 1 if ok else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mine = [j for j in jobs if j.pid == pid and (j.tier == "quick" or tier == "thorough")]
    if only:
        mine = [j for j in mine if only in j.name]
    mine.sort(key=lambda j: -j.cost)
    if not mine:
        print("no jobs for", pid)
        return 2
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    tmp = tempfile.mkdtemp(prefix="vp_")
    try:
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "8"))) as ex:
            def run(j):
                r = do_job(j, tmp, deadline)
                if r["status"] == "violation" and os.environ.get("VP_FIRST"):  # gen/mutate.py: the first alarm settles it
                    print("%s: %s\nVIOLATION property=%s" % (j.name, r["violations"][0]["desc"], pid), flush=True)
                    subprocess.run(["pkill", "-KILL", "-P", str(os.getpid())])
                    os._exit(1)
                return r
            results = list(ex.map(run, mine))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    known = known_list(pid)
    viol, inconc, kf = [], [], []
    for j, r in zip(mine, results):
        if r["status"] == "violation":
            for v in r["violations"]:
                hit = [k for k in known if k[0] == j.slug and k[1] in v["desc"]]
                (kf if hit else viol).append((j, r, v, hit))
        elif r["status"] != "ok":
            inconc.append((j, r))
        print("%-11s %-44s %6.1fs solver %6.1fs  %d/%d discharged, %d witnesses, %s%s" % (
            r["status"], r["job"][:44], r.get("wall_s", 0), r["solver_s"], r["discharged"], r["obligations"],
            r["reach"], "%d paths" % r["paths"] if j.engine == "sx" else "unwind %d" % r["unwind"], "  " + r["detail"] if r["detail"] else ""))
    fns = sorted(set(f for r in results for f in r["functions"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": " ".join(EXPLAIN[e] for e in sorted(set(j.engine for j in mine))),
            "jobs": len(results),
            "jobs_decided_holds": sum(r["status"] == "ok" for r in results),
            "obligations": sum(r["obligations"] for r in results),
            "discharged": sum(r["discharged"] for r in results),
            "witnesses_reached": sum(r["reach"] for r in results),
            "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "sat_variables": sum(r["vars"] for r in results),
            "sat_clauses": sum(r["clauses"] for r in results),
            "paths": sum(r["paths"] for r in results),
            "branch_and_access_queries": sum(r["queries"] for r in results),
            "ir_instructions": sum(r["instructions"] for r in results),
            "functions_encoded": fns,
            "bounds": [{"job": r["job"], "unwind": r["unwind"], "defs": r["defs"], "status": r["status"],
                        "obligations": r["obligations"], "solver_s": round(r["solver_s"], 2), "wall_s": r.get("wall_s")} for r in results],
            "checker_cmd": "; ".join(CMD[e] for e in sorted(set(j.engine for j in mine))),
        },
        "assumptions": ["allocation requests above 1 MiB are refused; smaller ones succeed unless the job lets them fail",
                        "libc string/memory functions behave as CBMC's library models (or harness/*.c models) say",
                        "x86_64, gcc-compatible layout"],
        "violations": len(viol), "wall_s": round(wall, 2),
    }
    os.makedirs(EVID, exist_ok=True)
    if not only:
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for j, r, v, hit in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2]))
    for j, r, v, hit in viol:
        print("  %s: %s at %s; replay: %s" % (j.name, v["desc"], v["line"], v["why"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if viol:
        return 1
    if inconc:
        for j, r in inconc:
            print("INCONCLUSIVE %s %s: %s" % (j.name, r["status"], r["detail"]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
