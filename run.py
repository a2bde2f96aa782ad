#!/usr/bin/env python3
"""Runs one check: build the harness from /repo's working tree, explore every
section in its own process, confirm a finding by running it again, write
evidence/<id>.json.   usage: run.py ID [--tier quick|thorough] [--section S]
[--variant V] [--trace "ops"]   (the last three replay a finding)"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

JOBS = 8
INC = ["-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "include"),
       "-I" + os.path.join(REPO, "sources/include")]
BASE = ["-std=c++17", "-w"]
SAN = ("-fsanitize=address,shift,signed-integer-overflow,"
       "integer-divide-by-zero,bounds,unreachable,bool,enum,return,"
       "pointer-overflow")
VARIANTS = {
    # assertions of the library and of the standard library on, sanitizers
    "dbg": ["g++"] + BASE + ["-g1", "-O1", "-D_GLIBCXX_ASSERTIONS", SAN,
                             "-fno-sanitize-recover=all"],
    # as a user ships it
    "opt": ["g++"] + BASE + ["-O2", "-DNDEBUG"],
    # assertions, no sanitizer
    "plain": ["g++"] + BASE + ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "o3": ["g++"] + BASE + ["-O3", "-DNDEBUG"],
    "o0": ["g++"] + BASE + ["-O0", "-D_GLIBCXX_ASSERTIONS", "-ftemplate-depth=4096"],
    "clang0": ["clang++"] + BASE + ["-O0", "-fbracket-depth=8192",
                                    "-ftemplate-depth=4096",
                                    "-fconstexpr-steps=100000000"],
    "rt1": ["g++"] + BASE + ["-O1"],
    "rt2": ["g++"] + BASE + ["-O1"],
    "rtc": ["g++"] + BASE + ["-O1"],
    "clang": ["clang++"] + BASE + ["-O2", "-DNDEBUG"],
}


class Ctx:
    def __init__(self, cid, tier):
        self.id = cid
        self.tier = tier
        self.build = os.path.join(HERE, "build", cid)
        self.replays = os.path.join(HERE, "replays")
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build, exist_ok=True)
        os.makedirs(self.replays, exist_ok=True)
        self.inc = INC
        self.repo = REPO
        self.here = HERE
        self.jobs = JOBS

    def sh(self, cmd, timeout=600, **kw):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True,
                             errors="replace", start_new_session=True, **kw)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            return -999, "timeout"

    def compile(self, cmd):
        """0: built; otherwise (message) after a second attempt."""
        for attempt in (0, 1):
            rc, out = self.sh(cmd, timeout=700)
            if rc == 0:
                return None
        lines = [l for l in out.splitlines() if "error" in l][:8]
        return "\n".join(lines) or out[-2000:] or "compiler failed"


def build(ctx, check):
    jobs, pre = {}, []
    for v in check.get("variants", ["dbg", "opt"]):
        if isinstance(v, tuple):
            v, only = v
            if only == "thorough" and ctx.tier != "thorough":
                continue
        for h in check["harness"]:
            hflags = []
            if isinstance(h, tuple):  # (source, tag, flags): one shard
                src = os.path.join(HERE, "harness", h[0])
                hflags, h = list(h[2]), h[0].split(".")[0] + "-" + h[1]
            else:
                src = os.path.join(HERE, "harness", h)
            exe = os.path.join(ctx.build, h.split(".")[0] + "_" + v)
            objs = []
            for o in check.get("objects", {}).get(v, []):
                # (source, compiler command): compiled apart from the rest
                obj = exe + "_" + o[0].split(".")[0] + ".o"
                pre.append(o[1] + INC + ["-c", os.path.join(HERE, "harness", o[0]),
                                         "-o", obj])
                objs.append(obj)
            cmd = (VARIANTS[v] + check.get("flags", []) + hflags + INC + [src] + objs +
                   [os.path.join(HERE, "harness", x)
                    for x in check.get("sources", [])] + ["-o", exe] + check.get("libs", []))
            jobs[(h, v)] = (exe, cmd)
    errs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for c, f in [(c, ex.submit(ctx.compile, c)) for c in pre]:
            if f.result():
                errs[(c[-3], c[0])] = (f.result(), c)
    if errs:
        return {}, errs
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {k: ex.submit(ctx.compile, c) for k, (e, c) in jobs.items()}
        for k, f in futs.items():
            if f.result():
                errs[k] = (f.result(), jobs[k][1])
    return {k: e for k, (e, c) in jobs.items()}, errs


def run_section(ctx, exe, section, timeout, trace=None, tag=""):
    out = os.path.join(ctx.build, "%s.%s%s.json" %
                       (os.path.basename(exe), re.sub(r"\W", "_", section), tag))
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ)
    log = out + ".san"
    env["ASAN_OPTIONS"] = ("detect_leaks=0:handle_segv=0:handle_sigbus=0:"
                           "handle_sigfpe=0:handle_abort=0:abort_on_error=0:"
                           "allocator_may_return_null=1:"
                           "detect_stack_use_after_return=0:log_path=" + log)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:log_path=" + log
    cmd = [exe, "--section", section, "--prop", ctx.id, "--tier", ctx.tier,
           "--out", out]
    if trace:
        cmd += ["--trace", trace]
    t = time.time()
    rc, txt = ctx.sh(cmd, timeout=timeout, env=env, cwd=ctx.build)
    wall = time.time() - t
    try:
        res = json.load(open(out))
    except Exception:
        res = None
    san = ""
    for f in sorted(os.listdir(ctx.build)):
        if f.startswith(os.path.basename(log)):
            try:
                san += open(os.path.join(ctx.build, f), errors="replace").read()
            except OSError:
                pass
            os.unlink(os.path.join(ctx.build, f))
    return {"rc": rc, "res": res, "wall": wall, "san": san[:4000], "txt": txt[-2000:]}


def bad(r):
    """None when the section held, else a message."""
    if r["res"] is None:
        return "the exploration ended without an answer (exit %s) %s" % (
            r["rc"], r["txt"][-300:])
    if r["res"]["failed"]:
        m = r["res"]["msg"]
        s = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*)", r["san"])
        return m + (" -- " + s.group(1) if s else "")
    if r["rc"] != 0:
        return "exit status %s after the exploration" % r["rc"]
    return None


def known_findings(cid):
    """lines: finding: property=<id> match=<regular expression on the report>"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+)\s*(.*)", l)
            if m and m.group(1) == cid:
                out.append((m.group(2), m.group(3)))
    return out


def write_evidence(ctx, check, results, wall, violations):
    cov = {}
    counters, maxima, samples, notes, caps = {}, {}, [], [], []
    per = []
    for (h, v, s), r in sorted(results.items()):
        res = r["res"] or {}
        for k, n in res.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + n
        for k, n in res.get("maxima", {}).items():
            maxima[k] = max(maxima.get(k, 0), n)
        for x in res.get("samples", []):
            if x not in samples:
                samples.append(x)
        for x in res.get("notes", []):
            if x not in notes:
                notes.append(x)
        caps += ["%s: %s" % (v, c) for c in res.get("caps", [])]
        per.append({"build": v, "section": s, "wall_s": round(r["wall"], 2),
                    **res.get("counters", {})})
    level = check["level"]
    if level == "model_checking":
        cov["states"] = counters.pop("states", 0)
        cov["transitions"] = counters.pop("transitions", 0)
        cov["traces_validated_against_impl"] = counters.pop("traces", 0)
    else:
        cov["evaluations"] = counters.pop("evaluations", 0)
        cov["distinct_nontrivial"] = counters.pop("distinct_nontrivial", 0)
        cov["rule"] = check["rule"]
        counters.pop("traces", None)
    cov["samples"] = samples[:24] or ["(none)"]
    cov["exhaustive"] = not caps and not violations
    cov["bounds"] = check["bounds"]
    cov["caps_hit"] = caps
    cov["sections"] = per
    cov.update({k: n for k, n in counters.items() if k not in cov})
    cov.update({k: n for k, n in maxima.items() if k not in cov})
    if notes:
        cov["notes"] = notes
    cov["explanation"] = check.get("explanation", check["technique"])
    ev = {"property": ctx.id, "tier": ctx.tier,
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": level, "coverage": cov,
          "assumptions": check.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ctx.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def report(ctx, n, text, cmd):
    path = os.path.join(ctx.replays, "%s_%d.txt" % (ctx.id, n))
    with open(path, "w") as f:
        f.write("property %s\n%s\n\nreplay: %s\n" % (ctx.id, text, cmd))
    print(text[:1500])
    print("VIOLATION property=%s replay=%s" % (ctx.id, path))
    sys.stdout.flush()


def main():
    a = sys.argv[1:]
    cid = a[0]
    opt = {a[i][2:]: a[i + 1] for i in range(1, len(a) - 1, 1)
           if a[i].startswith("--")}
    tier = opt.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = CHECKS[cid]
    t0 = time.time()
    ctx = Ctx(cid, tier)
    results, viol = {}, []
    if "script" in check:
        spec = importlib.util.spec_from_file_location(
            "h", os.path.join(HERE, "harness", check["script"]))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        results, viol = mod.run(ctx, check)
    if "harness" in check:
        exes, errs = build(ctx, check)
        for (h, v), (msg, cmd) in errs.items():
            viol.append(("the library does not compile in harness %s (%s):\n%s"
                         % (h, v, msg), " ".join(cmd)))
        todo = []
        for (h, v), exe in exes.items():
            if (h, v) in errs:
                continue
            rc, out = ctx.sh([exe, "--list", "--tier", tier, "--prop", cid],
                             timeout=60)
            names = out.split()
            if rc != 0 or not names:
                rc, out = ctx.sh([exe, "--list", "--tier", tier, "--prop", cid],
                                 timeout=120)
                names = out.split()
            if rc != 0 or not names:
                viol.append(("the program ended before the exploration began "
                             "(%s, exit %s): %s" % (v, rc, out[-300:]),
                             exe + " --list"))
                continue
            for s in names:
                if opt.get("section") in (None, s) and opt.get("variant") in (None, v):
                    todo.append((h, v, s, exe))
        lim = 500 if tier == "quick" else 6 * 3600
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(run_section, ctx, exe, s, lim, opt.get("trace")):
                    (h, v, s, exe) for h, v, s, exe in todo}
            failing = None
            for f in cf.as_completed(futs):
                h, v, s, exe = futs[f]
                if f.cancelled():
                    continue
                r = f.result()
                results[(h, v, s)] = r
                if bad(r) and not failing:
                    failing = (h, v, s, exe)
                    for g in futs:
                        g.cancel()
        if failing:
            h, v, s, exe = failing
            first = results[(h, v, s)]
            again = None
            for k in range(3):  # replay before report
                r = run_section(ctx, exe, s, lim * 1.2, opt.get("trace"), "_re")
                if bad(r):
                    again = r
                    break
            if again is None:
                results[(h, v, s)] = r
                print("note: a finding in %s/%s did not reproduce: %s"
                      % (v, s, bad(first)))
            else:
                tr = (again["res"] or {}).get("trace", "")
                m = re.search(r"\[ops([ 0-9]*)\]", tr)
                rep = "cd %s && python3 run.py %s --tier %s --variant %s --section %s" % (
                    HERE, cid, tier, v, s)
                if m:
                    rep += " --trace '%s'" % m.group(1).strip()
                txt = "%s\nbuild: %s  section: %s\ncase: %s\n%s" % (
                    bad(again), v, s, tr, again["san"])
                viol.append((txt, rep))
    known = known_findings(cid)
    real = []
    for txt, rep in viol:
        k = next((d for rx, d in known if re.search(rx, txt)), None)
        if k is None:
            real.append((txt, rep))
    for rx, d in known:
        print("KNOWN-FINDING: property=%s %s" % (cid, d))
    for n, (txt, rep) in enumerate(real):
        report(ctx, n, txt, rep)
    write_evidence(ctx, check, results, time.time() - t0, len(real))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(ctx.build, ignore_errors=True)
    if real:
        return 1
    print("property %s held: %d sections, %.1f s" % (cid, len(results),
                                                     time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    sys.exit(rc)
