#!/usr/bin/env python3
"""Driver of the property checks.

  check.py setup                       prepare the build folder, try the toolchain
  check.py run ID [--tier T] [--seed N]  decide one property against /repo's working tree
  check.py replay FILE                 replay a saved counterexample
  check.py list                        list properties, parts and case counts

Exit codes of run: 0 held, 1 violated (VIOLATION line), 2 error of the check.
"""
import traceback, argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
VENV = "/opt/dune/venv"
NPROC = 8
sys.path.insert(0, VERIF)
from checks_config import CHECKS          # noqa: E402

class CheckError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- building

def library_sources():
    """Sources of the library target as named by the repository's CMake files."""
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "dune")):
        dirs[:] = sorted(d for d in dirs if d not in ("test", "python"))
        if "CMakeLists.txt" in files:
            text = re.sub(r"#[^\n]*", "", open(os.path.join(root, "CMakeLists.txt")).read())
            for m in re.finditer(r"(?:target_sources|dune_add_library|dune_library_add_sources|add_library)\s*\(([^)]*)\)", text):
                for tok in m.group(1).replace('"', " ").split():
                    if tok.endswith((".cc", ".cpp", ".cxx", ".c")):
                        p = os.path.normpath(os.path.join(root, tok.replace("${CMAKE_CURRENT_SOURCE_DIR}/", "")))
                        if os.path.exists(p) and p not in out:
                            out.append(p)
    top = os.path.join(REPO, "CMakeLists.txt")
    if os.path.exists(top):
        text = re.sub(r"#[^\n]*", "", open(top).read())
        for m in re.finditer(r"(?:target_sources|dune_add_library|dune_library_add_sources)\s*\(([^)]*)\)", text):
            for tok in m.group(1).replace('"', " ").split():
                if tok.endswith(".cc"):
                    p = os.path.join(REPO, tok)
                    if os.path.exists(p) and p not in out:
                        out.append(p)
    if not out:
        out = [os.path.join(REPO, "dune/geometry/referenceelementimplementation.cc"),
               os.path.join(REPO, "dune/geometry/quadraturerules/quadraturerules.cc")]
    return out

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, "dune"), os.path.join(REPO, "python"), HARNESS):
            for root, dirs, files in os.walk(base):
                dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "test"))
                for f in sorted(files):
                    p = os.path.join(root, f)
                    if f.endswith((".hh", ".cc", ".h", ".c", ".txt", ".py", ".inc", ".hpp", ".cpp", ".cxx")) and os.path.isfile(p):
                        h.update(os.path.relpath(p, base).encode() + b"\0")
                        h.update(open(p, "rb").read())
        _tree = h.hexdigest()[:16]
    return _tree

MODES = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "plain": ["-O2", "-g1"],
    "python": ["-O1", "-g1", "-fPIC", "-fvisibility=hidden", "-DDUNE_ENABLE_PYTHONMODULE_PRECOMPILE", "-I/usr/include/python3.12",
               "-isystem", VENV + "/include/dune/python"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}

held = []

def hold(d):
    """Create a directory of a build tree and mark the tree as in use until this process ends."""
    tree = os.path.dirname(d)
    while True:
        os.makedirs(d, exist_ok=True)
        try:
            f = open(os.path.join(tree, "in-use"), "a")
            fcntl.flock(f, fcntl.LOCK_SH)
            os.utime(tree)
            if os.path.isdir(d) and os.path.samestat(os.stat(f.name), os.fstat(f.fileno())):
                held.append(f)
                return
        except FileNotFoundError:
            pass  # removed by another run in between

def prune():
    """Keep the newest few build trees and those in use."""
    d = os.path.join(BUILD, "trees")
    ents = sorted((os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d))
    for _, e in ents[:-8]:
        try:
            with open(os.path.join(d, e, "in-use"), "a") as f:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                shutil.rmtree(os.path.join(d, e), ignore_errors=True)
        except OSError:
            pass

def flags(mode):
    return ["-std=gnu++20", "-w", "-D_GLIBCXX_ASSERTIONS", "-DHAVE_CONFIG_H"] + MODES[mode] + \
           ["-I" + HARNESS, "-I" + REPO, "-isystem", VENV + "/include"]

def compile_unit(src, defs, mode, out):
    if os.path.exists(out):
        return
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["g++"] + flags(mode) + ["-D" + d for d in defs] + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if "error" in l][:12]
        raise CheckError("compilation of %s failed:\n%s" % (src, "\n".join(errs) or r.stdout[-2000:]))
    os.replace(tmp, out)

def build_python():
    """Build the Python extension modules and the package of the tree under test."""
    d = os.path.join(BUILD, "trees", tree_hash(), "python")
    hold(d)
    prune()
    exe = os.path.join(d, "run")
    if os.path.exists(exe):
        return exe
    src = os.path.join(REPO, "python/dune/geometry")
    units = [(s, [], os.path.join(d, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")) for s in library_sources()]
    nlib = len(units)
    units += [(os.path.join(src, "registerrefelem.cc"), ["DIM=%d" % k], os.path.join(d, "refelem%d.o" % k)) for k in range(5)]
    units += [(os.path.join(src, "_geometry.cc"), [], os.path.join(d, "_geometry.o")), (os.path.join(HARNESS, "vtruth.cc"), [], os.path.join(d, "vtruth.o"))]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for fu in [ex.submit(compile_unit, s, df, "python", o) for s, df, o in reversed(units)]:
            fu.result()
    pkg = os.path.join(d, "pkg")
    shutil.rmtree(pkg, ignore_errors=True)
    os.makedirs(os.path.join(pkg, "geometry"))
    for f in sorted(os.listdir(src)):
        if f.endswith(".py"):
            shutil.copy(os.path.join(src, f), os.path.join(pkg, "geometry", f))
    lib = [o for _, _, o in units[:nlib]]
    for out, objs in ((os.path.join(pkg, "geometry", "_geometry.so"), [o for _, _, o in units[nlib:-1]]), (os.path.join(pkg, "vtruth.so"), [units[-1][2]])):
        r = subprocess.run(["g++", "-shared"] + objs + lib + [VENV + "/lib/libdunecommon.a", "-lopenblas", "-ltbb", "-lpthread", "-o", out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("linking %s failed:\n%s" % (out, r.stdout[-3000:]))
    tmp = exe + ".%d.tmp" % os.getpid()
    open(tmp, "w").write("#!/bin/bash\nexec %s/bin/python -B '%s/pyrun.py' '%s' \"$@\"\n" % (VENV, HARNESS, pkg))
    os.chmod(tmp, 0o755)
    os.replace(tmp, exe)
    return exe

def build(pid):
    cfg = CHECKS[pid]
    if cfg.get("mode") == "python":
        return build_python()
    mode = cfg.get("mode", "asan")
    d = os.path.join(BUILD, "trees", tree_hash(), mode)
    hold(d)
    prune()
    exe = os.path.join(d, pid)
    if os.path.exists(exe):
        return exe
    units = [(os.path.join(HARNESS, "main.cc"), [], os.path.join(d, "main.o"))]
    for s in library_sources():
        units.append((s, [], os.path.join(d, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")))
    for f, defs in cfg["units"]:
        tag = "_".join(x.replace("=", "") for x in defs)
        units.append((os.path.join(HARNESS, f), list(defs), os.path.join(d, f.replace(".cc", "") + "_" + tag + ".o")))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for fu in [ex.submit(compile_unit, s, df, mode, o) for s, df, o in reversed(units)]:
            fu.result()
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd = ["g++"] + MODES[mode] + [o for _, _, o in units] + [VENV + "/lib/libdunecommon.a", "-lopenblas", "-ltbb", "-lquadmath", "-lpthread", "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("linking %s failed:\n%s" % (pid, r.stdout[-3000:]))
    if mode == "tsan":
        # the thread sanitizer needs its address ranges free: no randomisation where that can be switched off
        os.replace(tmp, exe + ".bin")
        open(tmp, "w").write("#!/bin/bash\nif setarch -R true 2>/dev/null; then exec setarch -R '%s.bin' \"$@\"; fi\nexec '%s.bin' \"$@\"\n" % (exe, exe))
        os.chmod(tmp, 0o755)
    os.replace(tmp, exe)
    return exe

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    return e

# ---------------------------------------------------------------- known findings

def known_patterns(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+match="([^"]*)"\s*(.*)', line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

# ---------------------------------------------------------------- running

class StartupCrash(Exception):
    """The program ends before main: the library fails while it is loaded."""

def parts_of(exe, pid):
    for attempt in range(3):
        r = subprocess.run([exe, "list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env(), timeout=120)
        if r.returncode == 0:
            break
    else:
        raise StartupCrash(summarize_crash(r.returncode, r.stderr))
    return [tuple(l.split("\t")[1:3]) for l in r.stdout.splitlines() if l.split("\t")[0] == pid]

def cases_for(cfg, tier, part):
    n = cfg[tier]
    if isinstance(n, dict):
        for k in sorted(n, key=len, reverse=True):
            if part.startswith(k):
                return n[k]
        return n.get("", 0)
    return n

def journal_choices(path):
    try:
        b = open(path, "rb").read()
        idx, ln = struct.unpack_from("<QQ", b, 0)
        ln = min(ln, 1 << 16)
        return idx, list(struct.unpack_from("<%dQ" % ln, b, 16))
    except Exception:
        return None, None

def replay_once(exe, pid, part, tier, seqfile, cpu):
    try:
        r = subprocess.run([exe, "replay", "--prop", pid, "--part", part, "--tier", tier, "--file", seqfile, "--cpu", str(cpu)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), timeout=30 * cpu)
        out = r.stdout.decode("utf-8", "replace")
        rc = r.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = "TIMEOUT", -1
    return rc, out

def summarize_crash(rc, out):
    lines = [l.strip() for l in out.splitlines() if re.search(r"runtime error|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|Assertion|SUMMARY|terminate called|what\(\)", l)]
    if rc == -signal.SIGPROF or rc == -signal.SIGALRM:
        lines.append("the case did not terminate within its time limit")
    return "abnormal end (exit %s): %s" % (rc, " | ".join(lines[:4])[:900])

def run(pid, tier, seed):
    cfg = CHECKS[pid]
    t0 = time.time()
    exe = build(pid)
    t_build = time.time() - t0
    cpu = cfg.get("cpu", 60)
    work = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    known = known_patterns(pid)
    known_file = os.path.join(work, "known")
    open(known_file, "w").write("".join(k + "\n" for k, _ in known))
    nw = cfg.get("workers", 8)
    tasks = []
    try:
        parts = parts_of(exe, pid)
    except StartupCrash as e:
        violation = save_replay(pid, {"property": pid, "part": "startup", "tier": tier, "kind": "startup", "seed": seed,
                                      "message": "loading the library fails: " + str(e)[:4000], "input": "no input"})
        write_evidence(pid, tier, seed, cfg, [], [], known, violation, time.time() - t0, t_build, 0)
        shutil.rmtree(work, ignore_errors=True)
        return report(pid, violation)
    if not parts:
        raise CheckError("no parts registered for " + pid)
    for part, rule in parts:
        n = cases_for(cfg, tier, part)
        for w in range(min(nw, max(1, n))):
            if n:
                tasks.append((part, rule, n, w, min(nw, n)))
    results, failures = [], []
    stop = []

    def do(task):
        part, rule, n, w, k = task
        if stop:
            return None
        base = os.path.join(work, "%s-%d" % (part, w))
        cmd = [exe, "run", "--prop", pid, "--part", part, "--tier", tier, "--seed", str(seed), "--worker", str(w), "--nworkers", str(k),
               "--cases", str(n), "--journal", base + ".journal", "--out", base + ".json", "--fail", base + ".fail", "--cpu", str(cpu), "--known", known_file]
        with open(base + ".log", "wb") as lf:
            r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env())
        res = None
        if os.path.exists(base + ".json"):
            try:
                res = json.load(open(base + ".json"))
            except ValueError:
                res = None
        if r.returncode == 2 and res is None:
            raise CheckError("runner error: " + open(base + ".log").read()[-500:])
        if r.returncode != 0:
            stop.append(1)
            if r.returncode == 10 and res:
                seq = [int(x) for x in open(base + ".fail").read().split()]
                return ("fail", task, seq, res["message"], res["description"], res)
            out = open(base + ".log", "rb").read().decode("utf-8", "replace")
            idx, seq = journal_choices(base + ".journal")
            return ("crash", task, seq or [], summarize_crash(r.returncode, out), "", None)
        return ("ok", task, None, None, None, res)

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(do, tasks):
            if r is None:
                continue
            if r[0] != "ok":
                failures.append(r)
            if r[5]:
                results.append((r[1], r[5]))
    t_run = time.time() - t0 - t_build

    violation = None
    if failures:
        violation = confirm(exe, pid, tier, seed, cpu, work, failures, cmd_info=(nw, known_file))
    write_evidence(pid, tier, seed, cfg, parts, results, known, violation, time.time() - t0, t_build, t_run)
    for k, what in known:
        hits = sum(r.get("known", {}).get(k, 0) for _, r in results)
        if hits:
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, what, hits))
    shutil.rmtree(work, ignore_errors=True)
    if violation:
        return report(pid, violation)
    ev = sum(r["evaluations"] for _, r in results)
    print("property %s held: %d cases, %.1f s build, %.1f s run" % (pid, ev, t_build, t_run))
    return 0

def report(pid, violation):
    print("property %s: %s" % (pid, violation["message"]))
    print("input: %s" % violation["input"])
    print("VIOLATION property=%s replay=%s" % (pid, violation["path"]))
    return 1

def confirm(exe, pid, tier, seed, cpu, work, failures, cmd_info):
    """Shrink the first failure, replay it three times, save it."""
    last = None
    for kind, task, seq, msg, desc, _ in failures:
        part, rule, n, w, k = task
        raw = os.path.join(work, "raw.seq")
        best = os.path.join(work, "best.seq")
        open(raw, "w").write("".join("%d\n" % x for x in seq))
        shutil.copy(raw, best)
        try:
            subprocess.run([exe, "shrink", "--prop", pid, "--part", part, "--tier", tier, "--file", raw, "--out", best + ".new", "--cpu", str(cpu), "--budget", "500", "--seconds", "100"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), timeout=300)
            if os.path.exists(best + ".new"):
                shutil.move(best + ".new", best)
        except subprocess.TimeoutExpired:
            pass
        for cand in (best, raw):
            rcs = [replay_once(exe, pid, part, tier, cand, cpu) for _ in range(3)]
            if all(rc != 0 for rc, _ in rcs):
                rc, out = rcs[0]
                m = re.search(r"^FAIL: (.*)$", out, re.M | re.S)
                message = m.group(1).strip() if m else summarize_crash(rc, out)
                i = re.search(r"^input: (.*)$", out, re.M)
                choices = [int(x) for x in open(cand).read().split()]
                return save_replay(pid, {"property": pid, "part": part, "tier": tier, "kind": "choices", "choices": choices,
                                         "message": message[:4000], "input": (i.group(1) if i else desc)[:4000], "seed": seed})
        # depends on earlier cases of the same process: reproduce the whole worker run
        base = os.path.join(work, "again")
        again = []
        for _ in range(2):
            for f in (base + ".json", base + ".fail"):
                if os.path.exists(f):
                    os.remove(f)
            r = subprocess.run([exe, "run", "--prop", pid, "--part", part, "--tier", tier, "--seed", str(seed), "--worker", str(w), "--nworkers", str(k),
                                "--cases", str(n), "--journal", base + ".journal", "--out", base + ".json", "--fail", base + ".fail", "--cpu", str(cpu), "--known", cmd_info[1]],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
            again.append(r.returncode)
        if all(rc != 0 for rc in again):
            return save_replay(pid, {"property": pid, "part": part, "tier": tier, "kind": "run", "seed": seed, "worker": w, "nworkers": k, "cases": n,
                                     "message": msg[:4000], "input": "sequence of cases of one process; last: " + desc[:3000]})
        last = (part, msg, again)
    raise CheckError("a failure was seen but could not be reproduced: %s" % (last,))

def save_replay(pid, obj):
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s-%s.json" % (pid, obj["part"], h))
    json.dump(obj, open(p, "w"), indent=1)
    obj = dict(obj)
    obj["path"] = p
    return obj

def write_evidence(pid, tier, seed, cfg, parts, results, known, violation, wall, t_build, t_run):
    evals = sum(r["evaluations"] for _, r in results)
    distinct = set()
    classes, perpart, samples = {}, {}, []
    for (part, rule, *_), r in results:
        for h in r["distinct"]:
            distinct.add((part, h))
        pp = perpart.setdefault(part, {"evaluations": 0, "nontrivial": 0, "comparisons": 0, "rule": rule})
        for k in ("evaluations", "nontrivial", "comparisons"):
            pp[k] += r[k]
        for k, v in r["classes"].items():
            key = part + ": " + k
            classes[key] = classes.get(key, 0) + v
        if sum(s.startswith(part + " ") for s in samples) < 3:
            samples += [part + " " + s for s in r["samples"][:1]]
    rule = "; ".join(sorted({"%s: %s" % (re.sub(r"_(double|float|longdouble)$", "", p), r) for p, r in parts}))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": "distinct inputs (fingerprint of the generated input) among those that are non-trivial: " + rule,
                       "samples": samples[:12], "exhaustive": False,
                       "comparisons": sum(p["comparisons"] for p in perpart.values()), "parts": perpart, "classes": classes},
          "assumptions": cfg.get("assumptions", ["the harness model (documented recursion, long double arithmetic) is right", "g++ with address and undefined behaviour sanitizers"]),
          "violations": [] if not violation else [{"message": violation["message"], "input": violation["input"], "replay": violation["path"]}],
          "wall_s": round(wall, 2), "build_s": round(t_build, 2), "run_s": round(t_run, 2)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))

def replay(path):
    o = json.load(open(path))
    pid = o["property"]
    exe = build(pid)
    os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
    if o["kind"] == "startup":
        try:
            parts_of(exe, pid)
            rc = 0
        except StartupCrash as e:
            print(e)
            rc = 1
    elif o["kind"] == "run":
        base = os.path.join(BUILD, "work", "replay-%d" % os.getpid())
        r = subprocess.run([exe, "run", "--prop", pid, "--part", o["part"], "--tier", o["tier"], "--seed", str(o["seed"]), "--worker", str(o["worker"]), "--nworkers", str(o["nworkers"]),
                            "--cases", str(o["cases"]), "--journal", base + ".journal", "--out", base + ".json", "--fail", base + ".fail"], env=env())
        rc = r.returncode
    else:
        f = os.path.join(BUILD, "work", "replay-%d.seq" % os.getpid())
        open(f, "w").write("".join("%d\n" % x for x in o["choices"]))
        rc, out = replay_once(exe, pid, o["part"], o["tier"], f, 60)
        print(out)
        os.remove(f)
    print("reproduced" if rc != 0 else "not reproduced")
    if rc != 0:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if rc != 0 else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.cmd == "setup":
            for tool in ("g++", "python3"):
                if not shutil.which(tool):
                    raise CheckError(tool + " is missing")
            for p in (VENV + "/include/dune/common/fvector.hh", VENV + "/lib/libdunecommon.a"):
                if not os.path.exists(p):
                    raise CheckError(p + " is missing")
            print("ready")
            return 0
        if a.cmd == "list":
            for k, v in CHECKS.items():
                print(k, v["quick"], v["thorough"])
            return 0
        if a.cmd == "run":
            return run(a.arg, a.tier, a.seed)
        if a.cmd == "replay":
            return replay(a.arg)
        ap.error("unknown command")
    except CheckError as e:
        log("CHECK ERROR:", e)
        return 2
    except Exception:
        log("CHECK ERROR:", traceback.format_exc())
        return 2

if __name__ == "__main__":
    sys.exit(main())
