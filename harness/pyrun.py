"""Runner of the Python property checks: the same command line, choice
sequences, journal and result files as the C++ runner (main.cc)."""
import json, os, resource, signal, struct, sys, time, mmap, math

MASK = (1 << 64) - 1

def mix(z):
    z = (z + 0x9e3779b97f4a7c15) & MASK
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & MASK
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & MASK
    return z ^ (z >> 31)

class Failure(Exception):
    pass

class Source:
    def __init__(self):
        self.journal = None
        self.index = 0

    def start_run(self, seed, index, thorough):
        self.forced, self.state, self.index = None, mix(mix(seed) ^ mix(index * 2 + 1)), index
        self._begin(thorough)

    def start_replay(self, forced, thorough):
        self.forced = list(forced)
        self._begin(thorough)

    def _begin(self, thorough):
        self.record, self.thorough = [], thorough
        if self.journal is not None:
            struct.pack_into("<QQ", self.journal, 0, self.index, 0)

    def raw(self):
        self.state = (self.state + 0x9e3779b97f4a7c15) & MASK
        return mix(self.state)

    def _push(self, v):
        self.record.append(v)
        if self.journal is not None and len(self.record) <= 1 << 16:
            struct.pack_into("<Q", self.journal, 8 + 8 * len(self.record), v)
            struct.pack_into("<Q", self.journal, 8, len(self.record))
        return v

    def _forced(self, n):
        return min(self.forced[len(self.record)], n - 1) if len(self.record) < len(self.forced) else 0

    def choice(self, n):
        n = max(1, n)
        return self._push(self._forced(n) if self.forced is not None else (self.raw() % n if n > 1 else 0))

    def stratum(self, n):
        return self._push(self._forced(n) if self.forced is not None else self.index % n)

    def range(self, lo, hi):
        return lo + self.choice(hi - lo + 1)

    def flag(self):
        return self.choice(2) != 0

    def pick(self, seq):
        return seq[self.choice(len(seq))]

    def real(self, lo, hi):
        k = self.choice(4)
        n = 8 if k == 0 else 1024 if k == 1 else 1 << 52
        return lo + (hi - lo) * (self.choice(n + 1) / n)

    def sreal(self, r):
        k = self.choice(4)
        n = 4 if k == 0 else 1024 if k == 1 else 1 << 52
        v = r * (self.choice(n + 1) / n)
        return -v if self.flag() else v

class Ctx:
    def __init__(self, classes):
        self.desc, self.nontrivial, self.comparisons, self.classes = "", False, 0, classes
        self.key = None

    def cls(self, name):
        self.classes[name] = self.classes.get(name, 0) + 1

    def check(self, ok, *what):
        self.comparisons += 1
        if not ok:
            raise Failure(" ".join(str(w) for w in what))

    def equal(self, a, b, *what):
        self.comparisons += 1
        if not (a == b):
            raise Failure("%s: got %s expected %s" % (" ".join(str(w) for w in what), a, b))

    def near(self, a, b, tol, *what):
        self.comparisons += 1
        if not (abs(float(a) - float(b)) <= tol):
            raise Failure("%s: got %r expected %r (tolerance %g)" % (" ".join(str(w) for w in what), float(a), float(b), tol))

    def nearlist(self, a, b, tol, *what):
        a, b = list(a), list(b)
        self.equal(len(a), len(b), *what, "(length)")
        for i, (x, y) in enumerate(zip(a, b)):
            self.near(x, y, tol, *what, "entry", i)

    def raises(self, exc, fn, *what):
        self.comparisons += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Failure("%s: raised %s instead of %s" % (" ".join(str(w) for w in what), type(e).__name__, exc))
        raise Failure("%s: accepted, result %r" % (" ".join(str(w) for w in what), r))

REGISTRY = []
def prop(pid, part, rule):
    def deco(fn):
        REGISTRY.append((pid, part, rule, fn))
        return fn
    return deco

def limits(cpu, wall):
    signal.setitimer(signal.ITIMER_PROF, cpu)
    signal.alarm(wall)

def run_case(fn, s, c):
    try:
        fn(s, c)
        return None
    except Failure as e:
        return str(e)
    except Exception as e:                      # an exception the property does not expect
        return "unexpected exception %s: %s" % (type(e).__name__, str(e).split("\n")[0])

def main(argv):
    mode = argv[0]
    a = dict(zip(argv[1::2], argv[2::2]))
    if mode == "list":
        for pid, part, rule, _ in REGISTRY:
            print("%s\t%s\t%s" % (pid, part, rule))
        return 0
    pid, part = a["--prop"], a["--part"]
    rule, fn = [(r, f) for p, q, r, f in REGISTRY if p == pid and q == part][0]
    th = a.get("--tier") == "thorough"
    cpu = int(a.get("--cpu", "60"))
    if mode == "run":
        seed, worker, nw, cases = (int(a[k]) for k in ("--seed", "--worker", "--nworkers", "--cases"))
        with open(a["--journal"], "wb") as f:
            f.truncate(16 + 8 * (1 << 16))
        jf = open(a["--journal"], "r+b")
        s = Source()
        s.journal = mmap.mmap(jf.fileno(), 0)
        known = {}
        if "--known" in a:
            known = {l.rstrip("\n"): 0 for l in open(a["--known"]) if l.strip()}
        pseed = seed
        for ch in pid + "/" + part:
            pseed = mix(pseed ^ ord(ch))
        classes, distinct, samples = {}, set(), []
        evals = nontriv = comps = maxlen = 0
        fail_msg = fail_desc = ""
        failed = False
        for i in range(worker, cases, nw):
            c = Ctx(classes)
            s.start_run(pseed, i, th)
            limits(cpu, 20 * cpu)
            msg = run_case(fn, s, c)
            evals += 1
            comps += c.comparisons
            maxlen = max(maxlen, len(s.record))
            if c.nontrivial:
                nontriv += 1
                h = 1
                for x in s.record:
                    h = mix(h ^ x)
                distinct.add(h)
            if msg is None and c.nontrivial and len(samples) < 3:
                samples.append("case %d: %s" % (i, c.desc[:600]))
            if msg is not None:
                hit = [k for k in known if k in msg]
                if hit:
                    known[hit[0]] += 1
                    continue
                failed, fail_msg, fail_desc = True, msg, c.desc
                open(a["--fail"], "w").write("".join("%d\n" % x for x in s.record))
                break
        limits(0, 0)
        json.dump({"evaluations": evals, "nontrivial": nontriv, "comparisons": comps, "max_choices": maxlen, "failed": failed, "message": fail_msg,
                   "description": fail_desc, "rule": rule, "classes": classes, "samples": samples, "known": known, "distinct": ["%x" % h for h in distinct]},
                  open(a["--out"], "w"))
        return 10 if failed else 0
    seq = [int(x) for x in open(a["--file"]).read().split()]
    if mode == "replay":
        s, c = Source(), Ctx({})
        s.start_replay(seq, th)
        limits(cpu, 20 * cpu)
        msg = run_case(fn, s, c)
        print("input: " + c.desc.replace("\n", " "))
        print("PASS" if msg is None else "FAIL: " + msg)
        return 0 if msg is None else 10
    if mode == "shrink":
        budget, end = [int(a.get("--budget", "500"))], time.time() + int(a.get("--seconds", "100"))

        def fails(t):
            """one attempt in a child, so that crashes and hangs count as failures"""
            budget[0] -= 1
            if time.time() > end:
                budget[0] = 0
            r, w = os.pipe()
            pid_ = os.fork()
            if pid_ == 0:
                os.close(r)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                limits(min(cpu, 20), 400)
                s = Source()
                s.start_replay(t, th)
                msg = run_case(fn, s, Ctx({}))
                os.write(w, json.dumps(s.record).encode()[:60000])
                os._exit(0 if msg is None else 10)
            os.close(w)
            data = b""
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                data += b
            os.close(r)
            _, st = os.waitpid(pid_, 0)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
                return None
            try:
                return json.loads(data)
            except ValueError:
                return list(t)

        best = seq
        if fails(best) is None:
            print("NOT-REPRODUCED")
            return 0

        def attempt(t):
            nonlocal best
            if budget[0] <= 0:
                return False
            act = fails(t)
            if act is None:
                return False
            for cand in (act, t):
                if (len(cand), cand) < (len(best), best):
                    best = cand
                    return True
            return False
        progress = True
        while progress and budget[0] > 0:
            progress = False
            for ln in (64, 16, 8, 4, 2, 1):
                i = 0
                while i + ln <= len(best) and budget[0] > 0:
                    if attempt(best[:i] + best[i + ln:]):
                        progress = True
                    else:
                        i += max(1, ln // 2)
            i = 0
            while i < len(best) and budget[0] > 0:
                if best[i]:
                    if attempt(best[:i] + [0] + best[i + 1:]):
                        progress = True
                    else:
                        lo, hi = 0, best[i]
                        while hi - lo > 1 and budget[0] > 0 and i < len(best):
                            mid = lo + (hi - lo) // 2
                            if attempt(best[:i] + [mid] + best[i + 1:]):
                                progress, hi = True, mid
                            else:
                                lo = mid
                i += 1
        open(a["--out"], "w").write("".join("%d\n" % x for x in best))
        print("SHRUNK %d" % len(best))
        return 0
    return 2

def load(pkg):
    """Make dune.geometry resolve to the package built from the tree under test."""
    import importlib.util

    class Finder:
        def find_spec(self, name, path=None, target=None):
            if name == "dune.geometry":
                d = os.path.join(pkg, "geometry")
                return importlib.util.spec_from_file_location(name, os.path.join(d, "__init__.py"), submodule_search_locations=[d])
            return None
    sys.meta_path.insert(0, Finder())
    sys.path.insert(0, pkg)

if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.modules["pyrun"] = sys.modules["__main__"]
    load(sys.argv[1])
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import pyprops                                   # noqa: F401
    sys.exit(main(sys.argv[2:]))
