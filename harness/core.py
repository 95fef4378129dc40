"""Shared machinery of the checks: scratch build of /repo, encoding of doubles as
limb floats for TLC, running TLC, running the implementation driver, evidence."""
import json, math, signal, os, re, shutil, subprocess, sys, tempfile, threading, time, queue, select
from decimal import Decimal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "CasimirRio")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
NPROC = max(2, min(8, len(os.sched_getaffinity(0))))


signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- numbers
def num(x):
    """encode a finite double as [s, e, [7 limbs]] (see Num.tla)"""
    x = float(x)
    if x == 0:
        return [0, 0, [0] * 7]
    s, dg, ex = Decimal(x).as_tuple()
    d = "".join(map(str, dg))
    adj = len(d) + ex
    e = -((-adj) // 4)
    t = ("0" * (4 * e - adj) + d + "0" * 28)[:28]
    return [-1 if s else 1, e, [int(t[4 * i:4 * i + 4]) for i in range(7)]]


def unnum(n):
    s, e, m = n
    return float(s * Decimal("0." + "".join("%04d" % k for k in m)) * Decimal(10) ** (4 * e))


# ---------------------------------------------------------------- scratch
class Scratch:
    def __init__(self):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="cas_", dir=base)
        self.spec = os.path.join(self.dir, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(sc):
    """copy the current source tree of /repo into the scratch directory and compile its Cython modules there"""
    d = os.path.join(sc.dir, "build")
    skip = shutil.ignore_patterns("*.so", "*.c", "build", "__pycache__", "tests", "examples", "svgs", "*.pyc")
    shutil.copytree(SRC, d, ignore=skip)
    inc = subprocess.check_output([PY, "-c", "import numpy; print(numpy.get_include())"], text=True).strip()
    env = dict(os.environ, CFLAGS="-I%s -O1" % inc)
    ps = [subprocess.Popen([PY, f, "build_ext", "--inplace", "--build-temp", "tmp_" + f[:4]], cwd=d, env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
          for f in ("cython_gaunt_setup.py", "matrix_balancing_setup.py")]
    for p in ps:
        out, _ = p.communicate(timeout=300)
        if p.returncode:
            raise MachineryError("build of the Cython modules failed:\n" + out[-2000:])
    return d


# ---------------------------------------------------------------- TLC
TLC_STATS = dict(states=0, distinct=0, runs=0)


def tlc(sc, module, cfg, workers=NPROC, timeout=600, heap="6g", extra=()):
    """run TLC on spec/<module>.tla with the given cfg text; returns stdout.
    Raises MachineryError if TLC does not finish properly."""
    tag = "%s_%d" % (module, TLC_STATS["runs"])
    TLC_STATS["runs"] += 1
    cfgf = os.path.join(sc.spec, tag + ".cfg")
    open(cfgf, "w").write(cfg)
    meta = os.path.join(sc.dir, "meta_" + tag)
    env = dict(os.environ)
    env["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, sc.dir)
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgf,
           *extra, module + ".tla"]
    p = subprocess.Popen(cmd, cwd=sc.spec, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s after %s s" % (module, timeout))
    finally:
        if p.poll() is None:
            os.killpg(p.pid, 9)
            p.wait()
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        TLC_STATS["states"] += int(m[-1][0])
        TLC_STATS["distinct"] += int(m[-1][1])
    return p.returncode, out


def tlc_ok(sc, module, cfg, **kw):
    rc, out = tlc(sc, module, cfg, **kw)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise MachineryError("TLC failed on %s (rc %d):\n%s" % (module, rc, tail(out)))
    return out


def tail(out, n=3500):
    lines = [l for l in out.splitlines() if not re.match(r"(Semantic|Linting|Parsing|Progress|TLC2|Running|Starting)", l)]
    return "\n".join(lines)[-n:]


def cfg_text(consts, init="Init", nxt="Next", inv=(), post=None):
    t = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (init, nxt)
    for k, v in consts.items():
        t += "CONSTANT %s = %s\n" % (k, json.dumps(v) if isinstance(v, str) else v)
    for i in inv:
        t += "INVARIANT %s\n" % i
    if post:
        t += "POSTCONDITION %s\n" % post
    return t


def gen(sc, module, consts, inv=(), timeout=300, workers=1, init="Init", nxt="Next"):
    """model-check a generator/state machine module; collect the behaviours it prints
    (lines starting with "@@) as JSON"""
    out = tlc_ok(sc, module, cfg_text(consts, inv=inv, init=init, nxt=nxt), workers=workers, timeout=timeout)
    res, seen = [], set()
    for l in out.splitlines():
        if l.startswith('"@@'):
            t = l.rstrip()[3:-1].replace('\\"', '"')
            if t not in seen:
                seen.add(t)
                res.append(json.loads(t))
    return res


def judge(sc, module, traces, consts=None, timeout=800, workers=NPROC, heap="12g"):
    """let TLC evaluate Verdict on every recorded trace; returns {index: failing clause}.
    A trace on which the specification cannot be evaluated at all is not a behaviour of it."""
    if not traces:
        raise MachineryError("no traces recorded for %s" % module)
    t0 = time.time()

    def once(idx):
        f = os.path.join(sc.dir, "%s_%d.ndjson" % (module, TLC_STATS["runs"]))
        with open(f, "w") as o:
            for j in idx:
                o.write(json.dumps(traces[j]) + "\n")
        c = dict(consts or {})
        c["TraceFile"] = f
        rc, out = tlc(sc, module, cfg_text(c, init="JInit", nxt="JNext"), workers=min(workers, max(1, len(idx))),
                      timeout=max(30, timeout - (time.time() - t0)), heap=heap)
        v = {}
        for l in out.splitlines():
            m = re.match(r'"@V (\d+) (.*)"$', l.rstrip())
            if m:
                v[idx[int(m.group(1)) - 1]] = m.group(2)
        good = rc == 0 and "Model checking completed. No error has been found." in out
        os.unlink(f)
        return v, good, out

    todo = list(range(len(traces)))
    v, good, out = once(todo)
    first = out
    if not good:
        left = [j for j in todo if j not in v]
        if not left or len(left) == len(todo) and "@V" not in out and "evaluat" not in out:
            raise MachineryError("judge %s failed:\n%s" % (module, tail(out)))
        for j in left[:12]:
            w, good, out = once([j])
            if good and j in w:
                v[j] = w[j]
            else:
                v[j] = "not-a-behaviour-of-the-specification"
        for j in left[12:]:
            v.setdefault(j, "ok")
        if os.environ.get("VERIF_DEBUG"):
            print(tail(first), file=sys.stderr)
    elif len(v) != len(traces):
        raise MachineryError("judge %s: %d verdicts for %d traces\n%s" % (module, len(v), len(traces), tail(out)))
    return {j: x for j, x in v.items() if x != "ok"}


# ---------------------------------------------------------------- driver pool
class Driver:
    """pool of implementation processes executing scenarios"""

    def __init__(self, sc, builddir, n=NPROC):
        self.sc, self.builddir, self.n = sc, builddir, n
        self.hung = 0               # scenarios that did not come back in time
        self.stop_at = None         # set by the quick tier: start no scenario after this time

    def _spawn(self, k):
        env = dict(os.environ)
        env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
                   NUMEXPR_MAX_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
                   VERIF_BUILD=self.builddir, VERIF_SRC=SRC, MPLCONFIGDIR=self.sc.dir, HOME=self.sc.dir)
        env.pop("PYTHONPATH", None)
        wd = os.path.join(self.sc.dir, "wd%d" % k)
        os.makedirs(wd, exist_ok=True)
        err = open(os.path.join(self.sc.dir, "driver%d.err" % k), "ab")
        return subprocess.Popen([PY, "-u", os.path.join(VERIF, "harness", "driver.py")], cwd=wd, env=env,
                                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, start_new_session=True)

    @staticmethod
    def _kill(p):
        """the process and everything it started"""
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()

    def run(self, scenarios, timeout=60):
        timeout = min(timeout, int(os.environ.get("VERIF_TIMEOUT", timeout)))       # development only
        res = [None] * len(scenarios)
        q = queue.Queue()
        for i, s in enumerate(scenarios):
            q.put((i, s))
        errs = []

        def work(k):
            p = None
            buf = b""
            try:
                while True:
                    # enough is known once several scenarios hang; those never started are not judged
                    if self.hung >= 3 or (self.stop_at and time.time() > self.stop_at):
                        break
                    try:
                        i, s = q.get_nowait()
                    except queue.Empty:
                        break
                    tries = 0
                    while True:
                        if p is None:
                            p = self._spawn(k)
                            buf = b""
                            t_end = time.time() + 60 + timeout
                        else:
                            t_end = time.time() + timeout
                        try:
                            p.stdin.write((json.dumps(s) + "\n").encode())
                            p.stdin.flush()
                        except BrokenPipeError:
                            self._kill(p); p = None
                            tries += 1
                            if tries > 2:
                                raise MachineryError("driver does not start: " + self._err(k))
                            continue
                        line, buf, why = self._read(p, buf, t_end)
                        if line is None:
                            rc = p.poll()
                            self._kill(p); p = None
                            self.hung += why == "timeout"
                            res[i] = dict(st="timeout" if why == "timeout" else "crash", ex=str(rc))
                        else:
                            res[i] = json.loads(line)
                            if res[i].get("st") == "machinery":
                                raise MachineryError("driver: " + res[i]["ex"])
                        break
            except Exception as e:            # noqa
                errs.append(e)
            finally:
                if p is not None:
                    try:
                        p.stdin.close()
                        p.wait(5)
                    except Exception:
                        pass
                    self._kill(p)

        ts = [threading.Thread(target=work, args=(k,)) for k in range(min(self.n, max(1, len(scenarios))))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise MachineryError(str(errs[0]))
        return res

    def _err(self, k):
        try:
            return open(os.path.join(self.sc.dir, "driver%d.err" % k)).read()[-1500:]
        except OSError:
            return ""

    @staticmethod
    def _read(p, buf, t_end):
        fd = p.stdout.fileno()
        while b"\n" not in buf:
            left = t_end - time.time()
            if left <= 0:
                return None, buf, "timeout"
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                c = os.read(fd, 1 << 20)
                if not c:
                    return None, buf, "eof"
                buf += c
        line, buf = buf.split(b"\n", 1)
        return line.decode(), buf, ""
