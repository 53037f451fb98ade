"""Runner shared by every property check.

A property module (props/pNN.py) defines:
    ID, RULE          property id, one line on how cases are made / what is non-trivial
    strategy(tier)    hypothesis strategy producing a JSON-able case
    run_case(case, ctx)   executes the real code, raises Violation when the oracle fails
    EXAMPLES = {"quick": n, "thorough": m}   cases per shard
optional:
    SHARDS = {"quick": 4, "thorough": 8}
    setup(ctx), teardown(ctx)      once per worker process
    CASE_TIMEOUT                   seconds; a case that needs longer is a hang (violation)
    FIXED                          list of cases run first (regression inputs)
    KNOWN                          {signature: (case, text)} known findings, see known_findings.json

The parent process shards the search over worker processes, merges the counters into
evidence/<id>.json, and prints VIOLATION/KNOWN-FINDING lines.
"""
import errno
import hashlib
import importlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"

RESOURCES = (errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.ENOBUFS, errno.EADDRINUSE, errno.EADDRNOTAVAIL, errno.ENOSPC)

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2


class Violation(Exception):
    """The oracle of the property says the code under test is wrong."""

    def __init__(self, msg, signature=None):
        Exception.__init__(self, msg)
        self.signature = signature


class Hang(BaseException):
    """A case did not finish: BaseException so that no handler in the tested code swallows it."""


class Ctx(object):
    """Counters of one worker"""

    def __init__(self, tier, shard):
        self.tier, self.shard = tier, shard
        self.labels = {}
        self.is_nontrivial = False
        self.known_hits = {}
        self.known = {}
        self.store = {}

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self):
        self.is_nontrivial = True

    def finding(self, signature, msg):
        """a failure with the exact shape `signature`: recorded if known_findings.json lists it, a violation otherwise"""
        if signature not in self.known:
            raise Violation(msg, signature)
        self.known_hits[signature] = self.known_hits.get(signature, 0) + 1


def ensure(cond, msg, *args, **kw):
    if not cond:
        raise Violation(msg % args if args else msg, **kw)


def use_repo():
    """make modbus_tk come from REPO, without reading or writing any .pyc there"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-pyc-%d" % os.getpid())
    sys.path.insert(0, REPO)
    if SITE not in sys.path:
        sys.path.append(SITE)
    import warnings
    warnings.simplefilter("ignore")
    import modbus_tk
    got = os.path.realpath(modbus_tk.__path__[0])
    want = os.path.realpath(os.path.join(REPO, "modbus_tk"))
    if got != want:
        raise RuntimeError("modbus_tk comes from %s, not %s" % (got, want))
    import logging
    logging.getLogger("modbus_tk").addHandler(logging.NullHandler())
    logging.getLogger("modbus_tk").setLevel(logging.CRITICAL + 1)
    logging.getLogger("modbus_tk").propagate = False
    return modbus_tk


def in_repo(tb):
    """was a frame of the tested code active in this traceback?"""
    root = os.path.realpath(os.path.join(REPO, "modbus_tk")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class Worker(object):
    def __init__(self, mod, tier, shard, nshards, seed):
        self.mod, self.tier, self.shard, self.nshards, self.seed = mod, tier, shard, nshards, seed
        self.ctx = Ctx(tier, shard)
        self.evals = 0
        self.hashes = set()
        self.samples = []
        self.failure = None     # (case, message) most recent (= minimal when shrinking ended)
        self.known = self.ctx.known = load_known(mod.ID)

    # -- one case ---------------------------------------------------------------------------
    def execute(self, case, counting=True):
        ctx = self.ctx
        ctx.is_nontrivial = False
        timeout = getattr(self.mod, "CASE_TIMEOUT", 60)

        def on_alarm(signum, frame):
            stack = "".join(traceback.format_stack(frame)[-6:])
            raise Hang("case did not finish within %ss; main thread at:\n%s" % (timeout, stack))

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            try:
                self.mod.run_case(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
        except Violation as v:
            if v.signature is not None and v.signature in self.known:
                ctx.known_hits[v.signature] = ctx.known_hits.get(v.signature, 0) + 1
                ctx.label("known-finding:" + v.signature)
            else:
                self.failure = (case, str(v))
                raise
        except Hang as h:
            self.failure = (case, "hang: %s" % h)
            raise
        except Exception as e:
            if e.__class__.__module__.startswith("hypothesis"):
                raise
            if in_repo(e.__traceback__):
                msg = "unexpected %s from the library: %s\n%s" % (
                    type(e).__name__, e, traceback.format_exc(limit=-4))
                self.failure = (case, msg)
                raise Violation(msg) from e
            if isinstance(e, (OSError, EOFError, LookupError, TypeError, ValueError, struct.error)) and getattr(e, "errno", None) not in RESOURCES:
                # the peer, server or value the case needs was not what it has to be (e.g. connection refused)
                msg = "the case could not go on: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4))
                self.failure = (case, msg)
                raise Violation(msg) from e
            raise
        if counting:
            self.evals += 1
            if ctx.is_nontrivial:
                h = case_hash(case)
                if h not in self.hashes:
                    self.hashes.add(h)
                    if len(self.samples) < 3:
                        s = json.dumps(case)
                        self.samples.append(case if len(s) <= 1500 else s[:1500] + "...(cut)")

    # -- the search -------------------------------------------------------------------------
    def search(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        try:
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = int(os.environ.get("VERIF_SHRINK", "45"))
        except Exception:
            pass
        mod, ctx = self.mod, self.ctx
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        try:
            if self.shard == 0:
                for case in getattr(mod, "FIXED", []):
                    ctx.label("fixed-case")
                    self.execute(case)
            n = mod.EXAMPLES[self.tier]
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            n = max(1, int(n * scale))

            @hypothesis.seed(self.seed * 1000 + self.shard)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                      phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                      print_blob=False)
            @given(mod.strategy(self.tier))
            def run(case):
                self.execute(case)

            run()
        finally:
            if hasattr(mod, "teardown"):
                mod.teardown(ctx)

    def main(self, out):
        res = {"shard": self.shard, "status": "ok"}
        try:
            self.search()
        except BaseException as e:   # noqa
            if self.failure is not None:
                res["status"] = "violation"
                res["case"], res["message"] = self.failure
            elif isinstance(e, Violation):
                # before the first case or after the last one
                res["status"], res["case"], res["message"] = "violation", None, "outside of a case: %s" % e
            else:
                res["status"] = "error"
                res["message"] = traceback.format_exc()
        res.update(evals=self.evals, hashes=sorted(self.hashes), samples=self.samples,
                   labels=self.ctx.labels, known=self.ctx.known_hits,
                   extra=getattr(self.mod, "EXTRA", None))
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.rename(out + ".tmp", out)
        sys.stdout.flush()
        os._exit(0)     # server threads of a broken tree must not keep the worker alive


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {k["signature"]: k for k in data.get("findings", []) if k["property"] == pid}


def load(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module("props." + pid.lower())


def worker_entry(pid, tier, shard, nshards, seed, out):
    mod = load(pid)
    Worker(mod, tier, shard, nshards, seed).main(out)


def write_replay(pid, case, message, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, case_hash(case)))
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case, "message": message, "seed": seed, "tier": tier,
                   "replay_cmd": "python3-vt check.py %s --replay %s" % (pid, path)}, f, indent=1)
    return path


def replay_entry(pid, path):
    mod = load(pid)
    with open(path) as f:
        rec = json.load(f)
    w = Worker(mod, "quick", 0, 1, 1)
    if hasattr(mod, "setup"):
        mod.setup(w.ctx)
    rc = EXIT_OK
    try:
        w.execute(rec["case"])
        print("replay: property %s holds on this case" % pid)
    except BaseException as e:  # noqa
        if w.failure is None:
            traceback.print_exc()
            rc = EXIT_ERROR
        else:
            print("replay: %s" % w.failure[1])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = EXIT_VIOLATION
    sys.stdout.flush()
    os._exit(rc)


def parent_entry(pid, tier, seed):
    t0 = time.time()
    mod_meta = read_meta(pid)
    nshards = mod_meta["shards"][tier]
    limit = 780 if tier == "quick" else 3 * 3600
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    procs = []
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=str(seed), VERIF_TIER=tier)
    results, bad = [], []
    try:
        for i in range(nshards):
            out = os.path.join(tmp, "s%d.json" % i)
            log = open(os.path.join(tmp, "s%d.log" % i), "w")
            p = subprocess.Popen([sys.executable, os.path.join(VERIF, "check.py"), pid, "--worker",
                                  "%d/%d" % (i, nshards), "--tier", tier, "--out", out],
                                 stdout=log, stderr=subprocess.STDOUT, env=env, cwd=VERIF,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            log.close()
            procs.append((i, p, out))
        pending = list(procs)
        while pending:
            time.sleep(0.05)
            still = []
            for i, p, out in pending:
                if p.poll() is None:
                    still.append((i, p, out))
                    continue
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                else:
                    with open(os.path.join(tmp, "s%d.log" % i)) as f:
                        r = {"status": "error", "message": "worker %d died rc=%s\n%s" % (i, p.returncode, f.read()[-4000:]),
                             "evals": 0, "hashes": [], "samples": [], "labels": {}, "known": {}}
                results.append(r)
                if r["status"] != "ok":
                    bad.append(r)
            pending = still
            if any(r["status"] == "violation" for r in bad):
                break
            if time.time() - t0 > limit:
                bad.append({"status": "error", "message": "time limit of %ss reached: inconclusive" % limit})
                break
    finally:
        for i, p, out in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)

    hashes, labels, samples, known = set(), {}, [], {}
    evals = 0
    for r in results:
        evals += r["evals"]
        hashes.update(r["hashes"])
        samples.extend(r["samples"][:1 if nshards > 3 else 3])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    viol = [r for r in bad if r["status"] == "violation"]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": mod_meta["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": mod_meta["rule"],
            "samples": samples[:6], "labels": dict(sorted(labels.items())), "shards": nshards,
            "known_finding_hits": known,
        },
        "assumptions": mod_meta["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    with open(ev + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(ev + ".tmp", ev)
    for sig, k in load_known(pid).items():
        if known.get(sig):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (
        pid, tier, seed, evals, len(hashes), time.time() - t0))
    for k, v in sorted(labels.items()):
        print("    %-50s %d" % (k, v))
    if viol:
        r = min(viol, key=lambda r: len(json.dumps(r["case"])))
        path = write_replay(pid, r["case"], r["message"], seed, tier)
        print("counterexample: %s" % json.dumps(r["case"])[:3000])
        print("reason: %s" % r["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return EXIT_VIOLATION
    if bad:
        for r in bad:
            print("CHECK ERROR: %s" % r["message"])
        return EXIT_ERROR
    return EXIT_OK


def read_meta(pid):
    """constants of the property module, read without importing the code under test here"""
    code = ("import sys,json; sys.path.insert(0,%r); from pbt import engine; m=engine.load(%r); "
            "print('META'+json.dumps(dict(shards=getattr(m,'SHARDS',{'quick':4,'thorough':8}), rule=m.RULE,"
            "level=getattr(m,'LEVEL','exploration'), assumptions=getattr(m,'ASSUMPTIONS',[]))))") % (VERIF, pid)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                       cwd=VERIF, text=True)
    for line in r.stdout.splitlines():
        if line.startswith("META"):
            return json.loads(line[4:])
    sys.stdout.write(r.stdout + r.stderr)
    print("CHECK ERROR: property module %s cannot be loaded" % pid)
    sys.exit(EXIT_ERROR)
