"""Explorer framework.

A check module defines

    ID            property id
    RULE          one sentence: how cases are made and what makes one non-trivial
    ASSUMPTIONS   list of strings
    units(tier)   deterministic list of JSON-able work units (a unit is a family of executions)
    run_unit(unit, ctx)   explores one unit exhaustively, calling ctx.case(key, fn) for every
                          execution (key is JSON-able and identifies the execution completely)

Every ctx.case runs the real code from /repo in-process and compares it with the reference
model inside fn, which raises Violation (or any other exception) on disagreement.  Units are
distributed over worker processes; nothing is sampled and there is no time-based cut-off: the
space of a tier is either explored completely, or the check says so and fails.
"""
import hashlib
import importlib
import json
import mmap
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_SECONDS = 20.0          # a single execution (microseconds to milliseconds) that takes this much processor time, or ten times as long, hangs
MAX_REPORT = 25
EVIDENCE_LEVEL = "model_checking"


class Violation(Exception):
    def __init__(self, message, signature=None):
        Exception.__init__(self, message)
        self.signature = signature if signature is not None else message


class Hang(BaseException):
    pass


class OracleError(Exception):
    """A mistake of the machinery itself: never reported as a violation."""


def _alarm(signum, frame):
    raise Hang()


def key_text(key):
    return json.dumps(key, sort_keys=True, separators=(",", ":"), default=_json_default)


def _json_default(x):
    if isinstance(x, bytes):
        return {"bytes": x.decode("latin-1")}
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if hasattr(x, "item") and getattr(x, "shape", None) == ():
        return x.item()
    if hasattr(x, "tolist"):
        return x.tolist()
    return repr(x)


def digest(text):
    return hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=8).digest()


class Ctx(object):
    """Collects what one worker explored."""

    def __init__(self, current=None, only=None, seconds=CASE_SECONDS):
        self.seconds = seconds
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.nontrivial = 0
        self.violations = []       # (key_text, message, signature)
        self.samples = []
        self.counters = {}
        self.current = current     # mmap with the case in progress (survives a crash of the worker)
        self.only = only           # replay: run only this key
        self.ran_only = False
        self.unraisable = []       # errors in finalisers, which Python only prints
        sys.unraisablehook = self._unraised

    def _unraised(self, args):
        tb = traceback.extract_tb(args.exc_traceback)
        if any(f.filename.startswith(REPO + os.sep) for f in tb) and not issubclass(args.exc_type, (Hang, MemoryError)):
            self.unraisable.append("%s in %s: %s" % (args.exc_type.__name__, next("%s:%s" % (os.path.basename(f.filename), f.name) for f in reversed(tb) if f.filename.startswith(REPO + os.sep)), args.exc_value))

    def state(self, text):
        """Register a state (canonical text).  Returns True when it is new in this worker."""
        d = digest(text)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def outcome(self, text):
        self.outcomes.add(digest(text))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key, fn, *args, **kwargs):
        """Run one complete execution; returns fn's value, or None after a violation."""
        kt = key_text(key)
        if self.only is not None:
            if kt != self.only:
                return None
            self.ran_only = True
        if self.current is not None:
            raw = kt.encode("utf-8")[: len(self.current) - 8]
            self.current[0:8] = b"%08d" % len(raw)
            self.current[8 : 8 + len(raw)] = raw
        self.traces += 1
        try:
            signal.setitimer(signal.ITIMER_PROF, self.seconds)
            signal.setitimer(signal.ITIMER_REAL, 10 * self.seconds)
            try:
                out = fn(*args, **kwargs)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
        except OracleError:
            raise
        except Violation as err:
            self._violation(kt, str(err), err.signature)
            return None
        except Hang:
            self._violation(kt, "no answer within %g s" % self.seconds, "hang")
            return None
        except MemoryError:
            self._violation(kt, "memory exhausted", "MemoryError")
            return None
        except RecursionError as err:
            self._violation(kt, "RecursionError: %s" % err, "RecursionError")
            return None
        except Exception as err:
            tb = traceback.extract_tb(err.__traceback__)
            where = next((("%s:%s" % (os.path.basename(f.filename), f.name)) for f in reversed(tb) if f.filename.startswith(REPO + os.sep)), "?")
            self._violation(kt, "unexpected %s in %s: %s" % (type(err).__name__, where, err), "raises " + type(err).__name__)
            return None
        if self.unraisable:
            self._violation(kt, "unexpected " + self.unraisable[0], "error in a finaliser")
            del self.unraisable[:]
            return None
        if len(self.samples) < 3:
            self.samples.append(json.loads(kt))
        return out

    def _violation(self, kt, message, signature):
        self.violations.append((kt, message[:600], signature[:200]))


def load_check(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module("mc.checks." + pid.lower())


def _prepare_process():
    import warnings

    warnings.simplefilter("ignore")
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy

    numpy.seterr(all="ignore")
    import awkward0

    f = os.path.realpath(awkward0.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise OracleError("awkward0 imported from %s, not from %s" % (f, REPO))
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)


class DoNothing(object):
    pass


def known_findings(pid):
    """{case key text: (finding id, expected signature or None)} and the list of findings."""
    path = os.path.join(VERIF, "known_findings.txt")
    table, findings = {}, []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("fixed:"):
                    continue
                rec = json.loads(line)
                if rec.get("property") != pid:
                    continue
                findings.append(rec)
                for c in rec["cases"]:
                    table[key_text(c["case"])] = (rec["id"], c.get("observed"))
    return table, findings


def _worker(mod, units, index, n, path, current):
    rc = 0
    try:
        resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    except (ValueError, OSError):
        pass
    ctx = Ctx(current=current, seconds=getattr(mod, "CASE_SECONDS", CASE_SECONDS))
    error = None
    try:
        for i in range(index, len(units), n):
            mod.run_unit(units[i], ctx)
    except Exception:
        error = traceback.format_exc()
        rc = 3
    import pickle

    with open(path, "wb") as f:
        pickle.dump({"states": ctx.states, "outcomes": ctx.outcomes, "transitions": ctx.transitions, "traces": ctx.traces, "nontrivial": ctx.nontrivial, "violations": ctx.violations, "samples": ctx.samples, "counters": ctx.counters, "error": error}, f)
    os._exit(rc)


def run_check(pid, tier, seed):
    import pickle
    import shutil
    import tempfile

    t0 = time.time()
    _prepare_process()
    mod = load_check(pid)
    import shutil as _sh
    _sh.rmtree(os.path.join(VERIF, "replays", pid), ignore_errors=True)
    units = list(mod.units(tier))
    nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    nproc = max(1, min(nproc, len(units)))
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    merged = Ctx()
    errors, crashed = [], []
    try:
        children = []
        for w in range(nproc):
            current = mmap.mmap(-1, 65536)
            out = os.path.join(scratch, "w%d" % w)
            sys.stdout.flush()
            sys.stderr.flush()
            pid_ = os.fork()
            if pid_ == 0:
                try:
                    os.environ["MC_SCRATCH"] = os.path.join(scratch, "d%d" % w)
                    os.mkdir(os.environ["MC_SCRATCH"])
                    _worker(mod, units, w, nproc, out, current)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(4)
            children.append((pid_, out, current))
        for pid_, out, current in children:
            _, status = os.waitpid(pid_, 0)
            res = None
            if os.path.exists(out):
                try:
                    with open(out, "rb") as f:
                        res = pickle.load(f)
                except Exception:
                    res = None
            if res is None:
                try:
                    k = int(bytes(current[0:8]))
                except ValueError:
                    k = 0
                crashed.append((bytes(current[8 : 8 + k]).decode("utf-8", "replace"), status))
                continue
            merged.states |= res["states"]
            merged.outcomes |= res["outcomes"]
            merged.transitions += res["transitions"]
            merged.traces += res["traces"]
            merged.nontrivial += res["nontrivial"]
            merged.violations += res["violations"]
            for s in res["samples"]:
                if len(merged.samples) < 6:
                    merged.samples.append(s)
            for k, v in res["counters"].items():
                merged.count(k, v)
            if res["error"]:
                errors.append(res["error"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    for case, status in crashed:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT) and case:
            merged.violations.append((case, "the interpreter died with signal %d" % os.WTERMSIG(status), "crash"))
        else:
            errors.append("worker ended with status %r during case %s" % (status, case))

    table, findings = known_findings(pid)
    seen_findings, fresh = {}, []
    for kt, message, signature in sorted(merged.violations, key=lambda v: (len(v[0]), v[0])):
        hit = table.get(kt)
        if hit is not None and (hit[1] is None or hit[1] == signature):
            seen_findings[hit[0]] = seen_findings.get(hit[0], 0) + 1
        else:
            fresh.append((kt, message, signature))

    coverage = {
        "states": len(merged.states),
        "transitions": merged.transitions,
        "traces_validated_against_impl": merged.traces,
        "evaluations": merged.transitions,
        "distinct_nontrivial": len(merged.outcomes),
        "rule": mod.RULE,
        "exhaustive": not errors,
        "samples": merged.samples or ["none"],
        "units": len(units),
        "counters": merged.counters,
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "known_findings_hit": seen_findings,
    }
    del coverage["evaluations"]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": EVIDENCE_LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=_json_default)
        f.write("\n")

    for rec in findings:
        if rec["id"] in seen_findings:
            print("KNOWN-FINDING: property=%s %s [%s, %d executions]" % (pid, rec["what"], rec["id"], seen_findings[rec["id"]]))

    print("%s %s: states=%d transitions=%d traces=%d distinct-outcomes=%d violations=%d known=%d wall=%.1fs" % (pid, tier, len(merged.states), merged.transitions, merged.traces, len(merged.outcomes), len(fresh), sum(seen_findings.values()), time.time() - t0))
    if merged.counters:
        print("  " + ", ".join("%s=%d" % kv for kv in sorted(merged.counters.items())))

    if fresh:
        rdir = os.path.join(VERIF, "replays", pid)
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir)
        with open(os.path.join(rdir, "all.jsonl"), "w") as f:
            for kt, message, signature in fresh:
                f.write(json.dumps({"case": json.loads(kt), "observed": signature, "message": message}) + "\n")
        for i, (kt, message, signature) in enumerate(fresh[:MAX_REPORT]):
            path = os.path.join(rdir, "%03d.json" % i)
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "case": json.loads(kt), "message": message, "observed": signature, "replay": "cd /verif && python3 bin/replay %s" % path}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  case %s\n  %s" % (kt[:600], message[:600]))
        if len(fresh) > MAX_REPORT:
            print("  ... and %d more violating executions" % (len(fresh) - MAX_REPORT))
    if errors:
        for e in errors[:5]:
            print("ERROR in the machinery:\n" + e, file=sys.stderr)
        if not fresh:
            return 3
    return 1 if fresh else 0


def replay(path):
    _prepare_process()
    with open(path) as f:
        rec = json.load(f)
    mod = load_check(rec["property"])
    kt = key_text(rec["case"])
    import tempfile

    with tempfile.TemporaryDirectory() as d:
        os.environ["MC_SCRATCH"] = d
        ctx = Ctx(only=kt, seconds=getattr(mod, "CASE_SECONDS", CASE_SECONDS))
        for u in mod.units(rec.get("tier", "quick")):
            if hasattr(mod, "unit_of") and mod.unit_of(rec["case"]) != u:
                continue
            mod.run_unit(u, ctx)
            if ctx.ran_only:
                break
        if not ctx.ran_only:
            print("case not reached")
            return 2
        for kt, message, signature in ctx.violations:
            print("VIOLATION property=%s replay=%s\n  case %s\n  %s" % (rec["property"], path, kt, message))
        if not ctx.violations:
            print("the case passes")
        return 1 if ctx.violations else 0


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run_check(pid, tier, seed)
