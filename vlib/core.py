"""Runner for property checks: hypothesis-driven search, shrinking, replay, evidence.

A check module defines sub-checks with @sub(...).  Each sub-check is a pair
(hypothesis strategy producing a JSON-able case, function deciding the case).  The
function returns a label (non-empty string: the case was non-trivial and this is its
class; "" or None: trivial) or raises Violation.
"""
import contextlib
import faulthandler
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_LIMIT = 60.0  # CPU seconds in one case before it is called a hang


class Violation(Exception):
    def __init__(self, msg, tag=None):
        super().__init__(msg)
        self.tag = tag


class Hang(BaseException):
    """A case consumed more CPU than any sane execution can."""


class OutOfBudget(BaseException):
    """Wall budget of the sub-check used up (inconclusive remainder)."""


class Skip(Exception):
    """The case is outside of the domain (counted, not decided)."""


SUBS = []


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, examples, shards, budget):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.examples, self.shards, self.budget = examples, shards, budget


def sub(name, strategy, quick=200, thorough=None, examples=(), shards=4, budget=None):
    """Register a sub-check. shards: number of processes used in thorough mode."""
    def deco(fn):
        assert all(s.name != name for s in SUBS), name
        SUBS.append(Sub(name, strategy, fn, quick,
                        thorough if thorough is not None else quick * 20,
                        list(examples), shards, budget))
        return fn
    return deco


def require(cond, msg, tag=None):
    if not cond:
        raise Violation(msg, tag)


def _in_repo(tb):
    src = os.path.join(os.path.realpath(REPO), "pyproximal") + os.sep
    return any(os.path.realpath(fr.filename).startswith(src)
               for fr in traceback.extract_tb(tb))


class HarnessError(Exception):
    pass


def run_case(fn, case):
    """Run one case. Returns label; raises Violation, Skip or HarnessError."""
    import numpy as np
    random.seed(0)
    np.random.seed(0)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return fn(case)
    except (Violation, Skip, Hang, OutOfBudget, HarnessError, KeyboardInterrupt):
        raise
    except BaseException as e:
        mod = type(e).__module__ or ""
        if mod.startswith("hypothesis"):
            raise
        if isinstance(e, MemoryError):
            raise HarnessError("out of memory") from e
        tb = traceback.format_exc()
        if _in_repo(e.__traceback__):
            raise Violation("library raised %s: %s\n%s" % (type(e).__name__, e, tb)) from None
        raise HarnessError(tb) from None


def _key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=10).hexdigest()


def _short(case, n=1200):
    s = json.dumps(case, sort_keys=True)
    return case if len(s) <= n else {"case_json_truncated": s[:n]}


def _run_sub(s, seed, n, budget, outdir, shard, known_tags, prop):
    """Executed in a forked child. Returns result dict."""
    sys.path.append(os.path.join(ROOT, "vendor"))
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 30
    res = dict(sub=s.name, shard=shard, evaluations=0, skipped=0, known={}, labels={},
               keys=[], samples=[], violation=None, harness=None, out_of_budget=False)
    keys = set()
    t0 = time.time()
    curfile = os.path.join(outdir, "%s.%d.cur" % (s.name, shard))
    curfd = os.open(curfile, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
    shrinking = [False]

    def on_prof(signum, frame):
        raise Hang()
    signal.signal(signal.SIGPROF, on_prof)

    def one(case):
        if not shrinking[0] and time.time() - t0 > budget:
            raise OutOfBudget()
        js = json.dumps(case).encode()
        os.pwrite(curfd, b"%20.3f " % time.process_time() + js, 0)
        os.ftruncate(curfd, 21 + len(js))
        res["evaluations"] += 1
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
        try:
            label = run_case(s.fn, case)
        except Skip:
            res["skipped"] += 1
            return
        except Violation as v:
            if v.tag is not None and v.tag in known_tags:
                res["known"][v.tag] = res["known"].get(v.tag, 0) + 1
                return
            res["last_fail"] = (case, str(v), v.tag)
            shrinking[0] = True
            raise
        except Hang:
            res["violation"] = dict(case=case, msg="no result after %g CPU seconds" % CASE_CPU_LIMIT)
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if label:
            res["labels"][label] = res["labels"].get(label, 0) + 1
            k = _key(case)
            if k not in keys:
                keys.add(k)
                if len(res["samples"]) < 3 and len(keys) in (3, 20, 60):
                    res["samples"].append(dict(sub=s.name, label=label, case=_short(case)))
        return

    try:
        ok = True
        if shard == 0:
            for ex in s.examples:
                try:
                    one(ex)
                except Violation as v:
                    res["violation"] = dict(case=ex, msg=str(v))
                    ok = False
                    break
        if ok and n > 0:
            test = given(s.strategy)(lambda case: one(case))
            test = settings(max_examples=n, deadline=None, database=None,
                            phases=[Phase.generate, Phase.shrink],
                            report_multiple_bugs=False, print_blob=False,
                            suppress_health_check=list(HealthCheck))(test)
            h = int.from_bytes(hashlib.blake2b(("%d/%s/%s/%d" % (seed, prop, s.name, shard)).encode(),
                                               digest_size=8).digest(), "big")
            test = hypothesis.seed(h)(test)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    test()
            except Violation:
                case, msg, tag = res["last_fail"]
                res["violation"] = dict(case=case, msg=msg)
            except hypothesis.errors.Flaky:
                case, msg, tag = res["last_fail"]
                # confirm in a plain run; a failure that does not repeat is a harness error
                try:
                    run_case(s.fn, case)
                except Violation as v:
                    res["violation"] = dict(case=case, msg=str(v))
                else:
                    res["harness"] = "flaky case %s: %s" % (json.dumps(case), msg)
    except OutOfBudget:
        res["out_of_budget"] = True
    except Hang:
        pass
    except HarnessError as e:
        res["harness"] = str(e)
    except BaseException:
        res["harness"] = traceback.format_exc()
    res.pop("last_fail", None)
    res["keys"] = sorted(keys)
    if not res["samples"] and keys:
        pass
    res["wall"] = time.time() - t0
    return res


def _cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as fh:
            f = fh.read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError):
        return None


def _pool(tasks, nproc, outdir, watchdog):
    """tasks: list of (key, callable). Runs each in a forked child; yields (key, result)."""
    results = {}
    pending = list(tasks)
    running = {}
    while pending or running:
        while pending and len(running) < nproc:
            key, fn = pending.pop(0)
            path = os.path.join(outdir, "res.%s.json" % "_".join(map(str, key)))
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    r = fn()
                    with open(path, "w") as fh:
                        json.dump(r, fh)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(code)
            running[pid] = (key, path)
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            for p, (key, path) in list(running.items()):
                msg = watchdog(p, key)
                if msg:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    del running[p]
                    results[key] = msg
            continue
        if pid not in running:
            continue
        key, path = running.pop(pid)
        if os.path.exists(path):
            with open(path) as fh:
                results[key] = json.load(fh)
        else:
            results[key] = dict(sub=key[0], shard=key[1], died=status)
    return results


def load_known():
    known = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("{"):
                    known.append(json.loads(line))
    return [k for k in known if k.get("status") == "known"]


def main(prop, tier, seed, replay=None, only=None, scale=1.0, nproc=8):
    import tempfile
    import shutil
    t0 = time.time()
    known = [k for k in load_known() if k["property"] == prop]
    known_tags = {k["tag"] for k in known}
    by_name = {s.name: s for s in SUBS}
    if replay:
        with open(replay) as fh:
            r = json.load(fh)
        s = by_name[r["sub"]]
        try:
            label = run_case(s.fn, r["case"])
        except Violation as v:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            print(v)
            return 1
        except Skip:
            label = "skipped"
        print("no violation (label %r)" % label)
        return 0
    outdir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(outdir, "hypothesis")
    rc = 0
    try:
        subs = [s for s in SUBS if not only or s.name in only]
        quick = tier == "quick"
        base_budget = 45.0 if quick else 420.0
        tasks = []
        for s in subs:
            budget = s.budget[0 if quick else 1] if s.budget else base_budget
            n = int((s.quick if quick else s.thorough) * scale)
            k = 1 if quick else s.shards
            for i in range(k):
                ni = max(1, n // k) if n else 0
                tasks.append(((s.name, i), (lambda s=s, i=i, ni=ni, b=budget: _run_sub(
                    s, seed, ni, b, outdir, i, known_tags, prop))))
        # longest first is unknown; keep declared order

        def cur(key):
            try:
                with open(os.path.join(outdir, "%s.%d.cur" % key)) as fh:
                    t = fh.read()
                return float(t[:21]), json.loads(t[21:])
            except (OSError, ValueError):
                return None

        def watchdog(pid, key):
            c = cur(key)
            if c is None:
                return None
            cpu = _cpu_of(pid)
            if cpu is not None and cpu - c[0] > CASE_CPU_LIMIT * 1.7:
                return dict(sub=key[0], shard=key[1], evaluations=1, skipped=0, known={}, labels={},
                            keys=[], samples=[], harness=None, out_of_budget=False, wall=0,
                            violation=dict(case=c[1], msg="no result after %g CPU seconds (native loop)" % (
                                cpu - c[0])))
            return None

        results = _pool(tasks, nproc, outdir, watchdog)
        violations, errors = [], []
        evals = skipped = 0
        per = {}
        allkeys = set()
        samples = []
        for (name, i), r in results.items():
            if "died" in r:
                c = cur((name, i))
                sig = r["died"] & 0x7F
                if sig in (signal.SIGSEGV, signal.SIGFPE, signal.SIGBUS, signal.SIGABRT) and c:
                    violations.append((name, c[1], "process died with signal %d" % sig))
                else:
                    errors.append("%s.%d: worker died, status %s" % (name, i, r["died"]))
                continue
            if r.get("harness"):
                errors.append("%s.%d: %s" % (name, i, r["harness"]))
            if r.get("violation"):
                violations.append((name, r["violation"]["case"], r["violation"]["msg"]))
            evals += r["evaluations"]
            skipped += r["skipped"]
            d = per.setdefault(name, dict(evaluations=0, nontrivial_distinct=0, skipped=0, labels={},
                                          known_finding_hits={}, out_of_budget=False, wall_s=0.0))
            d["evaluations"] += r["evaluations"]
            d["skipped"] += r["skipped"]
            ks = {name + ":" + k for k in r["keys"]}
            allkeys |= ks
            d["nontrivial_distinct"] += len(ks)
            for k, v in r["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            for k, v in r["known"].items():
                d["known_finding_hits"][k] = d["known_finding_hits"].get(k, 0) + v
            d["out_of_budget"] |= r["out_of_budget"]
            d["wall_s"] = round(max(d["wall_s"], r["wall"]), 2)
            samples += r["samples"]
        # the listed findings, each replayed on its own input
        for k in known:
            s = by_name[k["sub"]]
            try:
                run_case(s.fn, k["case"])
            except Violation as v:
                if v.tag == k["tag"]:
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                else:
                    violations.append((k["sub"], k["case"], str(v)))
            except (Skip, HarnessError) as e:
                errors.append("known finding %s: %r" % (k["tag"], e))
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        for name, case, msg in violations:
            path = os.path.join(ROOT, "replay", "%s-%s.json" % (prop, name))
            with open(path, "w") as fh:
                json.dump(dict(property=prop, sub=name, case=case, message=msg,
                               cmd="./check.sh %s --replay %s" % (prop, path)), fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s" % (name, msg.strip()[-1500:]))
            print("  case: %s" % json.dumps(case)[:1500])
        for e in errors:
            print("HARNESS-ERROR %s" % e, file=sys.stderr)
        mod = sys.modules.get("check_module")
        rule = getattr(mod, "RULE", "non-trivial as stated per sub-check")
        samples.sort(key=lambda x: x["sub"])
        seen, keep = {}, []
        for x in samples:
            if seen.get(x["sub"], 0) < 2:
                seen[x["sub"]] = seen.get(x["sub"], 0) + 1
                keep.append(x)
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(allkeys), rule=rule,
                                samples=keep[:24], skipped_out_of_domain=skipped, sub_checks=per,
                                harness_errors=len(errors)),
                  assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
                  wall_s=round(time.time() - t0, 2), violations=len(violations))
        if not only:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            tmp = os.path.join(ROOT, "evidence", prop + ".json.tmp")
            with open(tmp, "w") as fh:
                json.dump(ev, fh, indent=1)
            os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d sub-checks, %d violations, %.1fs" % (
            prop, tier, seed, evals, len(allkeys), len(subs), len(violations), time.time() - t0))
        if os.environ.get("VERIF_VERBOSE"):
            for k, d in per.items():
                print("   %-28s n=%-6d nt=%-6d skip=%-5d %6.1fs%s %s" % (
                    k, d["evaluations"], d["nontrivial_distinct"], d["skipped"], d["wall_s"],
                    " BUDGET" if d["out_of_budget"] else "", d["labels"]))
        if violations:
            rc = 1
        elif errors:
            rc = 2
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    return rc
