"""Runner: drives sub-checks with Hypothesis in worker processes, collects what
was covered, shrinks failures to a JSON case and writes a replay file.

A check module (checks/cNN.py) defines
    RULE   : text; how cases are made and when a case counts as non-trivial
    SUBS   : list of Sub
A Sub has a name, a Hypothesis strategy producing JSON-able dicts, a function
fn(case) -> tags (list of str; [] or None means trivial) which raises Violation
when the property does not hold, case counts per tier and an optional list of
fixed regression cases (found earlier, always replayed first).
"""
import hashlib
import json
import os
import shutil
import signal
import tempfile
import time
import traceback
from collections import Counter

REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = VERIF if REPO == "/repo" else REPO          # evidence and replays


class Violation(AssertionError):
    """The property does not hold for the case at hand."""


class Inconclusive(Exception):
    """The case cannot be judged (for example: a reference is unavailable)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, regress=(),
                 shards=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.regress = list(regress)
        self.shards = shards


def canon(case):
    return json.dumps(case, sort_keys=True)


def key(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()


def from_repo(exc):
    """True if the exception passed through the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/extensisq"):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
    return f"{type(exc).__name__}: {exc} at {' < '.join(reversed(where))}"


def judge(sub, case):
    """Run one case; returns (verdict, info). verdict: ok / violation / inconclusive.
    Errors of the harness itself propagate."""
    try:
        tags = sub.fn(case)
        return "ok", list(tags or [])
    except Violation as e:
        return "violation", str(e)
    except Inconclusive as e:
        return "inconclusive", str(e)
    except Exception as e:
        if from_repo(e):
            return "violation", "unexpected exception " + describe(e)
        raise


class _Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


def run_shard(prop, sub, seed, n, deadline, known, flag, case_limit=60):
    """Executed in a worker process. Clock limits exist only to guarantee an
    answer: they stop the exploration (which the evidence records), they never
    decide a case."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    st = dict(sub=sub.name, evaluations=0, inconclusive=0, tags=Counter(),
              keys=set(), samples=[], violation=None, error=None, known=[],
              slow=0, skipped=0, why=Counter())
    fails = {}
    state = dict(first=None, after=0)

    def account(case, verdict, info):
        st["evaluations"] += 1
        if verdict == "inconclusive":
            st["inconclusive"] += 1
            st["why"][info[:60]] += 1
        elif verdict == "ok" and info:
            st["keys"].add(key(case)[:16])
            st["tags"].update(info)
            if len(st["samples"]) < 3:
                st["samples"].append(case)

    def one(case):
        k = key(case)
        if state["first"] is not None:
            # shrinking: bounded, and consistent for cases already judged
            if k in fails:
                raise Violation(fails[k][1])
            state["after"] += 1
            if state["after"] > 300 or time.time() - state["first"] > 40:
                return
        elif st["slow"] > 2 or time.time() > deadline or os.path.exists(flag):
            st["skipped"] += 1
            return
        try:
            signal.alarm(case_limit)
            verdict, info = judge(sub, case)
        except _Timeout:
            st["slow"] += 1
            verdict, info = "inconclusive", "case took too long"
        finally:
            signal.alarm(0)
        if verdict == "violation" and match_known(known, prop, sub.name, case):
            st["known"].append((case, info))
            return
        if state["first"] is None:
            account(case, verdict, info)
        if verdict == "violation":
            fails[k] = (case, info)
            if state["first"] is None:
                state["first"] = time.time()
                open(flag, "w").close()
            raise Violation(info)

    try:
        if n > 0:
            @hypothesis.seed(seed)
            @settings(max_examples=n, database=None, deadline=None,
                      report_multiple_bugs=False, print_blob=False,
                      phases=[Phase.generate, Phase.shrink],
                      suppress_health_check=[HealthCheck.too_slow,
                                             HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @given(sub.strategy)
            def test(case):
                one(case)
            test()
        else:
            for case in sub.regress:
                one(case)
    except Violation:
        pass
    except BaseException as e:
        if not fails:
            st["error"] = "".join(traceback.format_exception(e))[-3000:]
    if fails:
        best = min(fails.values(), key=lambda ci: (len(canon(ci[0])), canon(ci[0])))
        # the last failing case that Hypothesis kept is the shrunk one; the
        # shortest rendering is a good stand-in and reproduces by itself
        st["violation"] = best
    st["wall"] = time.time() - t0
    st["tags"] = dict(st["tags"])
    return st


def match_known(known, prop, sub, case):
    for k in known:
        if k["property"] == prop and k.get("sub") in (None, sub):
            if all(case.get(a) == b for a, b in k["match"].items()):
                return True
    return False


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def run_check(prop, module, tier, seed, only=None, scale=1.0, workers=8, quiet=False):
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, as_completed
    t0 = time.time()
    known = load_known()
    deadline = t0 + (600 if tier == "quick" else 5 * 3600)
    flags = tempfile.mkdtemp(prefix="verif")
    tasks = []
    for si, sub in enumerate(module.SUBS):
        if only and sub.name not in only:
            continue
        n = sub.quick if tier == "quick" else sub.thorough
        n = max(1, int(n * scale))
        shards = sub.shards or (min(workers, max(1, n // 10)) if tier == "quick"
                                else workers * 2)
        base, rem = divmod(n, shards)
        if sub.regress:
            tasks.append((si, 0, 0))
        for k in range(shards):
            m = base + (k < rem)
            if m:
                s = int(hashlib.sha1(f"{seed}/{prop}/{sub.name}/{k}".encode())
                        .hexdigest()[:8], 16)
                tasks.append((si, s, m))
    results = []
    with ProcessPoolExecutor(workers, mp_context=mp.get_context("fork")) as ex:
        futs = [ex.submit(_task, prop, module.__name__, si, s, m, deadline, known,
                          os.path.join(flags, str(si)))
                for si, s, m in tasks]
        try:
            for f in as_completed(futs):
                results.append(f.result())
        except Exception as e:                       # a worker died
            print("HARNESS ERROR: worker died:", repr(e))
            os._exit(3)
    shutil.rmtree(flags, ignore_errors=True)
    evals = sum(r["evaluations"] for r in results)
    keys, tags, samples, per_sub = set(), Counter(), [], {}
    incon = sum(r["inconclusive"] for r in results)
    why, skipped = Counter(), sum(r["skipped"] for r in results)
    for r in results:
        why.update(r["why"])
        keys |= {r["sub"] + k for k in r["keys"]}
        tags.update({r["sub"] + ":" + t: c for t, c in r["tags"].items()})
        d = per_sub.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, wall=0.0))
        d["evaluations"] += r["evaluations"]
        d["wall"] = round(d["wall"] + r["wall"], 2)
    for sname in per_sub:
        per_sub[sname]["nontrivial"] = sum(1 for k in keys if k[:-16] == sname)
        for r in results:
            if r["sub"] == sname and r["samples"]:
                samples.append({"sub": sname, "case": r["samples"][0]})
                break
    viol = [r for r in results if r["violation"]]
    errs = [r for r in results if r["error"]]
    known_hits = [(r["sub"], c, i) for r in results for c, i in r["known"]]
    seen = set()
    for sname, case, info in known_hits:
        what = next(k["what"] for k in known
                    if match_known([k], prop, sname, case))
        if what not in seen:
            seen.add(what)
            print(f"KNOWN-FINDING: property={prop} {what}")
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys),
                            rule=module.RULE, samples=samples,
                            per_sub=per_sub, classes=dict(sorted(tags.items())),
                            inconclusive=incon, why_inconclusive=dict(why),
                            skipped_for_time=skipped),
              assumptions=getattr(module, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not quiet:
        print(f"{prop} tier={tier} seed={seed}: {evals} cases, {len(keys)} distinct "
              f"non-trivial, {incon} inconclusive {dict(why) if incon else ''}, "
              f"{skipped} skipped, {ev['wall_s']} s")
        for sname, d in per_sub.items():
            print("   ", sname, d)
    code = 0
    if viol:
        code = 1
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        viol.sort(key=lambda r: len(canon(r["violation"][0])))
        done = set()
        for r in viol:
            if r["sub"] in done:
                continue
            done.add(r["sub"])
            case, info = r["violation"]
            path = os.path.join(OUT, "replays", f"{prop}_{r['sub']}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, sub=r["sub"], case=case, message=info),
                          f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print("   ", r["sub"], "-", info)
    elif errs:
        code = 3
        for r in errs[:3]:
            print("HARNESS ERROR in", r["sub"], "\n", r["error"])
    return code


def _task(prop, modname, si, seed, n, deadline, known, flag):
    import importlib
    mod = importlib.import_module(modname)
    return run_shard(prop, mod.SUBS[si], seed, n, deadline, known, flag)


def replay(path):
    import importlib
    d = json.load(open(path))
    mod = importlib.import_module("checks." + d["property"].lower())
    sub = next(s for s in mod.SUBS if s.name == d["sub"])
    verdict, info = judge(sub, d["case"])
    print(verdict, info)
    if verdict == "violation":
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0
