"""Runner: generated cases -> property -> evidence, replay files and verdict.

A check module builds a list of Groups.  A Group has a strategy producing JSON-able cases (or a
finite list of them) and a property `prop(case, ctx)` that raises on a violation.  Groups run on a
process pool; the verdict is deterministic in the code and VERIF_SEED.
"""

import argparse
import collections
import dataclasses
import hashlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import typing

from . import boot

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

SHRINK_SECONDS = 25.0


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The harness (not the code under test) is at fault."""


class Inconclusive(BaseException):
    """A time budget ran out: no verdict for this case."""


def check(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


@dataclasses.dataclass
class Group:
    name: str
    prop: typing.Callable
    cases: typing.Any  # hypothesis strategy, or list of cases
    n: int = 20
    cost: float = 1.0
    max_s: float = 240.0  # safety net only: beyond it the group is inconclusive


class Ctx:
    """Collects what a run covered."""

    def __init__(self):
        self.labels = collections.Counter()
        self.trivial_flag = False
        self.sub = 0

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def trivial(self, why="trivial"):
        self.trivial_flag = True
        self.labels["trivial:" + why] += 1

    def count(self, n=1):
        """Number of individual comparisons made inside a case."""
        self.sub += n


def _key(case):
    return json.dumps(case, sort_keys=True)


def _size(case):
    return len(_key(case))


def load_findings(prop):
    """Known findings: lines 'finding: property=<id> {json}' in KNOWN_FINDINGS.txt."""
    out = []
    path = os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.isfile(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) (\{.*\})\s*$", line)
            if m and m.group(1) == prop:
                out.append(json.loads(m.group(2)))
    return out


def matches(finding, group, case, msg):
    if not re.fullmatch(finding["group"], group):
        return False
    if finding.get("case") is not None:
        for k, v in finding["case"].items():
            if not isinstance(case, dict) or case.get(k) != v:
                return False
    return re.search(finding.get("message", ""), msg, re.S) is not None


def _classify(e):
    """Message for a violation; re-raises what is the harness's own fault."""
    if isinstance(e, (HarnessError, MemoryError, ImportError)):
        raise e
    if isinstance(e, (Violation, AssertionError)) and not _in_tree(e):
        return f"{e}"
    return f"{type(e).__name__}: {e}  [{_where(e)}]"


def _in_tree(e):
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and tb[-1].filename.startswith(boot.TREE)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(boot.TREE) or fr.filename.startswith(boot.VERIF):
            return f"{os.path.basename(fr.filename)}:{fr.lineno} in {fr.name}"
    return "?"


class Runner:
    def __init__(self, prop_id, tier, seed):
        self.prop_id, self.tier, self.seed = prop_id, tier, seed
        self.findings = load_findings(prop_id)

    def run_group(self, g: Group):
        res = dict(
            name=g.name, evaluations=0, nontrivial=set(), labels=collections.Counter(), samples=[],
            failure=None, known=[], error=None, inconclusive=0, subchecks=0, wall=0.0,
        )  # fmt: skip
        t0 = time.time()
        first_fail = [None]
        best = [None]
        failing = {}

        def alarm(*a):
            raise Inconclusive()

        def one(case):
            key = _key(case)
            if first_fail[0] is not None:
                if key in failing:
                    raise Violation(failing[key])
                if time.time() - first_fail[0] > SHRINK_SECONDS:
                    return
            else:
                res["evaluations"] += 1
            ctx = Ctx()
            try:
                g.prop(case, ctx)
            except Inconclusive:
                raise
            except hypothesis.errors.HypothesisException:
                raise
            except Exception as e:
                msg = _classify(e)
                for f in self.findings:
                    if matches(f, g.name, case, msg):
                        res["known"].append(f["id"])
                        return
                if first_fail[0] is None:
                    first_fail[0] = time.time()
                failing[key] = msg
                if best[0] is None or _size(case) <= _size(best[0][0]):
                    best[0] = (case, msg, traceback.format_exc()[-3000:])
                raise Violation(msg)
            if first_fail[0] is None:
                res["labels"].update(ctx.labels)
                res["subchecks"] += ctx.sub
                if not ctx.trivial_flag:
                    res["nontrivial"].add(hashlib.sha256((g.name + key).encode()).hexdigest()[:16])
                    if len(res["samples"]) < 2:
                        res["samples"].append({"group": g.name, "case": case})

        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, g.max_s)
        try:
            if isinstance(g.cases, list):
                for case in g.cases:
                    try:
                        one(case)
                    except Violation:
                        break
            else:
                h = hashlib.sha256(f"{self.seed}/{self.prop_id}/{g.name}".encode()).digest()
                # hypothesis starts with the simplest case; a small group is better spent on random ones
                skip = 1 if g.n <= 10 else 0
                skipped = []

                @hypothesis.seed(int.from_bytes(h[:6], "big"))
                @settings(
                    max_examples=g.n + skip, database=None, deadline=None, print_blob=False,
                    report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                )  # fmt: skip
                @given(g.cases)
                def test(case):
                    if skip and not skipped:
                        skipped.append(case)
                        return
                    one(case)

                try:
                    test()
                    if skipped and res["evaluations"] < g.n:
                        one(skipped[0])
                except (Violation, hypothesis.errors.Flaky, hypothesis.errors.FlakyFailure):
                    if best[0] is None:
                        raise
        except Inconclusive:
            res["inconclusive"] += 1
        except BaseException as e:  # harness trouble
            if best[0] is None:
                res["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-4000:]}"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if best[0] is not None:
            res["failure"] = dict(case=best[0][0], message=best[0][1], trace=best[0][2])
        res["nontrivial"] = sorted(res["nontrivial"])
        res["wall"] = time.time() - t0
        return res


_RUN = {}


def _init():
    boot.private_cache_dir()
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(i):
    from . import elems

    elems.clear()
    return i, _RUN["runner"].run_group(_RUN["groups"][i])


def write_replay(prop_id, group, failure):
    d = os.path.join(boot.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop_id, group=group, **failure)
    h = hashlib.sha256((group + _key(failure["case"])).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop_id}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path


def main(prop_id, make_groups, rule, assumptions=(), level="exploration", argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="regular expression on group names")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--times", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    deadline = 780 if tier == "quick" else 12 * 3600
    if tier == "thorough":
        os.environ["VERIF_TIER"] = tier

    if a.replay:
        body = json.load(open(a.replay))
        groups = {}
        for tr in ("quick", "thorough"):
            for g in make_groups(tr, seed):
                groups.setdefault(g.name, g)
        g = groups.get(body["group"])
        if g is None:
            print(f"HARNESS-ERROR: no group {body['group']}")
            return 3
        boot.private_cache_dir()
        try:
            g.prop(body["case"], Ctx())
        except Exception as e:
            print(_classify(e))
            traceback.print_exc()
            print(f"VIOLATION property={prop_id} replay={a.replay}")
            return 1
        print("replay: the property holds for this case")
        return 0

    groups = make_groups(tier, seed)
    names = [g.name for g in groups]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    if a.only:
        groups = [g for g in groups if re.search(a.only, g.name)]
    if a.list:
        for g in groups:
            print(g.name, g.n, g.cost)
        return 0
    runner = Runner(prop_id, tier, seed)
    _RUN.update(runner=runner, groups=groups)
    order = sorted(range(len(groups)), key=lambda i: -groups[i].cost)
    results = {}
    violations = []
    timed_out = False
    if a.jobs == 1:
        _init()
        for i in order:
            results[i] = _work(i)[1]
            if results[i]["failure"]:
                violations.append(i)
    else:
        ctxm = mp.get_context("fork")
        pool = ctxm.Pool(min(a.jobs, max(1, len(groups))), _init)
        it = pool.imap_unordered(_work, order, chunksize=1)
        first = None
        for _ in range(len(groups)):
            try:
                left = deadline - (time.time() - t0)
                if first is not None:
                    left = min(left, first + SHRINK_SECONDS + 15 - time.time())
                i, r = it.next(timeout=max(0.1, left))
            except mp.TimeoutError:
                timed_out = True
                break
            results[i] = r
            if r["failure"]:
                violations.append(i)
                first = first or time.time()
                if len(violations) >= 6:
                    timed_out = True
                    break
        pool.terminate()
        pool.join()

    tot = dict(
        evaluations=sum(r["evaluations"] for r in results.values()),
        distinct_nontrivial=len(set().union(*[set(r["nontrivial"]) for r in results.values()] or [set()])),
        rule=rule,
    )  # fmt: skip
    labels = collections.Counter()
    samples = []
    for i in sorted(results):
        labels.update(results[i]["labels"])
    idx = sorted(results)
    step = max(1, len(idx) // 6)
    for i in idx[::step][:8]:
        samples += results[i]["samples"][:1]
    tot["samples"] = samples
    tot["labels"] = dict(sorted(labels.items(), key=lambda kv: -kv[1])[:80])
    tot["groups"] = len(groups)
    tot["groups_finished"] = len(results)
    tot["comparisons"] = sum(r["subchecks"] for r in results.values())
    tot["inconclusive_groups"] = sorted(r["name"] for r in results.values() if r["inconclusive"])
    tot["known_finding_cases_excluded"] = sum(len(r["known"]) for r in results.values())
    errors = [r for r in results.values() if r["error"]]
    ev = dict(
        property=prop_id, tier=tier, seed=seed, level=level, coverage=tot,
        assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(violations),
    )  # fmt: skip
    if not a.only:
        os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(boot.VERIF, "evidence", f"{prop_id}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if a.times:
        for r in sorted(results.values(), key=lambda r: -r["wall"])[:25]:
            print(f"  {r['wall']:7.2f}s {r['evaluations']:5d} {r['name']}")
    print(
        f"{prop_id} {tier} seed={seed}: {tot['evaluations']} cases "
        f"({tot['distinct_nontrivial']} distinct non-trivial, {tot['comparisons']} comparisons) in "
        f"{len(results)}/{len(groups)} groups, {ev['wall_s']} s"
    )
    if tot["inconclusive_groups"]:
        print("inconclusive (time budget):", *tot["inconclusive_groups"][:20])
    for f in runner.findings:
        hit = any(f["id"] in r["known"] for r in results.values())
        if hit:
            print(f"KNOWN-FINDING: property={prop_id} {f['what']}")
    for i in violations:
        r = results[i]
        path = write_replay(prop_id, r["name"], r["failure"])
        print(f"  in {r['name']}: {r['failure']['message'][:600]}")
        print(f"  case {_key(r['failure']['case'])[:600]}")
        print(f"VIOLATION property={prop_id} replay={path}")
    if violations:
        return 1
    if errors:
        for r in errors[:5]:
            print(f"HARNESS-ERROR in {r['name']}: {r['error']}")
        return 3
    if timed_out:
        print("inconclusive: overall time budget reached before every group finished")
    return 0
