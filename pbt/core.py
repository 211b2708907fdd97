"""Facets, the Hypothesis driver, replay files and evidence."""

import dataclasses
import errno
import hashlib
import json
import math
import os
import random
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import types
from typing import Any, Callable, Optional

from pbt import boot

# A facet's soft wall-clock budget (seconds).  Reaching it stops generation and is
# recorded as `truncated` in the evidence: it is never a violation.
BUDGET = {"quick": 150.0, "thorough": 1500.0}
SHRINK_SECONDS = 25
# A case takes seconds.  One which is not finished after this time counts as not terminating.
HANG = {"quick": 240.0, "thorough": 900.0}


class Violation(AssertionError):
    """The property does not hold for the case at hand."""

    def __init__(self, message: str, **data: Any) -> None:
        extra = "; ".join(f"{k}={_short(v)}" for k, v in data.items())
        super().__init__(f"{message}" + (f" [{extra}]" if extra else ""))


def require(cond: Any, message: str, **data: Any) -> None:
    if not bool(cond):
        raise Violation(message, **data)


def close(actual, expected, *, rtol=0.0, atol=0.0, what="value", **data) -> None:
    """Elementwise closeness with equal shapes, NaN never accepted."""
    import numpy as np

    a = np.asarray(actual, dtype=float)
    e = np.asarray(expected, dtype=float)
    require(a.shape == e.shape, f"{what}: shape {a.shape} instead of {e.shape}", **data)
    with np.errstate(invalid="ignore"):
        ok = (np.abs(a - e) <= atol + rtol * np.abs(e)) | (a == e)
    if not ok.all():
        i = tuple(int(j) for j in np.argwhere(~ok)[0]) if a.ndim else ()
        require(
            False,
            f"{what}: got {a[i]!r}, expected {e[i]!r} (rtol={rtol}, atol={atol})",
            index=i,
            **data,
        )


def expect_raises(exc, fn: Callable, what: str, **data) -> None:
    """`fn` must reject its input with one of the exception types `exc`."""
    try:
        out = fn()
    except exc:
        return
    except Exception as e:
        if through_repo(e):
            raise Violation(f"{what}: raised {type(e).__name__} ({_short(e)}) instead of {exc}")
        raise
    require(False, f"{what}: was accepted", result=out, **data)


def _short(v: Any, n: int = 300) -> str:
    s = repr(v)
    return s if len(s) <= n else s[: n - 3] + "..."


@dataclasses.dataclass
class Facet:
    """One executable reading of a property.

    strategy: () -> Hypothesis strategy of JSON-serialisable cases
    run: case -> label of the (non-trivial) case, or None for a trivial one;
        raises Violation when the property is broken
    """

    name: str
    rule: str
    strategy: Callable[[], Any]
    run: Callable[[dict], Optional[str]]
    quick: int
    thorough: int
    shards: int = 1  # number of independently seeded processes
    examples: Optional[Callable[[], list]] = None  # cases always run, dealt to the shards
    # For expensive cases: a seeded random selection of a larger set of generated cases is
    # run (Hypothesis starts with the simplest ones), without shrinking.
    spread: bool = False


def facet(
    registry: list,
    *,
    rule: str,
    strategy,
    quick: int,
    thorough: int,
    shards: int = 1,
    examples=None,
    spread=False,
):
    def deco(fn):
        registry.append(
            Facet(
                name=fn.__name__,
                rule=rule,
                strategy=strategy,
                run=fn,
                quick=quick,
                thorough=thorough,
                shards=shards,
                examples=examples,
                spread=spread,
            )
        )
        return fn

    return deco


def through_repo(e: BaseException) -> bool:
    """Did the exception pass through code of the repository?"""
    root = os.path.realpath(boot.REPO) + os.sep
    tb = e.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            return True
        tb = tb.tb_next
    return False


TIER = "quick"  # of the worker


def tier() -> str:
    return TIER


def canonical(case: Any) -> str:
    return json.dumps(case, sort_keys=True, allow_nan=True)


RESOURCES = ("RESOURCE_EXHAUSTED", "Cannot allocate memory", "Out of memory", "No space left")


def environmental(e: BaseException) -> bool:
    """Failures which say nothing about the code: no resources, or names the harness relies on are gone."""
    from hypothesis.errors import HypothesisException

    if isinstance(e, (MemoryError, HypothesisException)):
        return True
    if isinstance(e, OSError) and e.errno in (errno.ENOMEM, errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN):
        return True
    if isinstance(e, Exception) and any(r in str(e) for r in RESOURCES):
        return True
    if through_repo(e):
        return False
    if isinstance(e, (ImportError, NameError)):
        return True
    return isinstance(e, AttributeError) and isinstance(e.obj, (types.ModuleType, type))


def run_case(fc: Facet, case: dict) -> Optional[str]:
    """Runs one case.

    On an admissible case an exception from the code under test, or from the attempt to interpret
    what it returned, is a violation; one which says nothing about the code is a harness error."""
    try:
        return fc.run(case)
    except Violation:
        raise
    except Exception as e:
        if environmental(e):
            raise
        lines = traceback.format_exception(type(e), e, e.__traceback__)
        what = "unexpected" if through_repo(e) else "the result cannot be interpreted:"
        raise Violation(
            f"{what} {type(e).__name__}: {_short(str(e))} "
            f"[{''.join(lines[-3:]).strip()[-500:]}]"
        ) from e


class Watchdog:
    """Calls `report(case)` and ends the process when a case runs for too long.

    Besides the elapsed time the process must have used the processor for a part of it (or the time
    has passed twice), so that a machine which is merely busy or was suspended does not count."""

    def __init__(self, report: Callable, seconds: float):
        self.report, self.seconds = report, seconds
        self.current = None
        self.slowest = 0.0
        self.ended = False
        threading.Thread(target=self._run, daemon=True).start()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.slowest = max(self.slowest, time.monotonic() - self.current[1])
        self.current = None

    def __call__(self, case):
        self.current = (case, time.monotonic(), time.process_time())
        return self

    def _run(self):
        while not self.ended:
            time.sleep(1.0)
            now = self.current
            if now is None:
                continue
            case, wall, cpu = now
            wall, cpu = time.monotonic() - wall, time.process_time() - cpu
            if wall > self.seconds and (cpu > 0.25 * self.seconds or wall > 2 * self.seconds):
                self.report(case, f"no result after {wall:.0f} s (cases of this check take seconds)")
                os._exit(1)


# ------------------------------------------------------------------ known findings


def load_known() -> list:
    """Entries `known: property=<id> facet=<name> match=<json subset of the case> :: <what>`.

    `fixed:` lines are documentation only, and suppress nothing."""
    out = []
    path = os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        head, what = line[len("known:"):].split("::", 1)
        fields = dict(tok.split("=", 1) for tok in head.split(None, 2))
        out.append(
            dict(
                property=fields["property"],
                facet=fields["facet"],
                case=json.loads(fields["case"]),
                what=what.strip(),
            )
        )
    return out


# ------------------------------------------------------------------ one facet


def facet_seed(seed: int, prop: str, name: str, shard: int) -> int:
    h = hashlib.sha256(f"{seed}/{prop}/{name}/{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_facet(
    prop: str, fc: Facet, tier: str, seed: int, shard: int, known: list, emit: Optional[Callable] = None
) -> dict:
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, settings

    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS

    n = fc.quick if tier == "quick" else fc.thorough
    t0 = time.time()
    budget = BUDGET[tier]
    st = dict(
        facet=fc.name,
        shard=shard,
        rule=fc.rule,
        evaluations=0,
        nontrivial=set(),
        labels={},
        samples={},
        truncated=False,
        failure=None,
        error=None,
        known=[],
    )
    best = {}  # smallest failing case seen

    def hanging(case, message):
        st["failure"] = dict(case=best.get("case", case), message=best.get("message", message))
        if emit is not None:
            emit(finish(st, t0))

    dog = Watchdog(hanging, HANG[tier])
    st["watchdog"] = dog
    known_cases = {}
    for k in known:
        if k["property"] == prop and k["facet"] == fc.name:
            known_cases[canonical(k["case"])] = k

    def body(case):
        if not best and time.time() - t0 > budget:
            st["truncated"] = True
            return
        c = canonical(case)
        if c in known_cases:
            return
        st["evaluations"] += 1
        try:
            with dog(case):
                label = run_case(fc, case)
        except Violation as v:
            size = (len(c), c)
            if "size" not in best or size < best["size"]:
                best.update(size=size, case=case, message=str(v))
            raise
        if label is not None:
            st["nontrivial"].add(hashlib.sha1(c.encode()).digest()[:8])
            st["labels"][label] = st["labels"].get(label, 0) + 1
            if len(st["samples"]) < 4 and label not in st["samples"]:
                st["samples"][label] = case

    for k in known_cases.values():
        if shard == 0:
            try:
                with dog(k["case"]):
                    run_case(fc, k["case"])
            except Violation:
                st["known"].append(k["what"])

    fixed = fc.examples()[shard :: fc.shards] if fc.examples is not None else []
    if fc.spread:
        pool = collect(fc, facet_seed(seed, prop, fc.name, shard), min(1000, 30 + 10 * n))
        random.Random(facet_seed(seed, prop, fc.name, shard)).shuffle(pool)
        fixed += pool[:n]
    if fixed:
        for case in fixed:
            try:
                body(json.loads(canonical(case)))
            except Violation:
                st["failure"] = dict(case=best["case"], message=best["message"])
            except Exception as e:
                st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
            if st["failure"] or st["error"]:
                return finish(st, t0)
    if fc.spread:
        return finish(st, t0)

    test = hypothesis.given(case=fc.strategy())(body)
    test = hypothesis.seed(facet_seed(seed, prop, fc.name, shard))(test)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
    )(test)
    try:
        test()
    except Violation:
        pass
    except BaseException as e:  # Flaky, harness errors, ...
        if not best:
            st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if best:
        st["failure"] = dict(case=best["case"], message=best["message"])
    return finish(st, t0)


def collect(fc: Facet, seed: int, n: int) -> list:
    """Distinct generated cases, which are not run."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    out = {}

    def body(case):
        out[canonical(case)] = case

    test = hypothesis.seed(seed)(hypothesis.given(case=fc.strategy())(body))
    settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=(Phase.generate,),
        suppress_health_check=list(HealthCheck),
    )(test)()
    return [out[k] for k in sorted(out)]


def finish(st: dict, t0: float) -> dict:
    st["wall_s"] = time.time() - t0
    dog = st.pop("watchdog")
    dog.ended = True
    st["slowest_s"] = dog.slowest
    st["distinct_nontrivial"] = len(st["nontrivial"])
    st["hashes"] = sorted(h.hex() for h in st.pop("nontrivial"))
    st["samples"] = [{"facet": st["facet"], "label": k, "case": v} for k, v in st["samples"].items()]
    return st


# ------------------------------------------------------------------ driver


def _truncate(v, depth=0):
    if isinstance(v, dict):
        return {k: _truncate(x, depth + 1) for k, x in v.items()}
    if isinstance(v, list):
        if len(v) > 12:
            return [_truncate(x, depth + 1) for x in v[:12]] + [f"... {len(v) - 12} more"]
        return [_truncate(x, depth + 1) for x in v]
    if isinstance(v, float) and not math.isfinite(v):
        return str(v)
    return v


def load_property(prop: str):
    import importlib

    return importlib.import_module(f"pbt.props.{prop.lower()}")


def worker_main(argv) -> int:
    """Runs jobs [(facet, shard), ...] and writes their results as JSON lines."""
    global TIER
    prop, tier, seed, jobs_json, out_path = argv
    TIER = tier
    boot.import_bmi()
    mod = load_property(prop)
    facets = {f.name: f for f in mod.FACETS}
    known = load_known()
    with open(out_path, "w") as out:


        def emit(res):
            out.write(json.dumps(res) + "\n")
            out.flush()

        for name, shard in json.loads(jobs_json):
            try:
                res = run_facet(prop, facets[name], tier, int(seed), shard, known, emit)
            except Exception:
                res = dict(facet=name, shard=shard, error=traceback.format_exc()[-4000:])
            emit(res)
    return 0


def main(argv=None) -> int:
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args(argv)
    prop, tier, seed = args.property, args.tier, args.seed
    t0 = time.time()

    if args.replay:
        return replay(prop, args.replay)

    # The parent only needs the list of facets; importing the property module is cheap
    # because property modules import the code under test lazily.
    mod = load_property(prop)
    jobs = [
        (f.name, s)
        for f in mod.FACETS
        if args.facet in (None, f.name)
        for s in range(f.shards)
    ]
    n_cpu = len(os.sched_getaffinity(0))
    n_workers = args.workers or max(1, min(len(jobs), n_cpu, getattr(mod, "WORKERS", 8)))
    buckets = [[] for _ in range(n_workers)]
    for i, job in enumerate(jobs):
        buckets[i % n_workers].append(job)

    results, errors = [], []
    with tempfile.TemporaryDirectory(prefix="bmi-pbt-") as tmp:
        procs = []
        for i, bucket in enumerate(buckets):
            out = os.path.join(tmp, f"{i}.jsonl")
            err = open(os.path.join(tmp, f"{i}.err"), "wb")
            cmd = [sys.executable, os.path.join(boot.VERIF, "check.py"), "--worker"]
            cmd += [prop, tier, str(seed), json.dumps(bucket), out]
            scratch = os.path.join(tmp, f"w{i}")
            os.mkdir(scratch)
            env = dict(os.environ, PYTHONHASHSEED="0", TMPDIR=scratch)
            p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env, cwd=scratch)
            procs.append((p, out, err, bucket))
        for p, out, err, bucket in procs:
            rc = p.wait()
            err.close()
            got = []
            if os.path.exists(out):
                got = [json.loads(line) for line in open(out)]
            results += got
            if rc != 0 or len(got) < len(bucket):
                tail = open(err.name, errors="replace").read()[-3000:]
                errors.append(f"worker for {bucket[len(got):]} ended with {rc}: {tail}")
    errors += [f"{r['facet']}: {r['error']}" for r in results if r.get("error")]
    failures = [r for r in results if r.get("failure")]

    hashes = {(r["facet"], h) for r in results for h in r.get("hashes", [])}
    labels, rules, samples = {}, {}, []
    for r in results:
        for k, v in r.get("labels", {}).items():
            key = f"{r['facet']}: {k}"
            labels[key] = labels.get(key, 0) + v
        rules[r["facet"]] = r.get("rule", "")
        if r.get("shard") == 0:
            samples += r.get("samples", [])
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(r.get("evaluations", 0) for r in results),
            distinct_nontrivial=len(hashes),
            rule=" | ".join(f"{k}: {v}" for k, v in rules.items()),
            samples=_truncate(samples),
            labels=labels,
            facets={
                r["facet"] + (f"#{r['shard']}" if r.get("shard") else ""): dict(
                    evaluations=r.get("evaluations", 0),
                    distinct_nontrivial=r.get("distinct_nontrivial", 0),
                    wall_s=round(r.get("wall_s", 0.0), 2),
                    slowest_case_s=round(r.get("slowest_s", 0.0), 2),
                    truncated=r.get("truncated", False),
                )
                for r in results
            },
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if args.verbose:
        for r in results:
            print(
                f"  {r['facet']}#{r.get('shard')}: {r.get('evaluations')} evaluations, "
                f"{r.get('distinct_nontrivial')} distinct non-trivial, {r.get('wall_s', 0):.1f}s"
                f"{' TRUNCATED' if r.get('truncated') else ''} {_short(r.get('labels'), 160)}"
            )
    for r in results:
        for what in r.get("known", []):
            print(f"KNOWN-FINDING: property={prop} {what}")
    for r in failures:
        path = write_replay(prop, tier, seed, r)
        print(f"{prop}/{r['facet']}: {r['failure']['message']}")
        print(f"  case: {_short(r['failure']['case'], 1500)}")
        print(f"VIOLATION property={prop} replay={path}")
    if failures:
        return 1
    if errors:
        for e in errors:
            print(f"ERROR property={prop} {e}", file=sys.stderr)
        return 2
    print(
        f"OK property={prop} tier={tier} seed={seed} "
        f"evaluations={evidence['coverage']['evaluations']} "
        f"distinct_nontrivial={evidence['coverage']['distinct_nontrivial']} "
        f"wall={evidence['wall_s']}s"
    )
    return 0


def write_replay(prop, tier, seed, r) -> str:
    d = os.path.join(boot.VERIF, "out", "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(
        property=prop,
        facet=r["facet"],
        case=r["failure"]["case"],
        message=r["failure"]["message"],
        replay_cmd=f"/opt/venv/bin/python /verif/check.py {prop} --replay <this file>",
        rerun_cmd=(
            f"VERIF_SEED={seed} VERIF_TIER={tier} /opt/venv/bin/python /verif/check.py {prop} "
            f"--facet {r['facet']}"
        ),
    )
    h = hashlib.sha1(canonical(body["case"]).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{r['facet']}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(prop: str, path: str) -> int:
    """Runs the stored case without Hypothesis."""
    boot.import_bmi()
    body = json.load(open(path))
    mod = load_property(prop)
    fc = {f.name: f for f in mod.FACETS}[body["facet"]]

    def violation(message):
        print(f"{prop}/{fc.name}: {message}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)

    try:
        with Watchdog(lambda _, message: violation(message), HANG["quick"])(body["case"]):
            label = run_case(fc, body["case"])
    except Violation as v:
        violation(v)
        return 1
    print(f"OK property={prop} facet={fc.name} replay={path} label={label}")
    return 0
