"""Driver for the generated checks.

A property module (props/cXX.py) provides a list of *parts*.  Every part has a
Hypothesis strategy which draws a JSON-serialisable case and a function
``check(case)`` which judges the real code on this case.  The driver

* imports flory from /repo's working tree (numba compiles it in-process, so the
  current sources are always what runs),
* warms up the JIT in the parent and forks a fixed number of workers,
* runs Hypothesis in every worker with a seed derived from VERIF_SEED,
* shrinks failures, writes the minimal case as a replay file and prints the
  VIOLATION line,
* writes evidence/<id>.json from counters measured in this very run.

Exit codes: 0 held, 1 violation, 2 error of the check itself.
"""

from __future__ import annotations

import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = 8
SHRINK_SECONDS = 40.0
#: a case which is still running after this many seconds is a hang (cases take
#: milliseconds to a few seconds on the unchanged tree)
HANG_SECONDS = 200.0


class Violation(AssertionError):
    """The code under test breaks the property on this case."""


class Trivial(Exception):
    """The case does not exercise the property (e.g. the run did not converge)."""

    def __init__(self, label: str):
        super().__init__(label)
        self.label = label


class _Stop(BaseException):
    """Leave Hypothesis (budget for shrinking or for the run is used up)."""


def ensure(cond, msg, **data):
    if not cond:
        detail = ", ".join(f"{k}={_short(v)}" for k, v in data.items())
        raise Violation(f"{msg}" + (f" [{detail}]" if detail else ""))


def _short(v):
    s = repr(v).replace("\n", " ")
    return s if len(s) < 400 else s[:400] + "..."


class Part:
    """One generated check which contributes to a property."""

    def __init__(self, name, strategy, check, quick, thorough, warmup=None,
                 nontrivial_floor=None, once=False):
        self.name = name
        self.strategy = strategy      # callable returning a Hypothesis strategy
        self.check = check            # check(case) -> None | label | list of labels
        self.quick = quick            # cases per run, split over the workers
        self.thorough = thorough
        self.warmup = warmup
        #: minimal share of non-trivial cases; below it the *property itself*
        #: ("such runs converge") is judged broken, see below
        self.nontrivial_floor = nontrivial_floor
        self.once = once


class _Rec:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.n_nontrivial = 0
        self.labels = Counter()
        self.samples = []
        self.failure = None
        self.error = None
        self.truncated = False
        self.generated = 0

    def as_dict(self):
        return self.__dict__


def case_hash(part, case):
    s = json.dumps([part, case], sort_keys=True)
    return hashlib.sha1(s.encode()).hexdigest()[:16]


def _is_code_under_test(tb_text: str) -> bool:
    return (REPO + "/flory/") in tb_text


def run_case(part: Part, case):
    """Judge one case; returns (nontrivial, labels); raises Violation."""
    try:
        labels = part.check(case)
    except Violation:
        raise
    except Trivial as t:
        return False, ["trivial:" + t.label]
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:  # crash on a legal input
        text = traceback.format_exc()
        if _is_code_under_test(text):
            last = [l.strip() for l in text.splitlines() if REPO + "/flory/" in l][-1]
            raise Violation(
                f"unexpected {type(e).__name__}: {_short(str(e))} raised from {last}"
            ) from e
        if isinstance(e, (ValueError, TypeError, IndexError, KeyError, AttributeError, ArithmeticError)):
            # the oracle could not even read the answer (wrong shape, missing
            # attribute, wrong type): the answer is not what was promised
            last = [l.strip() for l in text.splitlines() if "/props/" in l or "/lib/" in l]
            raise Violation(f"the result cannot be judged: {type(e).__name__}: {_short(str(e))} at {last[-1] if last else '?'}") from e
        raise
    if labels is None:
        labels = []
    elif isinstance(labels, str):
        labels = [labels]
    return True, list(labels)


def _drive(part: Part, seed: int, n: int, rec: _Rec, current_path, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state = {"best": None, "first_fail": None}

    def body(case):
        now = time.monotonic()
        if state["first_fail"] is None and now > deadline:
            rec.truncated = True
            raise _Stop
        if state["first_fail"] is not None and now - state["first_fail"] > SHRINK_SECONDS:
            raise _Stop
        text = json.dumps(case)
        if current_path:
            with open(current_path, "w") as f:
                f.write(json.dumps({"part": part.name, "t": time.time(), "case": case}))
        shrinking = state["first_fail"] is not None
        if not shrinking:
            rec.evaluations += 1
        try:
            nontrivial, labels = run_case(part, case)
        except Violation as v:
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
            if state["best"] is None or len(text) <= len(state["best"]["text"]):
                state["best"] = {"text": text, "case": case, "message": str(v)}
            raise
        if shrinking:
            return
        for l in labels:
            rec.labels[part.name + ":" + l] += 1
        if nontrivial:
            rec.n_nontrivial += 1
            h = case_hash(part.name, case)
            if h not in rec.nontrivial:
                rec.nontrivial.add(h)
                kept = sum(1 for s in rec.samples if s["part"] == part.name)
                if (kept == 0 or (kept < 4 and rec.n_nontrivial % 17 == 0)) and len(text) < 6000:
                    rec.samples.append({"part": part.name, "labels": labels, "case": case})

    test = given(part.strategy())(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except hypothesis.errors.Flaky as e:
        if state["best"] is None:
            raise
        state["best"]["message"] += "  (not reproduced on every repetition: " + _short(str(e)) + ")"
    except BaseExceptionGroup as e:
        if state["best"] is None:
            raise
    if state["best"] is not None:
        rec.failure = {
            "part": part.name,
            "case": state["best"]["case"],
            "message": state["best"]["message"],
        }


def _worker(idx, parts, seed, tier, out_path, current_path, deadline):
    rec = _Rec()
    try:
        for ip, part in enumerate(parts):
            total = part.quick if tier == "quick" else part.thorough
            if part.once:
                n = total if idx == ip % WORKERS else 0
            else:
                n = total // WORKERS + (1 if idx < total % WORKERS else 0)
            if n <= 0:
                continue
            s = int.from_bytes(
                hashlib.sha256(f"{seed}/{idx}/{part.name}".encode()).digest()[:6], "big"
            )
            before = rec.n_nontrivial, rec.evaluations
            _drive(part, s, n, rec, current_path, deadline)
            rec.labels["#nt:" + part.name] += rec.n_nontrivial - before[0]
            rec.labels["#ev:" + part.name] += rec.evaluations - before[1]
            if rec.failure:
                break
    except BaseException:
        rec.error = traceback.format_exc()
    with open(out_path + ".tmp", "wb") as f:
        pickle.dump(rec.as_dict(), f)
    os.rename(out_path + ".tmp", out_path)


def write_replay(prop, part, case, message, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}_{case_hash(part, case)}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "part": part, "case": case, "message": message,
                   "seed": seed, "tier": tier}, f, indent=1)
    return path


def report_violation(prop, failure, seed, tier):
    path = write_replay(prop, failure["part"], failure["case"], failure["message"], seed, tier)
    print(f"part {failure['part']}: {failure['message']}")
    print("minimal case: " + _short(json.dumps(failure["case"])))
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def known_findings():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                out.append(line.strip())
    return out


def main(prop, module, argv):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    for a in argv:
        if a in ("--thorough", "thorough"):
            tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    parts = list(module.PARTS)

    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        data = json.load(open(path))
        part = [p for p in parts if p.name == data["part"]][0]
        try:
            nt, labels = run_case(part, data["case"])
        except Violation as v:
            print(f"replayed: {v}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print(f"replay holds (nontrivial={nt}, {labels})")
        return 0

    budget = float(os.environ.get("VERIF_BUDGET", "560" if tier == "quick" else "3000"))
    deadline = t0 + budget
    scratch = os.path.join("/tmp", f"verif_{prop}_{os.getpid()}")
    os.makedirs(scratch)
    code, rec, extra = 2, _Rec(), {}
    try:
        code, rec, extra = _run(prop, module, parts, seed, tier, scratch, deadline)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    finally:
        for f in os.listdir(scratch):
            os.unlink(os.path.join(scratch, f))
        os.rmdir(scratch)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rec.evaluations,
            "distinct_nontrivial": len(rec.nontrivial),
            "rule": module.RULE,
            "samples": rec.samples[:max(6, len(parts))],
            "labels": {k: v for k, v in sorted(rec.labels.items()) if not k.startswith("#")},
            "parts": {
                p.name: {
                    "evaluations": rec.labels.get("#ev:" + p.name, 0),
                    "nontrivial": rec.labels.get("#nt:" + p.name, 0),
                }
                for p in parts
            },
            "truncated_by_time": rec.truncated,
            **extra,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if code == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{prop}: exit {code}, {rec.evaluations} cases, {len(rec.nontrivial)} distinct non-trivial, "
        f"{evidence['wall_s']} s, seed {seed}, tier {tier}"
        + (", truncated by time" if rec.truncated else "")
    )
    return code


def _run(prop, module, parts, seed, tier, scratch, deadline):
    total = _Rec()
    # warm up the JIT in the parent; a crash here on a legal input is a violation
    done = set()
    for p in parts:
        if p.warmup is None or p.warmup in done:
            continue
        done.add(p.warmup)
        try:
            p.warmup()
        except (Trivial, Violation):
            pass  # judged on generated cases below
        except Exception as e:
            text = traceback.format_exc()
            if _is_code_under_test(text):
                total.evaluations += 1
                last = [l.strip() for l in text.splitlines() if REPO + "/flory/" in l][-1]
                report_violation(prop, {
                    "part": p.name, "case": {"warmup": True},
                    "message": f"unexpected {type(e).__name__}: {_short(str(e))} raised from {last}"},
                    seed, tier)
                return 1, total, {}
            raise

    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for idx in range(WORKERS):
        out = os.path.join(scratch, f"out{idx}")
        cur = os.path.join(scratch, f"cur{idx}")
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                _worker(idx, parts, seed, tier, out, cur, deadline)
            finally:
                sys.stdout.flush()
                os._exit(0)
        procs[pid] = (idx, out, cur)

    crashes, hangs = [], []

    def kill_all():
        for p in list(procs):
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass

    pending = dict(procs)
    t_fail = None
    last_scan = time.monotonic()
    while pending:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.05)
            now = time.monotonic()
            if now - last_scan > 2.0:
                last_scan = now
                for p, (idx, out, cur) in pending.items():
                    try:
                        c = json.load(open(cur))
                    except (OSError, ValueError):
                        continue
                    if time.time() - c["t"] > HANG_SECONDS and not os.path.exists(out):
                        hangs.append(c)
                        os.kill(p, signal.SIGKILL)
            # once one worker has a failure give the others a moment, then stop
            if t_fail is not None and now - t_fail > 20.0:
                for p in pending:
                    os.kill(p, signal.SIGKILL)
                t_fail = now + 1e9
            continue
        if pid not in pending:
            continue
        idx, out, cur = pending.pop(pid)
        if os.path.exists(out):
            d = pickle.load(open(out, "rb"))
            if d["failure"] and t_fail is None:
                t_fail = time.monotonic()
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
            signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL,
        ):
            try:
                c = json.load(open(cur))
            except (OSError, ValueError):
                c = None
            crashes.append((os.WTERMSIG(status), c))
            if t_fail is None:
                t_fail = time.monotonic()

    failures, errors = [], []
    for pid, (idx, out, cur) in procs.items():
        if not os.path.exists(out):
            continue
        d = pickle.load(open(out, "rb"))
        total.evaluations += d["evaluations"]
        total.nontrivial |= d["nontrivial"]
        total.n_nontrivial += d["n_nontrivial"]
        total.labels.update(d["labels"])
        total.samples.extend(d["samples"])
        total.truncated |= d["truncated"]
        if d["failure"]:
            failures.append(d["failure"])
        if d["error"]:
            errors.append(d["error"])
    # different cases of moderate length, taking turns between the parts
    pools = {}
    for smp in total.samples:
        pools.setdefault(smp["part"], {})[case_hash(smp["part"], smp["case"])] = smp
    pools = {k: sorted(v.values(), key=lambda x: len(json.dumps(x))) for k, v in pools.items()}
    total.samples = []
    for share in (0.6, 0.4, 0.2, 0.8, 0.0, 0.5):
        for k, v in pools.items():
            smp = v[int(share * (len(v) - 1))]
            if smp not in total.samples:
                total.samples.append(smp)

    if failures:
        failures.sort(key=lambda f: len(json.dumps(f["case"])))
        report_violation(prop, failures[0], seed, tier)
        return 1, total, {}
    for sig, c in crashes:
        if c is not None:
            report_violation(prop, {"part": c["part"], "case": c["case"],
                                    "message": f"the process died with signal {sig} on this case"},
                             seed, tier)
            return 1, total, {}
    if errors:
        print("error of the check itself:", file=sys.stderr)
        print(errors[0], file=sys.stderr)
        return 2, total, {}
    if hangs:
        report_violation(prop, {"part": hangs[0]["part"], "case": hangs[0]["case"],
                                "message": f"no result after {HANG_SECONDS:g} s"}, seed, tier)
        return 1, total, {}
    # convergence floors: "ordinary systems converge" is part of those properties
    for p in parts:
        if p.nontrivial_floor is None:
            continue
        ev, nt = total.labels["#ev:" + p.name], total.labels["#nt:" + p.name]
        if ev >= 20 and nt < p.nontrivial_floor * ev:
            report_violation(prop, {
                "part": p.name, "case": {"aggregate": True},
                "message": f"only {nt} of {ev} ordinary systems reached the documented stationary state "
                           f"(at least {p.nontrivial_floor:.0%} do); "
                           + str({k: v for k, v in total.labels.items() if k.startswith(p.name + ':trivial')})},
                seed, tier)
            return 1, total, {}
    if not total.nontrivial:
        print("error of the check itself: no non-trivial case was generated", file=sys.stderr)
        return 2, total, {}
    return 0, total, {}
