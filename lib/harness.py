"""Runs the legs of a property over generated cases, shrinks failures, writes the evidence file."""
import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from lib import choices

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8
GUARD_S = 30
MAX_LINES = 20_000_000


class Violation(Exception):
    """The code under test broke the property on this case."""


class Leg:
    """One way of deciding a property: a generator of cases and an oracle."""

    name = "main"
    quick = 1000
    thorough = 20000
    rule = ""
    exhaustive = None  # an iterable factory instead of gen
    observed = []  # what check() saw, for the evidence

    def gen(self, ch, tier):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError

    def nontrivial(self, case):
        return True

    def labels(self, case):
        return ()

    def sample(self, case):
        return case

    def key(self, case):
        return case


class _Guard(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Guard()


def run_check(leg, case, guard_s=GUARD_S):
    """None, or the message of the violation."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, guard_s)
    try:
        try:
            leg.check(case)
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        return str(e) or "violated"
    except _Guard:
        return _confirm_hang(leg, case)


def _confirm_hang(leg, case):
    """The clock decides nothing: count executed lines instead."""
    count = 0

    def local(frame, event, arg):
        nonlocal count
        count += 1
        if count > MAX_LINES:
            sys.settrace(None)
            raise _Guard()
        return local

    sys.settrace(local)
    try:
        leg.check(case)
        return None
    except Violation as e:
        return str(e) or "violated"
    except _Guard:
        return "no answer after {} executed lines".format(MAX_LINES)
    finally:
        sys.settrace(None)


def digest(obj):
    return hashlib.blake2b(
        json.dumps(obj, sort_keys=True, ensure_ascii=True).encode(), digest_size=8
    ).digest()


def setup_process(scratch):
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "pycache")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import warnings

    warnings.simplefilter("ignore")


def make_scratch():
    return tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("VERIF_TMP"))


def _generate(leg, tier, ch):
    return leg.gen(ch, tier)


def _shard(prop, tier, seed, shard, scratch, deadline, conn):
    try:
        conn.send(("ok", _shard_body(prop, tier, seed, shard, scratch, deadline)))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()


def _shard_body(prop, tier, seed, shard, scratch, deadline):
    scratch = os.path.join(scratch, "shard%d" % shard)
    os.mkdir(scratch)
    os.environ["VERIF_SCRATCH"] = scratch
    setup_process(scratch)
    from lib import registry

    out = {"legs": {}, "violation": None}
    for leg in registry.legs(prop):
        stats = {
            "evaluations": 0,
            "discarded": 0,
            "nontrivial": set(),
            "labels": {},
            "samples": [],
            "completed": True,
        }
        out["legs"][leg.name] = stats
        for case, taken, index in _cases(leg, tier, seed, shard):
            if time.time() > deadline:
                stats["completed"] = False
                break
            if case is None:
                stats["discarded"] += 1
                continue
            stats["evaluations"] += 1
            leg.observed = []
            if leg.nontrivial(case):
                key = digest(leg.key(case))
                if key not in stats["nontrivial"]:
                    stats["nontrivial"].add(key)
                    n = len(stats["nontrivial"])
                    if n in (3, 30, 300):
                        stats["samples"].append(leg.sample(case))
            message = run_check(leg, case)
            for label in set(leg.labels(case)) | set(leg.observed):
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            if message is not None:
                out["violation"] = _minimise(
                    prop, leg, tier, seed, shard, index, case, taken, message
                )
                return out
    return out


def _cases(leg, tier, seed, shard):
    if leg.exhaustive is not None:
        for index, case in enumerate(leg.exhaustive(tier)):
            if index % SHARDS == shard:
                yield case, None, index
        return
    total = leg.quick if tier == "quick" else leg.thorough
    for index in range(shard, total, SHARDS):
        ch = choices.from_seed("case", seed, leg.prop, leg.name, index)
        yield _generate(leg, tier, ch), ch.taken, index


def _minimise(prop, leg, tier, seed, shard, index, case, taken, message):
    best = {"case": case, "message": message}
    origin = {"seed": seed, "shard": shard, "index": index, "tier": tier}
    if taken is not None:
        stop = time.time() + (45 if tier == "quick" else 180)

        def still_fails(seq):
            ch = choices.Choices(None, seq)
            try:
                cand = _generate(leg, tier, ch)
            except Exception:
                return None
            if cand is None:
                return None
            got = run_check(leg, cand, guard_s=5)
            if got is None:
                return None
            best["case"], best["message"] = cand, got
            best["taken"] = list(ch.taken)
            return ch.taken

        kept = choices.shrink(taken, still_fails, lambda: time.time() > stop)
        ch = choices.Choices(None, kept)
        cand = _generate(leg, tier, ch)
        got = run_check(leg, cand, guard_s=10) if cand is not None else None
        if got is not None:
            best["case"], best["message"] = cand, got
        else:
            best["case"], best["message"] = case, message
    return {
        "property": prop,
        "leg": leg.name,
        "case": best["case"],
        "message": best["message"],
        "origin": origin,
    }


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property={} ".format(prop)):
                    found.append(json.loads(line.split(" ", 2)[2]))
    return found


def run_property(prop, tier, seed):
    start = time.time()
    from lib import registry_meta

    meta = registry_meta.META[prop]
    cap = 240 if tier == "quick" else 820
    deadline = start + cap
    scratch = make_scratch()
    try:
        results, errors = [], []
        ctx = multiprocessing.get_context("fork")
        procs = []
        for shard in range(SHARDS):
            parent, child = ctx.Pipe(duplex=False)
            proc = ctx.Process(
                target=_shard, args=(prop, tier, seed, shard, scratch, deadline, child)
            )
            proc.start()
            child.close()
            procs.append((proc, parent))
        for proc, parent in procs:
            try:
                kind, value = parent.recv()
            except EOFError:
                kind, value = "error", "a shard died without an answer"
            proc.join()
            (results if kind == "ok" else errors).append(value)
        violations = [r["violation"] for r in results if r["violation"]]
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        wall = time.time() - start
        write_evidence(prop, tier, seed, meta, results, violations, wall)
        if violations:
            report(prop, violations[0], scratch)
            return 1
        if errors:
            sys.stderr.write(errors[0])
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(prop, tier, seed, meta, results, violations, wall):
    legs = {}
    samples = []
    evaluations = nontrivial = 0
    for name in results[0]["legs"] if results else []:
        parts = [r["legs"][name] for r in results if name in r["legs"]]
        distinct = set().union(*(p["nontrivial"] for p in parts))
        labels = {}
        for p in parts:
            for k, v in p["labels"].items():
                labels[k] = labels.get(k, 0) + v
        n = sum(p["evaluations"] for p in parts)
        legs[name] = {
            "cases": n,
            "discarded": sum(p["discarded"] for p in parts),
            "distinct_nontrivial_cases": len(distinct),
            "labels": dict(sorted(labels.items())),
            "completed": all(p["completed"] for p in parts),
        }
        evaluations += n
        nontrivial += len(distinct)
        got = [{"leg": name, "case": s} for p in parts for s in p["samples"]]
        samples += sorted(got, key=lambda s: len(json.dumps(s)))[:3]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": meta["rule"],
            "samples": samples,
            "legs": legs,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    path = os.path.join(VERIF, "evidence")
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")


def report(prop, violation, scratch):
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    name = "{}-{}.json".format(prop, digest(violation["case"]).hex())
    path = os.path.join(replays, name)
    with open(path, "w") as f:
        json.dump(violation, f, indent=1, ensure_ascii=True)
    done = subprocess.run(
        [sys.executable, os.path.join(VERIF, "check.py"), prop, "--replay", path],
        capture_output=True,
        text=True,
    )
    if done.returncode != 1:
        # it needs what ran before it in the same process
        violation["needs_history"] = True
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, ensure_ascii=True)
    print(json.dumps(violation["case"], indent=1, ensure_ascii=True)[:6000])
    print(violation["message"][:6000])
    print("VIOLATION property={} replay={}".format(prop, path))


def replay(prop, path):
    with open(path) as f:
        saved = json.load(f)
    scratch = make_scratch()
    try:
        os.environ["VERIF_SCRATCH"] = scratch
        setup_process(scratch)
        from lib import registry

        leg = next(l for l in registry.legs(prop) if l.name == saved["leg"])
        message = None
        if saved.get("needs_history"):
            o = saved["origin"]
            for case, _, index in _cases(leg, o["tier"], o["seed"], o["shard"]):
                if case is not None:
                    message = run_check(leg, case)
                if message is not None or index >= o["index"]:
                    break
        else:
            message = run_check(leg, saved["case"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if message is None:
        print("the property held on this case")
        return 0
    print(message)
    print("VIOLATION property={} replay={}".format(prop, path))
    return 1


def check_known(prop):
    """Prints the listed findings that still fail."""
    for entry in load_known(prop):
        scratch = make_scratch()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.environ["VERIF_SCRATCH"] = scratch
                setup_process(scratch)
                from lib import registry

                leg = next(l for l in registry.legs(prop) if l.name == entry["leg"])
                code = 0 if run_check(leg, entry["case"]) is None else 1
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        shutil.rmtree(scratch, ignore_errors=True)
        if os.waitstatus_to_exitcode(status) == 1:
            print("KNOWN-FINDING: property={} {}".format(prop, entry["what"]))
