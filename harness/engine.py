"""Drives the generated checks of one property: shards, shrinking, evidence, replay files."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import core
from core import HarnessError, run_case

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8
TIME = {"quick": 120.0, "thorough": 780.0}        # exploration budget per property (VERIF_BUDGET overrides it)
SHRINK = {"quick": 25.0, "thorough": 120.0}      # after the first failure


def known_findings(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return {k["tag"]: k for k in json.load(f)["findings"] if k["property"] == pid}


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.cut = False

    def add(self, case, rec):
        self.evaluations += 1
        if rec.nontrivial:
            k = core.case_key(case)[:16]
            if k not in self.nontrivial:
                self.nontrivial.add(k)
                if len(self.samples) < 2:
                    self.samples.append(case)
        for k, v in rec.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v


class _Fail(Exception):
    pass


def run_shard(pid, sub, shard, tier, seed, budget, known):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st_ = Stats()
    best = {"case": None, "msg": None, "size": None, "t": None}
    t0 = time.monotonic()

    def one(case):
        rec, bad = run_case(sub, case)
        st_.add(case, rec)
        if bad is not None and bad[1] in known:
            st_.known[bad[1]] = bad[0]
            return None
        return bad

    def note(case, msg):
        size = len(json.dumps(case))
        if best["case"] is None:
            best["t"] = time.monotonic()
        if best["case"] is None or size <= best["size"]:
            best.update(case=case, msg=msg, size=size)

    if shard == 0:
        for case in sub.corners:
            bad = one(case)
            if bad is not None:
                note(case, bad[0])
                return st_, best
    total = sub.quick if tier == "quick" else sub.thorough
    n = total // sub.shards + (1 if shard < total % sub.shards else 0)
    if n == 0 or sub.strategy is None:
        return st_, best

    def body(case):
        if best["case"] is None:
            if time.monotonic() - t0 > budget:
                st_.cut = True
                return
        elif time.monotonic() - best["t"] > SHRINK[tier]:
            return
        bad = one(case)
        if bad is not None:
            note(case, bad[0])
            raise _Fail()

    test = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                    report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                    verbosity=hypothesis.Verbosity.quiet)(given(sub.strategy())(body))
    test = hypothesis.seed(derive_seed(seed, pid, sub.name, shard))(test)
    try:
        test()
    except _Fail:
        pass
    except HarnessError:
        raise
    except BaseException:
        # Flaky reports caused by the shrink time limit; the tracked case is what counts
        if best["case"] is None:
            raise
    return st_, best


def _child(conn, args):
    try:
        out = run_shard(*args)
        conn.send(("ok", out))
    except BaseException:
        conn.send(("err", traceback.format_exc()[-6000:]))
    finally:
        conn.close()
        os._exit(0)


def run_all(prop, tier, seed, known):
    """Runs all (sub, shard) tasks, up to NPROC at a time."""
    t0 = time.monotonic()
    budget = float(os.environ.get("VERIF_BUDGET", TIME[tier]))
    tasks = [(s, k) for s in prop.subs for k in range(s.shards)]
    tasks.sort(key=lambda t: -t[0].shards)
    ctx = mp.get_context("fork")
    running, results, errors = [], [], []
    hard = 2 * budget + 300
    while tasks or running:
        while tasks and len(running) < NPROC:
            sub, shard = tasks.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, (prop.id, sub, shard, tier, seed, budget, known)))
            p.start()
            b.close()
            running.append((p, a, sub, shard))
        ready = mp.connection.wait([r[1] for r in running], timeout=5)
        for r in list(running):
            p, a, sub, shard = r
            if a in ready:
                try:
                    kind, val = a.recv()
                except EOFError:
                    kind, val = "err", f"worker of {sub.name} ended without a result"
                p.join(10)
                running.remove(r)
                if kind == "ok":
                    results.append((sub, shard, val[0], val[1]))
                    if val[1]["case"] is not None:
                        tasks.clear()
                else:
                    errors.append((sub.name, val))
        if time.monotonic() - t0 > hard:
            for p, a, sub, shard in running:
                p.kill()
                errors.append((sub.name, "worker killed after the hard time limit"))
            break
    return results, errors


def load_prop(pid):
    mod = importlib.import_module("props." + pid.lower())
    return mod.PROP


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1)
    os.replace(tmp, path)


def shorten(case, limit=1500):
    s = json.dumps(case)
    return case if len(s) <= limit else s[:limit] + "..."


def main(argv):
    pid = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    real_stdout = os.dup(1)
    out = os.fdopen(real_stdout, "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)          # nothing the code under test prints may mix with our lines

    if len(argv) > 1 and argv[1] == "--replay":
        with open(argv[2]) as f:
            rep = json.load(f)
        try:
            prop = load_prop(pid)
        except Exception:
            traceback.print_exc()
            sys.exit(2)
        sub = next(s for s in prop.subs if s.name == rep["sub"])
        rec, bad = run_case(sub, rep["case"])
        if bad is None:
            out.write("replay: the property holds on this case\n")
            sys.exit(0)
        out.write(f"replay: {bad[0]}\nVIOLATION property={pid} replay={argv[2]}\n")
        sys.exit(1)

    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.monotonic()
    known = known_findings(pid)
    try:
        prop = load_prop(pid)
    except Exception:
        # importing pysad itself failed, or the harness did
        traceback.print_exc()
        sys.exit(2)
    results, errors = run_all(prop, tier, seed, known)

    ev, nt, labels, samples, kn, per_sub, cut = 0, 0, {}, [], {}, {}, []
    for sub, shard, st_, best in results:
        ev += st_.evaluations
        nt += len(st_.nontrivial)
        d = per_sub.setdefault(sub.name, {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}})
        d["evaluations"] += st_.evaluations
        d["distinct_nontrivial"] += len(st_.nontrivial)
        for k, v in st_.labels.items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if shard == 0:
            samples += [{"sub": sub.name, "case": shorten(c)} for c in st_.samples[:1]]
        kn.update(st_.known)
        if st_.cut:
            cut.append(f"{sub.name}#{shard}")
    fails = [(sub, best) for sub, _, _, best in results if best["case"] is not None]
    fails.sort(key=lambda x: (x[0].name, x[1]["size"]))

    replay = None
    if fails:
        sub, best = fails[0]
        # confirm outside hypothesis
        try:
            _, bad = run_case(sub, best["case"])
        except HarnessError as e:
            bad, errors = None, errors + [(sub.name, str(e))]
        msg = bad[0] if bad else best["msg"] + " (seen once, not on re-execution)"
        replay = os.path.join(VERIF, "replays", f"{pid}-{sub.name}.json")
        write_json(replay, {"property": pid, "sub": sub.name, "message": msg, "seed": seed,
                            "tier": tier, "case": best["case"]})
        out.write(f"{pid} {sub.name}: {msg}\n")
        out.write(f"  case: {json.dumps(best['case'])[:1500]}\n")

    write_json(os.path.join(VERIF, "evidence", pid + ".json"), {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": nt,
                     "rule": prop.rule, "samples": samples or [{"note": "no non-trivial case"}],
                     "per_sub": per_sub, "cut_by_time": cut,
                     "known_findings_seen": sorted(kn)},
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2), "violations": len(fails)})
    for tag in sorted(known):
        if tag in kn:
            out.write(f"KNOWN-FINDING: property={pid} {known[tag]['what']}\n")
    if fails:
        out.write(f"VIOLATION property={pid} replay={replay}\n")
        sys.exit(1)
    if errors:
        for name, e in errors[:3]:
            out.write(f"HARNESS ERROR in {pid} {name}:\n{e}\n")
        sys.exit(2)
    out.write(f"{pid} {tier}: held on {ev} cases ({nt} distinct non-trivial), {time.monotonic() - t0:.1f} s"
              + (f", cut by time: {cut}" if cut else "") + "\n")
    sys.exit(0)
