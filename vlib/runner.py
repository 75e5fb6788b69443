"""Drives the checks: build, generate, run in parallel, shrink, report.

A check module (checks/Cxx.py) defines

  ID, RULE, ASSUMPTIONS, PARTS (list of Part), optionally HARNESS (list of
  HarnessPart) and HANG_IS_VIOLATION.

Every case is a JSON-able value (bytes allowed) drawn by a generator
(vlib/mini.py), so a replay file is the case itself.  `Part.run(lib, case)` returns
`(labels, nontrivial)` or raises Violation.
"""

import argparse
import collections
import hashlib
import importlib.util
import json
import mmap
import os
import re
import resource
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import ber, build, mini, snmp

VERIF = build.VERIF
JSIZE = 1 << 20
# seconds for the generated cases of one check; never reached on a healthy tree
BUDGET = {"quick": 400.0, "thorough": 4 * 3600.0}


class Violation(Exception):
    def __init__(self, msg, soft=False):
        super().__init__(msg)
        self.soft = soft


class Part:
    def __init__(self, name, strategy, run, quick, thorough=None, explicit=None, workers=8, seam=False):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = quick * 20 if thorough is None else thorough
        self.explicit = explicit
        self.workers = workers
        self.needs_seam = seam


class HarnessPart:
    """A mode of the Rust harness; args: callable tier -> list of shards,
    each a list of strings (one process each)."""

    def __init__(self, name, mode, args):
        self.name = name
        self.mode = mode
        self.args = args


# ------------------------------------------------------------------- JSON
def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"hex": bytes(x).hex()}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    raise TypeError(f"not a JSON case: {x!r}")


def dec(x):
    if isinstance(x, dict):
        if set(x) == {"hex"}:
            return bytes.fromhex(x["hex"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def dumps(case):
    return json.dumps(enc(case), separators=(",", ":"), sort_keys=True, default=str)


def load_check(cid):
    path = os.path.join(VERIF, "checks", cid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + cid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


# ----------------------------------------------------------------- journal
class Journal:
    """The case being run, in a shared file: survives the process."""

    def __init__(self, path, create=False):
        if create:
            with open(path, "wb") as fp:
                fp.truncate(JSIZE)
        self.fp = open(path, "r+b")
        self.m = mmap.mmap(self.fp.fileno(), JSIZE)
        self.n = 0

    def write(self, text):
        b = text.encode()[: JSIZE - 64]
        self.n += 1
        self.m[16 : 16 + len(b)] = b
        self.m[:16] = struct.pack("<QQ", self.n, len(b))

    def read(self):
        n, ln = struct.unpack("<QQ", self.m[:16])
        return n, bytes(self.m[16 : 16 + ln]).decode(errors="replace")


# ------------------------------------------------------------------ worker
# what the library says when the system has run out of something
RESOURCES = re.compile(r"os error (11|12|23|24|28|98|99|105)\b")


def run_once(part, lib, case, text=None):
    """Run one case; returns (labels, nontrivial); raises Violation."""
    seed = int.from_bytes(hashlib.sha256((text or dumps(case)).encode()).digest()[:8], "big")
    lib.rng.seed(seed)
    try:
        r = part.run(lib, case)
    except Violation:
        raise
    except ber.BerError as e:
        raise Violation(f"the client's datagram cannot be read: {e}", soft=True) from e
    except snmp.Harness as e:
        raise Violation(str(e), soft=True) from e
    except BaseException as e:  # noqa: BLE001
        if type(e).__name__ == "PanicException":
            raise Violation(f"a Rust panic surfaced: {e}") from e
        if isinstance(e, OSError) and e.errno is None and not RESOURCES.search(str(e)):
            # of the library, not of the system
            raise Violation(f"{type(e).__name__}: {e}", soft=True) from e
        if isinstance(e, Exception) and not isinstance(e, (OSError, MemoryError)):
            # nothing of the kind happens on correct code: the library has
            # returned or sent something that cannot be interpreted
            at = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f"{type(e).__name__}: {e} ({os.path.basename(at.filename)}:{at.lineno} {at.line})", soft=True) from e
        raise
    return r if r is not None else ([], True)


def confirmed(part, lib, case, v):
    if not v.soft:
        return True
    from . import drive

    drive.PATIENCE = 0.5
    try:
        for _ in range(2):
            try:
                run_once(part, lib, case)
                return False
            except Violation:
                continue
        return True
    finally:
        drive.PATIENCE = 0.0


class Collector:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.best = None
        self.unconfirmed = 0

    def add(self, text, labels, nontrivial):
        self.evaluations += 1
        self.labels.update(labels)
        if nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 3 and len(text) < 3000:
                    self.samples.append(json.loads(text))


def minimise(part, choices, execute):
    """Shrink; `execute` records each smaller failure as the best one."""

    def fails(case):
        try:
            execute(case)
        except Violation:
            return True
        return False

    mini.shrink(part.strategy, choices, fails)


def worker(cid, idx, spec):
    from .env import Lib

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = load_check(cid)
    lib = Lib(spec["pkg"], spec["seam"])
    lib.tier = spec["tier"]
    journal = Journal(os.path.join(spec["dir"], f"journal-{idx}"))
    results = {}
    out_path = os.path.join(spec["dir"], f"result-{idx}")
    todo = []
    for part in mod.PARTS:
        if part.name not in spec["parts"] or (part.needs_seam and not lib.rng.active):
            continue
        nw = min(part.workers, spec["workers"])
        if idx < nw:
            todo.append((part, nw))
    end = time.monotonic() + BUDGET[spec["tier"]] * min(spec["scale"], 1.0)
    for k, (part, nw) in enumerate(todo):
        # a tree that makes every case slow must not starve the later parts
        now = time.monotonic()
        stop_at = now + max(end - now, 5.0) / (len(todo) - k)
        total = int(getattr(part, spec["tier"]) * spec["scale"])
        share = total // nw + (1 if idx < total % nw else 0)
        col = Collector()
        state = {"fails": 0}

        def execute(case, part=part, col=col, state=state):
            text = dumps(case)
            journal.write(json.dumps({"part": part.name, "case": json.loads(text)}))
            try:
                labels, nt = run_once(part, lib, case, text)
            except Violation as v:
                if not confirmed(part, lib, case, v):
                    col.unconfirmed += 1
                    col.add(text, ["unconfirmed"], False)
                    if os.environ.get("VERIF_DEBUG"):
                        with open("/tmp/unconfirmed.txt", "a") as fp:
                            fp.write(f"{cid} {part.name}: {v}\n{text[:2000]}\n")
                    return
                state["fails"] += 1
                col.best = (text, str(v))
                raise
            if state["fails"] == 0:
                col.add(text, labels, nt)

        try:
            if part.explicit:
                for i, case in enumerate(part.explicit(spec["tier"])):
                    if i % nw == idx:
                        if time.monotonic() > stop_at:
                            state["cut"] = True
                            break
                        execute(case)
            if share and col.best is None and part.strategy:
                for n in range(share):
                    if time.monotonic() > stop_at:
                        state["cut"] = True
                        break
                    case, choices = mini.generate(part.strategy, f"{spec['seed']}/{cid}/{part.name}/{idx}/{n}")
                    try:
                        execute(case)
                    except Violation as v:
                        if not v.soft:
                            minimise(part, choices, execute)
                        break
        except Violation:
            pass
        results[part.name] = {
            "evaluations": col.evaluations,
            "hashes": [h.hex() for h in col.hashes],
            "labels": dict(col.labels),
            "samples": col.samples,
            "best": col.best,
            "unconfirmed": col.unconfirmed,
            "cut": bool(state.get("cut")),
        }
        if col.best is not None:
            break
    with open(out_path + ".tmp", "w") as fp:
        json.dump(results, fp)
    os.rename(out_path + ".tmp", out_path)
    sys.stdout.flush()
    os._exit(0)  # stray threads of a case must not keep the worker


def replay_worker(cid, spec, path):
    """Exit 0: held; 10: violated (message on stdout)."""
    from .env import Lib

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = load_check(cid)
    lib = Lib(spec["pkg"], spec["seam"])
    lib.tier = spec["tier"]
    with open(path) as fp:
        doc = json.load(fp)
    part = next(p for p in mod.PARTS if p.name == doc["part"])
    case = dec(doc["case"])
    try:
        run_once(part, lib, case)
    except Violation as v:
        if confirmed(part, lib, case, v):
            print(json.dumps({"violation": str(v)}))
            sys.stdout.flush()
            os._exit(10)
    os._exit(0)


# ------------------------------------------------------------------ master
def spawn(cid, spec_path, extra, log):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE="0", PYTHONHASHSEED="0")
    with open(spec_path) as fp:
        shim = json.load(fp)["shim"]
    if shim:
        env["LD_PRELOAD"] = shim
    return subprocess.Popen(
        [sys.executable, os.path.join(VERIF, "check.py"), cid, "--spec", spec_path, *extra],
        stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True,
    )


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def cpu_seconds(pid):
    try:
        with open(f"/proc/{pid}/stat") as fp:
            f = fp.read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def tail(path, n=4000):
    try:
        with open(path, errors="replace") as fp:
            return fp.read()[-n:]
    except OSError:
        return ""


def save_replay(cid, doc):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(doc, indent=1)
    path = os.path.join(d, f"{cid}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json")
    with open(path, "w") as fp:
        fp.write(text)
    return path


def known_findings(cid):
    """Entries 'known: property=<id> signature=<sig> <what>'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={cid} "):
                out.append(line.split(" ", 2)[2].strip())
    return out


class Outcome:
    def __init__(self):
        self.parts = {}
        self.violation = None  # (doc, message)
        self.errors = []


def run_replay_process(cid, spec_path, doc, limit):
    """Returns ('ok'|'violation'|'crash'|'hang', message)."""
    with open(spec_path) as fp:
        d = json.load(fp)["dir"]
    path = os.path.join(d, f"replay-{os.getpid()}-{time.monotonic_ns()}.json")
    with open(path, "w") as fp:
        json.dump(doc, fp)
    log_path = path + ".log"
    with open(log_path, "w") as log:
        p = spawn(cid, spec_path, ["--replay-case", path], log)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            kill(p)
            return "hang", f"the case did not finish within {limit} s"
    out = tail(log_path)
    if rc == 10:
        for line in reversed(out.splitlines()):
            if line.startswith('{"violation"'):
                return "violation", json.loads(line)["violation"]
        return "violation", out
    if rc == 0:
        return "ok", ""
    if rc < 0:
        return "crash", f"the process was ended by signal {-rc} ({signal.Signals(-rc).name})"
    return "error", out


def run_python_parts(cid, mod, spec, spec_path, out, only=None):
    nw = spec["workers"]
    procs = []
    for i in range(nw):
        Journal(os.path.join(spec["dir"], f"journal-{i}"), create=True)
        log = open(os.path.join(spec["dir"], f"log-{i}"), "w")
        procs.append(spawn(cid, spec_path, ["--worker", str(i)], log))
    journals = [Journal(os.path.join(spec["dir"], f"journal-{i}")) for i in range(nw)]
    seen = [(0, time.monotonic())] * nw
    hang_s = getattr(mod, "HANG_S", 100)
    live = set(range(nw))
    try:
        while live and out.violation is None:
            time.sleep(0.05)
            for i in list(live):
                rc = procs[i].poll()
                if rc is None:
                    n, _ = journals[i].read()
                    if n != seen[i][0]:
                        seen[i] = (n, time.monotonic())
                    elif time.monotonic() - seen[i][1] > hang_s and n:
                        cpu = cpu_seconds(procs[i].pid)
                        kill(procs[i])
                        live.discard(i)
                        handle_death(cid, mod, spec_path, journals[i], out, f"hang (cpu {cpu:.0f} s)", hang_s)
                    continue
                live.discard(i)
                path = os.path.join(spec["dir"], f"result-{i}")
                if rc == 0 and os.path.exists(path):
                    with open(path) as fp:
                        merge(out, json.load(fp))
                elif rc < 0:
                    handle_death(cid, mod, spec_path, journals[i], out, f"signal {-rc}", hang_s)
                else:
                    out.errors.append(
                        f"worker {i} ended with {rc}:\n" + tail(os.path.join(spec["dir"], f"log-{i}"))
                    )
                if out.violation:
                    break
    finally:
        for p in procs:
            if p.poll() is None:
                kill(p)


def handle_death(cid, mod, spec_path, journal, out, how, hang_s):
    _, text = journal.read()
    try:
        doc = json.loads(text)
    except ValueError:
        out.errors.append(f"worker died ({how}) with an unreadable journal")
        return
    for _ in range(2):
        kind, msg = run_replay_process(cid, spec_path, doc, hang_s)
        if kind in ("crash", "violation"):
            out.violation = (doc, msg)
            return
        if kind == "hang":
            if getattr(mod, "HANG_IS_VIOLATION", False):
                out.violation = (doc, msg)
            else:
                out.errors.append(f"hang: {msg}: {text[:500]}")
            return
    out.errors.append(f"worker died ({how}); its last case does not reproduce it: {text[:800]}")


def merge(out, results):
    for name, r in results.items():
        p = out.parts.setdefault(
            name, {"evaluations": 0, "hashes": set(), "labels": collections.Counter(), "samples": [], "unconfirmed": 0}
        )
        p["cut"] = p.get("cut", False) or r["cut"]
        p["evaluations"] += r["evaluations"]
        p["hashes"].update(r["hashes"])
        p["labels"].update(r["labels"])
        p["unconfirmed"] += r["unconfirmed"]
        if len(p["samples"]) < 3:
            p["samples"] += r["samples"][: 3 - len(p["samples"])]
        if r["best"] and out.violation is None:
            out.violation = ({"part": name, "case": json.loads(r["best"][0])}, r["best"][1])


def run_harness_parts(cid, mod, binary, tier, seed, out, workers):
    """Each shard prints one JSON object: evaluations, distinct_nontrivial,
    labels, samples, violation."""
    limit = 300 if tier == "quick" else 4 * 3600
    for hp in getattr(mod, "HARNESS", []):
        shards = hp.args(tier)
        p = out.parts.setdefault(
            hp.name,
            {"evaluations": 0, "distinct": 0, "hashes": set(), "labels": collections.Counter(), "samples": [], "unconfirmed": 0},
        )
        queue = list(enumerate(shards))
        running = []
        while (queue or running) and out.violation is None:
            while queue and len(running) < workers:
                i, a = queue.pop(0)
                a = [str(seed * 1000 + i), *a]
                running.append(
                    (a, subprocess.Popen(
                        [binary, hp.mode, "--seed", *a],
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                    ))
                )
            a, pr = running.pop(0)
            try:
                so, se = pr.communicate(timeout=limit)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.communicate()
                out.errors.append(f"harness {hp.mode} {a}: no answer in {limit} s")
                continue
            try:
                r = json.loads(so.strip().splitlines()[-1])
            except (ValueError, IndexError):
                # a crash of the code under test: the harness names its case
                named = [x[5:] for x in se.splitlines() if x.startswith("CASE ")]
                if named:
                    again = [hp.mode, "--replay", named[-1]]
                    rc = subprocess.run([binary, *again], capture_output=True, text=True, timeout=100)
                    if '"violation":null' not in rc.stdout:
                        out.violation = (
                            {"part": hp.name, "harness": again},
                            (
                                "the code under test does not return"
                                if pr.returncode == 114
                                else f"the code under test is ended by signal {pr.returncode - 100}"
                            )
                            + f" on {named[-1]}",
                        )
                        continue
                if pr.returncode < 0:
                    out.violation = (
                        {"part": hp.name, "harness": [hp.mode, "--seed", str(a[0]), *a[1:]]},
                        f"harness ended by signal {-pr.returncode}: {se[-600:]}",
                    )
                else:
                    out.errors.append(f"harness {hp.mode} {a} rc={pr.returncode}: {so[-500:]} {se[-1500:]}")
                continue
            p["evaluations"] += r["evaluations"]
            p["distinct"] += r["distinct_nontrivial"]
            p["labels"].update(r.get("labels", {}))
            if len(p["samples"]) < 3:
                p["samples"] += r.get("samples", [])[: 3 - len(p["samples"])]
            if r.get("violation"):
                out.violation = (
                    {"part": hp.name, "harness": [hp.mode, "--replay", r["violation"]["case"]]},
                    r["violation"]["message"],
                )
        for _, pr in running:
            pr.kill()
            pr.communicate()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--part", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--spec")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--replay-case")
    a = ap.parse_args()
    if a.spec:
        with open(a.spec) as fp:
            spec = json.load(fp)
        try:
            if a.replay_case:
                replay_worker(a.check, spec, a.replay_case)
            worker(a.check, a.worker, spec)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(3)
    sys.exit(master(a))


def master(a):
    t0 = time.time()
    cid = a.check
    mod = load_check(cid)
    a.workers = getattr(mod, "WORKERS", a.workers)
    tier = "thorough" if a.tier == "thorough" else "quick"
    want_hx = bool(getattr(mod, "HARNESS", None)) and not a.no_harness
    try:
        b = build.build(ext=True, harness=want_hx)
    except build.BuildError as e:
        print(f"ERROR: /repo does not build\n{e}")
        return 2
    tmp = os.path.join(build.BUILD, f"run-{cid}-{os.getpid()}")
    os.makedirs(tmp)
    out = Outcome()
    spec = {
        "pkg": b["pkg"], "seam": b["seam"], "tier": tier, "seed": a.seed,
        "workers": a.workers, "dir": tmp, "scale": a.scale, "shim": b["shim"],
        "parts": a.part or [p.name for p in mod.PARTS],
    }
    spec_path = os.path.join(tmp, "spec.json")
    with open(spec_path, "w") as fp:
        json.dump(spec, fp)
    try:
        if a.replay:
            return do_replay(a, cid, mod, b, spec_path)
        if want_hx and b["harness"] and not a.part:
            run_harness_parts(cid, mod, b["harness"], tier, a.seed, out, a.workers)
        elif want_hx and b["harness"]:
            keep = [h for h in mod.HARNESS if h.name in a.part]
            mod.HARNESS = keep
            run_harness_parts(cid, mod, b["harness"], tier, a.seed, out, a.workers)
        if out.violation is None and mod.PARTS:
            run_python_parts(cid, mod, spec, spec_path, out)
        return report(a, cid, mod, b, tier, out, t0)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
        if b["pkg"]:
            shutil.rmtree(b["pkg"], ignore_errors=True)


def do_replay(a, cid, mod, b, spec_path):
    with open(a.replay) as fp:
        doc = json.load(fp)
    if "harness" in doc:
        r = subprocess.run([b["harness"], *doc["harness"]], capture_output=True, text=True)
        print(r.stdout[-2000:], r.stderr[-2000:])
        bad = r.returncode < 0 or '"violation":{' in r.stdout or "\nCASE " in r.stderr
        msg = r.stdout[-300:]
    else:
        kind, msg = run_replay_process(cid, spec_path, {"part": doc["part"], "case": doc["case"]}, getattr(mod, "HANG_S", 100))
        print(kind, msg)
        bad = kind in ("violation", "crash") or (kind == "hang" and getattr(mod, "HANG_IS_VIOLATION", False))
    if bad:
        print(f"VIOLATION property={cid} replay={os.path.abspath(a.replay)}")
        return 1
    return 0


def report(a, cid, mod, b, tier, out, t0):
    parts = {}
    ev = dn = 0
    samples = []
    for name, p in out.parts.items():
        d = p.get("distinct", 0) + len(p["hashes"])
        parts[name] = {
            "evaluations": p["evaluations"],
            "distinct_nontrivial": d,
            "classes": dict(p["labels"].most_common(60)),
        }
        if p.get("cut"):
            parts[name]["stopped_by_time_budget"] = True
        if p["unconfirmed"]:
            parts[name]["unconfirmed_soft_alarms"] = p["unconfirmed"]
        ev += p["evaluations"]
        dn += d
        samples += [{"part": name, "case": s} for s in p["samples"][:2]]
    known = known_findings(cid)
    doc = {
        "property": cid,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": dn,
            "rule": mod.RULE,
            "samples": samples[:10],
            "parts": parts,
            "build_s": b["build_s"],
            "rng_seam": b["seam"],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if out.violation else 0,
    }
    if getattr(mod, "HARNESS", None):
        doc["coverage"]["rust_harness"] = "built" if b["harness"] else "not built: " + str(b["harness_error"])[-800:]
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, cid + ".json"), "w") as fp:
        json.dump(doc, fp, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={cid} {k}")
    print(f"{cid} {tier} seed={a.seed}: {ev} cases, {dn} distinct non-trivial, {doc['wall_s']} s (build {b['build_s']} s)")
    for name, p in parts.items():
        print(f"  {name}: {p['evaluations']} / {p['distinct_nontrivial']} " + json.dumps(p["classes"])[:900])
    if out.violation:
        case, msg = out.violation
        case = dict(case)
        case["property"] = cid
        case["message"] = msg
        path = save_replay(cid, case)
        print(f"  {msg[:1500]}")
        print(f"VIOLATION property={cid} replay={path}")
        return 1
    if out.errors:
        for e in out.errors:
            print("ERROR: " + e)
        return 2
    return 0
