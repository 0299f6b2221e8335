"""
Runs one check: model check the specification, generate schedules from it, run
them against the real code, and validate what was recorded against it.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
EVIDENCE = VERIF / "evidence"
PYTHON = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VP_JOBS", "8"))


class MachineryError(Exception):
    pass


def tlc(module, cfg, work, *args, workers=1, env=None, timeout=800, heap="2g"):
    """
    Run TLC and return its output.
    """
    meta = tempfile.mkdtemp(prefix="meta-", dir=work)
    cmd = [
        "java",
        "-Xmx" + heap,
        "-Xss32m",
        "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
        "-XX:TieredStopAtLevel=4",
        "-cp",
        JAR,
        "tlc2.TLC",
        "-workers",
        str(workers),
        "-metadir",
        meta,
        "-noGenerateSpecTE",
        "-config",
        str(cfg),
        *args,
        module + ".tla",
    ]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e["TMPDIR"] = str(work)
    e.update(env or {})
    p = subprocess.run(
        [cmd[0], "-Djava.io.tmpdir=" + str(work)] + cmd[1:],
        cwd=SPEC,
        env=e,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=timeout,
        text=True,
        errors="replace",
    )
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def clean(output):
    return "\n".join(
        l
        for l in output.splitlines()
        if not re.match(r"(Parsing file|Semantic processing|Linting)", l)
    )


def model_check(work, module, cfg, workers=2, timeout=800):
    """
    Exhaustively check one configuration of the specification.
    """
    rc, out = tlc(module, cfg, work, workers=workers, timeout=timeout, heap="4g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if rc != 0 or m is None or "No error has been found" not in out:
        raise MachineryError(f"{module} {cfg}: TLC: {clean(out)[-3000:]}")
    return dict(
        config=str(cfg), transitions=int(m.group(1)), states=int(m.group(2))
    )


def generate(work, module, cfg, seed, num=None, depth=None, timeout=800, env=None):
    """
    Have the specification generate schedules.
    """
    args = []
    if num is not None:
        args = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)]
    rc, out = tlc(module, cfg, work, *args, timeout=timeout, heap="4g", env=env)
    found = []
    seen = set()
    for line in out.splitlines():
        if line.startswith('"{') and line not in seen:
            seen.add(line)
            found.append(json.loads(json.loads(line)))
    if rc != 0 or not found or "Error" in out:
        raise MachineryError(f"{module} {cfg}: TLC: {clean(out)[-3000:]}")
    return found


def maximal(schedules):
    """
    Those schedules that are not the beginning of another.
    """

    def rest(s):
        return json.dumps({k: v for k, v in s.items() if k != "ops"}, sort_keys=True)

    prefixes = set()
    for s in schedules:
        r = rest(s)
        ops = [json.dumps(o) for o in s["ops"]]
        for n in range(len(ops)):
            prefixes.add((r, tuple(ops[:n])))
    return [
        s
        for s in schedules
        if (rest(s), tuple(json.dumps(o) for o in s["ops"])) not in prefixes
    ]


class Shard:
    def __init__(self, driver, trace_module, schedules, work, n, timeout, trace_cfg=None):
        self.driver = driver
        self.trace_module = trace_module
        self.trace_cfg = trace_cfg or trace_module + ".cfg"
        self.schedules = schedules
        self.work = work
        self.n = n
        self.timeout = timeout
        self.fails = []  # (schedule index, event, clauses)
        self.events = 0
        self.broken = None

    def run(self):
        work = self.work / f"{self.driver}-{self.n}"
        work.mkdir()
        sfile, tfile = work / "schedules.ndjson", work / "trace.ndjson"
        with sfile.open("w") as f:
            for s in self.schedules:
                f.write(json.dumps(s) + "\n")
        env = dict(os.environ)
        env.update(
            HOME="/root" if os.access("/root", os.W_OK) else str(work),
            PYTHONDONTWRITEBYTECODE="1",
            VP_SCRATCH=str(work),
            TMPDIR=str(work),
            PYTHONHASHSEED="0",
        )
        with (work / "log").open("wb") as log:
            try:
                p = subprocess.run(
                    [PYTHON, str(HARNESS / self.driver), str(sfile), str(tfile)],
                    cwd=HARNESS,
                    env=env,
                    stdout=log,
                    stderr=log,
                    timeout=self.timeout,
                )
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        if rc != 0:
            tail = (work / "log").read_bytes()[-3000:].decode("utf-8", "replace")
            raise MachineryError(f"{self.driver}: exit {rc}: {tail}")
        with tfile.open() as f:
            lines = f.readlines()
        self.events = len(lines)
        owner = []
        k = -1
        for line in lines:
            if '"op": "init"' in line:
                k += 1
            owner.append(k)
        rc, out = tlc(
            self.trace_module,
            self.trace_cfg,
            work,
            env={"VP_TRACE": str(tfile)},
            timeout=self.timeout,
        )
        done = False
        for line in out.splitlines():
            if line.startswith('"FAIL '):
                d = json.loads(json.loads(line)[5:])
                i = d["line"] - 1
                self.fails.append(
                    (owner[i], json.loads(lines[i]), d["clauses"], i)
                )
            elif line.startswith('"DONE '):
                d = json.loads(json.loads(line)[5:])
                done = d["lines"] == len(lines)
        if not done:
            # The trace is not one the specification can even evaluate.
            m = re.search(r"l = (\d+)", out[out.rfind("State") :])
            i = int(m.group(1)) - 1 if m else 0
            i = min(i, len(lines) - 1)
            self.broken = (owner[i], json.loads(lines[i]), clean(out)[-2500:])
        shutil.rmtree(work, ignore_errors=True)
        return self


def tags(clause):
    return clause.split(" ", 1)[0].split(",")


def conform(work, driver, trace_module, schedules, timeout=600, jobs=None, pool=None, trace_cfg=None):
    """
    Run the schedules with the driver and validate the traces.
    """
    jobs = jobs or JOBS
    jobs = max(1, min(jobs, len(schedules)))
    shards = [
        Shard(driver, trace_module, schedules[i::jobs], Path(work), i, timeout, trace_cfg)
        for i in range(jobs)
    ]
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(Shard.run, shards))


class Known:
    """
    The committed list of genuine defects that were left in place.
    """

    def __init__(self, path=VERIF / "known-findings.txt"):
        self.entries = []
        if path.exists():
            for line in path.read_text().splitlines():
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m:
                    self.entries.append(m.groups())

    def match(self, prop, key):
        for p, k, text in self.entries:
            if p == prop and k == key:
                return text
        return None


def describe(schedule):
    s = json.dumps(schedule)
    return s if len(s) < 900 else s[:900] + "..."


def run_check(prop, tier, domain):
    """
    :param domain: An object with ``mc(tier)``, ``schedules(prop, tier, seed,
        work)`` -> list of (driver, trace module, schedules).
    """
    seed = int(os.environ.get("VERIF_SEED", "1"))
    started = time.time()
    quick = tier == "quick"
    EVIDENCE.mkdir(exist_ok=True)
    for old in EVIDENCE.glob(f"replay-{prop}-*"):
        old.unlink()
    work = Path(tempfile.mkdtemp(prefix="vp-check-"))
    try:
        with ThreadPoolExecutor(4) as ex:
            mcs = [
                ex.submit(
                    model_check, work, module, cfg, 2 if quick else 4, 800 if quick else 3600
                )
                for module, cfg in domain.mc(prop, tier)
            ]
            batches = domain.batches(prop, tier, seed, work)
            for b in batches:
                b.setdefault("timeout", 600 if quick else 3600)
            shards = []
            for batch in batches:
                shards.extend(conform(work, **batch))
            models = [f.result() for f in mcs]
    finally:
        shutil.rmtree(work, ignore_errors=True)

    violations = []
    other = {}
    for sh in shards:
        for k, event, clauses, line in sh.fails:
            for c in clauses:
                t = tags(c)
                if prop in t or "*" in t:
                    violations.append((sh, k, event, c))
                else:
                    other[c] = other.get(c, 0) + 1
        if sh.broken is not None:
            k, event, text = sh.broken
            violations.append((sh, k, event, "* the trace cannot be explained: " + text))

    known = Known()
    reported = 0
    seen = set()
    n = 0
    for sh, k, event, clause in violations:
        key = clause.split(" ", 1)[1]
        if key in seen:
            continue
        seen.add(key)
        slug = re.sub(r"[^A-Za-z0-9]+", "-", key)[:60].strip("-")
        text = known.match(prop, slug)
        if text is not None:
            print(f"KNOWN-FINDING: property={prop} {text}")
            continue
        n += 1
        if n > 5:
            continue
        path = EVIDENCE / f"replay-{prop}-{n}.json"
        path.write_text(
            json.dumps(
                dict(
                    property=prop,
                    clause=clause,
                    driver=sh.driver,
                    trace_module=sh.trace_module,
                    schedule=sh.schedules[k] if 0 <= k < len(sh.schedules) else None,
                    event=event,
                ),
                indent=1,
            )
        )
        print(f"  {clause}")
        print(f"  schedule: {describe(sh.schedules[k] if 0 <= k < len(sh.schedules) else None)}")
        print(f"VIOLATION property={prop} replay={path}")
        reported += 1

    total = sum(len(s.schedules) for s in shards)
    samples = []
    for sh in shards[:3]:
        samples.extend(sh.schedules[:1])
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=sum(m["states"] for m in models),
            transitions=sum(m["transitions"] for m in models),
            traces_validated_against_impl=total,
            events_validated=sum(s.events for s in shards),
            configurations=models,
            samples=samples,
        ),
        assumptions=domain.assumptions,
        wall_s=round(time.time() - started, 1),
        violations=reported,
    )
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")
    print(
        f"{prop} {tier}: {evidence['coverage']['states']} model states, "
        f"{total} traces with {evidence['coverage']['events_validated']} events, "
        f"{reported} violations, {evidence['wall_s']} s"
    )
    if other:
        print("  (clauses of other properties that failed: %s)" % (sorted(other),))
    return 1 if reported else 0
