#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's working tree.

  check.py P07                    quick or thorough by VERIF_TIER, random choices by VERIF_SEED
  check.py P07 --replay FILE      runs only the case of a replay file again
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
GO = "/opt/veriftools/go1.24.13/bin/go"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1) & 0x7FFFFFFF
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT", "43200" if THOROUGH else "840"))

# Simulated host clocks and zones for P04: (seconds since 1970, TZ).
CLOCKS = [
    (1003924799, "UTC"), (1709210096, "Asia/Kolkata"), (1735664399, "Pacific/Kiritimati"),
    (1904860800, "America/St_Johns"), (4076956799, "Pacific/Pago_Pago"), (473385599, "Europe/Paris"),
    (951782399, "Asia/Tokyo"), (60, "America/New_York"),
]


def fail_infra(msg):
    print("check cannot be decided:", msg, file=sys.stderr)
    sys.exit(2)


def go_env(tmp, **extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO", "VERIF_FAKE"))}
    env.update(
        PATH=os.path.dirname(GO) + ":" + env.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local", GOPROXY="off",
        GOWORK="off", GOSUMDB="off", GOFLAGS=f"-mod=mod -modfile={tmp}/go.mod", HOME=env.get("HOME", "/root"),
        GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"), CGO_ENABLED="1", TZ="Asia/Kolkata")
    if "GOMODCACHE" in os.environ:
        env["GOMODCACHE"] = os.environ["GOMODCACHE"]
    if "GOPATH" in os.environ:
        env["GOPATH"] = os.environ["GOPATH"]
    env.update(extra)
    return env


VARIANTS = {
    "plain": [],
    "race": ["-race"],
    "re2": ["-tags", "re2_wasm"],
    "clock": [],
}


def build(tmp, variant):
    out = f"{tmp}/harness-{variant}"
    for f in ("go.mod", "go.sum"):
        if not os.path.exists(f"{tmp}/{f}"):
            shutil.copy(f"{REPO}/{f}", f"{tmp}/{f}")
    rep = {}
    src = f"{VERIF}/harness"
    for f in sorted(os.listdir(src)):
        if f.endswith(".go"):
            rep[f"{REPO}/zzverif/{f}"] = f"{src}/{f}"
    if variant == "clock":
        goroot = subprocess.run([GO, "env", "GOROOT"], env=go_env(tmp), capture_output=True, text=True).stdout.strip()
        text = open(f"{goroot}/src/time/time.go").read()
        head = "func Now() Time {\n"
        if text.count(head) != 1:
            fail_infra("time.Now not found in the standard library")
        text = text.replace(head, head + "\tif verifFake {\n\t\treturn Unix(verifSec, verifNsec)\n\t}\n")
        open(f"{tmp}/time.go", "w").write(text)
        open(f"{tmp}/verif.go", "w").write("""package time

import "syscall"

var (
	verifFake           bool
	verifSec, verifNsec int64
)

func init() {
	s, ok := syscall.Getenv("VERIF_FAKE_NOW")
	if !ok {
		return
	}
	for i := 0; i < len(s); i++ {
		verifSec = verifSec*10 + int64(s[i]-'0')
	}
	verifNsec = 250000000
	verifFake = true
}
""")
        rep[f"{goroot}/src/time/time.go"] = f"{tmp}/time.go"
        rep[f"{goroot}/src/time/verif.go"] = f"{tmp}/verif.go"
    ov = f"{tmp}/overlay-{variant}.json"
    json.dump({"Replace": rep}, open(ov, "w"))
    cmd = [GO, "build", "-overlay", ov, "-o", out] + VARIANTS[variant] + ["./zzverif"]
    r = subprocess.run(cmd, cwd=REPO, env=go_env(tmp), capture_output=True, text=True)
    if r.returncode != 0:
        fail_infra(f"build of the {variant} harness failed\n{r.stdout}{r.stderr}")
    return out


class Run:
    """One process of the harness."""

    def __init__(self, name, variant="plain", flags=(), env=None):
        self.name, self.variant, self.flags, self.env = name, variant, list(flags), env or {}


def plan(pid):
    """Returns the groups of runs of a property; the runs of a group go in parallel, and the
    outcome logs of the runs named in the second item must be equal."""
    if pid == "P01":
        return [[Run(f"shard {i}", flags=["-shard", str(i), "-shards", "8"]) for i in range(8)]], []
    if pid == "P03":
        n = 8 if THOROUGH else 4
        runs = [Run(f"process {i}", flags=["-proc", str(i), "-workers", "4"]) for i in range(n)]
        return [runs], [r.name for r in runs]
    if pid == "P04":
        cl = CLOCKS if THOROUGH else [CLOCKS[(SEED + i) % len(CLOCKS)] for i in range(4)]
        runs = [Run(f"clock {s} {tz}", "clock", ["-proc", str(i), "-workers", "4"], {"VERIF_FAKE_NOW": str(s), "TZ": tz})
                for i, (s, tz) in enumerate(cl)]
        return [runs], [r.name for r in runs]
    if pid == "P05":
        n = 24 if THOROUGH else 4
        seq = Run("sequential", "plain", ["-proc", "0", "-workers", "8"])
        runs = [Run(f"race {i}", "race", ["-proc", str(i + 1)], {"GORACE": "halt_on_error=0 exitcode=66 history_size=3", "GOMAXPROCS": str([8, 2, 4][i % 3])}) for i in range(n)]
        k = 2
        return [[seq]] + [runs[i:i + k] for i in range(0, n, k)], ["sequential"] + [r.name for r in runs]
    if pid == "P28":
        # The WebAssembly engine (a dependency) is not safe for concurrent use, nor beside finalizers:
        # many short processes, each with one goroutine and no garbage collection.
        n = 48 if THOROUGH else 8
        runs = [Run(f"re2_wasm engine {i}", "re2", ["-workers", "1", "-shard", str(i), "-shards", str(n)], {"GOGC": "off"})
                for i in range(n)]
        ref = Run("default engine", "plain", ["-workers", "8"])
        return [[ref]] + [runs[i:i + 8] for i in range(0, n, 8)], [ref.name] + [r.name for r in runs]
    return [[Run("main")]], []


def execute(tmp, pid, run, extra):
    tag = re.sub(r"\W+", "-", run.name)
    out, trace = f"{tmp}/{tag}.json", f"{tmp}/{tag}.trace"
    cmd = [f"{tmp}/harness-{run.variant}", "-prop", pid, "-seed", str(SEED), "-tier", TIER, "-corpus", f"{VERIF}/corpus",
           "-out", out] + run.flags + extra
    if "-trace" not in cmd:
        cmd += ["-trace", trace]
    limit = max(20, LIMIT - (time.time() - T0))
    err = f"{tmp}/{tag}.err"
    with open(err, "wb") as fe:
        p = subprocess.Popen(cmd, env=go_env(tmp, **run.env), stdout=fe, stderr=subprocess.STDOUT, cwd=tmp)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    text = open(err, "rb").read().decode("utf-8", "replace")
    return dict(run=run, rc=rc, text=text, out=out, trace=trace)


def main():
    pid = sys.argv[1]
    if pid == "--setup":  # nothing is kept: every check builds what it needs
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            build(tmp, "plain")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    extra, replay = [], None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        globals()["SEED"] = replay["seed"]
        globals()["TIER"] = replay["tier"]
        globals()["THOROUGH"] = replay["tier"] == "thorough"
        if replay.get("index") is not None and not replay.get("whole"):
            extra = ["-index", str(replay["index"])]
    if os.environ.get("VERIF_SCALE"):
        extra += ["-scale", os.environ["VERIF_SCALE"]]
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return check(pid, tmp, extra, replay)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def read_trace(path):
    rows = {}
    with open(path) as f:
        for line in f:
            i, key, outcome = json.loads(line)
            rows.setdefault((i, key), []).append(outcome)
    return rows


def check(pid, tmp, extra, replay):
    groups, compared = plan(pid)
    for v in dict.fromkeys(r.variant for g in groups for r in g):
        build(tmp, v)
    t_build = time.time() - T0
    results = []
    for g in groups:
        with ThreadPoolExecutor(len(g)) as ex:
            results += list(ex.map(lambda r: execute(tmp, pid, r, extra), g))
        if any(r["rc"] != 0 for r in results):
            break
    failures = []   # dicts: index, key, msg, run
    infra = []
    evals, counters, samples, distinct, rule, info, cases = 0, {}, [], [], "", {}, 0
    for r in results:
        name = r["run"].name
        races = re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", r["text"], re.S)
        for x in races[:3]:
            failures.append(dict(index=None, key="race", msg="data race reported by the race detector:\n" + x[:3000], run=name))
        if r["rc"] == "timeout":
            infra.append(f"{name}: out of time")
        elif r["rc"] in (-9, -15, 4):
            infra.append(f"{name}: exit {r['rc']}\n{r['text'][-2000:]}")
        elif r["rc"] == 3:
            m = re.search(r"VERIF-(\w+): .*", r["text"])
            failures.append(dict(index=None, key=m.group(1).lower() if m else "watchdog", msg=r["text"][:6000], run=name))
        elif r["rc"] != 0 and not races:
            failures.append(dict(index=None, key="crash", msg=f"the process died with status {r['rc']}:\n" + r["text"][:6000], run=name))
        if os.path.exists(r["out"]):
            o = json.load(open(r["out"]))
            evals += o["evaluations"]
            distinct.append(o["distinct_nontrivial"])
            rule, cases = o["rule"], o["cases"]
            for k, v in o["counters"].items():
                counters[k] = counters.get(k, 0) + v
            samples += o.get("samples") or []
            for k, v in (o.get("extra") or {}).items():
                info[k + (f" ({name})" if len(results) > 1 else "")] = v
            for f in o.get("failures") or []:
                f["run"] = name
                failures.append(f)
    done = {r["run"].name: r for r in results if os.path.exists(r["out"])}
    n_compared = 0
    if compared and all(n in done for n in compared):
        ref_name = compared[0]
        ref = read_trace(done[ref_name]["trace"])
        for n in compared[1:]:
            for key, outs in read_trace(done[n]["trace"]).items():
                want = ref.get(key)
                if want is None:
                    failures.append(dict(index=key[0], key="trace", msg=f"{n} made a call that {ref_name} did not make: {key[1]}", run=n))
                    continue
                n_compared += 1
                bad = [o for o in outs if o not in want]
                if bad:
                    failures.append(dict(index=key[0], key="differs between processes", run=n, whole=True,
                                         msg=f"{key[1]}: {want[0]} in {ref_name}, but {bad[0]} in {n}"))
    known = json.load(open(f"{VERIF}/known_findings.json"))["findings"] if os.path.exists(f"{VERIF}/known_findings.json") else []
    reported, known_hit = [], {}
    for f in failures:
        k = next((x for x in known if x["property"] == pid and x["match"] in f["msg"]), None)
        if k:
            known_hit[k["id"]] = k
        else:
            reported.append(f)
    if pid in ("P01",):
        nd = sum(distinct)
    else:
        nd = max(distinct, default=0)
    evidence = dict(property=pid, tier=TIER, seed=SEED, level="exploration", coverage=dict(
        evaluations=evals, distinct_nontrivial=nd, rule=rule, samples=samples[:12] or ["none"], cases=cases,
        processes=len(results), observed=dict(sorted(counters.items())), **info), wall_s=round(time.time() - T0, 1),
        violations=len(reported))
    evidence["coverage"]["build_s"] = round(t_build, 1)
    if compared:
        evidence["coverage"]["outcomes_compared_between_processes"] = n_compared
    if not replay:
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        json.dump(evidence, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1, ensure_ascii=False)
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for k in known:
        if k["property"] == pid and k["id"] not in known_hit:
            print(f"note: known finding {k['id']} was not seen in this run")
    if reported:
        path = f"{VERIF}/evidence/{pid}.replay.json"
        first = reported[0]
        if not replay:
            json.dump(dict(property=pid, seed=SEED, tier=TIER, index=first.get("index"), whole=bool(first.get("whole")),
                           failure=first, more=reported[1:60]), open(path, "w"), indent=1, ensure_ascii=False)
        for f in reported[:5]:
            print(f"[{f['run']}] case {f.get('index')}: {f['key']}: {f['msg'][:1500]}")
        print(f"{len(reported)} violations in {evals} evaluations")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if infra:
        fail_infra("\n".join(infra))
    if not replay and (evals == 0 or nd < 2 or (compared and n_compared == 0)):
        fail_infra("nothing was observed")
    print(f"OK property={pid} tier={TIER} seed={SEED} evaluations={evals} distinct={nd} wall={time.time()-T0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
