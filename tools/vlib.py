"""Runs the specifications (TLC) and the implementation (the harness) and compares them.

gen()      scripts from a generator module (TLC's simulator)
drive()    scripts -> recorded traces of the real code
validate() traces -> which of them a trace module rejects (TLC)
model()    exhaustive check of a module (TLC)
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
VH = os.path.join(TARGET, "debug", "vh")
TLA = "/opt/veriftools/tla"
CPUS = 8


class ToolError(Exception):
    pass


def env(extra=None):
    e = dict(os.environ)
    e.update(extra or {})
    return e


def build():
    """Builds the harness with the code of /repo as it is now."""
    os.makedirs(BUILD, exist_ok=True)
    cmd = f". /opt/vp/env.sh && cd {VERIF}/harness && CARGO_TARGET_DIR={TARGET} cargo build --offline --quiet"
    r = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stderr[-3000:])


_n = [0]


def java(module, cfg, args, extra_env, heap, timeout, work, gc="-XX:+UseSerialGC", tier="1"):
    _n[0] += 1
    md = os.path.join(work, f"md{_n[0]}")
    cmd = ["java", gc, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", f"-XX:TieredStopAtLevel={tier}", f"-Xmx{heap}", "-Xss16m", "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", md, "-config", cfg] + args + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=env(extra_env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, encoding="utf-8", errors="replace", timeout=timeout)
        return r.stdout
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"TLC on {module} took longer than {timeout} s")
    finally:
        shutil.rmtree(md, ignore_errors=True)


def gen(module, envs, num, seed, work, depth=400, workers=CPUS):
    """Scripts of `num` simulated behaviours; several TLC processes with their own seeds."""
    k = max(1, min(workers, num // 20))
    parts = [num // k + (1 if i < num % k else 0) for i in range(k)]

    def one(i):
        out = java(module + ".tla", module + ".cfg", ["-simulate", f"num={parts[i]}", "-seed", str(seed * 1000 + i), "-depth", str(depth), "-workers", "1"],
                   envs, "1500m", 600, work)
        res = []
        for l in out.splitlines():
            if l.startswith('<<"SCRIPT", '):
                res.append(json.loads(json.loads(l[len('<<"SCRIPT", '):].rstrip()[:-2])))
        if not res:
            raise ToolError(f"{module} generated nothing:\n" + out[-2000:])
        return res

    with cf.ThreadPoolExecutor(k) as ex:
        return [s for r in ex.map(one, range(k)) for s in r]


def drive(mode, scripts, work, threads=CPUS, tag="", limit=40, timeout=800):
    i, o = os.path.join(work, f"{tag}in.ndjson"), os.path.join(work, f"{tag}out.ndjson")
    with open(i, "w", encoding="utf-8") as f:
        for n, s in enumerate(scripts):
            s["id"] = n + 1
            f.write(json.dumps(s) + "\n")
    mem = 14 << 30                               # the code under test may run wild
    try:
        r = subprocess.run([VH, mode, i, o, str(threads)], capture_output=True, text=True, timeout=timeout, env=env({"VH_LIMIT": str(limit)}),
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem)))
    except subprocess.TimeoutExpired:
        raise ToolError(f"harness took longer than {timeout} s")
    if r.returncode != 0:
        return None, f"harness ended with {r.returncode}: {r.stderr[-500:]}"
    return [json.loads(l) for l in open(o, encoding="utf-8")], None


def validate(module, traces, work, procs=CPUS, extra=None, timeout=800):
    """Which traces are not behaviours of the specification: {index: step}, and the numbers of states and transitions."""
    rejected, states, trans = {}, 0, 0
    good = []
    for i, t in enumerate(traces):
        if "failed" in t:
            rejected[i] = (0, t["failed"])
        elif "skipped" not in t:
            good.append(i)
    if not good:
        return rejected, 0, 0
    # big ones first, dealt out evenly
    good.sort(key=lambda i: -len(json.dumps(traces[i])))
    k = max(1, min(procs, len(good)))
    parts = [good[j::k] for j in range(k)]

    def one(j):
        f = os.path.join(work, f"t{module}{j}.json")
        with open(f, "w", encoding="utf-8") as h:
            json.dump([traces[i] for i in parts[j]], h)
        e = {"TRACES": f}
        e.update(extra or {})
        out = java(module + ".tla", module + ".cfg", ["-workers", "1", "-deadlock"], e, "3g", timeout, work)
        if f'"CHECKED {len(parts[j])}"' not in out or "Error:" in out:
            raise ToolError(f"TLC could not evaluate {module}:\n" + out[-4000:])
        rej = {parts[j][int(m.group(1)) - 1]: (int(m.group(2)), "") for m in re.finditer(r'"REJECTED (\d+) (\d+)"', out)}
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        return rej, int(m.group(2)), int(m.group(1))

    with cf.ThreadPoolExecutor(k) as ex:
        for rej, d, g in ex.map(one, range(k)):
            rejected.update(rej)
            states += d
            trans += g
    return rejected, states, trans


def model(module, cfg=None, envs=None, timeout=800, work=None, workers=CPUS, heap="8g"):
    """Exhaustive check; returns (ok, distinct states, generated states, output)."""
    out = java(module + ".tla", (cfg or module) + ".cfg", ["-workers", str(workers), "-deadlock"], envs, heap, timeout, work, gc="-XX:+UseParallelGC", tier="4")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    ok = "No error has been found" in out and m is not None
    return ok, int(m.group(2)) if m else 0, int(m.group(1)) if m else 0, out
