"""Engine shared by all the checks: build, generate, execute, validate.

A check decides one property in three steps:
  1. TLC explores the module's specification exhaustively inside small bounds
     (the design satisfies its invariants) and emits operation scripts that
     cover the transitions of the explored state graph;
  2. those scripts and seeded random scripts are executed against the real
     library, built from /repo's working tree; every call is logged;
  3. TLC validates every log against the trace specification.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
DRIVERS = os.path.join(VERIF, "drivers")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = min(8, os.cpu_count() or 1)

PLAIN_SRC = ["util", "small_features", "matras", "ibuf", "static",
             "slab_arena", "slab_cache", "mempool", "obuf", "lsregion",
             "region", "small_class", "small"]
ASAN_SRC = ["util", "small_features", "matras", "ibuf", "static",
            "slab_arena_asan", "slab_cache_asan", "mempool_asan", "obuf_asan",
            "lsregion_asan", "region_asan", "small_asan"]


class CheckError(Exception):
    """The check itself could not do its work."""


def say(*args):
    print(*args, flush=True)


# --------------------------------------------------------------------- build
def write_config(incdir, asan):
    """What CMake generates from small_config.h.cmake."""
    os.makedirs(incdir, exist_ok=True)
    src = open(os.path.join(REPO, "small", "small_config.h.cmake")).read()
    on = {"TARANTOOL_SMALL_HAVE_MAP_ANON",
          "TARANTOOL_SMALL_HAVE_MAP_ANONYMOUS",
          "TARANTOOL_SMALL_HAVE_MADVISE",
          "TARANTOOL_SMALL_HAVE_MADV_DONTDUMP"}
    if asan:
        on.add("ENABLE_ASAN")
    out = []
    for line in src.splitlines():
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)", line)
        if m:
            line = "#define %s 1" % m.group(1) if m.group(1) in on else \
                   "/* #undef %s */" % m.group(1)
        out.append(line)
    with open(os.path.join(incdir, "small_config.h"), "w") as f:
        f.write("\n".join(out) + "\n")


def run_cmd(cmd, timeout=300):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return r.returncode, r.stdout


# Drivers that ask what is left of the heap when their world is destroyed.
COUNTS_HEAP = ("slab_cache.c", "mempool.c", "small.c", "region.c", "ibuf.c",
               "obuf.c", "lsregion.c", "checked.c")
HEAP_CALLS = ("malloc", "calloc", "realloc", "aligned_alloc",
              "posix_memalign", "free")


def build(work, driver, var, sources=None):
    """Build one variant of a driver; returns the path of the binary.

    var: name, asan, cflags, ldflags, lib_cflags, cxx
    """
    vdir = os.path.join(work, "bin-%s-%s" % (driver.replace(".", "_"),
                                             var["name"]))
    os.makedirs(vdir, exist_ok=True)
    asan = var.get("asan", False)
    inc = os.path.join(vdir, "inc")
    write_config(inc, asan)
    base = ["-g", var.get("opt", "-O1"), "-w", "-fno-omit-frame-pointer",
            "-D_GNU_SOURCE", "-DNVALGRIND=1", "-I" + inc,
            "-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(REPO, "include", "small"),
            "-I" + os.path.join(REPO, "third_party"), "-I" + DRIVERS]
    if asan:
        base += ["-fsanitize=address"]
    wrap = []
    if driver in COUNTS_HEAP:
        base += ["-DDRV_HEAP"]
        wrap = ["-Wl,--wrap=" + f for f in HEAP_CALLS]
    base += var.get("cflags", [])
    if sources is None:
        sources = ASAN_SRC if asan else PLAIN_SRC
    jobs = []
    for s in sources:
        obj = os.path.join(vdir, s + ".o")
        jobs.append(["gcc", "-std=gnu99"] + base + var.get("lib_cflags", []) +
                    ["-c", os.path.join(REPO, "small", s + ".c"), "-o", obj])
    dsrc = os.path.join(DRIVERS, driver)
    cc = ["g++", "-std=gnu++17"] if driver.endswith(".cc") else \
         ["gcc", "-std=gnu11"]
    dobj = os.path.join(vdir, "driver.o")
    jobs.append(cc + base + var.get("drv_cflags", []) +
                ["-c", dsrc, "-o", dobj])
    for extra in var.get("extra_src", []):
        obj = os.path.join(vdir, os.path.basename(extra) + ".o")
        jobs.append(["gcc", "-std=gnu11"] + base + var.get("extra_cflags", []) +
                    ["-c", os.path.join(DRIVERS, extra), "-o", obj])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for cmd, (rc, out) in zip(jobs, ex.map(run_cmd, jobs)):
            if rc != 0:
                raise CheckError("cannot compile %s:\n%s" %
                                 (" ".join(cmd), out))
    objs = [j[-1] for j in jobs]
    exe = os.path.join(vdir, "driver")
    rc, out = run_cmd([cc[0]] + (["-fsanitize=address"] if asan else []) +
                      objs + wrap + var.get("ldflags", []) +
                      ["-lm", "-lpthread", "-o", exe])
    if rc != 0:
        raise CheckError("cannot link %s:\n%s" % (exe, out))
    return exe


# ----------------------------------------------------------------------- TLC
def tlc(spec, cfg, env=None, timeout=600, workers=1, mem="2500m", extra=(),
        props=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=os.environ["VERIF_WORK"])
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = (["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC"
            if workers == 1 else "-XX:+UseParallelGC",
            "-Dtlc2.tool.impl.Tool.cdot=false"] + list(props) +
           ["-cp", JARS, "tlc2.TLC", "-workers", str(workers),
            "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] +
           list(extra) + [spec])
    out = os.path.join(meta, "out.txt")
    try:
        with open(out, "w") as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e,
                               cwd=SPECS, timeout=timeout)
        text = open(out, errors="replace").read()
        return p.returncode, text
    except subprocess.TimeoutExpired:
        return None, open(out, errors="replace").read()[-4000:]
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_counts(text):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found",
                   text)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def model_check(mc, tier):
    """Explore a model. Returns (scripts, states, transitions)."""
    cfg = mc["thorough_cfg"] if tier == "thorough" and "thorough_cfg" in mc \
        else mc["cfg"]
    t0 = time.time()
    rc, text = tlc(mc["spec"] + ".tla", cfg,
                   timeout=mc.get("timeout", 800), workers=mc.get("workers", 1),
                   mem=mc.get("mem", "4g"), extra=mc.get("extra", ()))
    if rc != 0 or "No error has been found" not in text and \
            "-simulate" not in mc.get("extra", ()):
        tail = "\n".join(x for x in text.splitlines()
                         if not x.startswith('<<"SCRIPT"'))[-3000:]
        raise CheckError("TLC on %s/%s: rc=%s\n%s" % (mc["spec"], cfg, rc, tail))
    gen, dist = tlc_counts(text)
    scripts = []
    for m in re.finditer(r'^<<"SCRIPT", "(.*)">>$', text, re.M):
        scripts.append(json.loads(m.group(1).replace('\\"', '"')
                                  .replace("\\\\", "\\")))
    # A script that is a prefix of another one adds nothing.
    keys = {tuple(json.dumps(o) for o in s) for s in scripts}
    prefixes = {k[:-1] for k in keys if k}
    maximal = sorted(k for k in keys if k and k not in prefixes)
    scripts = [[json.loads(o) for o in k] for k in maximal]
    return scripts, dist, gen, time.time() - t0, cfg


# -------------------------------------------------------------------- traces
def limit_child():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(exe, script_path, trace_path, timeout=240, env=None):
    try:
        p = subprocess.run([exe, script_path, trace_path],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=limit_child,
                           cwd=os.environ["VERIF_WORK"],
                           env=dict(os.environ, **(env or {})))
        rc, err = p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    if rc in (96, 97, 98):
        raise CheckError("driver failed: rc=%s %s" % (rc, err[-500:]))
    if rc != 0:
        # Not the driver's own handler: killed or timed out.
        with open(trace_path, "a") as f:
            if os.path.getsize(trace_path) > 0:
                data = open(trace_path, "rb").read()
                if not data.endswith(b"\n"):
                    cut = data.rfind(b"\n") + 1
                    open(trace_path, "wb").write(data[:cut])
        with open(trace_path, "a") as f:
            f.write('{"op":"crash","sig":%d}\n' %
                    (rc if isinstance(rc, int) else 0))
    return err


def validate(spec, trace_path, prop, timeout=800, cfg=None, mem="2500m"):
    """Returns (accepted, line, reason, states)."""
    rc, text = tlc(spec + ".tla", (cfg or spec) + ".cfg",
                   env={"TRACE": trace_path, "PROP": prop}, timeout=timeout,
                   mem=mem)
    gen, dist = tlc_counts(text)
    if rc == 0 and "No error has been found" in text:
        return True, 0, "", dist
    stuck = re.search(r'<<"STUCK", (\d+), (\d+)>>', text)
    rej = re.findall(r'<<"REJECT", (\d+), "([^"]*)", "([^"]*)">>', text)
    inv = re.search(r"Invariant (\w+) is violated", text)
    if stuck:
        line = int(stuck.group(1))
        why = [r[2] for r in rej if int(r[0]) == line]
        return False, line, why[-1] if why else "no action of the " \
            "specification explains this event", dist
    if inv:
        # The state of the last printed step tells the line.
        ls = re.findall(r"^/\\ l = (\d+)", text, re.M)
        return False, int(ls[-1]) - 1 if ls else 0, \
            "invariant %s" % inv.group(1), dist
    raise CheckError("TLC on %s (%s): rc=%s\n%s" %
                     (spec, trace_path, rc, text[max(0, text.find("Error:") - 100):][:3000]))


def scripts_to_file(scripts, path):
    with open(path, "w") as f:
        for s in scripts:
            f.write("\n".join(s) + "\n")


def count_lines(path):
    n = 0
    with open(path, "rb") as f:
        for _ in f:
            n += 1
    return n


def script_of_line(trace_path, line, marker='"op":"init"'):
    n = 0
    with open(trace_path) as f:
        for i, t in enumerate(f, 1):
            if marker in t:
                n += 1
            if i >= line:
                break
    return n - 1


class Part:
    """A module in some of its variants, as one check needs it."""

    def __init__(self, m, variants, enforce):
        self.m = m
        self.variants = variants
        self.enforce = enforce       # value of PROP for the specification
        self.exes = {}


class Check:
    def __init__(self, prop, parts, tier, seed):
        self.prop = prop
        self.parts = parts
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        os.environ["VERIF_WORK"] = self.work
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.ops = {}
        self.violation = None
        self.lock = threading.Lock()
        self.seq = 0

    # -- one chunk of scripts: execute and validate
    def chunk(self, part, var, scripts):
        with self.lock:
            self.seq += 1
            idx = self.seq
        spec = part.m["trace"]
        exe = part.exes[var["name"]]
        base = os.path.join(self.work, "c%d" % idx)
        scripts_to_file(scripts, base + ".script")
        err = run_driver(exe, base + ".script", base + ".ndjson")
        n = count_lines(base + ".ndjson")
        if n == 0:
            raise CheckError("empty trace from %s: %s" % (exe, err[-500:]))
        ok, line, why, dist = validate(spec, base + ".ndjson", part.enforce,
                                       mem=part.m.get("trace_mem", "2500m"))
        ops = {}
        for t in open(base + ".ndjson"):
            m = re.match(r'\{"op":"(\w+)"', t)
            if m:
                ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        return dict(ok=ok, line=line, why=why, states=dist, events=n,
                    base=base, part=part, var=var, scripts=scripts, err=err,
                    ops=ops)

    def confirm(self, r):
        """Re-run a rejected chunk; a rejection has to repeat itself."""
        k = script_of_line(r["base"] + ".ndjson", r["line"],
                           r["part"].m.get("marker", '"op":"init"'))
        cands = []
        if 0 <= k < len(r["scripts"]):
            cands.append([r["scripts"][k]])
        if 0 <= k + 1 < len(r["scripts"]) and "crash" in \
                tail_line(r["base"] + ".ndjson"):
            cands.append([r["scripts"][k + 1]])
        cands.append(r["scripts"])
        for scripts in cands:
            for attempt in range(2):
                rr = self.chunk(r["part"], r["var"], scripts)
                if not rr["ok"]:
                    return rr
        return None

    def replay_file(self, r):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = {"property": self.prop, "module": r["part"].m["name"],
                "variant": r["var"]["name"], "enforce": r["part"].enforce,
                "reason": r["why"], "event": nth_line(r["base"] + ".ndjson",
                                                      r["line"]),
                "stderr": r["err"][-2000:], "scripts": r["scripts"]}
        h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()) \
            .hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        return path

    def build_part(self, part):
        for v in part.variants:
            part.exes[v["name"]] = build(
                self.work, part.m["driver"], v,
                v.get("sources", None if v.get("asan")
                      else part.m.get("sources")))

    def run(self):
        for part in self.parts:
            self.build_part(part)
        t_build = time.time() - self.t0
        rng = random.Random("%s/%s/%d" % (self.parts[0].m["name"], self.tier,
                                          self.seed))
        jobs = []      # (part, variant, scripts)
        # Specification-derived scripts.
        mcinfo = []
        mcs = [(part, mc) for part in self.parts
               for mc in part.m.get("mc", [])
               if part.enforce in mc.get("props", (part.enforce,))]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda x: model_check(x[1], self.tier), mcs))
        for (part, mc), (scripts, dist, gen, wall, cfg) in zip(mcs, res):
            self.states += dist
            self.transitions += gen
            total = len(scripts)
            limit = mc.get("limit", {}).get(self.tier)
            if limit is not None and len(
                    [p for p in self.parts if p.m.get("mc")]) > 1:
                limit //= 2
            if limit is not None and total > limit:
                scripts = rng.sample(scripts, limit)
            info = {"model": cfg, "distinct_states": dist,
                    "states_generated": gen, "wall_s": round(wall, 1),
                    "scripts_in_cover": total, "scripts_replayed": len(scripts)
                    if "convert" in mc else 0}
            mcinfo.append(info)
            if "convert" not in mc:
                continue
            conv = [mc["convert"](s) for s in scripts]
            conv = [c for c in conv if c]
            for v in part.variants:
                if mc.get("variants") is None or v["name"] in mc["variants"]:
                    per = mc.get("chunk", 400)
                    for i in range(0, len(conv), per):
                        jobs.append((part, v, conv[i:i + per]))
                    if conv and len(self.samples) < 2:
                        self.samples.append({"from": cfg,
                                             "script": conv[len(conv) // 2]})
        # Random scripts.
        rng = random.Random("%s/%s/%d/random" % (
            self.parts[0].m["name"], self.tier, self.seed))
        for part in self.parts:
            for v in part.variants:
                chunks = part.m["gen"](rng, self.tier, v)
                jobs += [(part, v, c) for c in chunks if c]
        if jobs and jobs[-1][2]:
            self.samples.append({"from": "random", "variant":
                                 jobs[-1][1]["name"],
                                 "script": jobs[-1][2][-1][:40]})
        bad = None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(self.chunk, *j) for j in jobs]
            for f in cf.as_completed(futs):
                r = f.result()
                if not r["ok"]:
                    bad = r
                    for g in futs:
                        g.cancel()
                    break
                self.states += r["states"]
                self.transitions += r["states"]
                self.traces += len(r["scripts"])
                self.events += r["events"]
                for k, n in r["ops"].items():
                    k = r["part"].m["name"] + "." + k
                    self.ops[k] = self.ops.get(k, 0) + n
                os.unlink(r["base"] + ".ndjson")
        if bad is not None:
            rr = self.confirm(bad)
            if rr is None:
                raise CheckError("rejection did not repeat: %s at %s: %s" %
                                 (bad["why"], bad["line"],
                                  nth_line(bad["base"] + ".ndjson",
                                           bad["line"])))
            self.violation = rr
        self.notes = {"models": mcinfo, "build_s": round(t_build, 1),
                      "trace_chunks": len(jobs), "events_validated":
                      self.events, "events_by_operation": self.ops,
                      "variants": [p.m["name"] + "/" + v["name"]
                                   for p in self.parts for v in p.variants]}

    def evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or [self.notes]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.parts[0].m.get("level", "model_checking"),
              "coverage": cov,
              "assumptions": self.parts[0].m.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2),
              "violations": 1 if self.violation else 0}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1)


def nth_line(path, n):
    try:
        with open(path) as f:
            for i, t in enumerate(f, 1):
                if i == n:
                    return t.strip()
    except OSError:
        pass
    return ""


def tail_line(path):
    last = ""
    with open(path) as f:
        for t in f:
            last = t
    return last


def main(prop, parts, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, parts, tier, seed)
    try:
        c.run()
        c.evidence()
        if c.violation:
            path = c.replay_file(c.violation)
            r = c.violation
            say("rejected: %s" % r["why"])
            say("event %d: %s" % (r["line"],
                                  nth_line(r["base"] + ".ndjson", r["line"])))
            if r["err"]:
                say("stderr: %s" % r["err"][-600:])
            say("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        say("OK property=%s states=%d traces=%d events=%d wall=%.1fs" %
            (prop, c.states, c.traces, c.events, time.time() - c.t0))
        return 0
    except CheckError as e:
        say("ERROR: %s" % e)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
