"""Shared machinery: building the driver from /repo, running scenarios, running TLC, evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

class ToolError(Exception):
    """The machinery itself failed (not the code under test)."""

class BuildError(ToolError):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
            shutil.disk_usage("/dev/shm").free > 4 << 30 else None
        _scratch = tempfile.mkdtemp(prefix="verif-", dir=base)
    return _scratch

def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None

# ---------------------------------------------------------------- building
DEFS = ["-D_GNU_SOURCE", "-DHAVE_ENDIAN_H", "-DHAVE_SECURE_GETENV", "-DLIBLOC_PRIVATE",
        '-DPACKAGE_VERSION="0.9.17"', '-DLIBLOC_DEFAULT_DATABASE_PATH="/nonexistent/location.db"']
ASAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer"]

def lib_sources():
    src = os.path.join(REPO, "src")
    return sorted(os.path.join(src, f) for f in os.listdir(src)
                  if f.endswith(".c") and not f.startswith("test-"))

def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout[-4000:]))

def compile_objects(tag, flags, sources):
    d = os.path.join(scratch(), "obj-" + tag)
    os.makedirs(d, exist_ok=True)
    jobs = []
    for s in sources:
        o = os.path.join(d, os.path.basename(s) + ".o")
        jobs.append((["gcc", "-g", "-O1", "-w", "-I", os.path.join(REPO, "src")] + DEFS + flags +
                     ["-c", s, "-o", o], o))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: _run(j[0], "compiling"), jobs))
    return [j[1] for j in jobs]

WRAPS = ["-Wl,--wrap=res_query", "-Wl,--wrap=__res_query", "-Wl,--wrap=res_init", "-Wl,--wrap=__res_init",
         "-Wl,--wrap=fread"]

_driver = {}
def build_driver(kind="asan"):
    """kind: asan (normal), mmap (file mappings become exact heap blocks)"""
    if kind in _driver:
        return _driver[kind]
    objs = compile_objects("asan", ASAN, lib_sources()) if "objs" not in _driver else _driver["objs"]
    _driver["objs"] = objs
    exe = os.path.join(scratch(), "driver-" + kind)
    extra = ["-DWRAP_MMAP", "-Wl,--wrap=mmap", "-Wl,--wrap=munmap", "-Wl,--wrap=madvise",
             "-Wl,--wrap=mmap64", "-Wl,--defsym=__wrap_mmap64=__wrap_mmap"] if kind == "mmap" else []
    _run(["gcc", "-g", "-O1", "-w", "-I", os.path.join(REPO, "src")] + DEFS + ASAN + extra +
         [os.path.join(VERIF, "harness", "driver.c")] + objs + ["-lcrypto", "-lresolv"] + WRAPS +
         ["-o", exe], "linking the driver")
    _driver[kind] = exe
    return exe

# ---------------------------------------------------------------- scenarios
def pct(s):
    """a string argument for the driver"""
    if s is None:
        return "-"
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return "s:" + "".join(chr(b) if 48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122 or b in b".:/"
                          else "%%%02X" % b for b in s)

def u32(v):
    return [v >> 16, v & 0xffff]

class Scenario:
    """A script: driver commands, and the trace events made from their results.

    steps: list of (commands, make) where make(results) returns the list of trace events."""
    def __init__(self, name):
        self.name = name
        self.steps = []
        self.meta = {}
        self.files = []
        self.split = 0

    def do(self, cmd, ev=None, take=None):
        """one command, one event: ev plus the fields of the result (renamed by take)"""
        def make(res, ev=ev):
            e = dict(ev)
            for k, v in res[0].items():
                e[(take or {}).get(k, k)] = v
            return [e]
        self.steps.append(([cmd], make if ev is not None else (lambda r: [])))

    def group(self, cmds, make):
        self.steps.append((cmds, make))

    def event(self, make):
        self.steps.append(([], make))

    def commands(self):
        return [c for s in self.steps for c in s[0]]

class Outcome:
    def __init__(self, scn):
        self.scn, self.results, self.crash, self.events = scn, [], None, []

def launcher(kind):
    """the command and environment of a driver; the bindings' drivers speak the same language as driver.c"""
    if kind in ("python", "lua", "perl"):
        import bind
        script = os.path.join(VERIF, "harness", {"python": "pydrv.py", "lua": "luadrv.lua", "perl": "perldrv.pl"}[kind])
        return {"python": [bind.PY], "lua": ["lua5.4"], "perl": ["perl"]}[kind] + [script], dict(getattr(bind, kind)(1), LOCATION_CLI=bind.script())
    if kind == "importer":
        import bind
        return [bind.PY, os.path.join(VERIF, "harness", "impdrv.py")], dict(bind.python(0), IMPORTER=bind.script("location-importer"))
    return [build_driver(kind)], None

def canon(x):
    """networks of the Lua driver: text and attributes"""
    if isinstance(x, list):
        return [canon(y) for y in x]
    if isinstance(x, dict):
        if "str" in x and "cc" in x:
            import ipaddress
            bad = {"a": [0] * 8, "p": -1, "cc": x["cc"], "asn": x["asn"], "fl": x["fl"]}
            try:
                addr, p = x["str"].rsplit("/", 1)
                a = ipaddress.ip_address(addr)
                v, p = (0xffff << 32 | int(a), int(p) + 96) if a.version == 4 else (int(a), int(p))
            except ValueError:
                return bad
            if x["fam"] != (2 if v >> 32 == 0xffff else 10):
                return bad
            return dict(bad, a=[(v >> (112 - 16 * i)) & 0xffff for i in range(8)], p=p)
        return {k: canon(v) for k, v in x.items()}
    return x

def _run_batch(exe, scns, wd, env, timeout, benv=None):
    """runs scenarios in one process; continues after the one that crashed"""
    outs = {}
    todo = list(scns)
    n = crashes = 0
    while todo:
        n += 1
        script = os.path.join(wd, "script%d" % n)
        outp = os.path.join(wd, "out%d" % n)
        with open(script, "w") as f:
            for s in todo:
                f.write("scenario %s\n" % s.name)
                for c in s.commands():
                    f.write(c + "\n")
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                 "symbolize=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0",
                 DRIVER_FLUSH="1" if len(todo) == 1 else "")
        if benv:
            e = dict(benv, DRIVER_FLUSH=e["DRIVER_FLUSH"])
        if not e["DRIVER_FLUSH"]:
            del e["DRIVER_FLUSH"]
        e.update(env or {})
        errp = os.path.join(wd, "err%d" % n)
        with open(errp, "w") as ef:
            try:
                p = subprocess.run(exe + [script, outp], stdout=subprocess.DEVNULL, stderr=ef, env=e,
                                   timeout=timeout, cwd=wd)
                code = p.returncode
            except subprocess.TimeoutExpired:
                code = "timeout"
        cur, done = None, False
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith("@scenario "):
                    cur = line.split()[1]
                    outs[cur] = {"res": [], "end": False}
                elif line.startswith("@end"):
                    outs[cur]["end"] = True
                elif line.startswith("@done"):
                    done = True
                elif cur is not None and line.endswith("\n"):
                    outs[cur]["res"].append(line)
        if done and code == 0:
            break
        err = open(errp, errors="replace").read()
        if code == 97 and "DRIVER-USAGE" in err:
            raise ToolError("driver usage: " + err[-500:])
        names = [s.name for s in todo]
        if cur is None or cur not in names:
            raise ToolError("driver failed before any scenario (%s): %s" % (code, err[-2000:]))
        if outs[cur]["end"]:
            raise ToolError("driver failed between scenarios (%s): %s" % (code, err[-2000:]))
        outs[cur]["crash"] = (code, err[-6000:])
        todo = todo[names.index(cur) + 1:]
        # hanging or broken all over: enough has been seen
        crashes += 1
        if crashes >= 3 or code in ("timeout", -14):
            break
    return outs

def run_scenarios(scns, kind="asan", env=None, timeout=600, procs=None):
    """returns Outcome per scenario, in order.  The first steps (up to split) of a scenario for a binding are
    made by the C driver."""
    if kind in ("lua", "perl", "python") and any(s.split for s in scns):
        def part(s, a, b):
            t = Scenario(s.name)
            t.steps = s.steps[a:b]
            return t
        first = run_scenarios([part(s, 0, s.split) for s in scns], "asan", env, timeout, procs)
        second = run_scenarios([part(s, s.split, None) for s in scns], kind, env, timeout, procs)
        by = {o.scn.name: o for o in second}
        outs = []
        for s, f in zip(scns, first):
            if f.scn.name != s.name:
                raise ToolError("the C driver failed")
            o = by.get(s.name)
            if o is None:
                continue
            o.scn = s
            o.events = f.events + ([] if f.crash else o.events)
            o.crash = f.crash or o.crash
            outs.append(o)
        return outs
    exe, benv = launcher(kind)
    procs = procs or NCPU
    parts = [scns[i::procs] for i in range(procs) if scns[i::procs]]
    base = tempfile.mkdtemp(dir=scratch())
    def work(i):
        wd = os.path.join(base, str(i))
        os.makedirs(wd)
        return _run_batch(exe, parts[i], wd, env, timeout, benv)
    res = {}
    with ThreadPoolExecutor(procs) as ex:
        for r in ex.map(work, range(len(parts))):
            res.update(r)
    shutil.rmtree(base, ignore_errors=True)
    outs = []
    for s in scns:
        o = Outcome(s)
        r = res.get(s.name)
        if r is None:
            if not any("crash" in x for x in res.values()):
                raise ToolError("no output of scenario " + s.name)
            continue        # given up after crashes
        o.crash = r.get("crash")
        lines = r["res"]
        pos = 0
        for cmds, make in s.steps:
            if pos + len(cmds) > len(lines):
                o.events.append({"e": "crash"})
                break
            try:
                rs = [json.loads(x) for x in lines[pos:pos + len(cmds)]]
                if kind == "lua":
                    rs = canon(rs)
            except ValueError:
                o.events.append({"e": "crash"})
                break
            pos += len(cmds)
            o.results.append(rs)
            o.events.extend(make(rs))
        if o.crash and (not o.events or o.events[-1].get("e") != "crash"):
            o.events.append({"e": "crash"})
        outs.append(o)
    return outs

# ---------------------------------------------------------------- TLC
class TLCResult:
    pass

def tlc(module, cfg, env=None, workers=None, timeout=600, heap="6g", extra=None, wd=None, short=False):
    own = wd is None
    wd = wd or tempfile.mkdtemp(dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla") and not os.path.exists(os.path.join(wd, f)):
            os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
    cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e["CHARS"] = os.path.join(SPEC, "chars.json")
    e.update(env or {})
    workers = workers or NCPU
    jvm = ["-XX:+UseSerialGC"] + (["-XX:TieredStopAtLevel=1"] if short else []) if workers == 1 \
        else ["-XX:+UseParallelGC"]
    cmd = ["java", "-Djava.io.tmpdir=" + wd, "-Xmx" + heap, "-Xss64m"] + jvm + ["-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(wd, "states"), "-noGenerateSpecTE",
           "-fpmem", "0.1", "-config", cfgp] + (extra or []) + [module]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=e, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError("TLC timed out on %s" % module)
    r = TLCResult()
    r.out, r.code, r.wall = p.stdout, p.returncode, time.time() - t0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    shutil.rmtree(os.path.join(wd, "states"), ignore_errors=True)
    if own:
        shutil.rmtree(wd, ignore_errors=True)
    return r

def validate(module, cfg, traces, checked=None, env=None, timeout=800):
    """Validates traces (list of {"id":..., "ev":[...]}) and returns (rejections, states).
    rejections: list of (index, event number, positions).  TLC's workers get in each other's way on
    such models, so the traces are spread over several single-worker processes."""
    n = len(traces)
    procs = max(1, min(NCPU, n // 10))
    # deal the traces out by size
    weight = [len(json.dumps(t)) for t in traces]
    shards = [[] for _ in range(procs)]
    load = [0] * procs
    for i in sorted(range(n), key=lambda i: -weight[i]):
        k = load.index(min(load))
        shards[k].append(i)
        load[k] += weight[i] + 200
    def one(idx):
        part = [traces[i] for i in idx]
        wd = tempfile.mkdtemp(dir=scratch())
        tp = os.path.join(wd, "traces.json")
        with open(tp, "w") as f:
            json.dump(part, f)
        cp = os.path.join(wd, "checked.json")
        with open(cp, "w") as f:
            json.dump(sorted(checked or []), f)
        r = tlc(module, cfg, env=dict(env or {}, TRACES=tp, CHECKED=cp), wd=wd, timeout=timeout, workers=1,
                heap="3g", short=(sum(weight[i] for i in idx) < 3000000))
        shutil.rmtree(wd, ignore_errors=True)
        found = []
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(\{[^}]*\})', r.out):
            found.append((idx[int(m.group(1)) - 1], int(m.group(2)), m.group(3)))
        want = sum(len(t["ev"]) + 1 for t in part)
        if not found and ("Error:" in r.out or r.code != 0):
            raise ToolError("TLC failed on %s:\n%s" % (module, r.out[r.out.find("Error:"):][:3000] or r.out[-3000:]))
        if not found and r.distinct != want:
            raise ToolError("TLC explored %d states instead of %d" % (r.distinct, want))
        return found, r.distinct
    rejects, states = [], 0
    with ThreadPoolExecutor(procs) as ex:
        for found, st in ex.map(one, [s for s in shards if s]):
            rejects += found
            states += st
    return sorted(set(rejects)), states

# ---------------------------------------------------------------- results
class Check:
    """Collects what a check covered and reports."""
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.samples, self.parts, self.assumptions = [], {}, []
        self.violation = None
        self.distinct = set()

    def model(self, name, r):
        self.states += r.distinct
        self.transitions += r.generated
        self.parts[name] = {"states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)}

    def note(self, name, **kw):
        self.parts[name] = kw

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violated(self, text, payload):
        if self.violation:
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.prop, self.tier))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": text, "seed": self.seed, "case": payload}, f, indent=1,
                      default=str)
        self.violation = (text, p)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "evaluations": self.evaluations, "samples": self.samples or ["none"], "parts": self.parts}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": 1 if self.violation else 0}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violation:
            print("property %s: %s" % (self.prop, self.violation[0]))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violation[1]))
            return 1
        print("property %s held: %d model states, %d traces of the implementation validated (%.1f s)" %
              (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0

def judge(chk, label, scns, checked, module="TraceDB", cfg="TraceDB.cfg", kind="asan", env=None,
          post=None, nontrivial=None):
    """Runs the scenarios, validates the traces, confirms a rejection by running it again."""
    if chk.violation or not scns:
        return []
    t0 = time.time()
    outs = run_scenarios(scns, kind=kind, env=env)
    if post:
        for o in outs:
            post(o)
    t1 = time.time()
    checked = set(checked) | {"crash"}
    traces = [{"id": o.scn.name, "ev": o.events} for o in outs]
    rej, states = validate(module, cfg, traces, checked)
    chk.states += states
    chk.transitions += states - len(traces)
    chk.traces += len(traces)
    chk.evaluations += sum(len(o.scn.commands()) for o in outs)
    chk.parts[label] = {"scenarios": len(scns), "commands": sum(len(o.scn.commands()) for o in outs),
                        "trace_states": states, "run_s": round(t1 - t0, 1), "tlc_s": round(time.time() - t1, 1)}
    if scns:
        chk.sample({"scenario": scns[len(scns) // 2].name, "commands": scns[len(scns) // 2].commands()[:12]})
    if rej:
        i, l, pos = rej[0]
        s = outs[i].scn
        # confirm: the same scenario alone must be rejected again (what depends on the memory's
        # contents may take some attempts, or the scenarios around it)
        for attempt in range(6):
            around = [s] if attempt < 5 else scns
            again = run_scenarios(around, kind=kind, env=env, procs=1 if attempt < 5 else None)
            if post:
                for o in again:
                    post(o)
            rej2, _ = validate(module, cfg, [{"id": o.scn.name, "ev": o.events} for o in again], checked)
            if rej2:
                break
        if not rej2:
            raise ToolError("rejection of %s did not repeat" % s.name)
        s, again = again[rej2[0][0]].scn, [again[rej2[0][0]]]
        _, l, pos = rej2[0]
        o = again[0]
        ev = o.events[l - 1]
        text = "%s: scenario %s, event %d (%s) contradicts the specification" % (label, s.name, l, ev.get("e"))
        if o.crash:
            text += " [process ended: %s]" % (o.crash[0],)
        chk.violated(text, {"commands": s.commands(), "event": ev, "positions": pos, "crash": o.crash,
                            "rejected": len(rej)})
    return outs

def lemma(chk, module, cfg=None, **kw):
    """an exhaustive model that has to hold whatever the code does"""
    if chk.violation:
        return
    r = tlc(module, cfg or module + ".cfg", timeout=kw.pop("timeout", 3000), **kw)
    if "Error:" in r.out or r.code:
        raise ToolError("%s:\n%s" % (cfg or module, r.out[-2000:]))
    chk.model((cfg or module).replace(".cfg", ""), r)
