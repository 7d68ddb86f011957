"""C12, C13: updates and downloads."""
import email.utils, gzip, itertools, json, lzma, os, random, re, shutil, socket, struct, subprocess, threading, time
from common import *
from common import _run
from p_db import size
import bind, p_sign
from p_image import Img

# ------------------------------------------------------------- databases
BASE = 1500000000
AT = {10: BASE, 11: BASE + 1, 12: BASE + 2, 90: BASE + 1000000}     # times of the model
DB = {}
SIZES = {"g1": 90000, "g2": 30000, "g3": 60000, "foreign": 120000, "unsigned": 70000, "corrupt": 100000, "short": 110000, "bad10": 40000, "bad11": 50000, "other11": 45000}

def sign(b, slot, key):
    """signs what the file says apart from its signatures"""
    body = bytearray(b)
    body[68:72] = b"\0" * 4
    body[72:4168] = b"\0" * 4096
    d = os.path.join(scratch(), "tosign")
    open(d, "wb").write(body)
    p = subprocess.run(["openssl", "dgst", "-sha256", "-sign", key, d], stdout=subprocess.PIPE)
    if p.returncode:
        raise ToolError("openssl dgst")
    put(b, slot, p.stdout)

def put(b, slot, sig):
    o = 72 if slot == 1 else 2120
    b[o:o + 2048] = sig + b"\0" * (2048 - len(sig))
    struct.pack_into(">H", b, 68 if slot == 1 else 70, len(sig))

def image(rng, n, at):
    pool = b"\0" + bytes(rng.randrange(1, 256) for _ in range(n)) + b"\0"
    b = Img([(1, 0, -1), (0, 0, 0)], [("DE", 64512, 0)], [(64512, 1)], [("DE", "EU", 1)], pool).bytes(meta=(1, 0, 0))
    struct.pack_into(">Q", b, 8, at)
    return b

def databases(rng):
    """id -> bytes"""
    if DB:
        return DB
    K = p_sign.keys()
    mk = lambda id, at: image(rng, SIZES[id], at)
    for id, at in (("g1", 10), ("g2", 11), ("g3", 90)):
        b = mk(id, AT[at])
        sign(b, 1 if id != "g2" else 2, K["A"][0])
        if id == "g2":
            put(b, 1, bytes(rng.getrandbits(8) for _ in range(139)))
        if id == "g3":
            sign(b, 2, K["B"][0])
        DB[id] = bytes(b)
    b = mk("foreign", AT[90]); sign(b, 1, K["B"][0]); sign(b, 2, K["C"][0]); DB["foreign"] = bytes(b)
    DB["unsigned"] = bytes(mk("unsigned", AT[90]))
    b = mk("corrupt", AT[90]); sign(b, 1, K["A"][0]); b[rng.randrange(5000, len(b))] ^= 4; DB["corrupt"] = bytes(b)
    b = mk("short", AT[90]); sign(b, 1, K["A"][0]); DB["short"] = bytes(b[:-1])
    # not authentic, with exactly the times that are announced
    for id, at in (("bad10", 10), ("bad11", 11)):
        b = mk(id, AT[at]); sign(b, 1, K["A"][0]); b[-7] ^= 1; DB[id] = bytes(b)
    b = mk("other11", AT[11]); sign(b, 2, K["B"][0]); DB["other11"] = bytes(b)
    # an authentic database that claims another time
    b = bytearray(DB["g1"]); struct.pack_into(">Q", b, 8, AT[90] + 5); DB["redated"] = bytes(b)
    return DB

# ------------------------------------------------------------- the mirrors
XZ = {}
def xz(id):
    if id not in XZ:
        XZ[id] = lzma.compress(DB[id], preset={"g2": 6, "g3": 9}.get(id, 0))
    return XZ[id]

class Mirrors:
    """a loopback server; what it does is decided by the path /job/mirror/kind/variant/..."""
    def __init__(self):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(512)
        self.port = self.s.getsockname()[1]
        d = socket.socket()
        d.bind(("127.0.0.1", 0))
        self.dead = d           # bound, never listening: connections are refused
        self.deadport = d.getsockname()[1]
        self.req = {}
        self.lock = threading.Lock()
        for _ in range(16):
            threading.Thread(target=self.loop, daemon=True).start()

    def url(self, job, m, kind, var):
        if kind == "error" and var == "refused":
            return "http://127.0.0.1:%d/x/" % self.deadport
        return "http://127.0.0.1:%d/%s/%d/%s/%s/" % (self.port, job, m, kind, var)

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            try:
                c.settimeout(30)
                self.serve(c)
            except OSError:
                pass
            finally:
                c.close()

    def serve(self, c):
        head = b""
        while b"\r\n\r\n" not in head:
            b = c.recv(4096)
            if not b:
                return
            head += b
        path = head.split(b" ")[1].decode()
        parts = path.strip("/").split("/")
        if parts[0] == "moved":
            parts = parts[1:]
        elif parts[3] == "redirect":
            with self.lock:
                self.req[(parts[0], int(parts[1]))] = self.req.get((parts[0], int(parts[1])), 0) + 1
            c.sendall(b"HTTP/1.1 302 Found\r\nLocation: http://127.0.0.1:%d/moved/%s/%s/%s/length/%s\r\nContent-Length: 0\r\n"
                      b"Connection: close\r\n\r\n" % ((self.port,) + tuple(x.encode() for x in parts[:3] + ["/".join(parts[4:])])))
            return
        job, m, kind, var = parts[0], int(parts[1]), parts[2], parts[3]
        with self.lock:
            self.req[(job, m)] = self.req.get((job, m), 0) + 1
        if parts[4:] != ["1", "location.db.xz"]:
            c.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n")
            return
        self.behave(c, kind, var, head)

    def ok(self, c, body, var, n=None):
        n = len(body) if n is None else n
        if var == "chunked":
            c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")
            out = b""
            for i in range(0, len(body), 7001):
                out += b"%x\r\n" % len(body[i:i + 7001]) + body[i:i + 7001] + b"\r\n"
            c.sendall(out + (b"0\r\n\r\n" if n == len(body) else b""))
        elif var == "close":
            c.sendall(b"HTTP/1.0 200 OK\r\n\r\n" + body)
        elif var == "slow":
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % n)
            for i in range(0, len(body), 977):
                c.sendall(body[i:i + 977])
        else:
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % n + body)

    def behave(self, c, kind, var, head):
        if var == "cond":
            # a server that knows since when it has the file (half a second after it was made)
            since = re.search(rb"(?im)^if-modified-since:\s*(.*?)\r?$", head)
            if since:
                at = email.utils.parsedate_to_datetime(since.group(1).decode()).timestamp()
                if struct.unpack_from(">Q", DB[kind], 8)[0] + 0.5 <= at:
                    c.sendall(b"HTTP/1.1 304 Not Modified\r\nConnection: close\r\n\r\n")
                    return
        if kind == "xzbad":
            body = bytearray(xz("g3"))
            if var == "bit":
                body[len(body) // 2] ^= 16
            elif var == "late":
                body[-20] ^= 1
            else:
                body[len(body) // 2:] = b"\xff" * (len(body) - len(body) // 2)
            self.ok(c, bytes(body), "length")
        elif kind == "stall":
            body = xz("g3")
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body[:len(body) // 2 if var == "half" else 0])
            time.sleep(4)
        elif kind in ("g1", "g2", "g3", "foreign", "unsigned", "corrupt", "short", "redated", "bad10", "bad11", "other11"):
            self.ok(c, xz(kind), var)
        elif kind == "plain":
            body = DB["g3"] if var == "raw" else gzip.compress(DB["g3"])
            self.ok(c, body, "length")
        elif kind == "html":
            self.ok(c, b"<html><body>Sign in to continue</body></html>" * (1 if var == "length" else 300), var)
        elif kind == "empty":
            self.ok(c, b"", "length" if var == "length" else "close")
        elif kind == "cut":
            body = xz("g3")
            part = body[:len(body) * 2 // 3]
            if var == "early":
                self.ok(c, body[:1500], "length", len(body))
            elif var == "clean":
                self.ok(c, part, "length")
            elif var == "chunked":
                self.ok(c, part, "chunked", len(body))
            else:
                self.ok(c, part, "length", len(body))
        elif kind == "reset":
            body = xz("g3")
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body[:len(body) // 2])
            if var == "late":
                time.sleep(0.05)
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif kind == "error":
            if var.isdigit():
                body = b"no" if var != "304" else b""
                c.sendall(b"HTTP/1.1 %s Nope\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (var.encode(), len(body)) + body)
            elif var == "dberror":      # an error whose page is an authentic database
                body = xz("g3")
                c.sendall(b"HTTP/1.1 500 Nope\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body) + body)
            elif var == "drop":
                pass
            elif var == "garbage":
                c.sendall(b"\x00\x01garbage\r\nmore\r\n\r\n" * 20)
            elif var == "badlength":
                c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzzz\r\nabc")
            elif var == "longline":
                c.sendall(b"HTTP/1.1 200 OK\r\nX: " + b"a" * 70000 + b"\r\n\r\n")
            elif var == "rst":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))

VARIANTS = {"good": ["length", "chunked", "close", "slow", "redirect", "cond"], "xzbad": ["bit", "junk", "late"], "stall": ["half", "none"], "foreign": ["length", "chunked"], "unsigned": ["length"],
            "corrupt": ["length", "close"], "short": ["length"], "plain": ["raw", "gz"], "html": ["length", "close"],
            "cut": ["length", "clean", "early", "chunked"], "reset": ["now", "late"], "empty": ["length", "close"],
            "error": ["404", "500", "503", "403", "304", "410", "401", "429", "502", "400", "301", "204", "999", "refused", "drop", "garbage", "badlength", "longline", "rst", "dberror"]}

def concrete(kind, var):
    """a mirror of the model: [does, file] and its URL parts"""
    f = lambda id, auth, at: {"id": id, "auth": auth, "at": at}
    if kind.startswith("good"):
        v = int(kind[4])
        return {"does": "serve", "file": f("g%d" % v, True, {1: 10, 2: 11, 3: 90}[v])}, "g%d" % v
    if kind in ("foreign", "unsigned", "corrupt", "short", "plain", "html", "redated"):
        return {"does": "serve", "file": f(kind, False, 90)}, kind
    if kind in ("bad10", "bad11", "other11"):
        return {"does": "serve", "file": f(kind, False, 10 if kind == "bad10" else 11)}, kind
    if kind == "xzbad":
        return {"does": "serve", "file": f(kind, False, 90)}, kind
    if kind in ("cut", "reset", "stall"):
        return {"does": "reset" if kind == "stall" else kind, "file": f("g3", True, 90)}, kind
    return {"does": kind, "file": f("none", False, 0)}, kind

def variants(kind):
    return VARIANTS["good" if kind.startswith("good") else kind if kind in VARIANTS else "unsigned"]

# ------------------------------------------------------------- running
class Runner:
    def __init__(self, shim):
        e = bind.python()
        if shim:
            so = os.path.join(scratch(), "shim.so")
            if not os.path.exists(so):
                _run(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(VERIF, "harness", "shim.c"), "-ldl", "-o", so], "the shim")
            e["LD_PRELOAD"] = so
        self.err = open(os.path.join(scratch(), "upd-err-%d" % id(self)), "w+")
        self.p = subprocess.Popen([bind.PY, os.path.join(VERIF, "harness", "updrun.py"), bind.script()], env=e, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err)
    def run(self, job):
        t = threading.Timer(60, self.p.kill)
        t.start()
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        t.cancel()
        if not line:
            self.err.seek(0)
            return {"res": "hung", "status": -1, "text": self.err.read()[-800:]}
        return json.loads(line)
    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()

ids = itertools.count()
class Job:
    """one update or download of a case"""
    def __init__(self, kind, inst, ann, mirrors, recent=None, shim=(0, 0), rel=False, tmpdir=True, stop=0):
        # mirrors: (kind, variant); recent: None or (cron, age in hours)
        self.kind, self.inst, self.ann, self.mirrors, self.recent = kind, inst, ann, mirrors, recent
        self.shim, self.rel, self.tmpdir, self.stop = shim, rel, tmpdir, stop
        self.id = "j%d" % next(ids)
    def what(self):
        return {"kind": self.kind, "installed": self.inst, "announced": self.ann, "mirrors": ["%s/%s" % m for m in self.mirrors],
                "recent": self.recent, "shim": self.shim, "relative": self.rel, "tmpdir": self.tmpdir, "interrupted": self.stop}

PERIOD = {"daily": 24, "weekly": 168, "monthly": 720}
def run_job(j, srv, runner):
    d = os.path.join(scratch(), "upd", j.id)
    inst, tmp = os.path.join(d, "inst"), os.path.join(d, "tmp")
    os.makedirs(inst)
    os.makedirs(tmp)
    path = os.path.join(inst, "location.db")
    before = None
    if j.inst != "none":
        b = bytearray(DB[j.inst])
        b[-5] ^= 1          # the installed file is none of those that are served
        if j.recent:
            struct.pack_into(">Q", b, 8, int(time.time()) - j.recent[1] * 3600)
        before = bytes(b)
        with open(path, "wb") as f:
            f.write(before)
        os.chmod(path, 0o444)
    urls = [srv.url(j.id, m + 1, concrete(*k)[1], k[1]) for m, k in enumerate(j.mirrors)]
    job = {"kind": j.kind, "mirrors": urls, "ann": AT.get(j.ann, 0), "key": p_sign.keys()["A"][1], "tmp": tmp, "cwd": inst,
           "dir": inst if j.tmpdir else None, "shim": j.shim, "stop": j.stop}
    job["argv"] = ["--database", "location.db" if j.rel else path, "--public-key", job["key"], "update"] + \
        (["--cron", j.recent[0]] if j.recent else [])
    r = runner.run(job)
    at = {"g1": 10, "g2": 11, "g3": 90}.get(j.inst, 0)
    recent = bool(j.recent and j.recent[1] < PERIOD[j.recent[0]])
    if j.recent:
        at = 95     # the time was changed to a recent one, which is newer than all others
    case = {"inst": {"id": "none" if before is None else "old", "auth": before is not None, "at": at},
            "ann": j.ann, "recent": recent, "mirrors": [concrete(*k)[0] for k in j.mirrors]}
    req = [1 if k == ("error", "refused") else srv.req.get((j.id, m + 1), 0) for m, k in enumerate(j.mirrors)]
    # a refused connection cannot be seen: it was tried unless there was no reason to try anything
    if j.kind == "update" and (recent or (before is not None and j.ann and at >= j.ann)):
        req = [srv.req.get((j.id, m + 1), 0) for m, k in enumerate(j.mirrors)]
    def ident(p):
        if not os.path.lexists(p):
            return "none"
        if os.path.islink(p) or not os.path.isfile(p):
            return "other"
        b = open(p, "rb").read()
        if before is not None and p == path and b == before:
            return "old"
        for k, v in DB.items():
            if b == v:
                return k
        return "other"
    ev = {"case": case, "req": req}
    names = lambda p: [x for x in os.listdir(p)]
    if j.kind == "download":
        got, readable = "none", False
        if r["res"] == "ok":
            got = ident(r["name"])
            readable = r["mode"] & 0o444 == 0o444
            os.unlink(r["name"]) if os.path.exists(r["name"]) else None
        if j.stop:
            ev.update(e="fault", res="failed", now="none", left=len(names(inst)) + len(names(tmp)))
        else:
            ev.update(e="download", res=r["res"], got=got, readable=readable, left=len(names(inst)) + len(names(tmp)))
    else:
        now = ident(path)
        left = len([x for x in names(inst) if x != "location.db"]) + len(names(tmp))
        if j.shim[0] in (1, 2) and r["status"] == 77:
            ev.update(e="killed", now=now)
        elif j.shim[0] in (3, 4) or j.stop:
            ev.update(e="fault", res=r["res"], now=now, left=left)
        else:
            ev.update(e="update", res=r["res"], now=now, left=left)
    shutil.rmtree(d)
    return ev, r

def run_jobs(jobs, shim=False):
    srv = Mirrors()
    out = [None] * len(jobs)
    runners = [Runner(shim) for _ in range(min(NCPU, len(jobs)))]
    pos = iter(range(len(jobs)))
    lock = threading.Lock()
    errs = []
    def work(r):
        hung = 0
        while True:
            with lock:
                i = next(pos, None)
            if i is None or errs or hung > 1:
                return
            try:
                out[i] = run_job(jobs[i], srv, r)
            except Exception as e:
                errs.append(e)
                return
            if out[i][1]["res"] == "hung":
                hung += 1
                r.close()
                r = Runner(shim)
    ts = [threading.Thread(target=work, args=(r,)) for r in runners]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for r in runners:
        r.close()
    srv.s.close()
    srv.dead.close()
    if errs:
        raise ToolError("running updates: %r" % errs[0])
    return out

def judged(chk, label, jobs, shim=False):
    if chk.violation or not jobs:
        return []
    t0 = time.time()
    outs = run_jobs(jobs, shim)
    done = [i for i in range(len(jobs)) if outs[i]]
    traces = [{"id": jobs[i].id, "ev": [outs[i][0]]} for i in done]
    t1 = time.time()
    rej, states = validate("TraceUpdate", "TraceUpdate.cfg", traces)
    chk.states += states
    chk.transitions += len(traces)
    chk.traces += len(traces)
    chk.evaluations += len(jobs)
    chk.parts[label] = {"runs": len(jobs), "run_s": round(t1 - t0, 1), "tlc_s": round(time.time() - t1, 1)}
    chk.sample(jobs[len(jobs) // 2].what())
    if rej:
        j = jobs[done[rej[0][0]]]
        j.id = "j%d" % next(ids)
        ev, r = run_jobs([j], shim)[0]
        rej2, _ = validate("TraceUpdate", "TraceUpdate.cfg", [{"id": j.id, "ev": [ev]}])
        if not rej2:
            raise ToolError("rejection did not repeat: %s" % j.what())
        chk.violated("%s: %s ends with %s, installed or delivered: %s" % (label, j.what(), r, ev.get("now", ev.get("got"))),
                     {"job": j.what(), "event": ev, "result": r, "rejected": len(rej)})
    return outs

def cases(chk, n):
    r = tlc("MC_Update", "MC_Update.cfg", env={"UPDATE_MIRRORS": str(n)})
    if "Error:" in r.out or r.code:
        raise ToolError("MC_Update: " + r.out[-2000:])
    chk.model("MC_Update", r)
    out = []
    for m in re.finditer(r'<<\s*"CASE",\s*(\d),\s*(\d),\s*(TRUE|FALSE),\s*<<([^>]*)>>\s*>>', r.out):
        out.append((["none", "g1", "g2", "g3"][int(m.group(1)) - 1], [0, 10, 11, 12][int(m.group(2)) - 1], m.group(3) == "TRUE",
                    re.findall(r'"(\w+)"', m.group(4))))
    return sorted(set((a, b, c, tuple(d)) for a, b, c, d in out))

class Spread:
    """takes the variants of a kind in turn"""
    def __init__(self, rng):
        self.rng, self.it = rng, {}
    def __call__(self, k):
        if k not in self.it:
            v = list(variants(k))
            self.rng.shuffle(v)
            self.it[k] = itertools.cycle(v)
        return (k, next(self.it[k]))
    def all(self, ks):
        return [self(k) for k in ks]

EXTRA = ["good1", "good2", "good3", "foreign", "unsigned", "corrupt", "short", "plain", "html", "cut", "reset", "empty", "error", "error", "redated", "xzbad", "bad10", "bad11", "other11"]

def c13(chk, tier, rng):
    databases(rng)
    cs = cases(chk, 2)
    sp = Spread(rng)
    # the installed file does not matter to the downloader
    cs = sorted(set((ann, ms) for _, ann, _, ms in cs))
    jobs = [Job("download", "none", ann, sp.all(ms), tmpdir=bool(i % 7)) for i, (ann, ms) in enumerate(cs)]
    judged(chk, "all cases with up to 2 mirrors", jobs)
    # every variant alone, and before a good one that is smaller or larger
    jobs = []
    for k in sorted(set(EXTRA)):
        for v in variants(k):
            for ann in (0, 10, 11) if k in ("bad10", "bad11", "other11") else (0, 11):
                jobs.append(Job("download", "none", ann, [(k, v)]))
                for g in ("good2", "good3"):
                    jobs.append(Job("download", "none", ann, [(k, v), sp(g)]))
                    jobs.append(Job("download", "none", ann, [(k, v), sp("error"), sp(rng.choice(EXTRA)), sp(g)]))
    judged(chk, "every variant", jobs)
    jobs = []
    for _ in range(size(tier, 250, 6000)):
        jobs.append(Job("download", "none", rng.choice([0, 10, 11, 12, 90]), sp.all(rng.choice(EXTRA) for _ in range(rng.randint(3, 6))),
                        tmpdir=rng.random() < .8))
    judged(chk, "longer lists", jobs)
    jobs = [Job("download", "none", ann, pre + [("stall", v), ("good3", "length")], stop=.5, tmpdir=t)
            for ann in (0, 11) for pre in ([], [("corrupt", "length")]) for v in VARIANTS["stall"] for t in (True, False)]
    judged(chk, "interrupted", jobs)
    chk.assumptions += ["mirrors are played by a loopback HTTP server; TLS is not exercised", "the order of the mirrors is fixed by replacing random.shuffle"]

def c12(chk, tier, rng):
    databases(rng)
    cs = cases(chk, 2)
    sp = Spread(rng)
    jobs = []
    for inst, ann, recent, ms in cs:
        if len(ms) > 1 and rng.random() > size(tier, 0.2, 1.0):
            continue
        cron = rng.choice(list(PERIOD))
        rec = (cron, rng.choice([0, 1, PERIOD[cron] // 2, PERIOD[cron] - 1])) if recent else None
        if rec and len(ms) > 1 and tier == "quick":
            continue
        jobs.append(Job("update", inst, ann, sp.all(ms), recent=rec, rel=rng.random() < .2))
    judged(chk, "cases of the model", jobs, shim=True)
    # dated exactly as announced, but not authentic
    jobs = [Job("update", inst, ann, [(k, v)] + more) for inst in ("none", "g1") for ann in (0, 10, 11) for k in ("bad10", "bad11", "other11")
            for v in variants(k) for more in ([], sp.all(["good2"]))]
    judged(chk, "exactly the announced time", jobs, shim=True)
    # intervals, on both sides
    jobs = []
    for cron, h in PERIOD.items():
        for age in (0, 1, 23, 25, 167, 169, 719, 721, h - 1, h + 1, 5000):
            for ms in (["good3"], ["error"]):
                jobs.append(Job("update", "g1", 0, sp.all(ms), recent=(cron, age)))
        jobs.append(Job("update", "none", 11, sp.all(["good3"]), recent=(cron, 0)))
        jobs.append(Job("update", "none", 11, sp.all(["good1"]), recent=(cron, 0)))
    judged(chk, "intervals", jobs, shim=True)
    # killed at every call that changes a file, or hit by a fault there
    plans = [("g1", 11, [("good2", "length")]), ("none", 11, [("good2", "chunked")]), ("g1", 11, [("corrupt", "length"), ("good2", "length")]),
             ("g1", 12, [("foreign", "length"), ("good2", "length")]), ("g2", 12, [("cut", "length"), ("good3", "length")]),
             ("g1", 0, [("reset", "late"), ("good3", "slow")]), ("none", 12, [("short", "length"), ("error", "500")]),
             ("g1", 12, [("good2", "length"), ("good3", "close")])]
    for _ in range(size(tier, 0, 12)):
        plans.append((rng.choice(["none", "g1", "g2"]), rng.choice([0, 11, 12]), sp.all(rng.choice(EXTRA) for _ in range(rng.randint(1, 3)))))
    if chk.violation:
        return
    base = [Job("update", i, a, ms) for i, a, ms in plans]
    outs = judged(chk, "undisturbed", base, shim=True)
    jobs = []
    for (i, a, ms), o in zip(plans, outs):
        n = o[1].get("count", 0)
        if n < 1:
            if o[1]["res"] == "ok":
                raise ToolError("no calls were seen: %s" % (o[1],))
            continue
        # the last calls matter most: all of them, and a spread of the writes before
        pts = sorted(set(range(max(1, n - 12), n + 1)) | set(range(1, min(n, 8) + 1)) |
                     set(rng.sample(range(1, n + 1), min(n, size(tier, 12, 200)))))
        for p in pts:
            for mode in (1, 2, 3) if tier != "quick" or p > n - 8 else (1, rng.choice((2, 3))):
                jobs.append(Job("update", i, a, ms, shim=(mode, p), rel=rng.random() < .2))
            if p % 3 == 0 or p <= 3:
                jobs.append(Job("update", i, a, ms, shim=(4, p)))
    judged(chk, "killed or disturbed at every point", jobs, shim=True)
    jobs = [Job("update", inst, 11, pre + [("stall", v), ("good3", "length")], stop=.5)
            for inst in ("none", "g1") for pre in ([], [("corrupt", "length")]) for v in VARIANTS["stall"]]
    judged(chk, "interrupted", jobs, shim=True)
    chk.assumptions += ["mirrors are played by a loopback HTTP server; the announcement is given to the program in place of DNS",
                        "the process is ended or a call fails at calls of the C library that change files; losing power is not simulated"]
