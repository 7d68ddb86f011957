"""Runs updates and downloads of the tree under test, one forked process each.
Reads one job per line, writes one result per line."""
import ctypes, json, logging, os, random, runpy, signal, stat, sys
logging.raiseExceptions = False
script = sys.argv[1]
shim = ctypes.CDLL(None) if os.environ.get("LD_PRELOAD") else None
import location, location.downloader, location.export, _location, tempfile
random.shuffle = lambda x: None
code = compile(open(script).read(), script, "exec")

def prepare(job):
    # the mirrors and the announcement are what the outside world decides
    D = location.downloader.Downloader
    location.downloader.MIRRORS = tuple(job["mirrors"])
    init = D.__init__
    def patched(self, *a, **kw):
        init(self, *a, **kw)
        # in the given order
        if sorted(getattr(self, "mirrors", ())) == sorted(job["mirrors"]):
            self.mirrors = list(job["mirrors"])
    D.__init__ = patched
    for m in (location, _location):
        m.discover_latest_version = lambda *a, **kw: job["ann"] or None

def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd if not os.environ.get("UPD_DEBUG") else 2, 2)

def child(job, w):
    quiet()
    prepare(job)
    os.chdir(job.get("cwd", "/"))
    tempfile.tempdir = None
    os.environ["TMPDIR"] = job["tmp"]
    if shim:
        shim.shim_arm(*job.get("shim", (0, 0)))
    if job.get("stop"):
        # Ctrl-C
        signal.signal(signal.SIGALRM, signal.default_int_handler)
        signal.setitimer(signal.ITIMER_REAL, job["stop"])
    out = {}
    if job["kind"] == "download":
        try:
            d = location.downloader.Downloader(mirrors=job["mirrors"])
            f = d.download(public_key=job["key"], timestamp=job["ann"] or None, tmpdir=job["dir"])
            out = {"res": "ok", "name": os.path.abspath(f.name), "mode": os.stat(f.name).st_mode & 0o7777}
        except FileNotFoundError as e:
            out = {"res": "notfound", "text": repr(e)[:200]}
        except BaseException as e:
            out = {"res": "other", "text": repr(e)[:200]}
    else:
        sys.argv = ["location"] + job["argv"]
        try:
            exec(code, {"__name__": "__main__", "__file__": script})
            out = {"res": "ok", "code": 0}
        except SystemExit as e:
            c = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            out = {"res": "failed" if c else "ok", "code": c}
        except BaseException as e:
            out = {"res": "failed", "code": 1, "text": repr(e)[:200]}
    signal.setitimer(signal.ITIMER_REAL, 0)
    if shim:
        out["count"] = shim.shim_count()
        shim.shim_arm(0, 0)
    os.write(w, json.dumps(out).encode())
    os._exit(0)

for line in sys.stdin:
    job = json.loads(line)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            child(job, w)
        finally:
            os._exit(55)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    res = json.loads(data) if data else {"res": "died"}
    res["status"] = os.waitstatus_to_exitcode(st)
    print(json.dumps(res), flush=True)
