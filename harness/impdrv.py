"""Scenario driver for the importer: its commands run with the real code of this tree, while the database server, the
web and the routing daemon are replaced by stand-ins (fakepg, canned HTTP replies, a BIRD that speaks from a script).

usage: impdrv.py SCRIPT OUT.  A command is a JSON object:
  argv    the importer's arguments (@ stands for the scenario's directory)
  web     URL -> {status, headers, body (base64), err}
  bird    command -> {pieces: [base64], close: bool}
  files   name -> base64, written before
  age     days by which everything in the database gets older, before
  dump    a file that is read afterwards
  pub     a public key to verify it with"""
import base64, http.client, io, json, os, select, shutil, signal, socket, subprocess, sys, tempfile, time, traceback
import threading, urllib.error, urllib.request
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter("ignore")
import fakepg, logging
import logging.handlers
logging.raiseExceptions = False
import location
import location.downloader, location.i18n, asyncio, csv, gzip, ipaddress, zlib     # loaded once

SCRIPT = os.environ["IMPORTER"]
CODE = compile(open(SCRIPT, encoding="utf-8").read(), SCRIPT, "exec")
LIMIT = 30

class Sock:
    def __init__(self, data):
        self.f = io.BytesIO(data)
    def makefile(self, *a, **k):
        return self.f

class Web(urllib.request.HTTPSHandler):
    handler_order = 1
    table = {}
    def https_open(self, req):
        r = self.table.get(req.full_url)
        if r is None:
            raise urllib.error.URLError("no such host")
        err = r.get("err")
        if err == "url":
            raise urllib.error.URLError(OSError("Name or service not known"))
        if err == "invalid":
            raise http.client.InvalidURL("URL can't contain control characters")
        if err == "unicode":
            "a..b".encode("idna")
        if err == "timeout":
            raise TimeoutError("The read operation timed out")
        if err == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        body = base64.b64decode(r.get("body", ""))
        if err == "disconnect":
            data = b""
        else:
            head = dict(r.get("headers", {}))
            if r.get("chunked"):
                head["Transfer-Encoding"] = "chunked"
                n = r["chunked"]
                raw = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n)) + b"0\r\n\r\n"
            else:
                head["Content-Length"] = str(len(body))
                raw = body
            if err == "short":      # the connection ends early
                raw = raw[:r["at"]]
            data = b"HTTP/1.1 %d X\r\n" % r.get("status", 200) + b"".join(
                b"%s: %s\r\n" % (k.encode(), v.encode()) for k, v in head.items()) + b"\r\n" + raw
        res = http.client.HTTPResponse(Sock(data), method="GET", url=req.full_url)
        res.begin()
        res.url, res.msg = req.full_url, res.reason
        return res
    http_open = https_open

def bird_serve(srv, table):
    """in a process of its own, until it is killed"""
    held = []
    while True:
        c, _ = srv.accept()
        held.append(c)
        threading.Thread(target=bird_one, args=(c, table), daemon=True).start()

def bird_one(c, table):
    try:
        buf = b""
        while not buf.endswith(b"\n"):
            d = c.recv(4096)
            if not d:
                return
            buf += d
        r = table.get(buf.decode().strip())
        if r is None:
            c.sendall(b"0001 BIRD ready.\n9001 syntax error, unexpected CF_SYM_UNDEFINED\n")
            return
        for p in r["pieces"]:
            c.sendall(base64.b64decode(p))
            if len(r["pieces"]) > 1:
                time.sleep(.001)
        if r.get("close"):
            c.close()
    except OSError:
        pass

def child(argv, web, sql, logf):
    fd = os.open(logf, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout, sys.stderr = os.fdopen(1, "w", buffering=1), os.fdopen(2, "w", buffering=1)
    rc = 1
    try:
        fakepg.install(sql)
        Web.table = web
        urllib.request.install_opener(urllib.request.build_opener(urllib.request.ProxyHandler({}), Web()))
        sys.argv = ["location-importer", "--quiet", "--database-host", "h", "--database-name", "d",
                    "--database-username", "u", "--database-password", "p"] + argv
        try:
            exec(CODE, {"__name__": "__main__", "__file__": SCRIPT})
            rc = 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        traceback.print_exc()
    if fakepg.LIMITS:
        print("LIMIT", fakepg.LIMITS)
        rc = 77
    sys.stdout.flush()
    os._exit(rc)

def hx(v):
    return [(v >> (112 - 16 * i)) & 0xffff for i in range(8)]

def netrec(n):
    a = ipaddress.ip_network(str(n))
    v, p = int(a.network_address), a.prefixlen
    if a.version == 4:
        v, p = v | 0xffff << 32, p + 96
    asn = n.asn or 0
    return {"a": hx(v), "p": p, "cc": n.country_code or "", "asn": [asn >> 16, asn & 0xffff],
            "fl": sum(1 << i for i in range(16) if n.has_flag(1 << i))}

def dump(path, pub):
    db = location.Database(path)
    d = {"nets": [netrec(n) for n in db.networks],
         "ases": [{"n": [a.number >> 16, a.number & 0xffff], "name": a.name or ""} for a in db.ases],
         "countries": [{"code": c.code, "cont": c.continent_code or "", "name": c.name or ""} for c in db.countries],
         "meta": {"vendor": db.vendor or "", "desc": db.description or "", "lic": db.license or ""}, "verifies": True}
    if pub:
        with open(pub) as f:
            d["verifies"] = bool(db.verify(f))
    return d

def one(c, wd):
    sql = os.path.join(wd, "pg.db")
    sub = lambda s: s.replace("@", wd) if s.startswith("@") else s
    for n, b in c.get("files", {}).items():
        with open(os.path.join(wd, n), "wb") as f:
            f.write(base64.b64decode(b))
    if c.get("age") and os.path.exists(sql):
        fakepg.age(sql, c["age"])
    out = {"rc": 0}
    logf = os.path.join(wd, "log")
    if "argv" in c:
        srv = bird = None
        if c.get("bird") is not None:
            p = os.path.join(wd, "bird.ctl")
            if os.path.exists(p):
                os.unlink(p)
            srv = socket.socket(socket.AF_UNIX)
            srv.bind(p)
            srv.listen(8)
            bird = os.fork()
            if not bird:
                try:
                    bird_serve(srv, c["bird"])
                finally:
                    os._exit(0)
            srv.close()
        pid = os.fork()
        if not pid:
            os.setpgid(0, 0)
            os.chdir(wd)
            child([sub(a) for a in c["argv"]], c.get("web", {}), sql, logf)
        end = time.time() + LIMIT
        while True:
            w, st = os.waitpid(pid, os.WNOHANG)
            if w:
                out["rc"] = os.waitstatus_to_exitcode(st)
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                out["rc"] = -1000
                break
            time.sleep(.002)
        if bird:
            os.kill(bird, signal.SIGKILL)
            os.waitpid(bird, 0)
        text = open(logf, errors="replace").read()
        out["log"] = text[-1500:]
        if out["rc"] == 77:
            out["limit"] = True
    if c.get("dump") and out["rc"] == 0:
        try:
            out["db"] = dump(sub(c["dump"]), c.get("pub"))
        except OSError as e:
            out["db"] = {"nets": [], "ases": [], "countries": [], "meta": {"vendor": "", "desc": "", "lic": ""},
                         "verifies": False, "err": str(e)}
    return out

def main():
    out = open(sys.argv[2], "w")
    def say(t):
        out.write(t + "\n")
        out.flush()
    wd, stuck = None, False
    for line in open(sys.argv[1]):
        line = line.rstrip("\n")
        if line.startswith("scenario "):
            if wd:
                say("@end")
                shutil.rmtree(wd, ignore_errors=True)
            wd = tempfile.mkdtemp(prefix="imp-", dir=os.getcwd())
            say("@scenario " + line.split()[1])
            stuck = False
        elif stuck:
            say('{"rc": -1000, "log": ""}')
        else:
            r = one(json.loads(line), wd)
            stuck = r["rc"] == -1000
            say(json.dumps(r))
    if wd:
        say("@end")
        shutil.rmtree(wd, ignore_errors=True)
    say("@done")

main()
