"""Scenario driver for the Python binding: the commands and the output of driver.c, through location.*"""
import ipaddress, json, os, re, signal, socket, struct, sys
import location

class Usage(Exception):
    pass

V4 = 0xffff << 32
NONE = {"none": 1}
W, D, E, N, A, C, L = ({} for _ in range(7))
keep = []          # files whose descriptors the library keeps using

def unpct(t):
    if t == "-":
        return None
    if not t.startswith("s:"):
        return t
    b = re.sub(rb"%([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), t[2:].encode("latin-1"))
    return b.decode("utf-8")

def lat(s):
    return "" if s is None else s.encode("utf-8", "surrogateescape").decode("latin-1")

def u32(v):
    if not isinstance(v, int) or isinstance(v, bool) or not 0 <= v < 1 << 32:
        return [-1, -1]
    return [v >> 16, v & 0xffff]

def hx(v):
    return [(v >> (112 - 16 * i)) & 0xffff for i in range(8)]

def val(s):
    """value of a printed address in the 128 bit space, family"""
    a = ipaddress.ip_address(s)
    if a.version == 4:
        return V4 | int(a), 4
    if int(a) >> 32 == 0xffff:
        return int(a), 4
    return int(a), 6

def net(n):
    if n is None:
        return dict(NONE)
    s = str(n)
    addr, pfx = s.rsplit("/", 1)
    v, fam = val(addr)
    p = int(pfx) + (96 if "." in addr and ":" not in addr else 0)
    fl = sum(1 << i for i in range(16) if n.has_flag(1 << i))
    last = v | ((1 << (128 - p)) - 1)
    packed = lambda x: struct.pack("!I", x & 0xffffffff) if fam == 4 and x >> 32 == 0xffff else x.to_bytes(16, "big")
    asn = n.asn
    # the object has to say the same thing everywhere
    ok = (val(n.first_address)[0] == v and n._first_address == packed(v)
          and n.family == (socket.AF_INET if fam == 4 else socket.AF_INET6)
          and val(n.last_address)[0] == last
          and n._last_address == (packed(last) if fam == 4 else last.to_bytes(16, "big"))
          and s in repr(n) and asn != 0)
    return {"a": hx(v), "p": p if ok else -1, "cc": lat(n.country_code), "asn": u32(0 if asn is None else asn), "fl": fl}

def as_(a):
    if a is None:
        return dict(NONE)
    num, name = a.number, lat(a.name)
    if not str(a).startswith("AS%d" % num) or lat(str(a)) != "AS%d - %s" % (num, name) and a.name:
        num = -1
    return {"n": u32(num), "name": name}

def country(c):
    if c is None:
        return dict(NONE)
    code = c.code
    if str(c) != code or hash(c) is None:
        code = "?" + code
    return {"code": lat(code), "cont": lat(c.continent_code), "name": lat(c.name)}

def fam(k):
    return {0: 0, 4: socket.AF_INET, 6: socket.AF_INET6}[int(k)]

ODD = ("without setting", "with an exception set", "error return without", "bad argument to internal")

def call(f):
    """(kind, value)"""
    try:
        return "ok", f()
    except SystemError as e:
        if any(o in str(e) for o in ODD):
            return "odd", None
        return "err", None
    except IndexError:
        return "busy", None
    except (KeyboardInterrupt, MemoryError, Usage):
        raise
    except Exception:
        return "err", None

def props(n, t):
    cc, asn, fl = t[0], int(t[1]), int(t[2])
    if cc != "-":
        n.country_code = cc
    if asn:
        n.asn = asn
    if fl:
        n.set_flag(fl)

def walk(t):
    """the enumerator of a d.nets command: D mode flatten family flags countries asns string"""
    db = D[t[1]]
    mode, flat, fm, fl, cs, asns, s = t[2], int(t[3]), fam(t[4]), int(t[5]), t[6], t[7], t[8]
    if mode == "4":
        return db.list_bogons(family=fm) if fm else db.list_bogons()
    if mode == "2":
        s = unpct(s)
        return db.ases if s is None else db.search_as(s)
    if mode == "3":
        return db.countries
    if cs == "-" and asns == "-" and not fl and not fm:
        return db.networks_flattened if flat else db.networks
    kw = {}
    if cs != "-":
        kw["country_codes"] = [] if cs == "@" else cs.split(",")
    if asns != "-":
        kw["asns"] = [] if asns == "@" else [int(x) for x in asns.split(",")]
    if fl:
        kw["flags"] = fl
    if fm:
        kw["family"] = fm
    if flat:
        kw["flatten"] = True
    return db.search_networks(**kw)

LIMIT = 50000

def decode(path):
    """an independent reader of the file format"""
    try:
        b = open(path, "rb").read()
        if b[:7] != b"LOCDBXX" or b[7] != 1:
            return {"badimg": 1, "stored": []}
        nd, ndl, tr, trl = struct.unpack_from("!IIII", b, 36)
        nodes = trl // 12
        out, todo, seen = [], [(0, 0, 0)], set()
        while todo:
            i, v, d = todo.pop()
            if i >= nodes or i in seen or d > 128:
                return {"badimg": 1, "stored": []}
            seen.add(i)
            z, o, k = struct.unpack_from("!III", b, tr + 12 * i)
            if k != 0xffffffff:
                if k * 12 + 12 > ndl:
                    return {"badimg": 1, "stored": []}
                cc, asn, fl = struct.unpack_from("!2sxxIH", b, nd + 12 * k)
                out.append({"a": hx(v), "p": d, "cc": cc.rstrip(b"\0").decode("latin-1"), "asn": u32(asn), "fl": fl})
            if o:
                todo.append((o, v | 1 << (127 - d), d + 1))
            if z:
                todo.append((z, v, d + 1))
        return {"badimg": 0, "stored": out}
    except (OSError, struct.error, ValueError):
        return {"badimg": 1, "stored": []}

def command(t):
    c = t[0]
    if c == "w.new":
        ks = [open(unpct(k), "rb") if k != "-" else None for k in t[2:4]]
        keep.extend(k for k in ks if k)
        while ks and ks[-1] is None:
            ks.pop()
        r, w = call(lambda: location.Writer(*ks))
        if r == "ok":
            W[t[1]] = w
        return {"r": r}
    if c == "w.meta":
        r, _ = call(lambda: setattr(W[t[1]], t[2], unpct(t[3])))
        return {"r": r}
    if c == "w.getmeta":
        w = W[t[1]]
        return {k: lat(getattr(w, k)) for k in ("vendor", "description", "license")}
    if c == "w.net":
        r, n = call(lambda: W[t[1]].add_network(unpct(t[2])))
        if r == "ok":
            r = call(lambda: props(n, t[3:6]))[0]
        return {"r": r}
    if c == "w.as":
        r, a = call(lambda: W[t[1]].add_as(int(t[2])))
        s = unpct(t[3])
        if r == "ok" and s is not None:
            r = call(lambda: setattr(a, "name", s))[0]
        return {"r": r}
    if c == "w.country":
        r, k = call(lambda: W[t[1]].add_country(unpct(t[2]) or ""))
        ct, nm = unpct(t[3]), unpct(t[4])
        if r == "ok" and ct is not None:
            r = call(lambda: setattr(k, "continent_code", ct))[0]
        if r == "ok" and nm is not None:
            r = call(lambda: setattr(k, "name", nm))[0]
        return {"r": r}
    if c == "w.write":
        v = int(t[3])
        r, _ = call(lambda: W[t[1]].write(unpct(t[2]), v) if v else W[t[1]].write(unpct(t[2])))
        return {"r": r}
    if c == "f.decode":
        return decode(unpct(t[1]))
    if c == "f.unlink":
        try:
            os.unlink(unpct(t[1]))
        except OSError:
            pass
        return {"r": "ok"}
    if c == "d.open":
        r, d = call(lambda: location.Database(unpct(t[2])))
        if r == "ok":
            D[t[1]] = d
        return {"r": r}
    if c in ("d.lookup", "d.lookup6"):
        s = unpct(t[2]) if c == "d.lookup" else str(ipaddress.IPv6Address(int(t[2], 16)))
        r, n = call(lambda: D[t[1]].lookup(s))
        return {"r": r, "net": net(n)}
    if c == "d.as":
        r, a = call(lambda: D[t[1]].get_as(int(t[2])))
        return {"r": "none" if r == "ok" and a is None else r, "as": as_(a)}
    if c == "d.country":
        r, k = call(lambda: D[t[1]].get_country(unpct(t[2])))
        return {"r": r, "country": country(k)}
    if c == "d.meta":
        d = D[t[1]]
        return {"vendor": lat(d.vendor), "description": lat(d.description), "license": lat(d.license),
                "count": len(list(d.ases)), "created": str(d.created_at)}
    if c == "d.verify":
        f = open(unpct(t[2]), "rb")
        keep.append(f)
        r, v = call(lambda: D[t[1]].verify(f))
        return {"r": ("ok" if v else "err") if r == "ok" else r}
    if c == "d.nets":
        r, e = call(lambda: walk(t))
        if r != "ok":
            return {"r": r, "nets": [], "more": 0}
        out = []
        def run():
            for n in e:
                out.append(net(n))
                if len(out) >= LIMIT:
                    return 1
            return 1 if next(e, None) is not None or next(e, None) is not None else 0
        r, more = call(run)
        return {"r": r, "nets": out, "more": more or 0}
    if c in ("d.ases", "d.countries"):
        conv, key = (as_, "ases") if c == "d.ases" else (country, "countries")
        r, e = call(lambda: walk(t))
        if r != "ok":
            return {"r": r, key: []}
        rounds = int(t[9]) if len(t) > 9 else 1
        r, q = call(lambda: [[conv(x) for x in e] for _ in range(rounds)])
        return {"r": r, key: q or []}
    if c == "e.new":
        r, e = call(lambda: walk(["", t[2]] + t[3:]))
        if r == "ok":
            E[t[1]] = e
        return {"r": r}
    if c in ("e.net", "e.as", "e.country"):
        conv, key = {"e.net": (net, "net"), "e.as": (as_, "as"), "e.country": (country, "country")}[c]
        r, x = call(lambda: next(E[t[1]], None))
        return {"r": r, key: conv(x)}
    if c == "unref":
        {"w": W, "d": D, "e": E, "n": N, "a": A, "c": C}[t[1]].pop(t[2])
        return {"r": "ok"}
    # ---------------------------------------------------------- objects
    if c == "n.new":
        r, n = call(lambda: location.Network(unpct(t[2])))
        if r == "ok" and len(t) > 3:
            r = call(lambda: props(n, t[3:6]))[0]
        if r == "ok":
            N[t[1]] = n
        return {"r": r, "net": net(n)}
    if c == "n.get":
        n = N[t[1]]
        j = net(n)
        v, f = val(str(n).rsplit("/", 1)[0])
        return {"net": j, "fam": 4 if n.family == socket.AF_INET else 6 if n.family == socket.AF_INET6 else -1,
                "pfx": int(str(n).rsplit("/", 1)[1]), "str": str(n), "fstr": n.first_address, "lstr": n.last_address,
                "last": hx(val(n.last_address)[0])}
    if c in ("n.setcc", "n.setasn", "n.setflag"):
        n = N[t[1]]
        f = {"n.setcc": lambda: setattr(n, "country_code", unpct(t[2])), "n.setasn": lambda: setattr(n, "asn", int(t[2])),
             "n.setflag": lambda: n.set_flag(int(t[2]))}[c]
        r, _ = call(f)
        return {"r": r, "net": net(n)}
    if c == "n.hasflag":
        return {"v": int(N[t[1]].has_flag(int(t[2])))}
    if c in ("n.cmp", "a.cmp", "c.cmp"):
        m = {"n": N, "a": A, "c": C}[c[0]]
        x, y = m[t[1]], m[t[2]]
        lt, gt, eq = x < y, y < x, x == y
        if (lt, gt, eq).count(True) != 1 or (y == x) != eq or any(type(q) is not bool for q in (lt, gt, eq)):
            return {"v": 7}
        return {"v": -1 if lt else 1 if gt else 0}
    if c == "n.overlaps":       # there is no such method: from is_subnet_of
        x, y = N[t[1]], N[t[2]]
        return {"v": int(x.is_subnet_of(y) or y.is_subnet_of(x))}
    if c == "n.subnet":         # is the second a subnet of the first?
        return {"v": int(N[t[2]].is_subnet_of(N[t[1]]))}
    if c == "n.exclude":
        r, q = call(lambda: N[t[1]].exclude(N[t[2]]))
        q = [net(n) for n in q or []]
        return {"nets": sorted(q, key=lambda n: (n["a"], n["p"])), "null": 0 if r == "ok" else 1}
    if c == "n.rp":
        s = unpct(t[2])
        r, v = call(lambda: N[t[1]].reverse_pointer() if s is None else N[t[1]].reverse_pointer(suffix=s))
        return {"r": "err" if r == "ok" and v is None else r, "s": lat(v)}
    if c == "a.new":
        r, a = call(lambda: location.AS(int(t[2])))
        if r == "ok":
            A[t[1]] = a
        return {"r": r}
    if c == "a.setname":
        return {"r": call(lambda: setattr(A[t[1]], "name", unpct(t[2])))[0]}
    if c == "a.get":
        return {"as": as_(A[t[1]])}
    if c == "c.new":
        r, k = call(lambda: location.Country(unpct(t[2]) or ""))
        if r == "ok":
            C[t[1]] = k
        return {"r": r}
    if c == "c.get":
        return {"country": country(C[t[1]])}
    if c in ("c.setname", "c.setcont"):
        k = C[t[1]]
        r = call(lambda: setattr(k, "name" if c == "c.setname" else "continent_code", unpct(t[2])))[0]
        return {"r": r, "country": country(k)}
    if c == "cc.valid":
        return {"v": int(location.country_code_is_valid(unpct(t[1]) or ""))}
    # ---------------------------------------------------------- anything goes
    if c == "x.call":           # an expression: raises or returns
        src = unpct(t[1])
        env = {"location": location, "D": D.get("0"), "W": W.get("0"), "N": N.get("0"), "A": A.get("0"), "C": C.get("0")}
        def run():
            exec(compile(src, "call", "exec"), env)
            # an exception left behind shows up at the next chance
            for _ in range(3):
                [].append(len(str(1)))
                isinstance(1, int)
        return {"r": call(run)[0].replace("busy", "err")}
    if c == "x.release":        # everything is dropped: is the file still in use?
        import gc
        for m in (E, D, W, N, A, C):
            m.clear()
        gc.collect()
        p = os.path.realpath(unpct(t[1]))
        fds = 0
        for f in os.listdir("/proc/self/fd"):
            try:
                fds += os.readlink("/proc/self/fd/" + f) == p
            except OSError:
                pass
        return {"maps": sum(p in l for l in open("/proc/self/maps")), "fds": fds}
    if c == "x.cli":            # directory ("-": none) kind of stdout, arguments: the command line tool
        return cli(unpct(t[1]), t[2], [unpct(a) for a in t[3:]])
    raise Usage(" ".join(t))

_code = []
def cli(d, out, argv):
    """runs the tool in a process of its own; every file of the directory is returned"""
    if not _code:
        import argparse, datetime, logging, shutil, time, location.downloader, location.export
        logging.raiseExceptions = False
        p = os.environ["LOCATION_CLI"]
        _code.append(compile(open(p, encoding="utf-8").read(), p, "exec"))
    for f in os.listdir(d) if d else []:
        os.unlink(os.path.join(d, f))
    if d and out.endswith("j"):         # files of an earlier export are in the way
        for f in (argv[-1],):
            for sfx in ("v4.networks", "v6.networks", "v4.ipset", "v6.ipset", "v4.set", "v6.set", ".iv4", ".iv6"):
                open(os.path.join(d, f + sfx), "w").write("junk line\n" * 3000)
        junk = set(os.listdir(d))
    else:
        junk = set()
    import tempfile
    so, se = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    if out[0] == "a":                   # appended to what is there already
        import fcntl
        so.write(b"earlier line\n")
        so.flush()
        fcntl.fcntl(so, fcntl.F_SETFL, fcntl.fcntl(so, fcntl.F_GETFL) | os.O_APPEND)
    if out[0] == "p":                   # stdout is a pipe
        rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 71
        try:
            signal.alarm(50)
            os.dup2(wfd if out[0] == "p" else so.fileno(), 1)
            os.dup2(se.fileno(), 2)
            if out[0] == "p":
                os.close(rfd)
                os.close(wfd)
            sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
            sys.stderr = open(2, "w", encoding="utf-8", closefd=False)
            sys.argv = ["location"] + argv
            try:
                exec(_code[0], {"__name__": "__main__"})
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 72
            import gc
            gc.collect()
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    text = b""
    if out[0] == "p":
        os.close(wfd)
        while True:
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            text += b
        os.close(rfd)
    _, st = os.waitpid(pid, 0)
    if out[0] != "p":
        so.seek(0)
        text = so.read()
        if out[0] == "a":
            text = text[13:] if text.startswith(b"earlier line\n") else b"!" + text
    se.seek(0)
    err = se.read().decode("utf-8", "replace")
    if "AddressSanitizer" in err:
        sys.stderr.write(err)
        os._exit(99)
    files = {}
    for f in sorted(os.listdir(d)) if d else []:
        b = open(os.path.join(d, f), "rb").read()
        if f in junk and b == b"junk line\n" * 3000:
            continue
        files[f] = b.hex()
    return {"code": os.waitstatus_to_exitcode(st), "out": text.hex(), "err": err[-300:], "files": files}

def main():
    script, outp = sys.argv[1:3]
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    flush = bool(os.environ.get("DRIVER_FLUSH"))
    out = open(outp, "w")
    cur = False
    for line in open(script, encoding="latin-1"):
        t = line.rstrip("\n").split(" ")
        if t[0] == "scenario":
            if cur:
                out.write("@end\n")
            signal.alarm(60)
            for m in (E, D, W, N, A, C):
                m.clear()
            cur = True
            out.write("@scenario %s\n" % t[1])
            out.flush()
            continue
        try:
            r = command(t)
        except Usage as e:
            sys.stderr.write("DRIVER-USAGE: %s\n" % e)
            out.flush()
            os._exit(97)
        except KeyError as e:
            sys.stderr.write("DRIVER-BROKEN: empty slot %s in %s\n" % (e, line))
            out.flush()
            os._exit(96)
        except Exception as e:         # the binding answered something that cannot be
            import traceback
            traceback.print_exc()
            out.flush()
            os._exit(96)
        out.write(json.dumps(r) + "\n")
        if flush:
            out.flush()
    if cur:
        out.write("@end\n")
    out.write("@done\n")
    out.close()
    os._exit(0)

main()
