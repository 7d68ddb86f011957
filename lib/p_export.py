"""C16: exported sets; C21: what the command line tool reports."""
import ipaddress, os, random, re, shutil, struct, tempfile
from common import *
from nets import *
from p_db import size, DataScn, ALLCODES, CONTS, NUMBERS, NAMES, ckey, dec, chars, worlds, embeddings, embed, BAD_ADDR, spellings, filters
from p_bind import BindScn
import p_sign

FORMATS = ["list", "ipset", "nftables", "xt_geoip"]
SPECIAL = ["A1", "A2", "A3", "XD"]

# ---------------------------------------------------------------- reading what was written
def place(v, p):
    return {"a": hx(v), "p": p, "cc": "", "asn": [0, 0], "fl": 0}

def netof(text):
    n = ipaddress.ip_network(text, strict=True)
    if "/" not in text:
        raise ValueError(text)
    v, p = int(n.network_address), n.prefixlen
    return (V4 | v, p + 96) if n.version == 4 else (v, p)

def blocks(a, b):
    """the blocks of a range"""
    out = []
    while a <= b:
        k = 128 if a == 0 else (a & -a).bit_length() - 1
        while k and a + (1 << k) - 1 > b:
            k -= 1
        out.append((a, 128 - k))
        a += 1 << k
    return out

def found(qs, ok=True, tag="", hdrfam=0):
    srt = sorted(qs)
    return {"ok": ok, "tag": tag, "hdrfam": hdrfam, "asc": srt == list(qs), "q": [place(v, p) for v, p in srt]}

def read_set(fmt, data, fam):
    """a set as it is in the file"""
    try:
        if fmt == "xt_geoip":
            w = 4 if fam == 4 else 16
            if len(data) % (2 * w):
                return found([], False)
            qs = []
            for i in range(0, len(data), 2 * w):
                a, b = (int.from_bytes(data[i + j * w:i + j * w + w], "big") | (V4 if fam == 4 else 0) for j in (0, 1))
                if a > b:
                    return found([], False)
                qs += blocks(a, b)
            return found(qs)
        text = data.decode("ascii")
        if text and not text.endswith("\n"):
            return found([], False)
        lines = text.split("\n")[:-1]
        if fmt == "list":
            return found([netof(l) for l in lines])
        if fmt == "ipset":
            m = re.fullmatch(r"create (\S+) hash:net family (inet6?) hashsize +(\d+) maxelem (\d+) -exist", lines[0])
            if not m or lines[1] != "flush " + m.group(1) or int(m.group(3)) < 1 or int(m.group(4)) < len(lines) - 2:
                return found([], False)
            qs = []
            for l in lines[2:]:
                a = l.split(" ")
                if len(a) != 3 or a[0] != "add" or a[1] != m.group(1):
                    return found([], False)
                qs.append(netof(a[2]))
            return found(qs, True, m.group(1), 6 if m.group(2) == "inet6" else 4)
        if fmt == "nftables":
            m = re.fullmatch(r"define (\S+) = \{", lines[0])
            if not m or lines[-1] != "}" or len(lines) < 2:
                return found([], False)
            qs = []
            for l in lines[1:-1]:
                n = re.fullmatch(r"\s+(\S+),", l)
                if not n:
                    return found([], False)
                qs.append(netof(n.group(1)))
            return found(qs, True, m.group(1))
    except (ValueError, IndexError, UnicodeDecodeError):
        pass
    return found([], False)

def read_sets(fmt, data):
    """several sets one after another, in the order in which they are printed"""
    heads, qs, ok = [], [], True
    try:
        lines = data.decode("ascii").split("\n")
        ok = lines.pop() == ""
        inside = False
        for l in lines:
            if fmt == "list":
                qs.append(netof(l))
            elif fmt == "nftables":
                m = re.fullmatch(r"define (\S+) = \{", l)
                n = re.fullmatch(r"\s+(\S+),", l)
                if m and not inside:
                    inside = True
                    heads.append({"tag": m.group(1), "hdrfam": 0, "at": len(qs)})
                elif n and inside:
                    qs.append(netof(n.group(1)))
                elif l == "}" and inside:
                    inside = False
                else:
                    ok = False
            else:
                m = re.fullmatch(r"create (\S+) hash:net family (inet6?) hashsize +(\d+) maxelem (\d+) -exist", l)
                a = l.split(" ")
                if m and int(m.group(3)) >= 1 and not inside:
                    heads.append({"tag": m.group(1), "hdrfam": 6 if m.group(2) == "inet6" else 4, "at": len(qs)})
                    inside = True
                elif inside and l == "flush " + heads[-1]["tag"]:
                    inside = False
                elif not inside and heads and len(a) == 3 and a[0] == "add" and a[1] == heads[-1]["tag"]:
                    qs.append(netof(a[2]))
                else:
                    ok = False
        ok = ok and not inside
    except (ValueError, IndexError, UnicodeDecodeError):
        ok = False
    return {"ok": ok, "heads": heads, "q": [place(v, p) for v, p in qs] if ok else []}

class CliScn(BindScn):
    def cli(self, argv, make, out="p", d=None):
        self.group(["x.cli %s %s %s" % (pct(d), out, " ".join(pct(a) for a in argv))], lambda rs: make(rs[0]))

    def export(self, fmt, fam, objs, out="p", d=0, path=None):
        """objs: arguments"""
        given = []
        for o in objs:
            m = re.fullmatch(r"AS([0-9]+)", o)
            if m:
                given.append({"kind": "as", "name": "AS%d" % int(m.group(1)), "n": u32(int(m.group(1)))})
            elif o in SPECIAL or o in ALLCODES:
                given.append({"kind": "code", "name": o})
        argv = ["--database", path or self.path(), "export", "--format", fmt, "--directory", self.outdir()]
        if fam:
            argv += ["--family", "ipv%d" % fam]
        sfx = {"networks": "list", "ipset": "ipset", "set": "nftables", "iv4": "xt_geoip", "iv6": "xt_geoip"}
        def make(r):
            files = []
            for n, h in r["files"].items():
                e = n.rsplit(".", 1)
                fm = 6 if e[0].endswith("v6") or e[-1] == "iv6" else 4
                files.append(dict(read_set(fmt, bytes.fromhex(h), fm), name=n))
            return [{"e": "x.export", "d": d, "fmt": fmt, "fams": [fam] if fam else [4, 6], "given": given,
                     "code": r["code"], "files": files}]
        self.cli(argv + list(objs), make, out, self.outdir())

    def export_stdout(self, fmt, fam, obj, d=0):
        """one object and family, printed"""
        m = re.fullmatch(r"AS([0-9]+)", obj)
        o = {"kind": "as", "name": "AS%d" % int(m.group(1)), "n": u32(int(m.group(1)))} if m else {"kind": "code", "name": obj}
        def make(r):
            f = read_set(fmt, bytes.fromhex(r["out"]), fam)
            sfx = {"list": "networks", "ipset": "ipset", "nftables": "set"}[fmt]
            return [{"e": "x.export", "d": d, "fmt": fmt, "fams": [fam], "given": [o], "code": r["code"],
                     "files": [dict(f, name="%sv%d.%s" % (o["name"], fam, sfx))]}]
        self.cli(["--database", self.path(), "export", "--format", fmt, "--family", "ipv%d" % fam, obj], make, "p")

    def outdir(self):
        return os.path.join(self.dir, "out_" + self.name)

def objects(rng, nets, n=None):
    have = sorted({x.cc for x in nets if x.cc}) + ["AS%d" % a for a in sorted({x.asn for x in nets})]
    out = rng.sample(have, rng.randint(0, min(5, len(have)))) if have else []
    out += rng.sample(SPECIAL, rng.choice([0, 0, 1, 2, 4]))
    if rng.random() < .3:
        out.append(rng.choice(ALLCODES))
    if rng.random() < .3:
        out.append("AS%d" % rng.choice(NUMBERS + [rng.getrandbits(32)]))
    rng.shuffle(out)
    if out and rng.random() < .2:
        out.append(out[0])
    if out and rng.random() < .15:
        out.insert(rng.randrange(len(out)), rng.choice(["XX", "de", "D", "AS", "ASx", "as1", "A4", "AS-1", "DEU"]))
    return out or [rng.choice(ALLCODES)]

def dbscn(name, d, nets, rng, cts=True, flagmask=None):
    s = CliScn(name, d, "python")
    os.makedirs(s.outdir(), exist_ok=True)
    s.wnew()
    if flagmask is not None:
        nets = [Net(x.v, x.p, x.cc, x.asn, x.fl & flagmask) for x in nets]
    s.wnets(nets)
    if cts:
        for c in sorted({x.cc for x in nets if x.cc} | set(rng.sample(ALLCODES, 2))):
            s.country(c, rng.choice(CONTS), "Name of " + c)
    s.wwrite(s.path())
    s.split = len(s.steps)
    s.dopen(s.path())
    return s, nets

def c16(chk, tier, rng):
    d = tempfile.mkdtemp(dir=scratch())
    scns = []
    # TLC's worlds: all sets of up to 2 blocks with 2 attributes, at several places
    ws = worlds(chk, 2, 2)
    emb = embeddings(rng)
    attrs = [("DE", 1, 0), ("FR", 1, 1), ("DE", 2, 8), ("", 3, 15), ("US", 0, 2), ("", 0, 4)]
    picks = ws if tier == "thorough" else rng.sample(ws, min(len(ws), 90))
    for i, w in enumerate(picks):
        en, base, off = emb[i % len(emb)]
        pair = rng.sample(attrs, 2)
        nets = embed(w, base, off, lambda k: pair[k % 2])
        s, nets = dbscn("w%d%s" % (i, en), d, nets, rng)
        for fmt in rng.sample(FORMATS, 2):
            s.export(fmt, rng.choice([0, 0, 4, 6]), objects(rng, nets))
        scns.append(s)
    for i in range(size(tier, 110, 1500)):
        nets = rand_set(rng, rng.randint(0, 22), rng.choice([(4,), (6,), (4, 6), (4, 6)]), ccs=["DE", "FR", "US", ""],
                        asns=[0, 1, 2, 65536, 2**32 - 1], nattr=rng.choice([2, 4, 8]))
        s, nets = dbscn("r%d" % i, d, nets, rng, cts=i % 4 != 0)
        for _ in range(3):
            s.export(rng.choice(FORMATS), rng.choice([0, 0, 4, 6]), objects(rng, nets), rng.choice(["p", "pj"]))
        if i % 4 == 0:
            s.export(rng.choice(FORMATS), rng.choice([0, 4, 6]), [])
        o = objects(rng, nets)
        o = [x for x in o if x in SPECIAL or x in ALLCODES or re.fullmatch(r"AS[0-9]+", x)]
        if o:
            s.export_stdout(rng.choice(FORMATS[:3]), rng.choice([4, 6]), o[0])
        scns.append(s)
    # large sets: many networks of one object (ipset has to size its hash)
    for i, n in enumerate(size(tier, [47, 49, 100, 200], [47, 48, 49, 95, 96, 97, 150, 200, 300])):
        for fam in (4, 6):
            base = V4 | (10 << 24) if fam == 4 else 0x20010db8 << 96
            step = 9 if fam == 4 else 81
            nets = [Net(base + (2 * k << step), 128 - step, "DE", 7, 1 if k % 2 else 0) for k in range(n)]
            s, nets = dbscn("l%d_%d" % (n, fam), d, nets, rng)
            for fmt in FORMATS:
                s.export(fmt, fam if fmt != "list" else 0, rng.choice([["DE"], ["DE", "A1", "AS7"], ["AS7"], ["A1", "FR", "DE"]]))
            scns.append(s)
    # very many networks of one object, and very many objects
    n = size(tier, 410, 1000)
    nets = [Net((V4 | (10 << 24)) + (2 * k << 9), 119, "DE", 7, 0) for k in range(n)]
    s, nets = dbscn("verylarge", d, nets, rng)
    s.export("ipset", 4, ["DE"])
    scns.append(s)
    codes = rng.sample(ALLCODES, 70)
    nets = [Net(((0x20010db8 << 96) + (k << 9)) if k % 2 else (V4 | (10 << 24)) + (k << 9), 119, c, 1 + k // 2, 0) for k, c in enumerate(codes)]
    s, nets = dbscn("manyobjects", d, nets, rng)
    s.export("list", 0, codes[:45] + ["AS%d" % k for k in range(1, 35)])
    s.export("nftables", 6, [])
    scns.append(s)
    judge(chk, "exports", scns, {"export"}, kind="python")
    shutil.rmtree(d, ignore_errors=True)
    chk.assumptions += ["the stored networks are read back by an independent reader (C driver)",
                        "IPv6 networks around the IPv4 space may or may not show their IPv4 part in IPv4 sets"]

# ---------------------------------------------------------------- C21: the command line tool
FLAGTEXT = {"Anonymous Proxy": 0, "Satellite Provider": 1, "Anycast": 2, "Hostile Network safe to drop": 3}
DUMPFLAG = {"is-anonymous-proxy:": 1, "is-satellite-provider:": 2, "is-anycast:": 4, "drop:": 8}
FLAGARG = ["--anonymous-proxy", "--satellite-provider", "--anycast", "--drop"]
LNAMES = [n for n in NAMES if n and "\n" not in n and n.strip() == n and n != "\x7f\x80\xff" and "\t" not in n]

class ToolScn(CliScn):
    def db(self, argv):
        return ["--database", self.path()] + argv

    def lookup(self, qs, d=0):
        """qs: (text, valid, value)"""
        def make(r):
            lines = bytes.fromhex(r["out"]).decode("utf-8", "replace").split("\n")
            out, pos, shown = [], 0, sum(1 for l in lines if l and not l.startswith("  "))
            odd = False
            for t, valid, v in qs:
                e = {"valid": valid, "x": hx(v or 0), "found": 0, "a": [], "p": 0, "country": [], "as": [], "flags": []}
                if pos < len(lines) and lines[pos] == t + ":":
                    pos += 1
                    e["found"] = 1
                    while pos < len(lines) and lines[pos].startswith("  "):
                        k, _, val = lines[pos][2:].partition(": ")
                        k = k.rstrip()
                        pos += 1
                        if k == "Network":
                            try:
                                nv, np = netof(val)
                                e["a"], e["p"] = hx(nv), np
                            except ValueError:
                                odd = True
                        elif k == "Country":
                            e["country"].append(dec(val))
                        elif k == "Autonomous System":
                            m = re.fullmatch(r"AS(\d+)(?: - (.*))?", val)
                            e["as"].append({"n": u32(int(m.group(1))), "name": dec(m.group(2) or "")} if m else {"n": [-1, -1], "name": val})
                        elif k in FLAGTEXT and val == "yes":
                            e["flags"].append(FLAGTEXT[k])
                        else:
                            odd = True
                out.append(e)
            if pos != len(lines) - 1:
                odd = True
            return [{"e": "x.lookup", "d": d, "qs": out, "shown": -1 if odd else shown, "code": r["code"]}]
        self.cli(self.db(["lookup", "--"] + [q[0] for q in qs]), make)

    def listnets(self, cmd, args, fmt, fam, name, out="p", d=0, fl=0, cs=None, asns=None):
        argv = self.db([cmd, "--format", fmt] + (["--family", "ipv%d" % fam] if fam else []) + args)
        ev = {"e": "x.nets", "d": d, "fmt": fmt, "name": name, "fam": fam, "fl": fl, "con": cs is not None, "aon": asns is not None,
              "cs": list(cs or []), "as": [u32(a) for a in asns or []]}
        if fmt == "ipset" and not fam:
            self.cli(argv, lambda r: [{"e": "x.code", "code": r["code"], "want": [2]}], out)
        elif fmt == "xt_geoip":
            self.cli(argv, lambda r: [{"e": "x.code", "code": r["code"], "want": [0, 1, 2]}], out)
        else:
            self.cli(argv, lambda r: [dict(ev, code=r["code"], f=read_set(fmt, bytes.fromhex(r["out"]), fam))], out)

    def listmany(self, cmd, args, fmt, fam, names, out="p", d=0, cs=None, asns=None):
        argv = self.db([cmd, "--format", fmt] + (["--family", "ipv%d" % fam] if fam else []) + args)
        sets = [{"name": n, "fam": fam, "fl": 0, "con": cs is not None, "aon": asns is not None, "cs": [cs[i]] if cs else [],
                 "as": [u32(asns[i])] if asns else []} for i, n in enumerate(names)]
        self.cli(argv, lambda r: [dict(e="x.sets", d=d, fmt=fmt, fam=fam, code=r["code"], sets=sets, f=read_sets(fmt, bytes.fromhex(r["out"])))], out)

    def bogons(self, fmt, fam, out="p", d=0):
        argv = self.db(["list-bogons", "--format", fmt] + (["--family", "ipv%d" % fam] if fam else []))
        def make(r):
            f = read_set(fmt, bytes.fromhex(r["out"]), fam)
            m = [0, 0, 0, 0, 0, 65535]
            is_4 = lambda n: n["a"][:6] == m and n["p"] >= 96
            ok = f["ok"] and r["code"] == 0 and (fmt == "list" or f["tag"] == "bogonsv%s" % (fam or "?"))
            return [{"e": "d.bogons", "d": d, "fam": fam, "r": "ok" if ok else "err", "more": 0,
                     "q4": [n for n in f["q"] if is_4(n)], "q6": [n for n in f["q"] if not is_4(n)]}]
        self.cli(argv, make, out)

    def getas(self, args, d=0):
        def make(r):
            lines = bytes.fromhex(r["out"]).decode("utf-8", "replace").split("\n")[:-1]
            qs, pos = [], 0
            for a in args:
                try:
                    n = int(a)
                except ValueError:
                    n = -1
                valid = 0 <= n < 2**32
                e = {"valid": valid, "n": u32(n) if valid else [0, 0], "name": []}
                m = re.fullmatch(r"AS%d belongs to (.*)" % n, lines[pos]) if pos < len(lines) else None
                if m:
                    pos += 1
                    e["name"] = [dec(m.group(1))]
                qs.append(e)
            return [{"e": "x.getas", "d": d, "qs": qs, "code": r["code"], "extra": len(lines) - pos}]
        self.cli(self.db(["get-as"] + args), make)

    def searchas(self, q, d=0):
        def make(r):
            ases, ok = [], r["code"] == 0
            for l in bytes.fromhex(r["out"]).decode("utf-8", "replace").split("\n")[:-1]:
                m = re.fullmatch(r"AS(\d+)(?: - (.*))?", l)
                if m:
                    ases.append({"n": u32(int(m.group(1))), "name": dec(m.group(2) or "")})
                else:
                    ok = False
            return [{"e": "d.ases", "d": d, "class": "cli", "search": True, "s": chars(q), "r": "ok" if ok else "err", "ases": [ases]}]
        self.cli(self.db(["search-as", "--", q]), make)

    def countries(self, show, d=0):
        """all three columns are judged as a listing, fewer as the listing of the codes"""
        argv = self.db(["list-countries"] + (["--show-name"] if "n" in show else []) + (["--show-continent"] if "c" in show else []))
        def make(r):
            lines = bytes.fromhex(r["out"]).decode("utf-8", "replace").split("\n")[:-1]
            q, ok = [], r["code"] == 0
            for l in lines:
                f = l.split(" ", 1 + ("c" in show and "n" in show)) if show else [l]
                if len(f) != 1 + len(show):
                    ok = False
                    f += [""] * 3
                q.append({"code": f[0], "k": ckey(f[0] + "\0\0"), "cont": f[1] if "c" in show else "", "name": dec(f[-1]) if "n" in show else ""})
            if len(show) == 2:
                return [{"e": "d.countries", "d": d, "r": "ok" if ok else "err", "countries": [q]}]
            return [{"e": "d.codes", "d": d, "r": "ok" if ok else "err", "codes": [{"code": c["code"], "k": c["k"]} for c in q]}]
        self.cli(argv, make)

    def dump(self, tofile, d=0):
        f = os.path.join(self.outdir(), "dump.txt")
        def make(r):
            raw = bytes.fromhex(r["files"].get("dump.txt", "")) if tofile else bytes.fromhex(r["out"])
            lines = raw.decode("utf-8", "replace").split("\n")
            ok = r["code"] == 0 and lines[-1] == ""
            meta = {"vendor": "", "license": "", "description": "", "created": None}
            head = [l for l in lines if l.startswith("#")]
            body = lines[len(head):-1]
            if lines[:len(head)] != head or head[:3] != ["#", "# Location Database Export", "#"]:
                ok = False
            desc, k = [], 0
            for l in head[3:]:
                if l == "#":
                    k += 1
                elif k == 0 and l.startswith("# Generated: "):
                    import calendar
                    try:
                        meta["created"] = calendar.timegm(time.strptime(l[13:], "%a, %d %b %Y %H:%M:%S GMT"))
                    except ValueError:
                        ok = False
                elif k == 0 and l.startswith("# Vendor:    "):
                    meta["vendor"] = l[13:]
                elif k == 0 and l.startswith("# License:   "):
                    meta["license"] = l[13:]
                elif k == 1:
                    desc.append(l[2:])
                else:
                    ok = False
            meta["description"] = "\n".join(desc)
            objs = []
            for l in body:
                if l == "":
                    objs.append([])
                elif objs and len(l) >= 25 and l[24] == " ":
                    objs[-1].append((l[:24].rstrip(), l[25:]))
                else:
                    ok = False
            ases, nets = [], []
            for o in objs:
                try:
                    if o[0][0] == "aut-num:" and [x[0] for x in o] == ["aut-num:", "name:"]:
                        ases.append({"n": u32(int(re.fullmatch(r"AS(\d+)", o[0][1]).group(1))), "name": dec(o[1][1])})
                        ok = ok and not nets
                    elif o[0][0] == "net:":
                        v, p = netof(o[0][1])
                        n = {"a": hx(v), "p": p, "cc": "", "asn": [0, 0], "fl": 0}
                        for key, val in o[1:]:
                            if key == "country:":
                                n["cc"] = val
                            elif key == "aut-num:":
                                n["asn"] = u32(int(val[2:] if val.startswith("AS") else val))
                            elif key in DUMPFLAG and val == "yes":
                                n["fl"] |= DUMPFLAG[key]
                            else:
                                ok = False
                        nets.append(n)
                    else:
                        ok = False
                except (ValueError, IndexError, AttributeError):
                    ok = False
            res = "ok" if ok else "err"
            return [{"e": "d.nets", "d": d, "class": "cli", "flat": False, "fam": 0, "fl": 0, "con": False, "aon": False, "cs": [], "as": [],
                     "r": res, "more": 0, "nets": nets},
                    {"e": "d.ases", "d": d, "class": "cli", "search": False, "s": [], "r": res, "ases": [ases]},
                    {"e": "d.meta", "d": d, "vendor": dec(meta["vendor"]), "license": dec(meta["license"]), "description": dec(meta["description"]),
                     "count": -1, "fresh": meta["created"] is not None and abs(meta["created"] - time.time()) < 7200}]
        self.cli(self.db(["dump"] + ([f] if tofile else [])), make, "p", self.outdir() if tofile else None)

    def version(self):
        def make(r):
            import calendar
            try:
                t = calendar.timegm(time.strptime(bytes.fromhex(r["out"]).decode().strip(), "%a, %d %b %Y %H:%M:%S GMT"))
            except ValueError:
                t = 0
            return [{"e": "same", "x": abs(t - time.time()) < 7200 and r["code"] == 0, "y": True}]
        self.cli(self.db(["version"]), make)

    def toolverify(self, k, d=0):
        self.cli(["--public-key", p_sign.keys()[k][1]] + self.db(["verify"]),
                 lambda r: [{"e": "x.verify", "d": d, "key": k, "code": r["code"]}])

    def code(self, argv, want):
        self.cli(argv, lambda r: [{"e": "x.code", "code": r["code"], "want": want}])

def toolname(rng):
    if rng.random() < .5:
        return rng.choice(LNAMES)
    return "".join(rng.choice("abcdeABCDEXYZ-.0129öß\u65e5") for _ in range(rng.randint(1, 30)))

def c21(chk, tier, rng):
    d = tempfile.mkdtemp(dir=scratch())
    scns = []
    for i in range(size(tier, 90, 1200)):
        s = ToolScn("t%d" % i, d, "python")
        os.makedirs(s.outdir(), exist_ok=True)
        ks = rng.choice([[], ["A"], ["A", "B"], ["R"]])
        if ks:
            s.wsigned(ks)
        else:
            s.wnew()
        nets = rand_set(rng, rng.randint(0, 16), rng.choice([(4,), (6,), (4, 6), (4, 6)]), ccs=["DE", "FR", rng.choice(ALLCODES), rng.choice(["ZZ", "AA", "US"]), ""],
                        nattr=rng.choice([2, 4, 8, 20]))
        nets = [Net(x.v, x.p, x.cc, x.asn, x.fl & 15) for x in nets]
        s.wnets(nets)
        nums = sorted({x.asn for x in nets if x.asn and rng.random() < .6} | set(rng.sample(NUMBERS[1:], 3)))
        snames = [toolname(rng) for _ in nums]
        s.ases(list(zip(nums, snames)))
        codes = sorted({x.cc for x in nets if x.cc and rng.random() < .6} | set(rng.sample(ALLCODES, rng.choice([0, 2, 6]))))
        for c in codes:
            s.country(c, rng.choice(CONTS[:-1]), toolname(rng))
        for what in ("vendor", "license", "description"):
            if rng.random() < .7:
                s.setmeta(what, toolname(rng) if what != "description" else "\n".join(toolname(rng) for _ in range(rng.randint(1, 3))))
        s.wwrite(s.path())
        s.split = len(s.steps)
        s.dopen(s.path())
        xs = critical(nets, rng, 3)
        for _ in range(3):
            qs = [(addrstr(x), True, x) for x in rng.sample(xs, min(len(xs), rng.randint(1, 6)))]
            if nets and rng.random() < .4:
                qs = [(addrstr(n.v), True, n.v) for n in rng.sample(nets, min(3, len(nets)))]
            if rng.random() < .3:
                x = rng.choice(xs)
                qs.append((rng.choice([t for t in spellings(rng, x)]), True, x))
            if rng.random() < .25:
                qs.insert(rng.randint(0, len(qs)), (rng.choice([b for b in BAD_ADDR if b.strip() and b.isascii()]), False, 0))
            s.lookup(qs)
        fams = lambda: rng.choice([0, 4, 6])
        fmt = lambda: rng.choice(["list", "list", "ipset", "nftables", "nftables", "xt_geoip"])
        out = lambda: rng.choice(["p", "f"])
        a = rng.choice([x.asn for x in nets if x.asn] + nums)
        s.listnets("list-networks-by-as", [str(a)], fmt(), fams(), "AS%d" % a, out(), asns=[a])
        c = rng.choice([x.cc for x in nets if x.cc] + ["DE"])
        s.listnets("list-networks-by-cc", [c], fmt(), fams(), c, out(), cs=[c])
        for _ in range(2):
            f = fams()
            m = rng.choice(["list", "nftables", "ipset"] if f else ["list", "nftables"])
            n = 1
            if rng.random() < .5:
                q = [rng.choice([x.cc for x in nets if x.cc] + ["DE", "FR", rng.choice(ALLCODES)]) for _ in range(n)]
                s.listmany("list-networks-by-cc", q, m, f, q, rng.choice(["p", "f", "a"]), cs=q)
            else:
                q = [rng.choice([x.asn for x in nets if x.asn] + nums) for _ in range(n)]
                s.listmany("list-networks-by-as", [str(a) for a in q], m, f, ["AS%d" % a for a in q], rng.choice(["p", "f", "a"]), asns=q)
        k = rng.randint(1, 15)
        s.listnets("list-networks-by-flags", [f for b, f in enumerate(FLAGARG) if k >> b & 1], fmt(), fams(), "custom", out(), fl=k)
        s.bogons(*(lambda f, m: (m if f or m != "ipset" else "list", f))(fams(), rng.choice(["list", "ipset", "nftables"])), out())
        g = [str(n) for n in rng.sample(nums, min(2, len(nums)))]
        if rng.random() < .4:
            g.insert(rng.randint(0, len(g)), rng.choice(["77777", "x", "AS1", "4294967295"]))
        s.getas(g)
        s.searchas(rng.choice(["e", "TELE", "a", toolname(rng), "Deutsche", ".", " ", "b ", " t", "a B", rng.choice(snames) + " ", rng.choice(snames)[-3:]]))
        s.countries(rng.choice(["", "c", "n", "cn", "cn"]))
        s.dump(rng.random() < .4)
        s.version()
        for key in rng.sample(["A", "B", "C", "R"], 2):
            s.toolverify(key)
        s.code(["--database", "/nonexistent/db", rng.choice(["version", "dump", "list-countries"])], [1])
        s.code(rng.choice([[], ["nonsense"], s.db(["list-networks-by-flags"]), s.db(["lookup"]), s.db(["list-networks-by-as", "x"]),
                           s.db(["export", "--format", "nonsense"])]), [2])
        scns.append(s)
    judge(chk, "commands", scns, {"cli", "bogons", "country", "meta", "same"}, kind="python")
    shutil.rmtree(d, ignore_errors=True)
    chk.assumptions += ["names are single lines without surrounding spaces, messages are not translated"]
