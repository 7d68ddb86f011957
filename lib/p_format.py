"""C27: the file format."""
import json, os, re, struct, subprocess, time
from common import *
from nets import *
from p_db import *
import p_image, p_sign, p_update
from p_image import Img

PAGE = 4096
def limbs(v):
    return [(v >> s) & 0xffff for s in (48, 32, 16, 0)]

def pages(b):
    out = []
    for i in range(0, len(b), PAGE):
        out.append(list(bytes(b[i:i + PAGE]).rstrip(b"\0")))
    return {"size": len(b), "pages": out}

def unpages(r):
    b = b"".join(bytes(p) + b"\0" * (PAGE - len(p)) for p in r["pages"])
    return b[:r["size"]]

class Sparse:
    """the bytes of a large file with wide gaps"""
    def __init__(self):
        self.page, self.size = {}, 0
    def put(self, off, b):
        self.size = max(self.size, off + len(b))
        for i in range(0, len(b)):
            p, k = divmod(off + i, PAGE)
            self.page.setdefault(p, bytearray(PAGE))[k] = b[i]
    def store(self, path):
        with open(path, "wb") as f:
            f.truncate(self.size)
            for p, b in self.page.items():
                f.seek(p * PAGE)
                f.write(b[:self.size - p * PAGE])
    def js(self):
        cut = lambda b: list(bytes(b).rstrip(b"\0"))
        return {"size": self.size, "pages": [cut(self.page[0]), cut(self.page.get(1, b""))],
                "far": {str(p): cut(b) for p, b in self.page.items() if p > 1}}

def accepted(b, names):
    """the keys whose signature is in one of the slots, as openssl sees it"""
    if not any(b[68:72]):
        return []
    K = p_sign.keys()
    body = bytearray(b)
    body[68:72] = b"\0" * 4
    body[72:4168] = b"\0" * 4096
    d = os.path.join(scratch(), "toverify")
    open(d, "wb").write(body)
    out = []
    for k in names:
        for lo, so in ((68, 72), (70, 2120)):
            n = struct.unpack_from(">H", b, lo)[0]
            if n:
                open(d + ".sig", "wb").write(b[so:so + n])
                p = subprocess.run(["openssl", "dgst", "-sha256", "-verify", K[k][1], "-signature", d + ".sig", d],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode == 0:
                    out.append(k)
                    break
    return out

class FormScn(DataScn):
    def new(self, keys):
        K = p_sign.keys()
        ks = [pct(K[k][0]) if k else "-" for k in (list(keys) + [None, None])[:2]]
        self.group(["w.new 0 %s %s" % tuple(ks)], lambda rs: [{"e": "w.new", "w": 0, "r": rs[0]["r"], "keys": [k for k in keys if k]}])
    def form(self, path, cands=("A", "B", "R", "C")):
        def make(rs):
            now = int(time.time())
            return [{"e": "f.form", "path": path, "f": {"size": rs[0]["size"], "pages": rs[0]["pages"]}, "from": limbs(now - 3600),
                     "to": limbs(now + 60), "sigs": accepted(unpages(rs[0]), cands)}]
        self.group(["f.bytes %s" % pct(path)], make)
    def file(self, b, keys=()):
        path = os.path.join(p_image.imgdir(), "%s_%d" % (self.name, len(self.steps)))
        if isinstance(b, Sparse):
            b.store(path)
            ev = {"e": "f.file", "path": path, "f": b.js(), "keys": []}
        else:
            with open(path, "wb") as f:
                f.write(b)
            ev = {"e": "f.file", "path": path, "f": pages(b), "keys": list(keys)}
        self.event(lambda rs: [ev])
        return path
    def metaf(self, d=0):
        def make(rs):
            r = rs[0]
            return [{"e": "d.meta", "d": d, "vendor": r["vendor"], "description": r["description"],
                     "license": r["license"], "count": r["count"], "fresh": True},
                    {"e": "d.created", "d": d, "t": limbs(int(r["created"]) & (2**64 - 1))}]
        self.group(["d.meta %d" % d], make)
    def verify(self, key, d=0):
        self.do("d.verify %d %s" % (d, pct(p_sign.keys()[key][1])), {"e": "d.verify", "d": d, "key": key})

def content_of(b):
    """where to ask: the networks, numbers and codes of a file (only used to choose questions)"""
    u32 = lambda o: struct.unpack_from(">I", b, o)[0]
    ao, al, no, nl, to, tl, co, cl = (u32(28 + 4 * i) for i in range(8))
    nets = []
    def walk(n, v, d):
        o = to + 12 * n
        if u32(o + 8) != 0xffffffff:
            nets.append(Net(v, d))
        if u32(o): walk(u32(o), v, d + 1)
        if u32(o + 4): walk(u32(o + 4), v | 1 << (127 - d), d + 1)
    if tl:
        walk(0, 0, 0)
    return (nets, [u32(ao + 8 * i) for i in range(al // 8)], [bytes(b[co + 8 * i:co + 8 * i + 2]).decode() for i in range(cl // 8)])

def questions(s, rng, b, path, keys=(), ask=40):
    nets, nums, codes = b.content if isinstance(b, Sparse) else content_of(b)
    s.dopen(path)
    xs = critical(nets)
    s.lookups(xs if len(xs) <= ask else rng.sample(xs, ask))
    near = [m for n in nums[:20] for m in (n - 1, n, n + 1) if 0 <= m < 2**32]
    s.asq(sorted(set(near + [0, 1, 2**32 - 1])))
    for c in codes[:30] + rng.sample(ALLCODES, 2):
        s.countryq(c)
    s.listas(rounds=1)
    s.listct(rounds=1)
    s.dnets(cls="enum")
    if len(nets) <= 20:
        s.dnets(flat=True, cls="enum")
        s.dbogons()
    s.metaf()
    if not isinstance(b, Sparse):
        for k in ("A", "B", "R", "C")[:4 if keys else 1]:
            s.verify(k)
    s.do("unref d 0", {"e": "unref", "t": "d", "i": 0})

def random_image(rng, rand_name=rand_name, flags=0xffff):
    """a file of any legal shape"""
    nets = rand_set(rng, rng.choice([0, 1, 3, 8, 20]))
    nets = [Net(n.v, n.p, n.cc, n.asn, n.fl & flags) for n in nets]
    # nodes in any order, the root first
    paths = {(0, 0)}
    for n in nets:
        for d in range(n.p + 1):
            paths.add((first(n.v, d), d))
    if rng.random() < .3:
        # branches that lead nowhere
        for _ in range(3):
            v, p = rng.getrandbits(128), rng.randint(1, 40)
            for d in range(p + 1):
                paths.add((first(v, d), d))
    rest = sorted(paths - {(0, 0)}, key=lambda x: (x[1], x[0]))
    how = rng.randrange(4)
    if how == 1: rest.sort()
    if how == 2: rest.reverse()
    if how == 3: rng.shuffle(rest)
    order = [(0, 0)] + rest
    pos = {x: i for i, x in enumerate(order)}
    recs, at = [], {}
    for n in rng.sample(nets, len(nets)):
        if rng.random() < .2:
            recs.append(("ZZ", 1, 1))                         # a record nobody uses
        r = (n.cc or "\0\0", n.asn, n.fl)
        if r in recs and rng.random() < .5:
            at[n.key()] = recs.index(r)
        else:
            at[n.key()] = len(recs); recs.append(r)
    nodes = []
    for v, d in order:
        kid = lambda b: pos.get((v | b << (127 - d), d + 1), 0) if d < 128 else 0
        nodes.append((kid(0), kid(1), at.get((v, d), -1)))
    if rng.random() < .3:
        nodes.append((0, 0, -1))                              # a node nobody uses
    pool = bytearray(rng.choice([b"\0", b"", b"junk\0", b"\xff\xfe\0"]))
    where = {}
    def put(s):
        b = (s or "").encode("utf-8", "surrogateescape")
        if b in where and rng.random() < .7:
            return where[b]
        if b and len(b) < 60 and rng.random() < .3:
            pool.extend(b"prefix of ")                          # only the end is meant
        where[b] = len(pool)
        pool.extend(b + b"\0")
        return where[b]
    nums = sorted(set(rng.sample(NUMBERS, rng.randint(0, 8)) + [rng.getrandbits(32) for _ in range(rng.choice([0, 2, 15]))]))
    codes = sorted(rng.sample(ALLCODES, rng.choice([0, 1, 2, 5, 20])))
    ases = [(n, put(rand_name(rng))) for n in rng.sample(nums, len(nums))]
    cts = [(c, rng.choice(CONTS) or "\0\0", put(rand_name(rng))) for c in rng.sample(codes, len(codes))]
    meta = [put(rand_name(rng)) for _ in range(3)]
    img = Img(nodes, recs, sorted(ases), sorted(cts), bytes(pool))
    secs = ["as", "net", "tree", "ct", "pool"]
    if rng.random() < .7:
        rng.shuffle(secs)
    b = img.bytes(order=secs, meta=meta, page=rng.choice([0, 0, 1, 3]), created=rng.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 1600000000, 2**40 + 7]))
    if rng.random() < .4:
        b += b"\0" * (-len(b) % PAGE)
    if rng.random() < .3:
        b += bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 100, PAGE])))     # after the last section
    if rng.random() < .3:
        b[4168:4200] = bytes(rng.getrandbits(8) for _ in range(32))                   # reserved
    if rng.random() < .3 and recs:
        o = struct.unpack_from(">I", b, 36)[0]
        for i in range(len(recs)):
            b[o + 12 * i + 2:o + 12 * i + 4] = bytes([rng.getrandbits(8), 255])
            b[o + 12 * i + 10:o + 12 * i + 12] = bytes([1, rng.getrandbits(8)])
    keys = []
    for slot in (1, 2):
        if rng.random() < .2:
            k = rng.choice(["A", "B", "R"])
            if k not in keys:
                keys.append(k)
                p_update.sign(b, slot, p_sign.keys()[k][0])
    return b, keys

def wide_image(rng, big):
    """a file with places, nodes and records of large numbers: most of it is a hole"""
    lim = lambda s: 1 << (25 if s == big else rng.choice([8, 17, 21]))
    nets = rand_set(rng, rng.choice([3, 8, 20]))
    paths = {(0, 0)}
    for n in nets:
        for d in range(n.p + 1):
            paths.add((first(n.v, d), d))
    rest = list(paths - {(0, 0)})
    rng.shuffle(rest)
    def places(k, top):
        """k numbers of 1..top - 1: the largest ones, around the powers of two, anywhere"""
        out = {top - 1, top - 2}
        for e in range(8, 26):
            out |= {x for x in ((1 << e) - 1, 1 << e, (1 << e) + 1) if x < top}
        while len(out) < k + 8:
            out.add(rng.randrange(1, max(top, 4 * k)))
        return rng.sample(sorted(out), k)
    pos = {(0, 0): 0}
    pos.update(zip(rest, places(len(rest), max(lim("tree"), len(rest) * 4))))
    rec = dict(zip([n.key() for n in nets], places(len(nets), max(lim("net"), 256))))
    img = Sparse()
    b32 = lambda *v: b"".join(struct.pack(">I", x & 0xffffffff) for x in v)
    nums = sorted(set(rng.sample(NUMBERS, 4) + [rng.getrandbits(32) for _ in range(4)]))
    codes = sorted(rng.sample(ALLCODES, 5))
    names = [(rand_name(rng) or "").encode("utf-8", "surrogateescape")[:200] for _ in range(len(nums) + len(codes) + 3)]
    top = max(lim("pool"), 65536)
    at = [p * 256 % top if p * 256 < top else p // 256 * 256 for p in places(len(names), top)]
    at = list(dict.fromkeys(at))
    while len(at) < len(names):
        x = rng.randrange(top // 256) * 256
        if x not in at:
            at.append(x)
    length = {"tree": 12 * (max(pos.values()) + 1), "net": 12 * (max(rec.values()) + 1), "as": 8 * len(nums),
              "ct": 8 * len(codes), "pool": max(at) + 256}
    secs = list(length)
    rng.shuffle(secs)
    off, o = {}, PAGE * 2
    for s in secs:
        off[s] = o
        o += length[s] + (-length[s]) % PAGE
    img.put(0, b"LOCDBXX\x01" + struct.pack(">QIII", 1600000000, *at[:3]))
    for s in secs:
        img.put(p_image.FIELDS[s + "_off"][0], struct.pack(">II", off[s], length[s]))
    img.put(off["pool"] + length["pool"] - 1, b"\0")
    for p, b in zip(at, names):
        img.put(off["pool"] + p, b + b"\0")
    netof = {n.key(): n for n in nets}
    for (v, d), i in pos.items():
        kid = lambda b: pos.get((v | b << (127 - d), d + 1), 0) if d < 128 else 0
        img.put(off["tree"] + 12 * i, b32(kid(0), kid(1), rec.get((v, d), 0xffffffff)))
    for k, i in rec.items():
        n = netof[k]
        img.put(off["net"] + 12 * i, struct.pack(">2sHIHH", (n.cc or "\0\0").encode(), 0, n.asn, n.fl, 0))
    for i, n in enumerate(nums):
        img.put(off["as"] + 8 * i, b32(n, at[3 + i]))
    for i, c in enumerate(codes):
        img.put(off["ct"] + 8 * i, struct.pack(">2s2sI", c.encode(), (rng.choice(CONTS) or "\0\0").encode(), at[3 + len(nums) + i]))
    img.size = o
    img.content = (nets, nums, codes)
    return img

def c27(chk, tier, rng):
    # files that the specification writes
    k = size(tier, 2, 3)
    r = tlc("MC_Format", "MC_Format.cfg", env={"GEN_K": str(k)}, timeout=2500)
    if r.code or "Error:" in r.out:
        raise ToolError("MC_Format:\n" + r.out[-2000:])
    chk.model("MC_Format", r)
    files = [json.loads(json.loads(l)[5:]) for l in r.out.splitlines() if l.startswith('"FILE ')]
    chk.note("spec_files", files=len(files))
    scns = []
    files.sort(key=lambda f: json.dumps(f))
    for i, f in enumerate(files):
        b = bytearray(unpages(f))
        s = FormScn("spec%d" % i)
        questions(s, rng, b, s.file(b))
        scns.append(s)
    checked = {"format", "created", "lookup", "as", "country", "meta", "enum", "bogons", "open", "verify", "setup"}
    judge(chk, "files of the specification", scns, checked)
    # files of other shapes
    scns = []
    for i in range(size(tier, 90, 1500)):
        b, keys = random_image(rng)
        s = FormScn("other%d" % i)
        questions(s, rng, b, s.file(b, keys), keys)
        scns.append(s)
    judge(chk, "files made elsewhere", scns, checked)
    # with large numbers in them
    scns = []
    for i in range(size(tier, 6, 60)):
        b = wide_image(rng, ("tree", "net", "pool")[i % 3])
        s = FormScn("wide%d" % i)
        p = s.file(b)
        questions(s, rng, b, p)
        s.unlink(p)
        scns.append(s)
    judge(chk, "wide files", scns, checked)
    # what the library writes
    scns = []
    for i in range(size(tier, 140, 2500)):
        s = FormScn("written%d" % i)
        keys = [[], [], ["A"], ["B", "A"], [None, "R"], ["R", "B"], ["R"]][i % 7]
        s.new(keys)
        nums = list(dict.fromkeys(rng.sample(NUMBERS, rng.randint(0, 8)) + [rng.getrandbits(32) for _ in range(rng.choice([0, 3, 20]))]))
        s.ases([(n, rand_name(rng)) for n in nums])
        codes = rng.sample(ALLCODES, rng.choice([0, 1, 2, 5, 20, 60]))
        for c in codes:
            s.country(c, rng.choice(CONTS), rand_name(rng))
        for what in ("vendor", "description", "license"):
            if rng.random() < .8:
                s.setmeta(what, rand_name(rng) or "")
        s.wnets(rand_set(rng, rng.choice([0, 1, 2, 5, 12, 30])))
        for k in range(rng.choice([1, 1, 2])):
            p = s.path(str(k))
            s.write(p)
            s.form(p)
            s.unlink(p)
        scns.append(s)
    # sections of more than a page
    for i in range(size(tier, 3, 12)):
        s = FormScn("large%d" % i)
        s.new([])
        if i % 3 == 0:
            s.ases([(n, "n%d" % (n % 50)) for n in rng.sample(range(2**32), 513 + rng.randint(0, 600))])
        elif i % 3 == 1:
            for c in rng.sample(ALLCODES, 600):
                s.country(c, rng.choice(CONTS), "of " + c)
        else:
            s.wnets(rand_set(rng, 70))
            s.ases([(n, "x" * rng.randint(0, 200)) for n in range(60)])
        p = s.path()
        s.write(p)
        s.form(p)
        s.unlink(p)
        scns.append(s)
    judge(chk, "files of the library", scns, checked)
    chk.assumptions += ["signatures are made and checked independently with the openssl program"]
