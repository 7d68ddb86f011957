"""C11: arbitrary files."""
import os, re, struct
from common import *
from nets import *
from p_db import size
import p_sign

HEAD = 4200
FIELDS = {"magic": (0, 7), "version": (7, 1), "created": (8, 8), "vendor": (16, 4), "description": (20, 4), "license": (24, 4),
          "as_off": (28, 4), "as_len": (32, 4), "net_off": (36, 4), "net_len": (40, 4), "tree_off": (44, 4), "tree_len": (48, 4),
          "ct_off": (52, 4), "ct_len": (56, 4), "pool_off": (60, 4), "pool_len": (64, 4), "sig1len": (68, 2), "sig2len": (70, 2)}
W32 = [f for f, (o, n) in FIELDS.items() if n == 4]

def header(b, intact):
    """what the specification needs to know about a file"""
    b = bytes(b)
    pad = b[:HEAD] + b"\0" * max(0, 80 - len(b))
    u16 = lambda o: struct.unpack_from(">H", pad, o)[0]
    uu = lambda o: [u16(o), u16(o + 2)]
    return {"size": len(b), "magic": list(pad[:8]), "sig1": u16(68), "sig2": u16(70), "pool": [uu(60), uu(64)], "intact": intact}

class Img:
    """an independent writer of the file format, which does not mind nonsense"""
    def __init__(self, nodes, nets, ases=(), countries=(), pool=b"\0"):
        self.nodes, self.nets, self.ases, self.countries, self.pool = nodes, nets, ases, countries, pool
    def bytes(self, gap=0, order=None, meta=(0, 0, 0), page=None, created=1600000000):
        """page: every section starts on a page, after as many free ones"""
        b32 = lambda *v: b"".join(struct.pack(">I", x & 0xffffffff) for x in v)
        secs = {"tree": b"".join(b32(z, o, 0xffffffff if n < 0 else n) for z, o, n in self.nodes),
                "net": b"".join(struct.pack(">2sHIHH", cc.encode(), 0, asn, fl, 0) for cc, asn, fl in self.nets),
                "as": b"".join(b32(n, o) for n, o in self.ases),
                "ct": b"".join(struct.pack(">2s2sI", c.encode(), k.encode(), o) for c, k, o in self.countries),
                "pool": self.pool}
        out = bytearray(HEAD)
        out[0:8] = b"LOCDBXX\x01"
        struct.pack_into(">QIII", out, 8, created, *meta)
        for s in order or ["as", "net", "tree", "ct", "pool"]:
            out += b"\0" * gap
            if page is not None:
                out += b"\0" * (-len(out) % 4096 + 4096 * page)
            struct.pack_into(">II", out, FIELDS[s + "_off"][0], len(out), len(secs[s]))
            out += secs[s]
        return out

class ImgScn(Scenario):
    def image(self, b, intact=False, key=None):
        path = os.path.join(imgdir(), "%s_%d" % (self.name, len(self.steps)))
        h = header(b, intact)
        with open(path, "wb") as f:
            f.write(b)
        self.group(["f.battery %s %s" % (pct(path), pct(key) if key else "-")],
                   lambda rs: [dict({"e": "image", "h": h}, **rs[0])])
    def answered(self):
        pass

_d = None
def imgdir():
    global _d
    if _d is None:
        _d = os.path.join(scratch(), "img")
        os.makedirs(_d)
    return _d

def written(rng, n, ases=4, cts=4):
    """a file made by the library itself"""
    path = os.path.join(imgdir(), "base-%d-%d" % (n, rng.getrandbits(48)))
    s = Scenario("base")
    K = p_sign.keys()
    cmds = ["w.new 1 %s %s" % (pct(K["A"][0]), pct(K["B"][0])), "w.meta 1 vendor s:v", "w.meta 1 license s:lic"]
    for x in rand_set(rng, n):
        cmds.append("w.net 1 %s %s %d %d -" % (pct(str(x)), x.cc or "-", x.asn, x.fl))
    for k in range(ases):
        cmds.append("w.as 1 %d %s -" % (rng.choice([1, 2, 64512, 65536, 4294967295, k + 5]), pct("name %d" % k)))
    for k in range(cts):
        cmds.append("w.country 1 %s EU %s -" % (rng.choice(["DE", "AT", "US", "ZZ", "MM"]), pct("land %d" % k)))
    cmds.append("w.write 1 %s 1" % pct(path))
    s.group(cmds, lambda rs: [])
    o = run_scenarios([s], procs=1)[0]
    if o.crash or not os.path.exists(path):
        return None
    b = bytearray(open(path, "rb").read())
    os.unlink(path)
    return b

def sections(b):
    out = {}
    for s in ("as", "net", "tree", "ct", "pool"):
        out[s] = struct.unpack_from(">II", b, FIELDS[s + "_off"][0])
    return out

def interesting(rng, b, field):
    L = len(b)
    v = struct.unpack_from(">I", b, FIELDS[field][0])[0]
    return rng.choice([0, 1, v - 1, v + 1, v + 12, L - 1, L, L + 1, L - v, L - v + 1, L - v - 1, HEAD, 4096, 8, 72, 0x7fffffff, 0x80000000,
                       0xffffffff, 0xfffffff4, 0xffffffff - L, 0x100000000 - v, rng.getrandbits(32), rng.randint(0, L), 3 * v, v // 2]) & 0xffffffff

def mutate(rng, b):
    """one broken variant of a file"""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        S = sections(b) if len(b) >= HEAD else {}
        kind = rng.randrange(12)
        if kind <= 2 and len(b) > 72:
            f = rng.choice(W32)
            struct.pack_into(">I", b, FIELDS[f][0], interesting(rng, b, f))
        elif kind == 3:
            cutat = rng.choice([0, 1, 7, 8, 9, 71, 72, 4199, 4200, 4201, len(b) - 1, len(b) // 2, rng.randint(0, len(b))] +
                               [o + d for o, l in S.values() for d in (-1, 0, 1, l - 1, l, l + 1, l // 2)])
            del b[max(0, cutat):]
        elif kind == 4 and len(b) > 72:
            struct.pack_into(">H", b, rng.choice([68, 70]), rng.choice([0, 1, 2047, 2048, 2049, 4096, 65535]))
        elif kind == 5 and len(b) > 8:
            b[rng.randrange(8)] ^= 1 << rng.randrange(8)
        elif kind in (6, 7) and "tree" in S:
            o, l = S["tree"]
            if l >= 12 and o + l <= len(b):
                n = rng.randrange(l // 12)
                v = rng.choice([0, n, n + 1, l // 12 - 1, l // 12, l // 12 + 1, 0xfffffffe, 0xffffffff, 0x7fffffff, 0x15555555, 0x15555556,
                                rng.getrandbits(32), rng.randrange(l // 12), S["net"][1] // 12, max(0, S["net"][1] // 12 - 1)])
                struct.pack_into(">I", b, o + 12 * n + 4 * rng.randrange(3), v)
        elif kind == 8 and "as" in S:
            s = rng.choice(["as", "ct"])
            o, l = S[s]
            if l >= 8 and o + l <= len(b):
                n = rng.randrange(l // 8)
                v = rng.choice([0, S["pool"][1] - 1, S["pool"][1], S["pool"][1] + 1, 0xffffffff, 0x80000000, rng.getrandbits(32)])
                struct.pack_into(">I", b, o + 8 * n + rng.choice([0, 4, 4, 4]), v & 0xffffffff)
        elif kind == 9 and "pool" in S:
            # strings that do not end within the file
            o, l = S["pool"]
            e = min(len(b), o + l)
            for i in range(max(0, min(o, len(b)), e - rng.choice([1, 2, 8, 4096])), e):
                b[i] = b[i] or 65
            if rng.random() < .6:
                del b[e:]
        elif kind == 10 and len(b):
            for _ in range(rng.choice([1, 4, 32])):
                b[rng.randrange(len(b))] = rng.choice([0, 255, rng.getrandbits(8)])
        elif kind == 11 and len(b) > HEAD:
            i = rng.randint(HEAD, len(b))
            b[i:i + rng.choice([0, 1, 12, 100])] = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 12, 100])))
    return b

def c11(chk, tier, rng):
    key = p_sign.keys()["A"][1]
    r = tlc("MC_Image", "MC_Image.cfg", env={"IMAGE_NODES": "3"}, workers=NCPU, heap="8g")
    if r.code:
        raise ToolError("MC_Image:\n" + r.out[-3000:])
    chk.model("MC_Image", r)
    trees = sorted(set(m.group(1) for m in re.finditer(r'<<"TREE",\s*(.*?)>>\s*$', r.out, re.M | re.S)
                       if "TREE" not in m.group(1)))
    parsed = [[tuple(int(x) for x in t) for t in re.findall(r"<<\s*(-?\d+),\s*(-?\d+),\s*(-?\d+)\s*>>", s)] for s in trees]
    small = [t for t in parsed if len(t) <= 2]
    big = [t for t in parsed if len(t) == 3]
    if len(small) != 742 and len(small) < 700:
        raise ToolError("MC_Image printed %d small trees" % len(small))
    pick = small + rng.sample(big, min(len(big), size(tier, 4000, len(big))))
    scns, cur = [], None
    PER = 40
    def scn():
        nonlocal cur
        if cur is None or len(cur.steps) >= PER:
            cur = ImgScn("i%d" % len(scns))
            scns.append(cur)
        return cur
    for t in pick:
        order = rng.choice([None, ["tree", "net", "as", "ct", "pool"], ["pool", "ct", "as", "net", "tree"], ["as", "ct", "pool", "tree", "net"]])
        scn().image(Img(t, [("DE", 64512, 4)], [(64512, 0)], [("DE", "EU", 0)], b"name\0").bytes(order=order))
    chk.note("trees", enumerated=len(parsed), replayed=len(pick))
    judge(chk, "all small trees", scns, set(), module="TraceImage", cfg="TraceImage.cfg", kind="mmap")
    if chk.violation:
        return
    # deep trees, loops in long paths, many loops
    scns, cur = [], None
    for n in (127, 128, 129, 130, 200, 300):
        for bit in (0, 1):
            chain = [((k + 1, 0) if bit == 0 else (0, k + 1)) + ((0,) if k % 7 == 0 else (-1,)) for k in range(n)]
            for last in (0, n - 1, 1, n // 2, n):
                for leaf in (0, -1, 1):
                    t = [list(x) for x in chain]
                    t[-1] = [last, last, leaf]
                    scn().image(Img(t, [("DE", 1, 1)], pool=b"").bytes())
            # a comb: a node beside each node of the path
            comb = []
            for k in range(n):
                comb.append([2 * k + 1, 2 * k + 2, 0] if k < n - 1 else [0, 0, 0])
                comb.append([0, 0, 0])
            t = [[0, 0, -1]] + comb
            for k in range(n):
                a, b_ = 1 + 2 * k, 2 + 2 * k
                t[0 if k == 0 else 2 * k] = [a, b_, -1] if bit else [b_, a, 0]
            scn().image(Img(t, [("DE", 1, 1)], pool=b"x").bytes())
    for k in range(size(tier, 300, 3000)):
        n = rng.choice([3, 5, 9, 40, 150])
        t = [[rng.choice([0, rng.randrange(n), min(n - 1, i + 1), n]) if rng.random() < .9 else rng.getrandbits(32),
              rng.choice([0, rng.randrange(n), min(n - 1, i + 2)]), rng.choice([-1, 0, 0, 1, 2])] for i in range(n)]
        pool = rng.choice([b"", b"\0", b"a", b"ab\0cd", b"name\0"])
        nets = [(rng.choice(["DE", "\0\0", "XX", "\x7f\x01", "de"]), rng.getrandbits(32), rng.getrandbits(16)) for _ in range(rng.choice([0, 1, 2, 3]))]
        ases = [(rng.choice([1, 64512, 64512, 5, 0xffffffff]), rng.choice([0, 1, len(pool), 3])) for _ in range(rng.choice([0, 1, 2, 5]))]
        cts = [(rng.choice(["DE", "\0\0", "XA", "AT", "d\x01"]), rng.choice(["EU", "\0\0", "\x01\x02"]), rng.choice([0, 1, len(pool), 3])) for _ in range(rng.choice([0, 1, 2, 5]))]
        scn().image(Img(t, nets, ases, cts, pool).bytes(gap=rng.choice([0, 0, 1, 5]), meta=tuple(rng.choice([0, 1, len(pool), 2 ** 32 - 1]) for _ in range(3))))
    judge(chk, "deep and random trees", scns, set(), module="TraceImage", cfg="TraceImage.cfg", kind="mmap")
    if chk.violation:
        return
    # broken variants of files the library wrote; the files themselves are intact
    scns, cur = [], None
    bases = [b for b in (written(rng, n, a, c) for n, a, c in ((0, 0, 0), (3, 4, 4), (12, 1, 1), (60, 20, 5), (5, 0, 3))) if b]
    if not bases:
        raise ToolError("no file could be written")
    compact = [Img([(1, 2, -1), (0, 3, 0), (3, 0, 1), (0, 0, 0)], [("DE", 64512, 4), ("AT", 1, 0)], [(1, 0), (64512, 2), (65536, 5)],
                   [("AT", "EU", 0), ("DE", "EU", 5)], b"a\0name\0last").bytes(gap=g) for g in (0, 3)]
    for b in bases:
        scn().image(b, intact=True, key=key)
    # every header field with every interesting value; every length around the sections
    for b in bases[1:3] + compact:
        for f in W32:
            for v in (0, 1, len(b) - 1, len(b), len(b) + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0):
                m = bytearray(b)
                struct.pack_into(">I", m, FIELDS[f][0], v)
                scn().image(m, key=key if rng.random() < .1 else None)
        for v in (0, 1, 2047, 2048, 2049, 4096, 65535):
            for o in (68, 70):
                m = bytearray(b)
                struct.pack_into(">H", m, o, v)
                scn().image(m, key=key)
        for i in range(8):
            for v in (1, 2, 3, 4, 0x20, 128, 255):
                m = bytearray(b)
                m[i] ^= v
                scn().image(m)
        o, l = sections(b)["pool"]
        for d in (-2, -1, 0, 1, 2):
            m = bytearray(b)
            struct.pack_into(">I", m, FIELDS["pool_len"][0], max(0, len(b) - o + d))
            scn().image(m)
            m = bytearray(b)
            struct.pack_into(">I", m, FIELDS["pool_off"][0], max(0, len(b) - l + d))
            scn().image(m)
            # both wrap around
            m = bytearray(b)
            struct.pack_into(">II", m, FIELDS["pool_off"][0], 0xffffffff, 1 + max(0, d) * 10)
            scn().image(m)
        cuts = {0, 1, 6, 7, 8, 9, 71, 72, 4167, 4168, 4198, 4199, 4200, 4201, len(b) - 1}
        for o, l in sections(b).values():
            cuts |= {o - 1, o, o + 1, o + l - 1, o + l, o + l + 1, o + 5, o + 13}
        for c in sorted(c for c in cuts if 0 <= c < len(b)):
            scn().image(b[:c], key=key if rng.random() < .2 else None)
    for k in range(size(tier, 12000, 150000)):
        scn().image(mutate(rng, rng.choice(bases[1:] + compact * 3)), key=key if rng.random() < .05 else None)
    for k in range(size(tier, 60, 1000)):
        n = rng.choice([0, 1, 8, 100, 4199, 4200, 4300, 9000])
        m = bytearray(rng.getrandbits(8) for _ in range(n))
        if rng.random() < .7:
            m[:8] = b"LOCDBXX\x01"[:n]
        if n >= 72 and rng.random() < .8:
            for o in range(28, 72):
                m[o] = 0 if rng.random() < .7 else m[o]
        scn().image(m)
    outs = judge(chk, "broken files", scns, set(), module="TraceImage", cfg="TraceImage.cfg", kind="mmap")
    if outs:
        evs = [e for o in outs for e in o.events if e["e"] == "image"]
        chk.note("broken files: outcome", opened=sum(e["opened"] for e in evs), refused=sum(not e["opened"] for e in evs),
                 answers=sum(e["answers"] for e in evs), errors=sum(e["errors"] for e in evs))
    chk.assumptions.append("reads outside of the file are seen because the mapping is replaced by a heap block of exactly the file's size (AddressSanitizer)")
