"""Addresses and generators shared by the scenario generators."""
import ipaddress, random
from common import pct, u32, Scenario

V4 = 0xffff << 32
ALL = (1 << 128) - 1

def hx(v):
    return [(v >> (112 - 16 * i)) & 0xffff for i in range(8)]

def first(v, p):
    return v & (ALL ^ ((1 << (128 - p)) - 1)) if p < 128 else v

def last(v, p):
    return first(v, p) | ((1 << (128 - p)) - 1)

def is4(v, p=128):
    return p >= 96 and (v >> 32) == 0xffff

def addrstr(v):
    if is4(v):
        return str(ipaddress.IPv4Address(v & 0xffffffff))
    return str(ipaddress.IPv6Address(v))

def netstr(v, p):
    if is4(v, p):
        return "%s/%d" % (ipaddress.IPv4Address(v & 0xffffffff), p - 96)
    return "%s/%d" % (ipaddress.IPv6Address(v), p)

def contains(v, p, x):
    return first(x, p) == first(v, p)

class Net:
    __slots__ = ("v", "p", "cc", "asn", "fl")
    def __init__(self, v, p, cc="", asn=0, fl=0):
        self.v, self.p, self.cc, self.asn, self.fl = first(v, p), p, cc, asn, fl
    def js(self):
        return {"a": hx(self.v), "p": self.p, "cc": self.cc, "asn": u32(self.asn), "fl": self.fl}
    def __str__(self):
        return netstr(self.v, self.p)
    def key(self):
        return (self.v, self.p)

CCS = ["DE", "FR", "US", "AA", "ZZ", "GB", "AX", "WZ", "YT"]
ASNS = [0, 1, 23456, 65535, 65536, 4200000000, 2**31 - 1, 2**31, 2**32 - 1, 204867]

class DBScn(Scenario):
    """A scenario around writers, files, handles"""
    def __init__(self, name, workdir="."):
        super().__init__(name)
        self.w = workdir

    def path(self, tag="db"):
        return "f_%s_%s" % (self.name.replace("/", "_"), tag)

    def wnew(self, w=0, k1=None, k2=None):
        self.do("w.new %d %s %s" % (w, pct(k1), pct(k2)), {"e": "w.new", "w": w})

    def wnet(self, n, w=0, string=None, valid=True, keep="-"):
        s = string if string is not None else str(n)
        self.do("w.net %d %s %s %d %d %s" % (w, pct(s), n.cc or "-", n.asn, n.fl, keep),
                {"e": "w.net", "w": w, "net": n.js(), "valid": valid})

    def wnets(self, nets, w=0):
        cmds = ["w.net %d %s %s %d %d -" % (w, pct(str(n)), n.cc or "-", n.asn, n.fl) for n in nets]
        js = [n.js() for n in nets]
        self.group(cmds, lambda rs: [{"e": "w.nets", "w": w,
                                      "qs": [{"net": j, "r": r["r"]} for j, r in zip(js, rs)]}])

    def wwrite(self, path, w=0):
        def make(rs):
            return [{"e": "w.write", "w": w, "path": path, "r": rs[0]["r"] if not rs[1]["badimg"] else "broken",
                     "stored": rs[1]["stored"]}]
        self.group(["w.write %d %s 1" % (w, pct(path)), "f.decode %s" % pct(path)], make)

    def dopen(self, path, d=0):
        self.do("d.open %d %s" % (d, pct(path)), {"e": "d.open", "d": d, "path": path})

    def unlink(self, path):
        self.do("f.unlink %s" % pct(path), {"e": "f.unlink", "p": path})

    def lookups(self, xs, d=0, kind="d.lookups", strings=None):
        """xs: list of address values; strings: (string, valid, value) triples"""
        cmds, qs = [], []
        for i, x in enumerate(xs):
            if i % 5 == 4:
                cmds.append("d.lookup6 %d %032x" % (d, x))
            else:
                cmds.append("d.lookup %d %s" % (d, pct(addrstr(x))))
            qs.append((hx(x), True))
        for s, valid, v in strings or []:
            cmds.append("d.lookup %d %s" % (d, pct(s)))
            qs.append((hx(v or 0), valid))
        def make(rs):
            return [{"e": kind, "d": d, "qs": [{"x": q[0], "valid": q[1], "r": r["r"], "net": r["net"]}
                                               for q, r in zip(qs, rs)]}]
        if cmds:
            self.group(cmds, make)

    def dnets(self, d=0, flat=False, fam=0, fl=0, cs=None, asns=None, cls="enum", again=False):
        cmd = "d.nets %d 1 %d %d %d %s %s -" % (d, (1 if flat else 0) + (2 if again else 0), fam, fl,
            "-" if cs is None else (",".join(cs) or "@"), "-" if asns is None else (",".join(map(str, asns)) or "@"))
        def make(rs, ev={"e": "d.nets", "d": d, "class": cls, "flat": flat, "fam": fam, "fl": fl,
                      "con": cs is not None, "aon": asns is not None, "cs": list(cs or []),
                      "as": [u32(a) for a in asns or []]}):
            r = rs[0]
            return [dict(ev, r=r["r"], more=r["more"], nets=[] if r["more"] else r["nets"])]
        self.group([cmd], make)

    def dbogons(self, d=0, fam=0):
        def make(rs):
            r = rs[0]
            q = sorted([] if r["more"] else r["nets"], key=lambda n: (n["a"], n["p"]))
            m = [0, 0, 0, 0, 0, 65535]
            return [{"e": "d.bogons", "d": d, "fam": fam, "r": r["r"], "more": r["more"],
                     "q4": [n for n in q if n["a"][:6] == m and n["p"] >= 96],
                     "q6": [n for n in q if not (n["a"][:6] == m and n["p"] >= 96)]}]
        self.group(["d.nets %d 4 0 %d 0 - - -" % (d, fam)], make)

def critical(nets, rng=None, extra=0, cap=None):
    """addresses around all boundaries, plus random ones inside and outside"""
    pts = {0, ALL, V4, V4 + 2**32 - 1, V4 - 1, V4 + 2**32}
    for n in nets:
        l = last(n.v, n.p)
        for x in (n.v, n.v - 1, n.v + 1, l, l - 1, l + 1):
            if 0 <= x <= ALL:
                pts.add(x)
        if rng and n.p < 127:
            pts.add(n.v | rng.getrandbits(128 - n.p))
            pts.add(n.v + (1 << (127 - n.p)))          # first address of the second half
    for _ in range(extra):
        pts.add(rng.getrandbits(128))
        pts.add(V4 | rng.getrandbits(32))
    pts = sorted(pts)
    if cap and rng and len(pts) > cap:
        pts = rng.sample(pts, cap)
    return pts

# ---------------------------------------------------------------- network sets
def rand_block(rng, fam, bias=None):
    if fam == 4:
        p = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32, rng.randint(0, 32)])
        return V4 | rng.getrandbits(32), 96 + p
    p = rng.choice([0, 1, 3, 7, 8, 16, 31, 32, 33, 47, 48, 63, 64, 65, 79, 80, 81, 95, 96, 97, 111, 112, 126, 127, 128,
                    rng.randint(0, 128)])
    v = rng.getrandbits(128)
    if rng.random() < .5:
        v = (0x2 << 124) | (v >> 4)
    return v, p

def near(rng, n):
    """a block related to n: parent, child, sibling, neighbour, same start"""
    v, p = n
    lo = 96 if is4(v, p) else 0
    k = rng.randint(0, 6)
    if k == 0 and p > lo:
        return v, max(lo, p - rng.randint(1, 4))
    if k == 1 and p < 128:
        q = min(128, p + rng.randint(1, 9))
        return first(v, p) | rng.getrandbits(128 - p), q
    if k == 2 and p > lo:
        return v ^ (1 << (128 - p)), p
    if k == 3:
        x = last(v, p) + 1
        return (x if x <= ALL and (lo == 0 or is4(x)) else v), p
    if k == 4:
        x = first(v, p) - 1
        return (x if x >= 0 and (lo == 0 or is4(x)) else v), rng.choice([p, 128])
    if k == 5 and p < 128:
        return v, min(128, p + rng.randint(1, 32))
    if p < 128:
        return last(v, p), min(128, p + rng.randint(1, 32))
    return v, p

FLAGS = [0, 0, 1, 2, 4, 8, 3, 15, 0x8000, 0x100, 0x10]
def near_attr(rng, a, ccs, asns, flags=True):
    """attributes that differ in one respect only"""
    cc, asn, fl = a
    k = rng.randint(0, 2 if flags else 1)
    if k == 0:
        if cc and rng.random() < .7:
            c = list(cc)
            i = rng.randint(0, 1)
            c[i] = rng.choice("ABCDEFGHIJKLMNOPQRSTUVWYZ")
            c = "".join(c)
            if set(ccs) <= set(CCS + [""]) or c in ccs:
                return c, asn, fl
        return rng.choice(ccs), asn, fl
    if k == 1:
        if set(asns) <= set(ASNS):
            return cc, rng.choice([0, asn ^ (1 << rng.randint(0, 31)), asn ^ (1 << rng.randint(0, 31)), (asn + 1) % 2**32,
                                   (asn << 8) % 2**32, rng.choice(asns)]), fl
        return cc, rng.choice(asns), fl
    return cc, asn, rng.choice([fl ^ (1 << rng.randint(0, 15)), fl ^ (1 << rng.randint(0, 15)), 0, fl | 1])

def rand_set(rng, size, fams=(4, 6), ccs=None, asns=None, flags=True, nattr=None, spans4=True, attr0=True):
    """a set of networks with many relations between them"""
    blocks, seen = [], set()
    tries = 0
    while len(blocks) < size and tries < size * 30:
        tries += 1
        if blocks and rng.random() < .7:
            v, p = near(rng, rng.choice(blocks))
        else:
            v, p = rand_block(rng, rng.choice(fams))
        v = first(v, p)
        fam = 4 if is4(v, p) else 6
        if fam not in fams or (v, p) in seen:
            continue
        if fam == 6 and p < 96 and first(V4, p) == v and not spans4:
            continue
        if fam == 6 and is4(v):
            continue
        seen.add((v, p))
        blocks.append((v, p))
    pool = []
    ccs = ccs if ccs is not None else CCS + [""]
    asns = asns if asns is not None else ASNS
    for _ in range(nattr or rng.choice([1, 2, 3, 6])):
        if pool and rng.random() < .6:
            pool.append(near_attr(rng, rng.choice(pool), ccs, asns, flags))
        else:
            pool.append((rng.choice(ccs), rng.choice(asns), rng.choice(FLAGS) if flags else 0))
    return [Net(v, p, *rng.choice(pool)) for v, p in blocks]
