"""Databases and sets of thousands of networks, lists of tens of thousands (TraceLots)."""
from common import *
from nets import *

CLASSES = {"setup", "write", "lookup", "enum", "search", "flat", "bogons", "arith", "list"}
ATTRS = [("DE", 1, 0), ("DE", 2, 0), ("FR", 1, 0), ("", 1, 0), ("", 65536, 1), ("US", 4200000000, 0), ("US", 0, 8), ("DE", 1, 4)]

def attr(rng, k=len(ATTRS)):
    return rng.choice(ATTRS[:k])

def wide(rng, fam, n, nattr=8):
    """many networks directly below one, some of them with a few of their own"""
    top = 104 if fam == 4 else 32
    v = first((V4 | 10 << 24 | rng.getrandbits(8) << 16) if fam == 4 else (0x20010000 + rng.getrandbits(16)) << 96, top)
    nets = {}
    def put(v, p):
        m = Net(v, p, *attr(rng, nattr))
        nets.setdefault(m.key(), m)
    put(v, top)
    p = 120 if fam == 4 else 48
    dense = rng.random() < .5
    at = rng.randrange(max(1, (1 << (p - top)) - n))
    for k in range(n):
        b = v | (((at + k) if dense else rng.randrange(1 << (p - top))) << (128 - p))
        put(b, p)
        if rng.random() < .08:
            for _ in range(rng.randint(1, 4)):
                q = rng.randint(p + 1, 128)
                put(b | rng.getrandbits(128 - p), q)
    return list(nets.values())

def scattered(rng, n, nattr=8):
    nets = {}
    while len(nets) < n:
        if nets and rng.random() < .3:
            par = rng.choice(order)
            if par.p > 124:
                continue
            p = rng.randint(par.p + 1, min(128, par.p + rng.choice([1, 2, 8, 24])))
            v = par.v | (rng.getrandbits(128 - par.p) if par.p < 128 else 0)
        elif rng.random() < .5:
            p, v = 96 + rng.randint(8, 32), V4 | rng.getrandbits(32)
        else:
            p, v = rng.randint(16, 64), 0x2 << 124 | rng.getrandbits(124)
        m = Net(v, p, *attr(rng, nattr))
        if not nets:
            order = []
        if m.key() not in nets:
            nets[m.key()] = m
            order.append(m)
    return list(nets.values())

class LotsScn(DBScn):
    def make(self, rng, nets):
        self.nets = sorted(nets, key=lambda n: (n.v, n.p))
        order = list(nets)
        if rng.random() < .7:
            rng.shuffle(order)
        p = self.path()
        cmds = ["w.new 0 - -"] + ["w.net 0 %s %s %d %d -" % (pct(str(n)), n.cc or "-", n.asn, n.fl) for n in order]
        cmds += ["w.write 0 %s 1" % pct(p), "d.open 0 %s" % pct(p), "f.unlink %s" % pct(p)]
        js = [n.js() for n in self.nets]
        self.group(cmds, lambda rs: [{"e": "lots", "nets": js, "r": "ok" if all(r["r"] == "ok" for r in rs) else "err"}])
        self.group(["d.nets 0 1 0 0 0 - - -"],
                   lambda rs: [{"e": "stored", "r": rs[0]["r"], "more": rs[0]["more"], "nets": rs[0]["nets"]}])
    def find(self, rng, n):
        self.lookups(critical(self.nets, rng, 20, cap=n), kind="lookups")
    def walk(self, cls, flat=False, fam=0, fl=0, cs=None, asns=None):
        cmd = "d.nets 0 1 %d %d %d %s %s -" % (flat, fam, fl, "-" if cs is None else (",".join(cs) or "@"),
                                               "-" if asns is None else (",".join(map(str, asns)) or "@"))
        ev = {"e": "walk", "class": cls, "flat": flat, "fam": fam, "fl": fl, "con": cs is not None, "aon": asns is not None,
              "cs": list(cs or []), "as": [u32(a) for a in asns or []]}
        self.group([cmd], lambda rs: [dict(ev, r=rs[0]["r"], more=rs[0]["more"], nets=rs[0]["nets"])])
    def bogons(self, fam):
        def make(rs):
            r = rs[0]
            q = sorted([] if r["more"] else r["nets"], key=lambda n: (n["a"], n["p"]))
            m = [0, 0, 0, 0, 0, 65535]
            return [{"e": "bogons", "fam": fam, "r": r["r"],
                     "q4": [n for n in q if n["a"][:6] == m and n["p"] >= 96],
                     "q6": [n for n in q if not (n["a"][:6] == m and n["p"] >= 96)]}]
        self.group(["d.nets 0 4 0 %d 0 - - -" % fam], make)
    # ---- arithmetic
    def exclude(self, net, X, rng):
        xs = sorted(X, key=lambda n: (n.v, n.p))
        js = [Net(x.v, x.p).js() for x in xs]
        order = list(xs)
        rng.shuffle(order)
        self.group(["l.new 0"] + ["l.add 0 %s" % pct(str(x)) for x in order],
                   lambda rs: [{"e": "lots", "nets": js, "r": "ok" if all(r["r"] == "ok" for r in rs) else "err"}])
        me = Net(net.v, net.p).js()
        self.group(["n.new 0 %s - 0 0" % pct(str(net)), "n.excludelist 0 0", "unref n 0", "unref l 0"],
                   lambda rs: [{"e": "exclude", "net": me, "null": rs[1]["null"], "nets": rs[1]["nets"]}])

def databases(rng, tier, count):
    big = tier != "quick"
    for i in range(count):
        kind = i % 4
        n = rng.choice([1500, 2500]) if not big else rng.choice([3000, 6000, 12000])
        if kind == 0:
            nets = wide(rng, 4, n)
        elif kind == 1:
            nets = wide(rng, 6, n)
        elif kind == 2:
            nets = scattered(rng, n)
        else:
            nets = list({m.key(): m for f in (4, 6) for m in wide(rng, f, n // 2, 3)}.values())
        s = LotsScn("lots%d" % i)
        s.make(rng, nets)
        yield s

def lots(chk, tier, rng, what, count=None):
    """the part of a property that needs thousands of networks"""
    if chk.violation:
        return
    lemma(chk, "MC_Lots", "MC_Lots.cfg" if tier == "quick" else "MC_LotsT.cfg")
    scns = []
    for s in databases(rng, tier, count or (4 if tier == "quick" else 24)):
        used = sorted({n.asn for n in s.nets})
        if what == "lookup":
            s.find(rng, 2000)
        elif what == "enum":
            s.walk("enum")
        elif what == "search":
            for f in (dict(fam=4), dict(fam=6), dict(cs=["DE", "US"]), dict(cs=["FR"], fam=rng.choice([4, 6])),
                      dict(asns=[1, 65536]), dict(fl=1, cs=["FR"]), dict(fl=12)):
                s.walk("search", **f)
        elif what == "flat":
            s.walk("flat", flat=True)
            for f in rng.sample([dict(fam=4), dict(fam=6), dict(cs=["DE", "US"]), dict(asns=[1]), dict(fl=9)], 2):
                s.walk("flat", flat=True, **f)
        elif what == "bogons":
            for f in (0, 4, 6):
                s.bogons(f)
        scns.append(s)
    judge(chk, "thousands of networks", scns, CLASSES - ({"write"} if what != "write" else set()), module="TraceLots", cfg="TraceLots.cfg")

def exclusions(chk, tier, rng):
    scns = []
    for i in range(8 if tier == "quick" else 60):
        s = LotsScn("excl%d" % i)
        fam = (4, 6)[i % 2]
        n = rng.choice([600, 1100, 2000]) if tier == "quick" else rng.choice([600, 2000, 5000])
        nets = wide(rng, fam, n)
        top = min(nets, key=lambda m: (m.p, m.v))
        X = [m for m in nets if m is not top]
        if i % 4 > 1:        # some outside
            # before it, so many that what is in it comes late
            k = (1100, 20, 4100, 600)[(i // 4 + i % 2) % 4]
            X = rng.sample(X, rng.choice([1, 2, 40]))
            X += [Net(top.v - ((j + 1) << (128 - top.p - 4)), top.p + rng.randint(4, 9)) for j in range(k)]
            X += [m for m in scattered(rng, 50) if not contains(m.v, m.p, top.v)]
            X = list({m.key(): m for m in X}.values())
        s.exclude(top, X, rng)
        scns.append(s)
    judge(chk, "many networks excluded", scns, CLASSES, module="TraceLots", cfg="TraceLots.cfg")

class ListScn(Scenario):
    def start(self, rng, fam):
        v = V4 | 10 << 24 if fam == 4 else (0x20010db8 << 96) | (rng.getrandbits(64) << 32)
        if fam == 4:
            v = V4
            self.off = 10 << 24
        else:
            self.off = 0
        self.base = "%032x" % v
        self.group(["l.new %d" % i for i in (1, 2)], lambda rs: [{"e": "base", "a": hx(v)}])
    def fill(self, l, lo, step, n):
        lo += self.off
        self.group(["l.fill %d %s %d %d %d" % (l, self.base, lo, step, n)],
                   lambda rs: [{"e": "fill", "l": l, "from": lo, "step": step, "n": n, "r": rs[0]["r"]}])
    def op(self, what, l, m=0):
        self.group(["l.merge %d %d" % (l, m) if what == "merge" else "l.%s %d" % (what, l)],
                   lambda rs: [dict({"e": what, "l": l, "m": m}, **({"n": rs[0]["n"]} if what == "size" else {"r": rs[0]["r"]}))])
    def gets(self, l, idx):
        self.group(["l.get %d %d" % (l, i) for i in idx],
                   lambda rs: [{"e": "gets", "l": l, "qs": [{"i": i, "net": r["net"]} for i, r in zip(idx, rs)]}])
    def has(self, l, ks):
        ks = [k + self.off for k in ks]
        self.group(["l.has %d %s %d" % (l, self.base, k) for k in ks],
                   lambda rs: [{"e": "has", "l": l, "qs": [{"k": k, "v": r["v"]} for k, r in zip(ks, rs)]}])
    def pops(self, l, first, n):
        self.group(["l.pop%s %d" % ("first" if first else "", l)] * n,
                   lambda rs: [{"e": "pops", "l": l, "first": first, "nets": [r["net"] for r in rs]}])
    def all(self, l):
        self.group(["l.nets %d" % l], lambda rs: [{"e": "all", "l": l, "nets": rs[0]["nets"]}])

def lists(chk, tier, rng):
    scns = []
    sizes = [1023, 1024, 1025, 3072, 3073, 9216, 9217, 27648, 27650, 65535, 65536, 65537, 83000]
    if tier != "quick":
        sizes += [1, 2, 3071, 9215, 27647, 82944, 82945, 131073, 200000, 248833]
    for i, n in enumerate(sizes):
        s = ListScn("long%d" % n)
        s.start(rng, (4, 6)[i % 2])
        step = rng.choice([2, 3, 5])
        s.fill(1, 100, step, n)
        s.op("size", 1)
        if n <= 10000:
            s.all(1)
        idx = sorted({0, 1, n - 1, n, n + 1, n // 2, 1023, 1024, 4095, 4096, 65535, 65536} | {rng.randrange(n) for _ in range(8)})
        s.gets(1, idx)
        s.has(1, [99, 100, 101, 100 + step * (n - 1), 100 + step * n] + [100 + rng.randrange(step * n) for _ in range(12)])
        # in between, before and behind the others, and again
        for k in (rng.randrange(0, 100), 101, 100 + step * n + 7, 100 + rng.randrange(step * n), 100):
            s.fill(1, k, 1, rng.choice([1, 1, 2, 3]))
            s.op("size", 1)
        s.gets(1, [0, 1, 2, n, n + 1, n // 3])
        # another one, merged
        m = rng.choice([500, 4095, 4097, 6000]) if n < 60000 or tier != "quick" else 700
        s.fill(2, rng.choice([50, 100 + step * n // 2]), rng.choice([1, 3]), m)
        s.op("merge", 1, 2)
        s.op("size", 1)
        s.op("size", 2)
        s.gets(1, [rng.randrange(n) for _ in range(6)])
        s.pops(1, False, rng.choice([1, 30]))
        s.pops(1, True, rng.choice([1, 30]))
        s.op("size", 1)
        s.gets(1, [0, 1] + [rng.randrange(n) for _ in range(3)])
        if n <= 30000:
            s.all(1)
        if n < 10000:
            s.op("merge", 2, 1)
            s.all(2)
        s.op("clear", 1)
        s.op("size", 1)
        s.fill(1, 5000, -1, min(n, 1500))
        s.all(1)
        s.group(["unref l 1", "unref l 2"], lambda rs: [])
        scns.append(s)
    judge(chk, "long lists", scns, CLASSES, module="TraceLots", cfg="TraceLots.cfg")
