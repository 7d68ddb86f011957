"""C14: references."""
import json, re
from common import *
from nets import *
from p_db import DataScn, size
import p_bind

canon = lambda x: json.dumps(x, sort_keys=True)
KD, KE, KN, KL, KA, KC, KAL, KCL, KW = range(1, 10)
TYPE = {KD: "d", KE: "e", KN: "n", KL: "l", KA: "a", KC: "c", KAL: "al", KCL: "cl", KW: "w"}

# the world: nothing in it can be merged or is redundant
NETS = [Net((0x2001 << 112) + (k << 96), 32, "DE", 10 + k, 1 << (k % 4)) for k in range(5)] + \
       [Net((0xffff << 32) + (k << 24), 104, "FR", 100 + k, 0) for k in (1, 3, 9, 64, 100)] + \
       [Net((0x2001 << 112) + (2 << 96) + (1 << 90), 48, "US", 4294967295, 4)]
ASES = [(10, "Ten"), (100, "Hundred"), (4294967295, "Last")]
COUNTRIES = [("DE", "EU", "Germany"), ("FR", "EU", "France"), ("US", "NA", "United States")]
def place(k):
    """the text of a place of the model"""
    return "10.%d.0.0/16" % (k - 100) if k < 200 else "2a00:%x::/32" % (k - 400)
NETS.sort(key=Net.key)
ORDER = dict(zip([(tuple(n.js()["a"]), n.p) for n in NETS], [1, 2, 3, 201, 202, 301, 302, 303, 304, 305, 306]))
BYPLACE = {k: n for n, k in zip(NETS, [1, 2, 3, 201, 202, 301, 302, 303, 304, 305, 306])}

def akey(a):
    n = a.get("n", [0, 0])
    return (n[0] & 0x3fff) * 65536 + n[1]
def ckey(c):
    return sum(ord(x) * 256 ** i for i, x in enumerate(c.get("code", "")[:2]))

class RefScn(Scenario):
    def setup(self, rng):
        self.rng = rng
        self.file = "r_%s.db" % self.name
        self.hold = {0: 1}
        self.owned = {}
        self.plain = set()
        self.own_w = {}
        cmds = ["w.new 4000 - -", "w.meta 4000 vendor s:vendor"]
        cmds += ["w.net 4000 %s %s %d %d -" % (pct(str(n)), n.cc, n.asn, n.fl) for n in NETS]
        cmds += ["w.as 4000 %d %s -" % (n, pct(s)) for n, s in ASES]
        cmds += ["w.country 4000 %s %s %s -" % (c, k, pct(s)) for c, k, s in COUNTRIES]
        cmds += ["w.write 4000 %s 1" % pct(self.file), "unref w 4000", "f.new s:bad_%s 4c4f4344" % self.name]
        self.group(cmds, lambda rs: [])
        self.mem0 = {}
        self.group(["mem"], lambda rs: self.mem0.update(rs[0]) or [])

    def mem(self):
        self.group(["mem"], lambda rs: [{"e": "mem", "live": rs[0]["live"], "fd": rs[0]["fd"],
                                        "live0": self.mem0.get("live", -1), "fd0": self.mem0.get("fd", -1)}])

    # ---- creating
    def create(self, x, cmds, owns, reading, key=lambda r: 0, **extra):
        def make(rs):
            v = reading(rs)
            val = {"k": key(rs), "s": v}
            if extra.get("flt") is not None:
                val["flt"] = extra["flt"]
            return [{"e": "create", "x": x, "owns": owns, "r": rs[-1].get("r", "ok") if rs else "ok", "val": val}]
        self.group(cmds, make)
        self.hold[x] = 1

    def netread(self, rs):
        return canon(rs[-1]["net"])
    def netkey(self, rs):
        n = rs[-1]["net"]
        if "a" not in n:
            return -1
        a = n["a"]
        if a[:6] == [0, 0, 0, 0, 0, 65535] and a[6] >> 8 == 10:
            return 100 + (a[6] & 255)
        if a[0] == 0x2a00:
            return 400 + a[1]
        return ORDER.get((tuple(a), n["p"]), -1)

    def op(self, o):
        name, a = o[0], o[1:]
        rng = self.rng
        if name == "open":
            x, = a
            self.create(x, ["d.open %d %s" % (x, pct(self.file)), "d.meta %d" % x, "d.lookup %d s:2001:0:2::1" % x],
                        [0], lambda rs: canon([rs[1], rs[2]["net"]]))
        elif name == "newnet":
            p, x = a
            s = place(p)
            self.create(x, ["n.new %d %s DE %d 2" % (x, pct(s), 7), "n.get %d" % x], [0], self.netread, self.netkey)
        elif name == "lookup":
            d, p, x = a
            n = BYPLACE[p]
            self.create(x, ["d.lookup %d %s %d" % (d, pct(addrstr(n.v + 1)), x), "n.get %d" % x], [0], self.netread, self.netkey)
        elif name == "next":
            e, _, x = a
            def make(rs):
                return [{"e": "next", "from": e, "x": x, "r": rs[0]["r"], "val": {"k": self.netkey(rs), "s": self.netread(rs)}}]
            self.group(["e.net %d %d" % (e, x), "n.get %d" % x], make)
            self.hold[x] = 1
        elif name == "step":
            e, = a
            self.group(["e.net %d" % e], lambda rs: [{"e": "step", "from": e, "r": rs[0]["r"],
                       "s": "none" if "none" in rs[0]["net"] else canon(rs[0]["net"])}])
        elif name in ("enum", "flat", "bogons"):
            d, x = a
            mode = {"enum": "1 0", "flat": "1 1", "bogons": "4 0"}[name]
            self.create(x, ["d.nets %d %s 0 0 - - -" % (d, mode), "e.new %d %d %s 0 0 - - -" % (x, d, mode)], [0, d],
                        lambda rs: [canon(n) for n in rs[0]["nets"]], flt=False)
        elif name == "getas":
            d, x = a
            self.create(x, ["d.as %d %d %d" % (d, rng.choice(ASES)[0], x), "a.get %d" % x], [0], lambda rs: canon(rs[-1]["as"]),
                        lambda rs: akey(rs[-1]["as"]))
        elif name == "newas":
            x, = a
            self.plain.add(x)
            self.create(x, ["a.new %d %d" % (x, rng.choice([10, 11, 100, 4294967295])), "a.setname %d s:n%d" % (x, x), "a.get %d" % x], [0],
                        lambda rs: canon(rs[-1]["as"]), lambda rs: akey(rs[-1]["as"]))
        elif name == "getcountry":
            d, x = a
            self.create(x, ["d.country %d %s %d" % (d, rng.choice(COUNTRIES)[0], x), "c.get %d" % x], [0], lambda rs: canon(rs[-1]["country"]),
                        lambda rs: ckey(rs[-1]["country"]))
        elif name == "newcountry":
            x, = a
            self.plain.add(x)
            self.create(x, ["c.new %d %s" % (x, rng.choice(["DE", "FR", "AT"])), "c.setname %d s:n%d" % (x, x), "c.get %d" % x], [0],
                        lambda rs: canon(rs[-1]["country"]), lambda rs: ckey(rs[-1]["country"]))
        elif name in ("newlist", "newal", "newcl"):
            x, = a
            self.create(x, ["%s.new %d" % (TYPE[x // 10], x)], [0], lambda rs: "")
        elif name == "writer":
            x, = a
            self.create(x, ["w.new %d - -" % x, "w.meta %d vendor s:me" % x, "w.getmeta %d" % x], [0], lambda rs: canon(rs[-1]))
        elif name == "addnet":
            w, p, x = a
            s = place(p)
            self.own_w.setdefault(w, []).append(s)
            self.group(["w.net %d %s AT %d 1 %d" % (w, pct(s), 1000 + x, x), "n.get %d" % x],
                       lambda rs: [{"e": "add", "w": w, "x": x, "r": rs[0]["r"], "val": {"k": self.netkey(rs), "s": self.netread(rs)}}])
            self.hold[x] = 1
        elif name == "addas":
            w, x = a
            self.group(["w.as %d %d s:name%d %d" % (w, 5000 + x, x, x), "a.get %d" % x],
                       lambda rs: [{"e": "add", "w": w, "x": x, "r": rs[0]["r"], "val": {"k": akey(rs[1]["as"]), "s": canon(rs[1]["as"])}}])
            self.hold[x] = 1
        elif name == "addcountry":
            w, x = a
            self.group(["w.country %d %s EU s:name%d %d" % (w, ["AA", "AB", "AC", "AD", "AE", "AF", "AG", "AH", "AI", "AJ"][x % 10], x, x), "c.get %d" % x],
                       lambda rs: [{"e": "add", "w": w, "x": x, "r": rs[0]["r"],
                                    "val": {"k": ckey(rs[1]["country"]), "s": canon(rs[1]["country"])}}])
            self.hold[x] = 1
        elif name == "write":
            w, = a
            f = "rw_%s.db" % self.name
            self.group(["w.write %d %s 1" % (w, pct(f)), "f.decode %s" % pct(f), "f.unlink %s" % pct(f)],
                       lambda rs: [{"e": "write", "w": w, "r": rs[0]["r"], "stored": [canon(n) for n in rs[1]["stored"]]}])
        elif name == "push":
            l, n = a
            self.group(["l.push %d %d" % (l, n)], lambda rs: [{"e": "push", "l": l, "x": n, "r": rs[0]["r"]}])
        elif name in ("first", "last", "peek"):
            l, x = a
            cmd = {"first": "l.takefirst %d %d", "last": "l.take %d %d", "peek": "l.peek %d %d 0"}[name] % (l, x)
            self.group([cmd], lambda rs: [{"e": name, "l": l, "k": 1, "id": rs[0]["id"]}])
            self.hold[x] = self.hold.get(x, 0) + 1
        elif name in ("clear", "clearal", "clearcl"):
            x, = a
            self.group(["%s.clear %d" % (TYPE[x // 10], x)], lambda rs: [{"e": "clear", "l": x}])
        elif name == "merge":
            l, m = a
            self.group(["l.merge %d %d" % (l, m)], lambda rs: [{"e": "merge", "l": l, "m": m, "r": rs[0]["r"]}])
        elif name in ("appendal", "appendcl"):
            l, x = a
            self.group(["%s.append %d %d" % (TYPE[l // 10], l, x)], lambda rs: [{"e": "appendu", "l": l, "x": x, "r": rs[0]["r"]}])
        elif name in ("setcl", "setal"):
            e, x = a
            cmd = "e.countries" if name == "setcl" else "e.asns"
            self.group(["%s %d %d" % (cmd, e, x)], lambda rs: [{"e": "filter", "x": e, "y": x, "r": rs[0]["r"]}])
        elif name == "retain":
            x, = a
            self.group(["ctx.ref" if x == 0 else "ref %s %d" % (TYPE[x // 10], x)], lambda rs: [{"e": "retain", "x": x}])
            self.hold[x] += 1
        elif name == "release":
            x, = a
            self.group(["ctx.unref" if x == 0 else "unref %s %d" % (TYPE[x // 10], x)], lambda rs: [{"e": "release", "x": x}])
            self.hold[x] -= 1
        else:
            raise ToolError("op " + name)

    def uses(self, some=None):
        held = [x for x, n in self.hold.items() if n > 0 and x]
        cmds, fs = [], []
        for x in held:
            k = x // 10
            if k == KD:
                cmds += ["d.meta %d" % x, "d.lookup %d s:2001:0:2::1" % x]
                fs.append((x, 2, "val", lambda r: canon([r[0], r[1]["net"]])))
            elif k == KE:
                cmds += ["e.getcountries %d" % x]
                fs.append((x, 1, "none", lambda r: ""))
            elif k == KN:
                cmds += ["n.get %d" % x]
                fs.append((x, 1, "val", lambda r: canon(r[0]["net"])))
            elif k == KL:
                cmds += ["l.nets %d" % x]
                fs.append((x, 1, "list", lambda r: [canon(n) for n in r[0]["nets"]]))
            elif k == KA:
                cmds += ["a.get %d" % x]
                fs.append((x, 1, "val", lambda r: canon(r[0]["as"])))
            elif k == KC:
                cmds += ["c.get %d" % x]
                fs.append((x, 1, "val", lambda r: canon(r[0]["country"])))
            elif k in (KAL, KCL):
                cmds += ["%s.full %d" % (TYPE[k], x)]
                fs.append((x, 1, "set", lambda r: [canon(n) for n in r[0]["all"]]))
            elif k == KW:
                cmds += ["w.getmeta %d" % x]
                fs.append((x, 1, "val", lambda r: canon(r[0])))
        def make(rs):
            out, p = [], 0
            for x, n, t, f in fs:
                out.append({"x": x, "t": t, "s": f(rs[p:p + n])})
                p += n
            return [{"e": "uses", "qs": out}]
        self.group(cmds, make)

    def fault(self):
        """something that fails; nothing may be left of it"""
        held = [x for x, n in self.hold.items() if n > 0]
        opts = []
        if 0 in held:
            opts += ["d.open 4001 s:bad_%s" % self.name, "n.new 4001 s:1.2.3.4/33", "n.new 4001 s:x", "c.new 4001 s:xx"]
        for x in held:
            k = x // 10
            if x and k == KD:
                opts += ["d.as %d 77" % x, "d.lookup %d s:nonsense" % x, "d.country %d s:1" % x]
            if x and k == KW:
                opts += ["w.net %d s:300.1.1.1/8 - 0 0 -" % x, "w.country %d s:a - - -" % x]
                if self.own_w.get(x):
                    opts += ["w.net %d %s - 0 0 -" % (x, pct(self.own_w[x][0]))] * 2
            if x and k == KN:
                opts += ["n.setcc %d s:x" % x]
        if opts:
            self.group([self.rng.choice(opts)], lambda rs: [{"e": "fault", "r": rs[0]["r"]}])

    def extra(self):
        """calls that make things and drop them at once"""
        cmds = []
        for x in [x for x, n in self.hold.items() if n > 0 and x]:
            k = x // 10
            if k == KN:
                cmds += ["n.rp %d -" % x, "n.rp %d s:example.com" % x, "n.subnets %d" % x, "n.matchcc %d DE" % x]
                cmds += ["n.exclude %d %d" % (x, y) for y, n in self.hold.items() if n > 0 and y // 10 == KN][:2]
                cmds += ["n.excludelist %d %d" % (x, y) for y, n in self.hold.items() if n > 0 and y // 10 == KL][:1]
            elif k == KE:
                cmds += ["e.getasns %d" % x, "e.getcountries %d" % x, "e.str %d s:abc" % x, "e.str %d s:d" % x]
            elif k == KD:
                cmds += ["d.as %d 10" % x, "d.country %d DE" % x, "d.lookup %d s:1.1.1.1" % x, "d.nets %d 1 1 0 0 DE,FR 10,11 -" % x,
                         "d.ases %d 2 0 0 0 - - s:t" % x, "d.nets %d 4 0 4 0 - - -" % x]
            elif k == KL:
                cmds += ["l.contains %d %d" % (x, y) for y, n in self.hold.items() if n > 0 and y // 10 == KN][:1] + ["l.all %d" % x]
            elif k == KAL:
                cmds += ["al.sort %d" % x, "al.containsn %d 10" % x]
            elif k == KCL:
                cmds += ["cl.sort %d" % x, "cl.containscode %d DE" % x]
            elif k == KA:
                cmds += ["a.setname %d s:other" % x, "a.setname %d -" % x, "a.setname %d s:n%d" % (x, x)] if (x in self.plain) else []
            elif k == KC:
                cmds += ["c.setname %d s:other" % x, "c.setname %d s:n%d" % (x, x)] if (x in self.plain) else []
            elif k == KW:
                cmds += ["w.meta %d vendor s:one" % x, "w.meta %d vendor s:two" % x, "w.meta %d vendor s:me" % x]
        if cmds:
            self.group(self.rng.sample(cmds, min(len(cmds), 5)) if not any("setname" in c or "w.meta" in c for c in cmds) else cmds, lambda rs: [])

    def finish(self):
        """drops everything, in any order"""
        rest = [x for x, n in self.hold.items() for _ in range(n)]
        self.rng.shuffle(rest)
        if self.rng.random() < .3:
            # the context last: all else must be gone by then
            rest = [x for x in rest if x] + [x for x in rest if not x]
        for i, x in enumerate(rest):
            self.op(["release", x])
            if self.rng.random() < .4 or i >= len(rest) - 3:
                self.uses()
                self.mem()
        self.mem()

def parse_hists(out):
    """the printed histories, over several lines or not"""
    hs = []
    for part in re.split(r'<<\s*"HIST",', out)[1:]:
        ops = [[m.group(1)] + [int(x) for x in m.group(2).split(",") if x.strip()]
               for m in re.finditer(r'<<\s*"(\w+)"\s*,?([\d,\s]*)>>', part.split("\n\n")[0])]
        hs.append(ops)
    return sorted(hs)        # TLC prints them in no particular order

def replay(name, h, rng, gap):
    s = RefScn(name)
    s.setup(rng)
    for i, o in enumerate(h):
        s.op(o)
        if rng.random() < gap or i == len(h) - 1:
            s.uses()
        if rng.random() < .15:
            s.fault()
        if rng.random() < .15:
            s.extra()
            s.uses()
    s.finish()
    return s


class WorkScn(Scenario):
    """work that leaves nothing behind: done again and again, the memory and the files in use stay what they were"""
    def work(self, cmds, warm=2, again=2):
        for _ in range(warm):
            self.group(cmds, lambda rs: [])
        self.mem0 = {}
        self.group(["mem"], lambda rs: self.mem0.update(rs[0]) or [])
        for _ in range(again):
            self.group(cmds, lambda rs: [])
        self.group(["mem"], lambda rs: [{"e": "mem", "live": rs[0]["live"], "fd": rs[0]["fd"],
                                        "live0": self.mem0.get("live", -1), "fd0": self.mem0.get("fd", -1)}])

def filling(rng, nets, keys=("-", "-")):
    cmds = ["w.new 1 %s %s" % keys, "w.meta 1 vendor s:v", "w.meta 1 license s:v"]
    for n in nets:
        cmds += ["w.net 1 %s %s %d %d -" % (pct(str(n)), n.cc or "-", n.asn, n.fl)] * rng.choice([1, 1, 1, 2])
    cmds += ["w.net 1 s:1.2.3.4/33 - 0 0 -", "w.net 1 s:nonsense - 0 0 -", "w.country 1 s:xx - - -"]
    for n, s in [(5, "Five"), (7, None), (5, "Again")]:
        cmds.append("w.as 1 %d %s -" % (n, pct(s)))
    cmds += ["w.country 1 %s EU %s -" % (c, pct(s)) for c, s in [("DE", "Germany"), ("FR", None), ("DE", "again")]]
    return cmds

def reading(rng, nets):
    cmds = []
    for q in ["1 0 0 0 - - -", "1 1 0 0 - - -", "1 1 4 0 - - -", "1 0 6 0 DE,FR - -", "1 1 0 1 DE 1,2 -", "4 0 0 0 - - -", "4 0 4 0 - - -", "4 0 6 0 DE - -"]:
        cmds.append("d.nets 2 " + q)
        # left after a few steps
        cmds.append("e.new 3 2 " + q)
        cmds += ["e.net 3 -"] * rng.choice([0, 1, 2, 3, 5])
        cmds.append("unref e 3")
    cmds += ["d.ases 2 2 0 0 0 - - s:f 2", "d.ases 2 2 0 0 0 - - - 1", "d.countries 2 3 0 0 0 - - - 2", "d.meta 2"]
    cmds += ["d.lookup 2 %s" % pct(addrstr(x)) for x in critical(nets, rng, 3, cap=12)] + ["d.lookup 2 s:nonsense", "d.lookup 2 s:1.1.1.1/33"]
    cmds += ["d.as 2 %d" % n for n in (5, 6, 7)] + ["d.country 2 %s" % c for c in ("DE", "FR", "AT", "s:1")]
    return cmds

def workloads(chk, tier, rng):
    import p_sign
    ks = p_sign.keys()
    scns = []
    def mergeable():
        b = (V4 | rng.getrandbits(28) << 4) if rng.random() < .5 else rng.getrandbits(60) << 68 | 1 << 127
        p = rng.choice([120, 124, 126])
        base = b >> (128 - p) << (128 - p)
        q = rng.randint(p, min(128, p + 4))
        out = [Net(base + (i << (128 - q)), q, rng.choice(["DE", "DE", "DE", "FR"]), 1, 0) for i in range(1 << (q - p))]
        return out + ([Net(base, p, "DE", 1, 0)] if rng.random() < .5 and q != p else [])
    for i in range(size(tier, 40, 400)):
        s = WorkScn("work%d" % i)
        nets = rand_set(rng, rng.randint(0, 12), rng.choice([(4,), (6,), (4, 6)]), nattr=3) + (mergeable() if rng.random() < .7 else [])
        uniq = {}
        for n in nets:
            uniq.setdefault((n.v, n.p), n)
        nets = list(uniq.values())
        rng.shuffle(nets)
        f = pct("wk_%s.db" % s.name)
        fill = filling(rng, nets)
        s.work(fill + ["w.write 1 %s 1" % f, "w.write 1 %s 1" % f, "unref w 1"])
        s.work(["d.open 2 %s" % f] + reading(rng, nets) + ["unref d 2"])
        # files that cannot be read
        s.work(["d.unread %s %s" % (f, m) for m in rng.sample("amd", rng.randint(1, 3))], 4, 2)
        # broken files
        for _ in range(3):
            b = pct("wb_%s.db" % s.name)
            how = rng.choice(["f.xor %s %d %d" % (b, rng.choice([0, 7, 28, 32, 36, 40, 44, 48, 52, 56, 60, 64, 68, 70]) + rng.randint(0, 3), 1 << rng.randint(0, 7)),
                              "f.cut %s %d" % (b, rng.choice([1, 5, 300, 4096, 8192, 20000])), "f.xor %s %d %d" % (b, 8192 + rng.randint(0, 200), 255)])
            s.group(["f.copy %s %s" % (f, b), how], lambda rs: [])
            s.work(["f.battery %s -" % b], 1, 2)
            s.group(["f.unlink %s" % b], lambda rs: [])
        s.group(["f.unlink %s" % f], lambda rs: [])
        # media that fail
        s.work(fill + ["w.medium 1 %s 1 %s %d" % (pct("wm_%s" % s.name), m, n) for m, n in [("full", rng.choice([10, 4300, 8192, 12500])), ("fromn", rng.randint(1, 3)), ("oncei", 1)]] + ["unref w 1"])
        # arithmetic
        big = rng.choice(nets) if nets else Net(V4, 96, "DE", 1, 0)
        rel = [Net(big.v + (rng.getrandbits(128 - big.p) if big.p < 128 else 0) >> (128 - q) << (128 - q), q, "", 0, 0)
               for q in [rng.randint(big.p, 128) for _ in range(8)]]
        cmds = ["n.new 10 %s DE 1 1" % pct(str(big)), "l.new 11", "l.new 30"]
        for k, n in enumerate(rel):
            cmds += ["n.newbin %d %s %d" % (12 + k, "%032x" % n.v, n.p - 96 if n.v >> 32 == 0xffff else n.p)]
            if n.v >> 32 == 0xffff and n.p < 96:
                cmds.pop()
                cmds.append("n.new %d s:10.0.0.0/8 - 0 0" % (12 + k))
            cmds += ["l.push 11 %d" % (12 + k)] * rng.choice([1, 2]) + ["n.exclude 10 %d" % (12 + k), "n.exclude %d 10" % (12 + k), "n.subnets %d" % (12 + k)]
            if rng.random() < .3:
                cmds.append("l.push 30 %d" % (12 + k))
        cmds += ["n.excludelist 10 11", "l.merge 30 11", "l.merge 11 30", "l.popfirst 11", "l.pop 11", "n.excludelist 10 30", "n.rp 10 -", "l.clear 30", "l.push 30 10"]
        rest = ["unref n 10", "unref l 11", "unref l 30"] + ["unref n %d" % (12 + k) for k in range(len(rel))]
        rng.shuffle(rest)
        s.work(cmds + rest + ["n.new 40 s:1.2.3.4/33", "n.new 40 s:", "c.new 41 s:X1"])
        scns.append(s)
    # keys
    (a, ap), (b, bp), (c, cp), (r, rp) = ks["A"], ks["B"], ks["C"], ks["R"]
    junk = ks["junk"][1]
    for i, (k1, k2) in enumerate([(a, None), (None, b), (a, b), (r, a), (a, a)]):
        s = WorkScn("keys%d" % i)
        f = pct("wk_%s.db" % s.name)
        P = lambda x: pct(x) if x else "-"
        s.work(["w.new 1 %s %s" % (P(k1), P(k2)), "w.net 1 s:10.0.0.0/8 DE 1 0 -", "w.write 1 %s 1" % f, "w.write 1 %s 1" % f, "unref w 1"], 20, 3)
        s.work(["d.open 2 %s" % f] + ["d.verify 2 %s" % pct(k) for k in (ap, bp, cp, rp, junk)] + ["unref d 2"], 20, 3)
        s.work(["f.check %s %s" % (f, pct(k)) for k in (ap, bp, junk)], 20, 3)
        s.group(["f.unlink %s" % f], lambda rs: [])
        scns.append(s)
    judge(chk, "work again and again", scns, set(), module="TraceRefs", cfg="TraceRefs.cfg")

def c14(chk, tier, rng):
    # all short histories
    env = {"REFS_MAX": "2", "REFS_NETS": "3", "REFS_DEPTH": str(size(tier, 4, 5))}
    r = tlc("MC_Refs", "MC_Refs.cfg", env=env, workers=NCPU, heap="12g")
    if r.code:
        raise ToolError("MC_Refs:\n" + r.out[-3000:])
    chk.model("MC_Refs", r)
    hs = parse_hists(r.out)
    scns = []
    pick = rng.sample(hs, min(len(hs), size(tier, 2000, 40000)))
    for i, h in enumerate(pick):
        scns.append(replay("s%d" % i, h, rng, 1))
    chk.note("short histories", enumerated=len(hs), replayed=len(pick))
    judge(chk, "short histories", scns, set(), module="TraceRefs", cfg="TraceRefs.cfg")
    # long ones, from TLC's simulation of the same model
    env = {"REFS_MAX": "4", "REFS_NETS": "9", "REFS_DEPTH": str(size(tier, 30, 60))}
    r = tlc("MC_Refs", "MC_Refs.cfg", env=env, workers=1, heap="4g",
            extra=["-simulate", "num=%d" % size(tier, 60, 1200), "-seed", str(rng.getrandbits(30)), "-depth", str(size(tier, 31, 61))])
    if r.code:
        raise ToolError("MC_Refs simulation:\n" + r.out[-3000:])
    hs = parse_hists(r.out)
    if not hs:
        raise ToolError("MC_Refs simulation gave no history")
    # one of each family of siblings
    last = {}
    for h in hs:
        last.setdefault(canon(h[:-1]), []).append(h)
    pick = [rng.choice(v) for v in last.values()]
    pick += rng.sample(hs, min(len(hs), size(tier, 300, 4000)))
    scns = [replay("l%d" % i, h, rng, .25) for i, h in enumerate(pick)]
    chk.note("long histories", simulated=len(hs), replayed=len(pick))
    judge(chk, "long histories", scns, set(), module="TraceRefs", cfg="TraceRefs.cfg")
    if not chk.violation:
        workloads(chk, tier, rng)
    if not chk.violation:
        p_bind.dropped(chk, tier, rng)
