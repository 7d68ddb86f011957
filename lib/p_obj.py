"""Checks of networks, network lists, texts, codes and the small lists (Objects.tla)."""
import itertools, json, os, random
from common import *
from nets import *
import p_lots
from p_db import size, worlds, embeddings, embed, cell, BAD_ADDR, ALLCODES, BADCODES, NUMBERS, spellings, ckey, dec

def ch(s):
    if s is None:
        return []
    return list(s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s)

def lat(s):
    """text printed by the driver (bytes as code points) as character codes"""
    return [ord(c) for c in s]

class ObjScn(Scenario):
    def nnew(self, i, s, cc="", asn=0, fl=0):
        self.do("n.new %d %s %s %d %d" % (i, pct(s), cc or "-", asn, fl),
                {"e": "n.new", "i": i, "chars": ch(s), "cc": cc, "asn": u32(asn), "fl": fl})

    def net(self, i, n):
        self.nnew(i, str(n), n.cc, n.asn, n.fl)

    def news(self, base, nets):
        """many networks (slots base+1...)"""
        self.group(["n.new %d %s %s %d %d" % (base + 1 + k, pct(str(n)), n.cc or "-", n.asn, n.fl)
                    for k, n in enumerate(nets)],
                   lambda rs: [{"e": "n.news", "base": base, "nets": [r["net"] for r in rs]}]
                   if all(r["r"] == "ok" for r in rs) else [{"e": "crash"}])

    def parses(self, strings, slot=4000):
        self.group(["n.new %d %s" % (slot, pct(s)) for s in strings],
                   lambda rs: [{"e": "n.parses", "qs": [{"chars": ch(s), "r": r["r"], "net": r["net"]}
                                                        for s, r in zip(strings, rs)]}])

    def newbin(self, i, x, pfx):
        self.do("n.newbin %d %032x %d" % (i, x, pfx), {"e": "n.newbin", "i": i, "x": hx(x), "pfx": pfx})

    def nget(self, i, text=True, arith=True):
        def make(rs):
            r = rs[0]
            out = []
            if arith:
                out.append({"e": "n.get", "i": i, "net": r["net"], "last": r["last"], "fam": r["fam"], "pfx": r["pfx"]})
            if text:
                out.append({"e": "n.text", "i": i, "str": lat(r["str"]), "fstr": lat(r["fstr"]), "lstr": lat(r["lstr"])})
            return out
        self.group(["n.get %d" % i], make)

    def rp(self, i, suffix, fam):
        full = suffix if suffix is not None else ("in-addr.arpa." if fam == 4 else "ip6.arpa.")
        self.group(["n.rp %d %s" % (i, pct(suffix))],
                   lambda rs: [{"e": "n.rp", "i": i, "suffix": ch(full), "r": rs[0]["r"], "s": lat(rs[0]["s"])}])

    def matchaddr(self, i, xs):
        self.group(["n.matchaddr %d %032x" % (i, x) for x in xs],
                   lambda rs: [{"e": "n.matchaddr", "i": i, "qs": [{"x": hx(x), "v": r["v"]} for x, r in zip(xs, rs)]}])

    def rel(self, i, j):
        cmds = ["n.cmp %d %d" % (i, j), "n.cmp %d %d" % (j, i), "n.overlaps %d %d" % (i, j),
                "n.subnet %d %d" % (i, j), "n.subnet %d %d" % (j, i), "n.overlaps %d %d" % (j, i)]
        def make(rs):
            v = [r["v"] for r in rs]
            return [{"e": "n.rel", "i": i, "j": j, "cmp": v[0], "rcmp": v[1],
                     "overlaps": v[2] if v[2] == v[5] else -9, "subnet": v[3], "rsubnet": v[4]}]
        self.group(cmds, make)

    def subnets(self, i):
        self.do("n.subnets %d" % i, {"e": "n.subnets", "i": i})

    def exclude(self, i, j):
        self.do("n.exclude %d %d" % (i, j), {"e": "n.exclude", "i": i, "j": j})

    def excludelist(self, i, l):
        self.do("n.excludelist %d %d" % (i, l), {"e": "n.excludelist", "i": i, "l": l})

    def lnew(self, l):
        self.do("l.new %d" % l, {"e": "l.new", "l": l})

    def push(self, l, i):
        self.do("l.push %d %d" % (l, i), {"e": "l.push", "l": l, "i": i})

    def pushes(self, l, js):
        if js:
            self.group(["l.push %d %d" % (l, i) for i in js],
                       lambda rs: [{"e": "l.pushes", "l": l, "is": list(js),
                                    "r": "ok" if all(r["r"] == "ok" for r in rs) else "err"}])

    def bulk(self, l, js, dups):
        self.group(["l.push %d %d" % (l, i) for i in js] + ["l.all %d" % l],
                   lambda rs: [{"e": "l.bulk", "l": l, "is": list(js), "dups": list(dups), "ids": rs[-1]["ids"],
                                "r": "ok" if all(r["r"] == "ok" for r in rs[:-1]) else "err"}])

    def lop(self, op, l, *a):
        ev = {"e": "l." + op, "l": l}
        if op == "merge":
            ev["m"] = a[0]
        if op == "get":
            ev["k"] = a[0]
        if op == "contains":
            ev["i"] = a[0]
        self.do("l.%s %s" % (op, " ".join(map(str, (l,) + a))), ev)

def obj_judge(chk, label, scns, checked):
    judge(chk, label, scns, checked, module="TraceObj", cfg="TraceObj.cfg")

# ---------------------------------------------------------------- C08
def c08(chk, tier, rng):
    scns = []
    # all pairs of blocks of a small space, at several places
    blocks = [(v << (3 - p), p) for p in range(4) for v in range(1 << p)]
    for en, base, off in embeddings(rng):
        b = first(base, off)
        nets = [Net(b | (v << (128 - off - 3)), off + p, ["DE", "FR", ""][k % 3], k, k % 16) for k, (v, p) in enumerate(blocks)]
        for i in range(len(nets)):
            s = ObjScn("pair-%s-%d" % (en, i))
            for k, n in enumerate(nets):
                s.net(k, n)
            s.nget(i, text=False)
            s.subnets(i)
            pts = sorted(set(sum([[n.v, last(n.v, n.p), max(0, n.v - 1), min(ALL, last(n.v, n.p) + 1)] for n in nets], [])))
            s.matchaddr(i, pts)
            for j in range(len(nets)):
                s.rel(i, j)
                s.exclude(i, j)
            scns.append(s)
    # random networks and relatives, every prefix length
    for t in range(size(tier, 150, 2500)):
        s = ObjScn("rand%d" % t)
        nets = rand_set(rng, rng.randint(3, 8), rng.choice([(4,), (6,), (4, 6)]))
        for k, n in enumerate(nets):
            if rng.random() < .3:
                v = n.v | (rng.getrandbits(128 - n.p) if n.p < 128 else 0)
                if is4(v) == is4(n.v, n.p):
                    s.newbin(k, v, n.p - 96 if is4(v) else n.p)
                    s.do("n.setasn %d %d" % (k, n.asn), {"e": "n.setasn", "i": k, "asn": u32(n.asn)})
                    continue
            s.net(k, n)
        for k in range(len(nets)):
            s.nget(k, text=False)
            s.subnets(k)
            s.matchaddr(k, critical(nets, rng, 2, cap=25))
        for i in range(len(nets)):
            for j in range(len(nets)):
                s.rel(i, j)
                s.exclude(i, j)
        # lists to exclude
        for l in range(3):
            s.lnew(l)
            s.pushes(l, rng.sample(range(len(nets)), rng.randint(0, len(nets))))
        for l in range(3):
            for i in rng.sample(range(len(nets)), min(4, len(nets))):
                s.excludelist(i, l)
        scns.append(s)
    # one network and many below it
    for t in range(size(tier, 100, 1500)):
        s = ObjScn("below%d" % t)
        fam = rng.choice([4, 6])
        lo = 96 if fam == 4 else 0
        v = (V4 | rng.getrandbits(32)) if fam == 4 else (rng.getrandbits(128) | 1 << 125)
        top = Net(v, rng.choice([lo, lo + 1, lo + 8, rng.randint(lo, 127)]), "DE", 65536, 5)
        s.net(0, top)
        subs = {}
        for k in range(rng.randint(1, 14)):
            p = min(128, top.p + rng.choice([0, 1, 1, 2, 3, 4, 8, rng.randint(0, 128 - top.p)]))
            x = rng.choice([top.v, last(top.v, top.p), top.v | rng.getrandbits(128 - top.p)])
            n = Net(x, p, "FR", k)
            subs.setdefault(n.key(), n)
            if rng.random() < .5 and p > top.p:        # the neighbour as well
                m = Net(n.v ^ (1 << (128 - p)), p, "FR", k)
                subs.setdefault(m.key(), m)
            if rng.random() < .4 and p < 127:
                m = Net(n.v | rng.getrandbits(128 - p), min(128, p + rng.randint(1, 5)), "US", k)
                subs.setdefault(m.key(), m)
        if rng.random() < .2:
            m = Net(rng.getrandbits(128) | 1 << 125, 40)
            subs.setdefault(m.key(), m)
        s.lnew(0)
        for k, n in enumerate(subs.values()):
            s.net(k + 1, n)
        s.pushes(0, rng.sample(range(1, len(subs) + 1), len(subs)))
        s.excludelist(0, 0)
        scns.append(s)
    # binary construction: prefixes at and beyond the limits
    s = ObjScn("limits")
    k = 0
    for x in (0, 1, ALL, V4, V4 | 0xffffffff, V4 | 0x0a0b0c0d, V4 - 1, V4 + 2**32, rng.getrandbits(128) | 1 << 125):
        for p in list(range(0, 129, 1 if x in (ALL, V4 | 0xffffffff) else 7)) + [31, 32, 33, 95, 96, 97, 127, 128, 129, 130, 160, 255, 1000]:
            s.newbin(k, x, p)
            k += 1
    scns.append(s)
    obj_judge(chk, "arithmetic", scns, {"arith"})
    p_lots.exclusions(chk, tier, rng)

# ---------------------------------------------------------------- C09
def c09(chk, tier, rng):
    if size(tier, 1, 1):
        r = tlc("MC_Objects", "MC_Objects.cfg", workers=1, heap="4g")
        if "Error:" in r.out or r.code:
            raise ToolError("MC_Objects:\n" + r.out[-2000:])
        chk.model("MC_Objects", r)
    # every history of a few operations on a small list
    pool = [Net(V4 | 10 << 24, 104, "DE", 1), Net(V4 | 10 << 24, 112, "DE", 2), Net(V4 | 10 << 24, 104, "FR", 3),
            Net(0x2001 << 112, 16, "DE", 4), Net(V4 | 9 << 24, 104, "DE", 5)]
    ops = ["p0", "p1", "p2", "p3", "pop", "popfirst", "merge", "clear", "p4"]
    scns = []
    n = size(tier, 4, 5)
    batch = []
    for h, hist in enumerate(itertools.product(ops, repeat=n)):
        if sum(o in ("clear", "merge") for o in hist) > 2:
            continue
        batch.append(hist)
    # several histories per scenario, each on a list of its own
    for b in range(0, len(batch), 60):
        s = ObjScn("hist%d" % b)
        for k, x in enumerate(pool):
            s.net(k, x)
        s.lnew(0)
        s.pushes(0, [3, 1])
        for l, hist in enumerate(batch[b:b + 60], 1):
            s.lnew(l)
            for o in hist:
                if o[0] == "p" and o[1:].isdigit():
                    s.push(l, int(o[1:]))
                elif o == "merge":
                    s.lop("merge", l, 0)
                else:
                    s.lop(o, l)
            s.lop("all", l)
        s.lop("all", 0)
        scns.append(s)
    obj_judge(chk, "all short histories", scns, {"list"})
    # long random histories on several lists
    scns = []
    for t in range(size(tier, 120, 1500)):
        s = ObjScn("long%d" % t)
        nets = rand_set(rng, rng.randint(3, 30), rng.choice([(4,), (6,), (4, 6)]))
        nets += [Net(n.v, n.p, "QQ", 9) for n in rng.sample(nets, min(5, len(nets)))]     # same place, other object
        for k, n in enumerate(nets):
            s.net(k, n)
        for l in range(3):
            s.lnew(l)
        for _ in range(rng.randint(10, 90)):
            l = rng.randint(0, 2)
            o = rng.choice(["push"] * 8 + ["pop", "popfirst", "merge", "all", "get", "contains", "contains", "clear"])
            if o == "clear" and rng.random() < .7:
                continue
            if o == "push":
                s.push(l, rng.randrange(len(nets)))
            elif o == "merge":
                s.lop("merge", l, rng.choice([x for x in range(3) if x != l]))
            elif o == "get":
                s.lop("get", l, rng.choice([0, 1, 2, 5, 20, 1000000, rng.randint(0, 30)]))
            elif o == "contains":
                s.lop("contains", l, rng.randrange(len(nets)))
            else:
                s.lop(o, l)
        for l in range(3):
            s.lop("all", l)
        scns.append(s)
    # beyond the sizes at which the list grows
    for t, cnt in enumerate(size(tier, [1023, 1024, 1025, 1100, 3073], [1023, 1024, 1025, 2500, 3071, 3072, 3073, 3500])):
        s = ObjScn("grow%d" % t)
        seen = {}
        while len(seen) < cnt:
            v, p = rand_block(rng, rng.choice([4, 6]))
            if p in (0, 96) or is4(v) != is4(v, p):
                continue
            x = Net(v, p)
            seen.setdefault(x.key(), x)
        nets = list(seen.values())
        if t % 3 == 1:
            nets.sort(key=lambda x: x.key())
        elif t % 3 == 2:
            nets.sort(key=lambda x: x.key(), reverse=True)
        dup = [Net(n.v, n.p, "DE", 1) for n in rng.sample(nets, 40)]
        s.news(0, nets + dup)
        s.lnew(0)
        s.lnew(1)
        ids = list(range(1, cnt + 1))
        s.bulk(0, ids, [])
        s.bulk(0, list(range(cnt + 1, cnt + 41)), list(range(cnt + 1, cnt + 41)))
        for _ in range(4):
            s.lop("pop", 0)
            s.lop("popfirst", 0)
        s.bulk(1, ids[:30], [])
        s.lop("contains", 0, 1)
        for k in (0, 1, 511, 1022, 1023, 1024, 3071, 3072, cnt - 9, cnt - 8, cnt):
            s.lop("get", 0, max(0, k))
        s.lop("all", 0)
        s.lop("clear", 0)
        s.lop("all", 0)
        s.bulk(0, ids[:1030], [])
        s.lop("all", 0)
        scns.append(s)
    # merging larger lists: interleaved, one after the other, overlapping
    for t in range(size(tier, 8, 60)):
        s = ObjScn("merge%d" % t)
        cnt = rng.choice([40, 90, 260, 520, 700])
        seen = {}
        while len(seen) < cnt:
            v, p = rand_block(rng, rng.choice([4, 6]))
            if p in (0, 96) or is4(v) != is4(v, p):
                continue
            x = Net(v, p)
            seen.setdefault(x.key(), x)
        nets = sorted(seen.values(), key=lambda x: x.key())
        s.news(0, nets)
        s.lnew(0)
        s.lnew(1)
        ids = list(range(1, cnt + 1))
        k = t % 4
        a, b = [(ids[::2], ids[1::2]), (ids[cnt // 2:], ids[:cnt // 2]), (ids[:cnt // 2], ids[cnt // 2:]),
                (ids[:2 * cnt // 3], ids[cnt // 3:])][k]
        if t % 8 > 3:
            a, b = a[:len(a) // 9], sorted(set(b + a))
        s.bulk(0, rng.sample(a, len(a)), [])
        s.bulk(1, rng.sample(b, len(b)), [])
        s.lop("merge", 0, 1)
        s.lop("all", 0)
        s.lop("all", 1)
        for _ in range(3):
            s.lop("popfirst", 0)
            s.lop("pop", 0)
        s.lop("merge", 1, 0)
        s.lop("all", 1)
        s.lop("all", 0)
        scns.append(s)
    obj_judge(chk, "long histories", scns, {"list"})
    p_lots.lists(chk, tier, rng)

# ---------------------------------------------------------------- C17
def mutate(rng, s):
    cs = "0123456789abcdefABCDEF.:/ gxGX-+%[]\t"
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randint(0, 3)
        p = rng.randint(0, len(s)) if s else 0
        if k == 0:
            s.insert(p, rng.choice(cs))
        elif k == 1 and s:
            del s[min(p, len(s) - 1)]
        elif k == 2 and s:
            s[min(p, len(s) - 1)] = rng.choice(cs)
        elif s:
            i = min(p, len(s) - 1)
            s.insert(i, s[i])
    return "".join(s)

def leading_zero_prefix(s):
    """a prefix length written with leading zeros is neither promised nor forbidden"""
    if "/" in s:
        q = s.split("/", 1)[1]
        return len(q) > 1 and q[0] == "0" and q.isdigit()
    return False

def c17(chk, tier, rng):
    scns = []
    # every prefix length of both families, several addresses, several spellings
    for t in range(size(tier, 14, 80)):
        for fam, lo in ((4, 96), (6, 0)):
            s = ObjScn("pfx%d-%d" % (t, fam))
            v = (V4 | rng.getrandbits(32)) if fam == 4 else rng.getrandbits(128)
            if t == 0:
                v = V4 if fam == 4 else 0
            if t == 1:
                v = V4 | 0xffffffff if fam == 4 else ALL
            if t == 2 and fam == 6:
                v = 0x20010db8 << 96 | 1
            for p in range(lo, 129):
                i = p
                s.nnew(i, "%s/%d" % (addrstr(v), p - lo))
                s.nget(i)
                s.rp(i, None, fam)
                if p % 5 == 0:
                    s.rp(i, rng.choice(["example.org", "rbl.example.com.", "", "x"]), fam)
            strings = [addrstr(v)] + ["%s/%d" % (addrstr(v), b) for b in (129 - lo, 130, 200, 999, 256 + 24)]
            strings += spellings(rng, v)
            strings += ["%s/%d" % (t2, rng.randint(0, 128)) for t2 in spellings(rng, v) if ":" in t2]
            s.parses(strings)
            scns.append(s)
    # IPv4 in IPv6 notation
    s = ObjScn("mapped")
    for p in range(0, 130):
        s.parses(["::ffff:1.2.3.4/%d" % p, "::ffff:0:0/%d" % p, "::fffe:1.2.3.4/%d" % p, "0:0:0:0:0:FFFF:a0b:c0d/%d" % p])
    scns.append(s)
    bases = ["1.2.3.4", "1.2.3.4/24", "0.0.0.0/0", "255.255.255.255/32", "::", "::/0", "::1", "2001:db8::/32", "fe80::1/64",
             "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8/128", "::ffff:10.0.0.0/104", "1::8", "::2:3:4:5:6:7:8", "1:2:3:4:5:6:7::",
             "abcd:ef01:2345:6789:abcd:ef01:2345:6789/127", "64:ff9b::192.0.2.33", "1:2:3:4:5:6:1.2.3.4/111"]
    odd = BAD_ADDR + [b + x for b in bases for x in ("/", "/-1", "/+8", "/ 8", "/8 ", "/8x", "/x", "/8/8", "/4294967304",
                                                      "/18446744073709551624", "/0x8", "/8.0", "//8", "/129", "/33", "%eth0")]
    odd += ["1.2.3.4" + "0" * 60, ":" * 60, "1" * 100, "::" + "0" * 50, "1.2.3.4/" + "9" * 60, "x" * 500,
            "01.2.3.4", "1.2.3.04", "1.2.3.00", "1.2.3.000", "00.0.0.0", "1.2.3.4\n", "\n1.2.3.4", "0000:0::00001",
            "1:2:3:4:5:6:7:1.2.3.4", "1:2:3:4:5:1.2.3.4", "1.2.3.4::", "::1.2.3.4:5", "1:2:3:4::5:6:7:8", "1:2:3:4:5:6:7:8::",
            "::1:2:3:4:5:6:7:8", "::1:2:3:4:5:6:7", "1:2:3:4:5:6::8", ":1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:", ":1::2", "1::2:", "::ffff:0x1.2.3.4",
            "::ffff:1.2.3.4.5", "::ffff:1.2.3", "::ffff:01.2.3.4", "0.0.0.0", "::0.0.0.0", "1.2.3.4/32", "1.2.3.4/33"]
    strings = list(odd) + list(bases)
    for _ in range(size(tier, 6000, 120000)):
        b = rng.choice(bases + ["%s/%d" % (addrstr(rng.getrandbits(128)), rng.randint(0, 128)),
                                "%s/%d" % (addrstr(V4 | rng.getrandbits(32)), rng.randint(0, 32))])
        strings.append(mutate(rng, b))
    strings = [x for x in strings if not leading_zero_prefix(x) and "\0" not in x]
    for k in range(0, len(strings), 100):
        s = ObjScn("str%d" % k)
        s.parses(strings[k:k + 100])
        scns.append(s)
    # text of random networks
    for k in range(size(tier, 60, 800)):
        s = ObjScn("text%d" % k)
        nets = rand_set(rng, 20)
        for i, n in enumerate(nets):
            s.net(i, n)
        order = list(range(len(nets))) * 2
        rng.shuffle(order)
        for i in order:
            s.nget(i, arith=False)
            s.rp(i, rng.choice([None, "example.com."]), 4 if is4(nets[i].v, nets[i].p) else 6)
        scns.append(s)
    obj_judge(chk, "texts", scns, {"parse", "text"})

# ---------------------------------------------------------------- C20
def c20(chk, tier, rng):
    scns = []
    # all two-character strings, and others
    allc = [a + b for a in map(chr, range(33, 127)) for b in map(chr, range(33, 127))]
    others = ["", "A", "DEU", "DE ", " DE", "de", "A1 ", "A11", "XD1", "\u00c4\u00d6", "D\u00c4", "\xff\xff", "A4", "A0", "XA", "XX", "T1",
              "ABCDEFGHIJ" * 20]
    codes = allc + others
    for k in range(0, len(codes), 300):
        s = Scenario("codes%d" % k)
        for c in codes[k:k + 300]:
            s.do("cc.valid %s" % pct(c), {"e": "cc.valid", "chars": ch(c)})
            s.do("cc.flag %s" % pct(c), {"e": "cc.flag", "chars": ch(c)})
        scns.append(s)
    s = Scenario("null")
    s.do("cc.valid -", {"e": "cc.valid", "chars": []})
    s.do("cc.flag -", {"e": "cc.flag", "chars": []})
    scns.append(s)
    interesting = BADCODES + others + ["DE", "AA", "ZZ", "AX", "WZ", "YA", "A1", "A2", "A3", "XD", "EU", "AP"]
    for t in range(size(tier, 150, 2000)):
        s = ObjScn("attr%d" % t)
        cur = {}
        for i in range(3):
            n = rand_set(rng, 1)[0]
            s.net(i, n)
            cur[i] = n.cc
        for _ in range(40):
            i = rng.randint(0, 2)
            k = rng.randint(0, 5)
            if k == 0:
                c = rng.choice(interesting + [None] + rng.sample(ALLCODES, 3))
                valid = not c or (len(c) == 2 and all("A" <= x <= "Z" for x in c) and c[0] != "X")
                s.do("n.setcc %d %s" % (i, pct(c)), {"e": "n.setcc", "i": i, "chars": ch(c), "cc": (c or "") if valid else ""})
                if valid:
                    cur[i] = c or ""
            elif k == 1:
                a = rng.choice(NUMBERS + [rng.getrandbits(32)])
                s.do("n.setasn %d %d" % (i, a), {"e": "n.setasn", "i": i, "asn": u32(a)})
            elif k == 2:
                f = rng.choice([0, 1, 2, 4, 8, 3, 15, 16, 0x8000, 0xffff, rng.getrandbits(16)])
                s.do("n.setflag %d %d" % (i, f), {"e": "n.setflag", "i": i, "fl": f})
            elif k == 3:
                f = rng.choice([0, 1, 2, 4, 8, 3, 6, 12, 15, 16, 0x8000, rng.getrandbits(16)])
                s.do("n.hasflag %d %d" % (i, f), {"e": "n.hasflag", "i": i, "fl": f})
            else:
                c = rng.choice(["A1", "A2", "A3", "XD", cur[i], cur[i], cur[i].lower()] + interesting + rng.sample(ALLCODES, 2))
                s.do("n.matchcc %d %s" % (i, pct(c)), {"e": "n.matchcc", "i": i, "chars": ch(c), "ncode": ch(cur[i])})
        scns.append(s)
    # countries, ASes and their lists
    for t in range(size(tier, 120, 1500)):
        s = ObjScn("lists%d" % t)
        nc = rng.choice([3, 8, 40, 200])
        cs = rng.sample(ALLCODES, nc // 2 + 1)
        cs = cs + [rng.choice(cs) for _ in range(nc - len(cs))]
        for i, c in enumerate(cs):
            s.do("c.new %d %s" % (i, pct(c)), {"e": "c.new", "c": i, "chars": ch(c), "code": c, "k": ckey(c)})
        for c in rng.sample(interesting, 4):
            valid = len(c) == 2 and all("A" <= x <= "Z" for x in c) and c[0] != "X"
            if not valid:
                s.do("c.new 999 %s" % pct(c), {"e": "c.new", "c": 999, "chars": ch(c), "code": "", "k": 0})
        for _ in range(6):
            i = rng.randrange(nc)
            c = rng.choice(["EU", "AS", "", None, "E", "EUR", "XX", "NA"])
            def make(rs, i=i, c=c):
                g = rs[0]["country"]
                return [{"e": "c.setcont", "c": i, "chars": ch(c), "cont": c or "", "r": rs[0]["r"],
                         "got": {"code": g["code"], "cont": g["cont"]}}]
            s.group(["c.setcont %d %s" % (i, pct(c))], make)
            j = rng.randrange(nc)
            s.do("c.cmp %d %d" % (i, j), {"e": "c.cmp", "c": i, "d": j})
        na = rng.choice([3, 8, 30, 100])
        ns = [rng.choice(NUMBERS + [rng.getrandbits(32), rng.getrandbits(5)]) for _ in range(na)]
        for i, a in enumerate(ns):
            s.do("a.new %d %d" % (i, a), {"e": "a.new", "a": i, "n": u32(a)})
        for _ in range(6):
            i, j = rng.randrange(na), rng.randrange(na)
            s.do("a.cmp %d %d" % (i, j), {"e": "a.cmp", "a": i, "b": j})
        s.do("cl.new 0", {"e": "cl.new", "l": 0})
        s.do("al.new 0", {"e": "al.new", "l": 0})
        csorted = asorted = False
        def clall(srt):
            s.group(["cl.all 0"], lambda rs: [{"e": "cl.all", "l": 0, "size": rs[0]["size"], "empty": rs[0]["empty"],
                                               "beyond": rs[0]["beyond"], "sorted": srt,
                                               "ks": [ckey(c + "\0\0") for c in rs[0]["all"]]}])
        def alall(srt):
            s.group(["al.all 0"], lambda rs: [{"e": "al.all", "l": 0, "size": rs[0]["size"], "empty": rs[0]["empty"],
                                               "beyond": rs[0]["beyond"], "sorted": srt, "ns": rs[0]["all"]}])
        clall(False)
        alall(False)
        for _ in range(rng.choice([10, 40, 150])):
            k = rng.random()
            i, j = rng.randrange(nc), rng.randrange(na)
            if k < .35:
                s.do("cl.append 0 %d" % i, {"e": "cl.append", "l": 0, "c": i})
                csorted = False
            elif k < .65:
                s.do("al.append 0 %d" % j, {"e": "al.append", "l": 0, "a": j})
                asorted = False
            elif k < .70:
                s.do("cl.contains 0 %d" % i, {"e": "cl.has", "l": 0, "k": ckey(cs[i])})
            elif k < .75:
                c = rng.choice([rng.choice(ALLCODES), cs[i]])
                s.do("cl.containscode 0 %s" % pct(c), {"e": "cl.has", "l": 0, "k": ckey(c)})
            elif k < .80:
                s.do("al.contains 0 %d" % j, {"e": "al.has", "l": 0, "n": u32(ns[j])})
            elif k < .85:
                a = rng.choice([rng.choice(NUMBERS), ns[j], ns[j] ^ 1])
                s.do("al.containsn 0 %d" % a, {"e": "al.has", "l": 0, "n": u32(a)})
            elif k < .90:
                s.do("cl.sort 0", {"e": "nop"})
                csorted = True
                clall(True)
            elif k < .95:
                s.do("al.sort 0", {"e": "nop"})
                asorted = True
                alall(True)
            elif k < .96:
                s.do("cl.clear 0", {"e": "cl.clear", "l": 0})
            elif k < .97:
                s.do("al.clear 0", {"e": "al.clear", "l": 0})
            elif k < .985:
                clall(csorted)
            else:
                alall(asorted)
        s.do("cl.sort 0", {"e": "nop"})
        s.do("al.sort 0", {"e": "nop"})
        clall(True)
        alall(True)
        scns.append(s)
    # names come and go
    for t in range(size(tier, 20, 200)):
        s = ObjScn("names%d" % t)
        s.do("c.new 0 DE", {"e": "c.new", "c": 0, "chars": ch("DE"), "code": "DE", "k": ckey("DE")})
        s.do("c.new 1 FR", {"e": "c.new", "c": 1, "chars": ch("FR"), "code": "FR", "k": ckey("FR")})
        s.do("a.new 0 7", {"e": "a.new", "a": 0, "n": u32(7)})
        for _ in range(15):
            nm = rng.choice([None, None, "", "Name", "N" * rng.randint(1, 3000), "caf\u00e9"])
            i = rng.randrange(2)
            def got(g, *ks):
                return {k: "" if g[k] in (None, "\x01NULL") else g[k] for k in ks}
            k = rng.randrange(3)
            if k == 0:
                s.group(["a.setname 0 %s" % pct(nm)], lambda rs, nm=nm: [
                    {"e": "a.setname", "a": 0, "name": dec(nm or ""), "r": rs[0]["r"], "got": got(rs[0]["as"], "n", "name")}])
            elif k == 1:
                s.group(["c.setname %d %s" % (i, pct(nm))], lambda rs, nm=nm, i=i: [
                    {"e": "c.setname", "c": i, "name": dec(nm or ""), "r": rs[0]["r"], "got": got(rs[0]["country"], "code", "cont", "name")}])
            else:
                s.group(["c.get %d" % i], lambda rs, i=i: [{"e": "c.get", "c": i, "got": got(rs[0]["country"], "code", "cont", "name")}])
        scns.append(s)
    # lists beyond the sizes at which they grow, with late duplicates
    for t, n in enumerate(size(tier, [3400, 1030], [3400, 9500, 1025, 3073])):
        s = ObjScn("grow%d" % t)
        s.do("al.new 0", {"e": "al.new", "l": 0})
        nums = rng.sample(range(2**32), n)
        late = nums + [rng.choice(nums) for _ in range(30)] + nums[-20:]
        for i in range(0, len(late), 400):
            part = late[i:i + 400]
            s.do("al.bulk 0 %s" % ",".join(map(str, part)), {"e": "al.bulk", "l": 0, "ns": [u32(x) for x in part]})
        for x in rng.sample(nums, 10) + nums[-3:] + nums[1023:1026]:
            s.do("al.containsn 0 %d" % x, {"e": "al.has", "l": 0, "n": u32(x)})
        s.do("al.sort 0", {"e": "nop"})
        s.group(["al.all 0"], lambda rs: [{"e": "al.all", "l": 0, "size": rs[0]["size"], "empty": rs[0]["empty"],
                                           "beyond": rs[0]["beyond"], "sorted": True, "ns": rs[0]["all"]}])
        scns.append(s)
    obj_judge(chk, "codes and lists", scns, {"attr", "parse"})
