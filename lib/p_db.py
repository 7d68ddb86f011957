"""Checks of the database properties: lookups, writer, enumerations, bogons, AS and country data."""
import json, os, random, time
from common import *
from nets import *
import p_lots

def size(tier, quick, thorough):
    return thorough if tier == "thorough" else quick

# ---------------------------------------------------------------- worlds enumerated by TLC
_worlds = {}
def worlds(chk, k, attrs, width=3):
    key = (k, attrs, width)
    if key not in _worlds:
        out = os.path.join(scratch(), "worlds-%d-%d-%d.json" % key)
        r = tlc("GenSets", "GenSets%d.cfg" % width, env={"GEN_K": str(k), "GEN_ATTRS": str(attrs), "GEN_OUT": out},
                workers=1, heap="8g")
        if r.code or not os.path.exists(out):
            raise ToolError("GenSets failed:\n" + r.out[-2000:])
        w = json.load(open(out))
        w.sort(key=lambda x: json.dumps(x["nets"]))
        _worlds[key] = w
    chk.note("worlds_k%d_a%d_w%d" % key, worlds=len(_worlds[key]))
    return _worlds[key]

def embeddings(rng, width=3):
    """(name, base address, offset of the world's top bit)"""
    return [
        ("v4top", V4, 96),                                          # contains 0.0.0.0/0
        ("v4mid", V4 | rng.getrandbits(32), 96 + rng.randint(1, 28 - width)),
        ("v4end", V4 | rng.getrandbits(32), 128 - width),           # contains host routes
        ("v6top", 0, 0),                                            # contains ::/0
        ("v6mid", rng.getrandbits(128) | 1 << 125, rng.randint(1, 92)),
        ("v6map", 0xffff << 32, 96 - width),                        # around the IPv4 space
        ("v6end", rng.getrandbits(128) | 1 << 125, 128 - width),
    ]

def embed(w, base, off, attr, width=3):
    """the world's networks at this place; attr maps the attribute number to (cc, asn, flags)"""
    b = first(base, off)
    return [Net(b | (n["v"] << (128 - off - width)), off + n["p"], *attr(n["k"])) for n in w["nets"]]

def cell(v, base, off, width=3):
    """first address and last address of the place of the world's address v"""
    f = first(base, off) | (v << (128 - off - width))
    return f, f | ((1 << (128 - off - width)) - 1)

# pairs of attributes that differ in one respect
ATTRPAIRS = [(("DE", 1, 0), ("DE", 1, 4)), (("DE", 1, 0), ("DE", 1, 0x100)), (("DE", 1, 1), ("DE", 1, 0x8001)),
             (("DE", 0, 0), ("DE", 1, 0)), (("DE", 5, 0), ("DE", 0, 0)), (("DE", 1, 0), ("DE", 65537, 0)),
             (("DE", 7, 0), ("DE", 7 + 2**31, 0)), (("DE", 2**32 - 1, 0), ("DE", 2**32 - 2, 0)), (("DE", 1, 0), ("DK", 1, 0)),
             (("DE", 1, 0), ("BE", 1, 0)), (("", 1, 0), ("DE", 1, 0)), (("DE", 0, 0), ("", 0, 0)), (("", 0, 1), ("", 0, 0)),
             (("DE", 256, 8), ("DE", 1, 8)), (("ED", 1, 0), ("DE", 1, 0))]

DISTINCT = [("DE", 1, 0), ("FR", 65536, 1), ("", 2**32 - 1, 2), ("US", 0, 4), ("AX", 23456, 8)]
def distinct_attr(k):
    return DISTINCT[k % len(DISTINCT)]

def clear_nets(nets):
    """networks inside the IPv4 space are IPv4 networks: nothing to exclude, but equal places collapse"""
    seen, out = set(), []
    for n in nets:
        if n.key() not in seen:
            seen.add(n.key())
            out.append(n)
    return out

# ---------------------------------------------------------------- scenario pieces
def db_scenario(name, nets, open_as=0, w=0):
    s = DBScn(name)
    s.wnew(w)
    s.wnets(nets, w)
    s.wwrite(s.path(), w)
    s.dopen(s.path(), open_as)
    return s

BAD_ADDR = ["", " ", "abc", "1", "1.2.3", "1.2.3.", "1.2.3.4.5", "1.2.3.256", "256.1.1.1", "1.2.3.-4", "1.2.3.4 ",
            " 1.2.3.4", "1.2.3.4x", "::g", "1::2::3", ":::", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "12345::",
            "2001:db8::1 ", "2001:db8::1x", ":", "1.2.3.4:80", "[::1]", "::1%", "fe80::1%lo", "::ffff:1.2.3",
            "::ffff:1.2.3.256", "1.2.3.4.", "0x1.2.3.4", "2001:db8:::1", "\u0661.2.3.4", "-1.2.3.4", "1..2.3"]

def spellings(rng, x):
    """other ways to write the address x"""
    full = ":".join("%04x" % h for h in hx(x))
    out = [full, full.upper(), ":".join("%x" % h for h in hx(x))]
    if is4(x):
        import ipaddress
        d = str(ipaddress.IPv4Address(x & 0xffffffff))
        out += ["::ffff:" + d, "::FFFF:" + d, "0:0:0:0:0:ffff:" + d]
    else:
        import ipaddress
        c = str(ipaddress.IPv6Address(x))
        out += [c.upper()]
        d = ipaddress.IPv4Address(x & 0xffffffff)
        out += [":".join("%x" % h for h in hx(x)[:6]) + ":" + str(d)]
    return out

def chains(rng, tier):
    """nested networks at many depths; lookups that leave the path at every bit"""
    out = []
    plans = []
    for fam, lo in ((4, 96), (6, 0)):
        n = 128 - lo
        plans.append((fam, list(range(lo, 129))))                   # every depth
        plans.append((fam, [lo, 128]))
        plans.append((fam, [lo]))
        plans.append((fam, [128]))
        for _ in range(size(tier, 4, 30)):
            plans.append((fam, sorted(rng.sample(range(lo, 129), rng.randint(2, min(12, n))))))
    for i, (fam, ps) in enumerate(plans):
        v = (V4 | rng.getrandbits(32)) if fam == 4 else (rng.getrandbits(128) | (1 << 125))
        if i % 5 == 1:
            v = V4 if fam == 4 else 0
        if i % 5 == 2:
            v = ALL if fam == 6 else V4 | 0xffffffff
        nets = [Net(v, p, ["DE", "FR", "US", ""][j % 4], 1000 + j, [0, 1, 8, 4][j % 4]) for j, p in enumerate(ps)]
        # something else elsewhere, so that branches split
        nets += [n for n in rand_set(rng, 3, (fam,)) if n.key() not in {m.key() for m in nets}]
        rng.shuffle(nets)
        lo = 96 if fam == 4 else 0
        xs = [v] + [v ^ (1 << (127 - b)) for b in range(lo, 128)]
        xs += [x ^ rng.getrandbits(max(1, 127 - b)) if b < 126 else x for b, x in zip(range(lo, 128), xs[1:])]
        out.append(("chain%d" % i, nets, sorted(set(xs))))
    return out

def tree_shapes(rng, tier):
    """sets whose trees branch everywhere: the sibling at every depth of a long path"""
    out = []
    for fam, lo in ((4, 96), (6, 0)):
        for k in range(3):
            v = (V4 | rng.getrandbits(32)) if fam == 4 else (rng.getrandbits(128) | (1 << 125))
            if k == 1:
                v = V4 if fam == 4 else 0
            if k == 2:
                v = V4 | 0xffffffff if fam == 4 else ALL
            nets = {}
            for b in range(lo + 1, 129):
                n = Net(v ^ (1 << (128 - b)), b, "DE" if b % 2 else "FR", 100 + b, 0)
                if fam == 6 and (is4(n.v) or (n.p < 96 and first(V4, n.p) == n.v)):
                    continue
                nets[n.key()] = n
            n = Net(v, 128, "US", 7, 0)
            nets[n.key()] = n
            if k == 0:
                n = Net(v, lo, "GB", 9, 0)
                nets[n.key()] = n
            q = list(nets.values())
            rng.shuffle(q)
            out.append(("shape%d-%d" % (fam, k), q))
    # the two ends together, both families together
    both = [Net(V4, 96, "DE", 1), Net(0, 0, "FR", 2), Net(V4, 128, "US", 3), Net(V4 | 0xffffffff, 128, "GB", 4),
            Net(0, 128, "AX", 5), Net(ALL, 128, "YT", 6), Net(V4 - 1, 128, "AA", 7), Net(V4 + 2**32, 128, "ZZ", 8),
            Net(0, 1, "DE", 9), Net(1 << 127, 1, "DE", 10), Net(0, 80, "WZ", 11), Net(0xfffe << 32, 96, "DE", 12)]
    out.append(("ends", both))
    out.append(("defaults", both[:2]))
    out.append(("empty", []))
    return out

def big_set(rng, n, fams=(4, 6), **kw):
    return rand_set(rng, n, fams, **kw)

# ---------------------------------------------------------------- very large databases
class BigScn(DBScn):
    """a few networks and a filler of 69905 or 1118481 (TraceBig)"""
    def make(self, rng, fam, top=112):
        v = first(V4 | 10 << 24 | rng.getrandbits(24) if fam == 4 else (0x20010db8 << 96) | rng.getrandbits(96), top)
        self.top = top
        nets, seen = [], set()
        for k, n in enumerate(rand_set(rng, 60, (4, 6), spans4=False)):
            if contains(v, top, n.v) and n.p >= top:
                continue
            m = Net(n.v, n.p, n.cc, 3000000 + 2 * k, n.fl)   # every number once: nothing to merge, and no run of a filler
            nets.append(m)
        rng.shuffle(nets)
        asn0, cc, fl = rng.randint(1, 1800000), rng.choice(["DE", "FR", ""]), rng.choice([0, 1, 0x200])
        self.nets, self.v, self.asn0, self.cc, self.fl = nets, v, asn0, cc, fl
        p = self.path()
        cmds = ["w.new 0 - -"] + ["w.net 0 %s %s %d %d -" % (pct(str(n)), n.cc or "-", n.asn, n.fl) for n in nets]
        cmds.insert(rng.randint(1, len(cmds)), "w.fill 0 %032x %s %d %d %d" % (v, cc or "-", asn0, fl, top))
        cmds += ["w.write 0 %s 1" % pct(p), "d.open 0 %s" % pct(p), "f.unlink %s" % pct(p)]
        fill = {"a": hx(v), "p": top, "cc": cc, "asn": u32(asn0), "fl": fl}
        self.group(cmds, lambda rs: [{"e": "big", "nets": [n.js() for n in nets], "fill": fill,
                                      "r": "ok" if all(r["r"] == "ok" for r in rs) else "err"}])

    def find(self, rng, n):
        xs = critical(self.nets, rng, 5, cap=n // 2)
        xs += [n_.v for n_ in self.nets]                     # whichever was stored first and last among them
        full = 1 << (128 - self.top)
        off = [0, 1, full - 1, full - 2, full // 2, full // 2 - 1] + [rng.randrange(full) for _ in range(n // 2)]
        xs += [self.v | o for o in off] + [self.v - 1, self.v + full]
        self.lookups(xs, kind="lookups")

    def runs(self, cls, fam=0, fl=0, cs=None, asns=None):
        cmd = "d.runs 0 1 0 %d %d %s %s -" % (fam, fl, "-" if cs is None else (",".join(cs) or "@"),
                                              "-" if asns is None else (",".join(map(str, asns)) or "@"))
        ev = {"e": "runs", "class": cls, "fam": fam, "fl": fl, "con": cs is not None, "aon": asns is not None,
              "cs": list(cs or []), "as": [u32(a) for a in asns or []]}
        self.group([cmd], lambda rs: [dict(ev, r=rs[0]["r"], more=rs[0]["more"], runs=rs[0]["runs"])])

def very_large(chk, tier, rng, what, count=None):
    if chk.violation:
        return
    for cfg in size(tier, ["MC_Fill.cfg"], ["MC_Fill.cfg", "MC_FillT.cfg"]):
        r = tlc("MC_Fill", cfg, workers=1)
        if r.code:
            raise ToolError("MC_Fill:\n" + r.out[-2000:])
        chk.model(cfg[:-4], r)
    scns = []
    for i in range(count or size(tier, 3, 10)):
        s = BigScn("huge%d" % i)
        s.make(rng, (4, 6)[i % 2], 108 if i % 4 == 2 else 112)
        if what == "lookup":
            s.find(rng, 300)
        elif what == "enum":
            s.runs("enum")
        else:
            s.runs("search", fam=4)
            s.runs("search", fam=6)
            s.runs("search", cs=[s.cc or "US"])
            s.runs("search", asns=[s.asn0, s.asn0 + 69904, s.asn0 + 69905, s.asn0 + 40000, s.asn0 + 40001, 3000002])
            s.runs("search", fl=1)
        scns.append(s)
    judge(chk, "very large", scns, {"lookup", "enum", "search", "setup"}, module="TraceBig", cfg="TraceBig.cfg")

# ---------------------------------------------------------------- C01
def c01(chk, tier, rng):
    lemma(chk, "MC_Engine", size(tier, "MC_EngineQ.cfg", "MC_EngineT.cfg"))
    scns = []
    for name, nets, xs in chains(rng, tier):
        s = db_scenario(name, nets)
        s.lookups(xs)
        s.unlink(s.path())
        scns.append(s)
    for name, nets in tree_shapes(rng, tier):
        s = db_scenario(name, nets)
        xs = critical(nets, rng, 10, cap=260)
        s.lookups(xs, strings=[(b, False, 0) for b in BAD_ADDR])
        s.unlink(s.path())
        scns.append(s)
    for i in range(size(tier, 220, 3000)):
        nets = rand_set(rng, rng.randint(0, 18), rng.choice([(4,), (6,), (4, 6)]), nattr=rng.choice([2, 6, 40]))
        s = db_scenario("rand%d" % i, nets)
        xs = critical(nets, rng, 6, cap=70)
        alt = []
        for x in rng.sample(xs, min(6, len(xs))):
            for t in spellings(rng, x):
                alt.append((t, True, x))
        alt += [(b, False, 0) for b in rng.sample(BAD_ADDR, 4)]
        s.lookups(xs, strings=alt)
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "lookups", scns, {"lookup", "write", "add", "open", "setup"})
    # large databases: judged against what the independent reader finds in the file
    scns = []
    for i, n in enumerate(size(tier, [700, 2000], [700, 2000, 5000, 5000])):
        nets = big_set(rng, n, nattr=30)
        s = DBScn("big%d" % i)
        s.wnew()
        s.wnets(nets)
        s.wwrite(s.path())
        s.dopen(s.path())
        s.lookups(critical(nets, rng, 60, cap=400))
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "large", scns, {"lookup", "setup", "open"})
    very_large(chk, tier, rng, "lookup")
    p_lots.lots(chk, tier, rng, "lookup")
    replay_worlds(chk, tier, rng, "exact")

def replay_worlds(chk, tier, rng, mode):
    """Replays the worlds enumerated by TLC and compares with what TLC computed.
    exact: distinct attributes, so the very network must be found; attrs: attributes only."""
    if chk.violation:
        return
    if mode == "exact":
        ws = worlds(chk, size(tier, 3, 4), 0)
    else:
        ws = worlds(chk, size(tier, 3, 3), 2)
    embs = embeddings(rng)
    if mode != "exact" and tier == "quick":
        # the merging happens within one family, at the ends of the space and in the middle
        embs = [embs[0], embs[1], embs[2], embs[4], embs[5]]
    if mode == "exact":
        attr = distinct_attr
    else:
        attr = None
    scns, expect = [], []
    for ei, (en, base, off) in enumerate(embs):
        for wi, w in enumerate(ws):
            if mode == "exact":
                nets = embed(w, base, off, attr)
            else:
                pair = ATTRPAIRS[(wi * 7 + ei) % len(ATTRPAIRS)]
                nets = embed(w, base, off, lambda k: pair[k - 1] if k <= 2 else ("US", k, 0))
            order = list(range(len(nets)))
            rng.shuffle(order)
            s = Scenario("%s-%d" % (en, wi))
            path = "f_%s_%d" % (en, wi)
            cmds = ["w.new 0 - -"]
            for j in order:
                n = nets[j]
                cmds.append("w.net 0 %s %s %d %d -" % (pct(str(n)), n.cc or "-", n.asn, n.fl))
            cmds += ["w.write 0 %s 1" % pct(path), "d.open 0 %s" % pct(path)]
            want = []
            for c in w["want"]:
                for x in set(cell(c["v"], base, off)):
                    cmds.append("d.lookup 0 %s" % pct(addrstr(x)))
                    want.append((len(cmds) - 1, nets[c["i"] - 1].js() if c["i"] else None, addrstr(x)))
            cmds.append("f.unlink %s" % pct(path))
            s.group(cmds, lambda rs: [])
            scns.append(s)
            expect.append(want)
    outs = run_scenarios(scns)
    by = {o.scn.name: o for o in outs}
    compared = 0
    for s, want in zip(scns, expect):
        o = by.get(s.name)
        if o is None:
            continue
        bad = None
        if o.crash or not o.results:
            bad = ("crash", o.crash)
        else:
            rs = o.results[0]
            for i, n, x in want:
                r = rs[i]
                compared += 1
                if r.get("r") != "ok":
                    bad = (x, "lookup failed")
                elif n is None:
                    if "none" not in r["net"]:
                        bad = (x, r["net"], "nothing")
                elif mode == "exact":
                    if r["net"] != n:
                        bad = (x, r["net"], n)
                elif "none" in r["net"] or any(r["net"][k] != n[k] for k in ("cc", "asn", "fl")):
                    bad = (x, r["net"], n)
                if bad:
                    break
        if bad:
            chk.violated("world %s enumerated by TLC: the library answers differently" % s.name,
                         {"commands": s.commands(), "address/got/want": bad})
            return
    chk.traces += len(outs)
    chk.evaluations += compared
    chk.parts["replay_" + mode] = {"worlds": len(ws), "embeddings": [e[0] for e in embs], "behaviours": len(outs),
                                   "lookups_compared": compared}

# ---------------------------------------------------------------- C02
def c02(chk, tier, rng):
    lemma(chk, "MC_Engine", size(tier, "MC_Engine.cfg", "MC_EngineT.cfg"))
    if tier != "quick":
        lemma(chk, "MC_Engine", "MC_EngineC.cfg")
    scns = []
    def scen(name, nets, dup=0):
        s = DBScn(name)
        s.wnew()
        s.wnets(nets)
        for n in rng.sample(nets, min(dup, len(nets))):
            m = Net(n.v, n.p, "BB", 77, 16)
            s.wnet(m)
        s.wwrite(s.path())
        s.dopen(s.path())
        s.lookups(critical(nets, rng, 4, cap=60), kind="d.attrs")
        s.unlink(s.path())
        return s
    # few attributes: lots of redundancy and neighbours to merge
    for i in range(size(tier, 160, 2500)):
        fams = rng.choice([(4,), (6,), (4, 6), (4, 6)])
        nets = rand_set(rng, rng.randint(1, 24), fams, nattr=rng.choice([1, 2, 2, 3]))
        scns.append(scen("rand%d" % i, nets, dup=rng.choice([0, 2])))
    # full binary blocks: 2^k neighbours with the same or almost the same attributes
    for i in range(size(tier, 60, 700)):
        fam = rng.choice([4, 6])
        depth = rng.randint(1, 6)
        p0 = rng.choice([96, 97, 104, 120, 128 - depth]) if fam == 4 else rng.choice([0, 1, 8, 32, 64, 90, 100, 128 - depth])
        v = first(V4 | rng.getrandbits(32) if fam == 4 else rng.getrandbits(128) | 1 << 125, p0)
        if p0 == 0:
            v = 0
        nets = []
        odd = rng.choice([None, rng.randrange(1 << depth)])
        for k in range(1 << depth):
            n = Net(v | (k << (128 - p0 - depth)), p0 + depth, "DE", 1, 0)
            if fam == 6 and is4(n.v, 128):
                continue
            if k == odd:
                n = rng.choice([Net(n.v, n.p, *near_attr(rng, ("DE", 1, 0), CCS + [""], ASNS)), None])
            if n:
                nets.append(n)
        if rng.random() < .4:
            for _ in range(3):          # something above or below
                n = rng.choice(nets)
                q = rng.choice([max(96 if fam == 4 else 0, n.p - rng.randint(1, 5)), min(128, n.p + rng.randint(1, 5))])
                m = Net(n.v, q, rng.choice(["DE", "FR"]), 1, 0)
                if m.key() not in {x.key() for x in nets}:
                    nets.append(m)
        rng.shuffle(nets)
        scns.append(scen("block%d" % i, nets))
    # networks of one family around the networks of the other one
    for i in range(size(tier, 40, 400)):
        nets = [Net(0, 0, "DE", 1), Net(0, 80, "DE", 1), Net(0xfffe << 32, 95, "DE", 1), Net(V4, 96, "DE", 1),
                Net(V4, 97, "DE", 1), Net(V4 | 1 << 31, 97, "DE", 1), Net(0xfffe << 32, 96, "DE", 1),
                Net(V4 | 10 << 24, 104, "FR", 2), Net(1 << 127, 1, "DE", 1), Net(0, 1, "DE", 1),
                Net(V4 | 11 << 24, 104, "FR", 2), Net(0xfffd << 32, 96, "FR", 1), Net(0xfffc << 32, 94, "DE", 1)]
        nets = rng.sample(nets, rng.randint(2, 9))
        scns.append(scen("mixed%d" % i, nets))
    judge(chk, "random sets", scns, {"write", "attrs", "add", "open", "setup"})
    # written again and again while networks are added: what was written before takes nothing away
    scns = []
    for i in range(size(tier, 100, 1500)):
        s = DBScn("stages%d" % i)
        s.wnew()
        if i == 0:
            nets = [Net(V4 | 10 << 24, 104, "DE"), Net(V4 | 0x0a010000, 112, "DE"), Net(V4 | 10 << 24, 108, "FR"), Net(V4 | 0x0a100000, 109, "FR")]
            cuts = [2, 3]
        else:
            nets = rand_set(rng, rng.randint(2, 20), rng.choice([(4,), (6,), (4, 6)]), nattr=rng.choice([1, 2, 2, 3]))
            if rng.random() < .5:
                nets.sort(key=lambda n: -n.p)       # the more specific ones first
            cuts = sorted({rng.randint(1, len(nets)) for _ in range(rng.randint(1, 3))})
        had, kept = [], {}
        for a, b in zip([0] + cuts, cuts + [len(nets)]):
            # what somebody still holds can be changed
            for k in list(kept):
                if rng.random() < .5:
                    n, m = kept[k], Net(kept[k].v, kept[k].p, kept[k].cc, kept[k].asn, kept[k].fl)
                    m.cc, m.asn, m.fl = rng.choice([(rng.choice(CCS), n.asn, n.fl), (n.cc, rng.choice(ASNS), n.fl), (n.cc, n.asn, n.fl | 2)])
                    s.group(["n.setcc %d %s" % (k, pct(m.cc))] * (m.cc != n.cc) + ["n.setasn %d %d" % (k, m.asn), "n.setflag %d %d" % (k, m.fl)],
                            lambda rs, n=n.js(), m=m.js(): [{"e": "w.change", "w": 0, "net": n, "to": m, "r": "ok" if all(r["r"] == "ok" for r in rs) else "err"}])
                    kept[k] = m
            # everything that has been added is still in its place
            again = [Net(n.v, n.p, "BB", 77, 16) for n in rng.sample(had, min(2, len(had)))]
            hold = [n for n in nets[a:b] if rng.random() < .3]
            s.wnets(again + [n for n in nets[a:b] if n not in hold])
            for n in hold:
                k = 100 + len(kept)
                s.wnet(n, keep=str(k))
                kept[k] = n
            had += nets[a:b]
            s.wwrite(s.path())
            s.dopen(s.path())
            s.lookups(critical(nets, rng, 2, cap=30), kind="d.attrs")
            s.unlink(s.path())
        for k in kept:
            s.do("unref n %d" % k, {"e": "nop"})
        scns.append(s)
    judge(chk, "written in between", scns, {"write", "attrs", "add", "open", "setup"})
    # every insertion order of some sets
    import itertools
    scns = []
    for i in range(size(tier, 3, 25)):
        nets = rand_set(rng, 4, rng.choice([(4,), (6,), (4, 6)]), nattr=2)
        for j, perm in enumerate(itertools.permutations(nets)):
            s = DBScn("perm%d-%d" % (i, j))
            s.wnew()
            s.wnets(list(perm))
            s.wwrite(s.path())
            s.unlink(s.path())
            scns.append(s)
    judge(chk, "insertion orders", scns, {"write", "add", "setup"})
    # large sets: attributes at sampled addresses
    scns = []
    for i, n in enumerate(size(tier, [600, 1500], [600, 1500, 4000])):
        nets = big_set(rng, n, nattr=3)
        s = DBScn("big%d" % i)
        s.wnew()
        s.wnets(nets)
        s.wwrite(s.path())
        s.dopen(s.path())
        s.lookups(critical(nets, rng, 30, cap=300), kind="d.attrs")
        s.unlink(s.path())
        scns.append(s)
    # many adjacent networks that all collapse into one (the list of neighbours grows beyond 1024)
    for i, (cnt, p) in enumerate([(1025, 120), (1500, 128)] + size(tier, [], [(4096, 128), (3100, 112)])):
        base = V4 | 10 << 24
        nets = [Net(base + (k << (128 - p)), p, "DE", 1, 0) for k in range(cnt)]
        rng.shuffle(nets)
        s = DBScn("adj%d" % i)
        s.wnew()
        s.wnets(nets)
        s.wwrite(s.path())
        s.dopen(s.path())
        s.lookups(critical(nets, rng, 5, cap=150), kind="d.attrs")
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "large", scns, {"attrs", "setup", "open"})
    very_large(chk, tier, rng, "lookup", size(tier, 2, 6))
    p_lots.lots(chk, tier, rng, "write", size(tier, 6, 40))
    replay_worlds(chk, tier, rng, "attrs")

# ---------------------------------------------------------------- shared sets for the enumerations
def enum_sets(rng, tier, n, fams=((4,), (6,), (4, 6)), maxsize=20, **kw):
    out = []
    for name, nets in tree_shapes(rng, tier):
        out.append((name, nets))
    for name, nets, _ in chains(rng, "quick"):
        out.append((name, nets))
    for i in range(n):
        out.append(("rand%d" % i, rand_set(rng, rng.randint(0, maxsize), rng.choice(fams),
                                           nattr=rng.choice([2, 5, 30]), **kw)))
    return out

def world_sets(chk, rng, tier, k, nembed):
    """worlds enumerated by TLC, placed somewhere"""
    ws = worlds(chk, k, 0)
    out = []
    for e, (en, base, off) in enumerate(embeddings(rng)):
        for i, w in enumerate(ws):
            if nembed < 1 and rng.random() > nembed:
                continue
            out.append(("w%s-%d" % (en, i), embed(w, base, off, distinct_attr)))
    return out

# ---------------------------------------------------------------- C04
def c04(chk, tier, rng):
    lemma(chk, "MC_Engine", size(tier, "MC_EngineQ.cfg", "MC_EngineT.cfg"))
    scns = []
    for name, nets in enum_sets(rng, tier, size(tier, 300, 4000)) + world_sets(chk, rng, tier, 3, size(tier, .35, 1)):
        s = db_scenario(name, nets)
        s.dnets(cls="enum")
        # what is listed is found by a lookup of its first address
        s.lookups([n.v for n in rng.sample(nets, min(12, len(nets)))])
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "walks", scns, {"enum", "lookup", "open", "setup"})
    scns = []
    for i, n in enumerate(size(tier, [1500, 3000], [1500, 3000, 6000, 12000])):
        nets = big_set(rng, n, nattr=50)
        s = db_scenario("big%d" % i, nets)
        s.dnets(cls="enum")
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "large walks", scns, {"enum", "open", "setup"})
    very_large(chk, tier, rng, "enum")
    p_lots.lots(chk, tier, rng, "enum")

# ---------------------------------------------------------------- C05
def filters(rng, nets, n, flat=False):
    ccs = sorted({x.cc for x in nets if x.cc}) or ["DE"]
    asn = sorted({x.asn for x in nets}) or [1]
    out = []
    for _ in range(n):
        f = {"fam": rng.choice([0, 0, 4, 6]), "fl": 0, "cs": None, "asns": None}
        k = rng.randint(0, 7)
        if k in (0, 3, 4, 6):
            f["cs"] = rng.sample(ccs, rng.randint(1, min(3, len(ccs)))) + rng.choice([[], ["QQ"]])
        if k in (1, 3, 5, 6):
            f["asns"] = rng.sample(asn, rng.randint(1, min(3, len(asn)))) + rng.choice([[], [424242]])
        if k in (2, 4, 5, 6):
            f["fl"] = rng.choice([1, 2, 4, 8, 3, 12, 15, 16, 0x100, 0x8000, 0x8001])
        if rng.random() < .1:
            f["cs"] = []
        if rng.random() < .1:
            f["asns"] = []
        out.append(f)
    return out

def c05(chk, tier, rng):
    scns = []
    for name, nets in enum_sets(rng, tier, size(tier, 300, 4000), maxsize=24) + \
            world_sets(chk, rng, tier, 3, size(tier, .15, 1)):
        s = db_scenario(name, nets)
        for f in filters(rng, nets, 6):
            s.dnets(cls="search", again=rng.random() < .3, **f)
        s.unlink(s.path())
        scns.append(s)
    # long lists of criteria
    for i in range(size(tier, 6, 60)):
        asns = rng.sample(range(1, 2**32 - 1), 300)
        ccs = [a + b for a in "ABCD" for b in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
        nets = rand_set(rng, 60, ccs=ccs, asns=asns, nattr=60)
        s = db_scenario("long%d" % i, nets)
        s.dnets(cls="search", asns=rng.sample(asns, 200), cs=None)
        s.dnets(cls="search", cs=rng.sample(ccs, 60), asns=rng.sample(asns, 3))
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "searches", scns, {"search", "open", "setup"})
    scns = []
    for i, n in enumerate(size(tier, [1500], [1500, 6000])):
        nets = big_set(rng, n, nattr=50)
        s = db_scenario("big%d" % i, nets)
        for f in filters(rng, nets, 4):
            s.dnets(cls="search", again=rng.random() < .3, **f)
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "large searches", scns, {"search", "open", "setup"})
    very_large(chk, tier, rng, "search")
    p_lots.lots(chk, tier, rng, "search")

# ---------------------------------------------------------------- C06
def c06(chk, tier, rng):
    lemma(chk, "MC_Engine", size(tier, "MC_EngineQ.cfg", "MC_EngineT.cfg"))
    lemma(chk, "MC_Nets", size(tier, "MC_Nets.cfg", "MC_NetsT.cfg"))
    scns = []
    for name, nets in enum_sets(rng, tier, size(tier, 220, 3000), maxsize=16) + \
            world_sets(chk, rng, tier, 3, size(tier, .2, 1)):
        s = db_scenario(name, nets)
        s.dnets(cls="flat", flat=True)
        for f in filters(rng, nets, 3):
            s.dnets(cls="flat", flat=True, **f)
        s.unlink(s.path())
        scns.append(s)
    # wide and deep nesting
    for i in range(size(tier, 30, 300)):
        fam = rng.choice([4, 6])
        lo = 96 if fam == 4 else 0
        p = rng.randint(lo, lo + 20)
        v = (V4 | rng.getrandbits(32)) if fam == 4 else (rng.getrandbits(128) | 1 << 125)
        nets = {}
        top = Net(v, p, "DE", 1)
        nets[top.key()] = top
        for _ in range(rng.randint(5, 40)):
            parent = rng.choice(list(nets.values()))
            if parent.p >= 128:
                continue
            q = min(128, parent.p + rng.choice([1, 1, 2, 3, 8, 20]))
            m = Net(rng.choice([parent.v, last(parent.v, parent.p), parent.v | rng.getrandbits(128 - parent.p)]), q,
                    rng.choice(["DE", "FR", "US", ""]), rng.choice([1, 2, 65536]), rng.choice([0, 0, 1, 8]))
            if fam == 6 and (is4(m.v) or first(V4, m.p) == m.v):
                continue
            nets.setdefault(m.key(), m)
        s = db_scenario("nest%d" % i, list(nets.values()))
        s.dnets(cls="flat", flat=True)
        for f in filters(rng, list(nets.values()), 3):
            s.dnets(cls="flat", flat=True, **f)
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "flattened walks", scns, {"flat", "open", "setup"})
    scns = []
    for i, n in enumerate(size(tier, [120, 180], [250, 400, 700])):
        nets = big_set(rng, n, nattr=6)
        s = db_scenario("big%d" % i, nets)
        s.dnets(cls="flat", flat=True)
        s.dnets(cls="flat", flat=True, cs=["DE", "FR"])
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "large flattened walks", scns, {"flat", "open", "setup"})
    p_lots.lots(chk, tier, rng, "flat")

# ---------------------------------------------------------------- C07
def c07(chk, tier, rng):
    lemma(chk, "MC_Engine", size(tier, "MC_EngineQ.cfg", "MC_EngineT.cfg"))
    lemma(chk, "MC_Nets", size(tier, "MC_Nets.cfg", "MC_NetsT.cfg"))
    scns = []
    def scen(name, nets):
        s = db_scenario(name, nets)
        for fam in (0, 4, 6):
            s.dbogons(fam=fam)
        s.unlink(s.path())
        return s
    sets = enum_sets(rng, tier, size(tier, 200, 3000), maxsize=16) + world_sets(chk, rng, tier, 3, size(tier, .2, 1))
    for name, nets in sets:
        scns.append(scen(name, nets))
    # only networks without a country; only one family; ends of the space
    for i in range(size(tier, 60, 600)):
        nets = rand_set(rng, rng.randint(1, 6), rng.choice([(4,), (6,), (4, 6)]), ccs=rng.choice([[""], ["", "DE"], ["DE"]]),
                        nattr=4)
        ends = [Net(V4, 128, "DE", 1), Net(V4 | 0xffffffff, 128, "DE", 1), Net(0, 128, "DE", 1), Net(ALL, 128, "DE", 1),
                Net(V4, 96, "DE", 1), Net(0, 0, "FR", 2), Net(V4 - 1, 128, "DE", 1), Net(V4 + 2**32, 128, "DE", 1),
                Net(V4, 104, "DE", 1), Net(V4 | 255 << 24, 104, "DE", 1), Net(0, 8, "US", 1), Net(255 << 120, 8, "US", 1)]
        for n in rng.sample(ends, rng.randint(0, 4)):
            if n.key() not in {x.key() for x in nets}:
                nets.append(n)
        scns.append(scen("ends%d" % i, nets))
    # adjacent networks without gaps, and gaps of a single address
    for i in range(size(tier, 30, 300)):
        fam = rng.choice([4, 6])
        x = (V4 | rng.getrandbits(31)) if fam == 4 else (1 << 125) | rng.getrandbits(64)
        nets = {}
        for _ in range(rng.randint(2, 12)):
            p = 128 - rng.choice([0, 0, 1, 2, 3])
            n = Net(x, p, rng.choice(["DE", "DE", "FR", ""]), 1)
            nets.setdefault(n.key(), n)
            x = last(n.v, n.p) + rng.choice([1, 1, 2, 3])
        scns.append(scen("gaps%d" % i, list(nets.values())))
    # ... at the very ends of both spaces: walk from the end (or start) towards the middle
    for i in range(size(tier, 60, 500)):
        nets = {}
        for fam in rng.choice([(4,), (6,), (4, 6)]):
            lo, hi = (V4, V4 | 0xffffffff) if fam == 4 else rng.choice([(0, ALL), (0, V4 - 1), (V4 + 2**32, ALL)])
            for end in rng.sample(["start", "end"], rng.randint(1, 2)):
                x = (lo if end == "start" else hi)
                x += (1 if end == "start" else -1) * rng.choice([0, 1, 1, 2, 3])
                for _ in range(rng.randint(1, 6)):
                    p = 128 - rng.choice([0, 0, 0, 1, 2, 8])
                    n = Net(x, p, rng.choice(["DE", "DE", "FR", ""]), rng.choice([0, 1]))
                    if (is4(n.v), is4(last(n.v, n.p))) == (fam == 4, fam == 4):
                        nets.setdefault(n.key(), n)
                    x = last(n.v, n.p) + rng.choice([1, 1, 2, 3]) if end == "start" else n.v - rng.choice([1, 1, 2, 3])
                    if not lo <= x <= hi:
                        break
        scns.append(scen("edge%d" % i, list(nets.values())))
    # everything but one address
    for i in range(size(tier, 24, 100)):
        fam = (4, 6)[i % 2]
        lo = 96 if fam == 4 else 0
        top = V4 if fam == 4 else 0
        x = [top, top + 2**(128 - lo) - 1, top | rng.getrandbits(128 - lo)][(i // 2) % 3]
        nets = [Net(x ^ (1 << (128 - p)), p, "DE", p) for p in range(lo + 1, 129)]
        nets = [n for n in nets if fam == 4 or not (is4(n.v) or (n.p < 96 and first(V4, n.p) == n.v))]
        if fam == 6 and is4(x):
            continue
        if i % 4 > 1:
            nets = rng.sample(nets, len(nets) - rng.randint(1, 3))
        scns.append(scen("hole%d" % i, nets))
    judge(chk, "bogons", scns, {"bogons", "open", "setup"})
    p_lots.lots(chk, tier, rng, "bogons")

# ---------------------------------------------------------------- C03, C19: AS and country data
def chars(s):
    return list(s.encode("utf-8"))

def dec(s):
    """the driver prints bytes as code points"""
    return s.encode("utf-8", "surrogateescape").decode("latin-1")

def ckey(code):
    return ord(code[0]) * 256 + ord(code[1])

class DataScn(DBScn):
    def ases(self, items, w=0):
        """(number, name) pairs of distinct numbers"""
        def make(rs):
            return [{"e": "w.ases", "w": w, "r": "ok" if all(r["r"] == "ok" for r in rs) else "err",
                     "as": [{"n": u32(n), "name": dec(nm or ""), "chars": chars(nm or "")} for n, nm in items]}]
        if items:
            self.group(["w.as %d %d %s -" % (w, n, pct(nm)) for n, nm in items], make)

    def as1(self, n, nm, w=0):
        self.do("w.as %d %d %s -" % (w, n, pct(nm)),
                {"e": "w.as", "w": w, "as": {"n": u32(n), "name": dec(nm or ""), "chars": chars(nm or "")}})

    def country(self, code, cont, nm, w=0, valid=True):
        ev = {"e": "w.country", "w": w, "valid": valid}
        if valid:
            ev["country"] = {"code": code, "cont": cont or "", "name": dec(nm or ""), "k": ckey(code)}
        self.do("w.country %d %s %s %s -" % (w, pct(code), pct(cont), pct(nm)), ev)

    def setmeta(self, what, s, w=0):
        self.do("w.meta %d %s %s" % (w, what, pct(s)), {"e": "w.meta", "w": w, "what": what, "s": dec(s or "")})

    def write(self, path, w=0):
        self.wwrite(path, w)

    def asq(self, numbers, d=0):
        self.group(["d.as %d %d" % (d, n) for n in numbers],
                   lambda rs: [{"e": "d.asq", "d": d, "qs": [{"n": u32(n), "r": r["r"], "as": r["as"]}
                                                             for n, r in zip(numbers, rs)]}])

    def countryq(self, code, d=0, valid=True):
        def make(rs):
            c = dict(rs[0]["country"])
            if "none" not in c:
                c["k"] = ckey(c["code"] + "\0\0")
            return [{"e": "d.country", "d": d, "code": code if valid else "", "valid": valid, "r": rs[0]["r"], "country": c}]
        self.group(["d.country %d %s" % (d, pct(code))], make)

    def metaq(self, d=0):
        def make(rs):
            r = rs[0]
            return [{"e": "d.meta", "d": d, "vendor": r["vendor"], "description": r["description"],
                     "license": r["license"], "count": r["count"],
                     "fresh": abs(int(r["created"]) - time.time()) < 7200}]
        self.group(["d.meta %d" % d], make)

    def listas(self, d=0, s=None, rounds=2, cls="as"):
        def make(rs):
            return [{"e": "d.ases", "d": d, "class": cls, "search": s is not None, "s": chars(s or ""),
                     "r": rs[0]["r"], "ases": rs[0]["ases"]}]
        self.group(["d.ases %d 2 0 0 0 - - %s %d" % (d, pct(s), rounds)], make)

    def listct(self, d=0, rounds=2):
        def make(rs):
            return [{"e": "d.countries", "d": d, "r": rs[0]["r"],
                     "countries": [[dict(c, k=ckey(c["code"] + "\0\0")) for c in q] for q in rs[0]["countries"]]}]
        self.group(["d.countries %d 3 0 0 0 - - - %d" % (d, rounds)], make)

NAMES = ["", "A", "a", "Deutsche Telekom AG", "DEUTSCHE TELEKOM AG", "Telekom", "tele", "IPFire", "Österreich AS",
         "日本電信電話", "name with  two spaces", " leading", "trailing ", "%s%n%d", "a.b*c?[x]", "\\back\\slash", "\"quoted\"",
         "tab\there", "x" * 255, "y" * 256, "z" * 300, "line\nbreak", "AS1", "1", "-", "0", "KPN", "KPN B.V.",
         "Hetzner Online GmbH", "\x7f\x80\xff"]

STEMS = ["The very same beginning of many different names " * 7, "ab" * 150, "x" * 300]
def rand_name(rng):
    k = rng.random()
    if k < .12:
        return rng.choice(STEMS)[:rng.choice([3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 200, 254, 255, 256])] + rng.choice(["", "a", "b", "1", "2 "])
    if k < .4:
        return rng.choice(NAMES)
    if k < .5:
        return None
    return "".join(rng.choice("abcdeABCDE XYZ-.0129öß") for _ in range(rng.randint(1, 40)))

ALLCODES = [a + b for a in "ABCDEFGHIJKLMNOPQRSTUVWYZ" for b in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
CONTS = ["EU", "AS", "NA", "SA", "AF", "OC", "AN", None]
BADCODES = ["", "D", "DEU", "de", "De", "dE", "D1", "1D", "XX", "XD", "XA", "A1", "A2", "A3", "  ", "D ", "??", "T1"]
NUMBERS = [0, 1, 2, 255, 256, 65535, 65536, 65537, 2**24, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]

def c03(chk, tier, rng):
    scns = []
    for i in range(size(tier, 160, 2500)):
        s = DataScn("data%d" % i)
        s.wnew()
        nums = rng.sample(NUMBERS, rng.randint(0, len(NUMBERS))) + [rng.getrandbits(32) for _ in range(rng.choice([0, 3, 20]))]
        nums = list(dict.fromkeys(nums))
        rng.shuffle(nums)
        codes = rng.sample(ALLCODES, rng.choice([0, 1, 2, 5, 20, 60]))
        s.ases([(n, rand_name(rng)) for n in nums])
        for c in codes:
            s.country(c, rng.choice(CONTS), rand_name(rng))
        for c in rng.sample(BADCODES, 2):
            s.country(c, None, None, valid=False)
        for n in rng.sample(nums, min(2, len(nums))):
            s.as1(n, "another name")
        for c in rng.sample(codes, min(2, len(codes))):
            s.country(c, "OC", "another name")
        for what in ("vendor", "description", "license"):
            if rng.random() < .8:
                s.setmeta(what, rand_name(rng) or "")
                if rng.random() < .3:
                    s.setmeta(what, rand_name(rng) or "")
        s.wnets(rand_set(rng, rng.randint(0, 4)))
        twice = rng.random() < .4
        paths = [s.path("1")] + ([s.path("2")] if twice else [])
        for k, p in enumerate(paths):
            s.write(p)
            s.dopen(p, k)
        for k, p in enumerate(paths):
            near_n = [m for n in nums[:8] for m in (n - 1, n, n + 1) if 0 <= m < 2**32]
            s.asq(sorted(set(nums + near_n + NUMBERS)), k)
            for c in codes + rng.sample(ALLCODES, 6):
                s.countryq(c, k)
            for c in rng.sample(BADCODES, 2):
                s.countryq(c, k, valid=False)
            s.listas(k)
            s.listct(k)
            s.metaq(k)
        for p in paths:
            s.unlink(p)
        scns.append(s)
    # every country there can be; many ASes; long strings
    s = DataScn("allcountries")
    s.wnew()
    order = list(ALLCODES)
    rng.shuffle(order)
    for c in order:
        s.country(c, rng.choice(CONTS), "Country " + c)
    s.write(s.path())
    s.dopen(s.path())
    for c in rng.sample(ALLCODES, 250):
        s.countryq(c)
    s.listct()
    s.unlink(s.path())
    scns.append(s)
    # equal strings
    for i in range(size(tier, 12, 60)):
        s = DataScn("same%d" % i)
        s.wnew()
        pool = ["IPFire Project", "x", "DE", rand_name(rng) or "n"][:rng.randint(1, 4)]
        for what in rng.sample(["vendor", "description", "license"], 3):
            for _ in range(rng.choice([1, 1, 2])):
                s.setmeta(what, rng.choice(pool))
        s.ases([(n, rng.choice(pool)) for n in rng.sample(NUMBERS, 4)])
        for c in rng.sample(ALLCODES, 3):
            s.country(c, rng.choice(CONTS), rng.choice(pool))
        for what in rng.sample(["vendor", "description", "license"], rng.randint(0, 2)):
            s.setmeta(what, rng.choice(pool))
        s.write(s.path())
        s.dopen(s.path())
        s.listas()
        s.listct()
        s.metaq()
        s.unlink(s.path())
        scns.append(s)
    for k, (n, ln) in enumerate(size(tier, [(4800, 26), (40, 5000), (700, 200)],
                                     [(9500, 30), (60, 20000), (2500, 200), (18000, 12)])):
        s = DataScn("many%d" % k)
        s.wnew()
        nums = rng.sample(range(2**32), n)
        s.ases([(x, "".join(rng.choice("abcdefgh ") for _ in range(rng.randint(0, ln)))) for x in nums])
        for x in nums[-3:] + rng.sample(nums, 6):
            s.as1(x, "a later name")
        codes = rng.sample(ALLCODES, 40)
        for c in codes:
            s.country(c, rng.choice(CONTS), "The country of " + c)
        s.setmeta("license", "L" * ln)
        s.setmeta("vendor", "V")
        s.write(s.path())
        s.dopen(s.path())
        s.asq(sorted(rng.sample(nums, min(n, 400)) + [min(nums), max(nums)] + NUMBERS))
        s.listas(rounds=1)
        for c in codes:
            s.countryq(c)
        s.listct()
        s.metaq()
        s.unlink(s.path())
        scns.append(s)
    # strings larger than what the pool grows by
    for k, ln in enumerate(size(tier, [600000, 1700000], [524287, 524288, 524289, 600000, 1700000])):
        s = DataScn("huge%d" % k)
        s.wnew()
        s.setmeta("vendor", "V")
        s.ases([(1, "first"), (2, "h" * ln), (3, "after")])
        s.country("DE", "EU", "Germany")
        s.setmeta("description", "d" * (ln // 2))
        s.write(s.path())
        s.dopen(s.path())
        s.asq([1, 2, 3])
        s.listas()
        s.countryq("DE")
        s.metaq()
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "round trips", scns, {"as", "country", "meta", "open", "setup"})

def c19(chk, tier, rng):
    scns = []
    for i in range(size(tier, 200, 3000)):
        s = DataScn("search%d" % i)
        s.wnew()
        nums = list(dict.fromkeys([rng.getrandbits(rng.choice([4, 16, 32])) for _ in range(rng.choice([0, 1, 5, 20, 60]))]))
        items = [(n, rand_name(rng)) for n in nums]
        # names that differ only in case or by one character
        for n, nm in list(items)[:6]:
            if nm:
                for v in (nm.upper(), nm.lower(), nm + "x", nm[1:], nm * 2):
                    m = rng.getrandbits(32)
                    if m not in {a for a, _ in items}:
                        items.append((m, v))
        items = [(n, nm) for n, nm in items]
        rng.shuffle(items)
        s.ases(items)
        s.write(s.path())
        s.dopen(s.path())
        names = [nm for _, nm in items if nm] or ["nothing"]
        qs = [None, ""]
        for _ in range(7):
            nm = rng.choice(names)
            a = rng.randint(0, len(nm) - 1)
            b = rng.randint(a, len(nm))
            sub = nm[a:b]
            # the case of letters outside ASCII is left alone
            up = "".join(ch.upper() if ch.isascii() else ch for ch in sub)
            lo = "".join(ch.lower() if ch.isascii() else ch for ch in sub)
            qs += [rng.choice([sub, up, lo, "".join(rng.choice([x.lower(), x.upper()]) if x.isascii() else x for x in sub)])]
        qs += [rng.choice(names) + "!", rng.choice(names), "q" * 400, rng.choice(["%", "*", ".", "[", "\\", "?", "$", "^", "a.", ".*"])]
        for q in qs:
            s.listas(s=q, rounds=rng.choice([1, 2]), cls="search")
        s.unlink(s.path())
        scns.append(s)
    judge(chk, "searches", scns, {"search", "open", "setup"})
