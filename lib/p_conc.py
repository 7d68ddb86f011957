"""C18: interleaved walks, lookups and changes to the files."""
import itertools, json, os, re, tempfile
from common import *
from nets import *
from p_db import DataScn, size, tree_shapes

KEYS = {"priv": os.path.join(REPO, "examples", "private-key.pem"), "pub": os.path.join(REPO, "examples", "public-key.pem")}
KINDS = ["net", "flat", "bogon", "search", "as", "assearch", "country"]

def schedules(chk, plans, name):
    """all interleavings of the plans, from TLC"""
    f = os.path.join(scratch(), name + ".json")
    json.dump(plans, open(f, "w"))
    r = tlc("MC_Conc", "MC_Conc.cfg", env={"PLANS": f}, workers=1, heap="6g")
    if r.code:
        raise ToolError("MC_Conc:\n" + r.out[-3000:])
    chk.model("MC_Conc/" + name, r)
    out = []
    for m in re.finditer(r'<<"SCHED",\s*(\d+),\s*<<([\d,\s]*)>>\s*>>', r.out):
        out.append((int(m.group(1)) - 1, [int(x) for x in m.group(2).split(",")]))
    return sorted(out)

class ConcScn(DataScn):
    def content(self, path, w, nets, ases, cts, signed=False):
        self.wnew(w, *([KEYS["priv"], None] if signed else [None, None]))
        self.wnets(nets, w)
        self.ases(ases, w)
        for c, k, n in cts:
            self.country(c, k, n, w)
        self.setmeta("vendor", "v%d" % w, w)
        self.write(path, w)

    def walk(self, i, kind, d, solo, opt=None):
        """creates an enumerator after the same walk has been taken alone on the handle solo"""
        opt = opt or {}
        fam, fl = opt.get("fam", 0), opt.get("fl", 0)
        cs, an, s = opt.get("cs") or "-", opt.get("asns") or "-", opt.get("s")
        mode = {"net": "1 0", "flat": "1 1", "search": "1 0", "bogon": "4 0", "as": "2 0", "assearch": "2 0", "country": "3 0"}[kind]
        args = "%s %d %d %s %s %s" % (mode, fam, fl, cs, an, pct(s))
        cmd = {"as": "d.ases", "assearch": "d.ases", "country": "d.countries"}.get(kind, "d.nets")
        k2 = {"as": "as", "assearch": "as", "country": "country"}.get(kind, "net")
        def make(rs):
            key = {"as": "ases", "country": "countries", "net": "nets"}[k2]
            a = rs[0][key] if k2 == "net" else rs[0][key][0]
            return [{"e": "e.new", "i": i, "kind": k2, "all": a}]
        self.kinds = getattr(self, "kinds", {})
        self.kinds[i] = k2
        self.group(["%s %d %s" % (cmd, solo, args), "e.new %d %d %s" % (i, d, args)], make)

    def step(self, i):
        k = self.kinds[i]
        key = {"as": "as", "country": "country", "net": "net"}[k]
        self.group(["e.%s %d" % (k, i)], lambda rs: [{"e": "e.next", "i": i, "r": rs[0]["r"], "item": rs[0][key]}])

    def look(self, d, xs, asns, cts, verify=False):
        self.lookups(xs, d)
        self.asq(asns, d)
        for c in cts:
            self.countryq(c, d)
        self.metaq(d)
        if verify:
            self.group(["d.verify %d %s" % (d, pct(KEYS["pub"]))],
                       lambda rs: [{"e": "same", "x": rs[0]["r"], "y": "ok"}])

def two_contents(rng, n=4):
    """two databases that answer the same questions differently"""
    places = []
    base = rand_set(rng, n, rng.choice([(4,), (6,), (4, 6)]), nattr=3, spans4=False)
    old = [Net(x.v, x.p, "DE", 100 + i, 1) for i, x in enumerate(base)]
    new = [Net(x.v, x.p, "FR", 200 + i, 2) for i, x in enumerate(base[: max(1, len(base) - 1)])]
    extra = rand_set(rng, 2, (4, 6), ccs=["FR", "US"], spans4=False)
    new += [x for x in extra if x.key() not in {m.key() for m in new}]
    asns = [1, 2, 65536, 2**32 - 1]
    return (old, [(a, "Old %d" % a) for a in asns[:3]], [("DE", "EU", "Old DE"), ("FR", "EU", "Old FR"), ("US", "NA", None)]), \
           (new, [(a, "New %d" % a) for a in asns[1:]], [("DE", "AS", "New DE"), ("GB", "EU", "New GB")]), asns

def build(rng, name, plan, sched):
    s = ConcScn(name)
    old, new, asns = two_contents(rng)
    p, q, r3 = s.path("p"), s.path("q"), s.path("r")
    signed = rng.random() < .1
    s.content(p, 0, *old, signed=signed)
    s.content(q, 1, *new, signed=signed)
    s.dopen(p, 1)
    s.dopen(q, 2)
    s.dopen(p, 11)
    s.dopen(q, 12)
    for i, w in enumerate(plan["walks"], 1):
        opt = {}
        if w["real"] == "search":
            opt = rng.choice([{"cs": "DE,FR"}, {"fl": 1}, {"asns": "100,101,200,201"}, {"fam": 4}, {"fam": 6}])
        if w["real"] == "assearch":
            opt = {"s": rng.choice(["OLD", "new", "5", "", " "])}
        if w["real"] == "flat" and rng.random() < .4:
            opt = {"cs": "DE,FR"}
        s.walk(i, w["real"], w["d"], 10 + w["d"], opt)
    xs = critical(old[0] + new[0], rng, 1, cap=4)
    fops = 0
    cts = ["DE", "FR", "GB"]
    for t in sched:
        if t < 10:
            s.step(t)
        elif t < 20:
            s.look(t - 10, xs, asns, cts, verify=signed)
        else:
            fops += 1
            if fops == 1:
                s.do("f.rename %s %s" % (pct(q), pct(p)), {"e": "f.rename", "p": q, "q": p})
                s.dopen(p, 3)           # a new handle sees the new content
                s.look(3, xs[:2], asns[:2], cts[:1])
            elif fops == 2:
                s.unlink(p)
            else:
                s.write(r3, 0)          # the writer goes on elsewhere
                s.unlink(r3)
    # whoever has reached the end stays there or starts over
    for i in range(1, len(plan["walks"]) + 1):
        for _ in range(rng.choice([0, 2, 8])):
            s.step(i)
    s.look(1, xs, asns, cts)
    s.look(2, xs, asns, cts)
    if fops < 1:
        s.unlink(q)
    if fops < 2:
        s.unlink(p)
    return s

def c18(chk, tier, rng):
    plans = []
    def walk(kind, d, n):
        return {"kind": "as" if kind in ("as", "country", "assearch") else "net", "real": kind, "d": d, "n": n}
    # pairs of all kinds on the same and on different databases
    for a, b in itertools.combinations_with_replacement(KINDS, 2):
        for d in (1, 2):
            plans.append({"walks": [walk(a, 1, 3), walk(b, d, 2)], "looks": [0, 0], "files": 1})
    for a in KINDS:
        plans.append({"walks": [walk(a, 1, 3)], "looks": [1, 1], "files": 2})
        plans.append({"walks": [walk(a, 1, 2), walk(a, 1, 2)], "looks": [1, 1], "files": 0})
    plans.append({"walks": [], "looks": [3, 3], "files": 3})
    plans.append({"walks": [walk("net", 1, 2), walk("flat", 1, 2), walk("bogon", 1, 2)], "looks": [1, 0], "files": 0})
    if tier == "thorough":
        for a, b, c in itertools.combinations(KINDS, 3):
            plans.append({"walks": [walk(a, 1, 2), walk(b, rng.choice([1, 2]), 2), walk(c, 1, 2)], "looks": [0, 0], "files": 0})
        for a, b in itertools.combinations_with_replacement(KINDS, 2):
            plans.append({"walks": [walk(a, 1, 4), walk(b, 1, 4)], "looks": [0, 0], "files": 1})
    sch = schedules(chk, plans, "plans")
    pick = sch if tier == "thorough" and len(sch) < 20000 else rng.sample(sch, min(len(sch), size(tier, 1400, 20000)))
    scns = [build(rng, "s%d" % i, plans[p], h) for i, (p, h) in enumerate(pick)]
    chk.note("schedules", enumerated=len(sch), replayed=len(pick))
    CLS = {"walk", "lookup", "as", "country", "meta", "same", "open", "setup"}
    judge(chk, "schedules", scns, CLS)
    # long interleavings of many walks over larger databases
    scns = []
    for i in range(size(tier, 16, 150)):
        s = ConcScn("long%d" % i)
        conts = []
        for k in range(3):
            nets = rand_set(rng, rng.choice([10, 40, 90]), nattr=8, spans4=False) if i % 4 else rng.choice(tree_shapes(rng, tier))[1]
            ases = [(a, "AS name %d/%d" % (a, k)) for a in rng.sample(range(1, 99999), 12)]
            cts = [(c, "EU", "%s %d" % (c, k)) for c in rng.sample(["DE", "FR", "US", "GB", "AA", "ZZ"], 4)]
            s.content(s.path(str(k)), k, nets, ases, cts)
            s.dopen(s.path(str(k)), k + 1)
            s.dopen(s.path(str(k)), k + 11)
            conts.append((nets, ases, cts))
        m = rng.randint(4, 9)
        for j in range(1, m + 1):
            d = rng.randint(1, 3)
            kind = rng.choice(KINDS)
            opt = {"cs": "DE,FR,US"} if kind == "search" else {"s": rng.choice(["1", "1", "", "name"])} if kind == "assearch" else {}
            s.walk(j, kind, d, d + 10, opt)
        gone = set()
        for _ in range(size(tier, 120, 300)):
            x = rng.random()
            if x < .86:
                s.step(rng.randint(1, m))
            elif x < .96:
                d = rng.randint(1, 3)
                n, a, c = conts[d - 1]
                s.lookups(critical(n, rng, 1, cap=3), d)
                s.asq([rng.choice(a)[0], 1], d)
                s.countryq(rng.choice(["DE", "FR", "US", "GB"]), d)
            elif len(gone) < 3:
                k = rng.choice([k for k in range(3) if k not in gone])
                gone.add(k)
                s.unlink(s.path(str(k)))
        for k in range(3):
            if k not in gone:
                s.unlink(s.path(str(k)))
        scns.append(s)
    judge(chk, "long interleavings", scns, CLS)
