"""C15: the Python, Lua and Perl bindings, driven with the C driver's commands and judged by the same specifications."""
import os, random, shutil, tempfile
from common import *
from nets import *
from p_db import size, DataScn, filters, BAD_ADDR, BADCODES, ALLCODES, CONTS, NUMBERS, NAMES, chars, ckey, spellings
from p_obj import ObjScn, ch, mutate, leading_zero_prefix
import p_sign

class BindScn(DataScn):
    """files at absolute paths, so that two processes can share them"""
    def __init__(self, name, d, lang):
        super().__init__(name)
        self.dir, self.lang = d, lang

    def path(self, tag="db"):
        return os.path.join(self.dir, "f_%s_%s" % (self.name, tag))

    def countryq(self, code, d=0, valid=True):
        def make(rs):
            c, r = dict(rs[0]["country"]), rs[0]["r"]
            if "none" not in c:
                c["k"] = ckey(c["code"] + "\0\0")
            elif not valid and self.lang in ("lua", "perl") and r == "ok":
                r = "err"           # these say nil for codes that cannot be as well
            return [{"e": "d.country", "d": d, "code": code if valid else "", "valid": valid, "r": r, "country": c}]
        self.group(["d.country %d %s" % (d, pct(code))], make)

    def metaq(self, d=0):
        def make(rs):
            r = rs[0]
            return [{"e": "d.meta", "d": d, "vendor": r["vendor"], "description": r["description"],
                     "license": r["license"], "count": r.get("count", -1),
                     "fresh": "created" not in r or abs(int(r["created"]) - time.time()) < 7200}]
        self.group(["d.meta %d" % d], make)

    def codes(self, d=0):
        self.group(["d.codes %d" % d], lambda rs: [{"e": "d.codes", "d": d, "r": rs[0]["r"],
                   "codes": [{"code": c, "k": ckey(c + "\0\0")} for c in rs[0]["codes"]]}])

    def wsigned(self, ks, w=0):
        K = p_sign.keys()
        pr = [K[k][0] for k in ks] + [None, None]
        self.do("w.new %d %s %s" % (w, pct(pr[0]), pct(pr[1])), {"e": "w.new", "w": w, "keys": list(ks)})

    def verify(self, k, d=0):
        self.do("d.verify %d %s" % (d, pct(p_sign.keys()[k][1])), {"e": "d.verify", "d": d, "key": k})

    def calls(self, texts, refused=True):
        self.group(["x.call %s" % pct(t) for t in texts],
                   lambda rs: [{"e": "refused" if refused else "calls", "qs": [r["r"] for r in rs]}])

    def astrings(self, rng, xs, kind="d.lookups", d=0):
        """lookups by text only"""
        qs = [(addrstr(x), True, x) for x in xs]
        for x in rng.sample(xs, min(4, len(xs))):
            qs += [(t, True, x) for t in spellings(rng, x)]
        qs += [(b, False, 0) for b in rng.sample(BAD_ADDR, 6)]
        rng.shuffle(qs)
        self.lookups([], d, kind, strings=qs)

UNAMES = [n for n in NAMES if n != "\x7f\x80\xff"]
def name(rng):
    k = rng.random()
    if k < .5:
        return rng.choice(UNAMES)
    if k < .6:
        return None
    return "".join(rng.choice("abcdeABCDE XYZ-.0129öß\u65e5\U0001f600") for _ in range(rng.randint(1, 30)))

def content(s, rng, maxnets=14, flags=None):
    """fills writer 0; returns what was added"""
    nets = rand_set(rng, rng.randint(0, maxnets), rng.choice([(4,), (6,), (4, 6), (4, 6)]), nattr=rng.choice([2, 6, 30]))
    if flags is not None:
        nets = [Net(n.v, n.p, n.cc, n.asn, n.fl & flags) for n in nets]
    nums = list(dict.fromkeys(rng.sample(NUMBERS, rng.randint(0, 6)) + [rng.getrandbits(32) for _ in range(rng.choice([0, 3, 12]))]))
    codes = rng.sample(ALLCODES, rng.choice([0, 1, 3, 12]))
    s.wnets(nets)
    s.ases([(n, name(rng)) for n in nums])
    for c in codes:
        s.country(c, rng.choice(CONTS), name(rng))
    for what in ("vendor", "description", "license"):
        if rng.random() < .7:
            s.setmeta(what, name(rng) or "")
    return nets, nums, codes

ALLCLS = {"lookup", "attrs", "add", "write", "open", "setup", "as", "country", "meta", "enum", "search", "flat", "bogons", "walk",
          "verify", "refused", "same"}

def scenario(name_, d, lang, rng, own):
    """one database and queries; own: the binding writes it itself"""
    s = BindScn(name_, d, lang)
    ks = rng.choice([[], [], ["A"], ["A", "B"], ["R"]])
    if ks:
        s.wsigned(ks)
    else:
        s.wnew()
    if own:
        for c in rng.sample(BADCODES, 2):
            s.country(c, None, None, valid=False)
        for b in rng.sample(BAD_ADDR, 2):
            s.wnet(Net(0, 0), string=b + "/99", valid=False)
    nets, nums, codes = content(s, rng, flags=15 if lang == "perl" else None)
    if own and nets:
        s.wnet(Net(nets[0].v, nets[0].p, "BB", 5, 0))       # there is one already
    s.wwrite(s.path())
    if not own:
        s.split = len(s.steps)
    s.dopen(s.path())
    xs = critical(nets, rng, 4, cap=30)
    s.astrings(rng, xs, "d.attrs" if lang == "perl" else "d.lookups")
    near_n = [m for n in nums[:5] for m in (n - 1, n + 1) if 0 <= m < 2**32]
    qn = sorted(set(nums + near_n + rng.sample(NUMBERS, 5)))
    s.asq(qn)
    for c in codes + rng.sample(ALLCODES, 3):
        s.countryq(c)
    for c in rng.sample(BADCODES, 2):
        s.countryq(c, valid=False)
    s.metaq()
    for k in ["A", "B", "C", "R", "junk"] if ks else ["A", "junk"]:
        s.verify(k)
    if lang == "perl":
        s.codes()
    if lang in ("lua", "python"):
        s.dnets()
    if lang == "python":
        s.dnets(cls="flat", flat=True)
        for f in filters(rng, nets, 4):
            s.dnets(cls="search", **f)
            if rng.random() < .5:
                s.dnets(cls="flat", flat=True, **f)
        for fam in (0, 4, 6):
            s.dbogons(fam=fam)
        s.listas()
        s.listct()
        for q in ["", "e", name(rng) or "tele", "TELEKOM"]:
            s.listas(s=q, cls="search", rounds=1)
    if lang in ("lua", "python"):
        # walks step by step, also after the handle of the database is gone
        n = len(nets)
        for e in range(2):
            s.do("e.new %d 0 1 0 0 0 - - -" % e, {"e": "nop"})
        got = {0: [], 1: []}
        cmds = []
        order = [rng.randint(0, 1) for _ in range(2 * n + 4)]
        cut = rng.randint(0, len(order))
        for k, e in enumerate(order):
            if k == cut:
                cmds.append("unref d 0")
            cmds.append("e.net %d" % e)
        def make(rs, order=order, cut=cut):
            rs = rs[:cut] + rs[cut + 1:] if cut < len(order) else rs
            ev, q = [], {0: [], 1: []}
            for e, r in zip(order, rs):
                if r["r"] != "ok":
                    ev.append({"e": "refused", "qs": ["ok"]})
                q[e].append(r["net"])
            # both walks give the same beginning
            k = min(len(q[0]), len(q[1]))
            ev.append({"e": "same", "x": q[0][:k], "y": q[1][:k]})
            return ev
        s.group(cmds, make)
    return s

PYBAD = """location.AS(-1)|location.AS(2**32)|location.AS(2**64)|location.AS('x')|location.AS()|location.AS(None)|location.AS(1.5)
location.Country('')|location.Country('XX')|location.Country('D')|location.Country('DEU')|location.Country(5)|location.Country()|location.Country('de')
location.Country('A1')|location.Country('\\u00c4\\u00d6')|location.Country('D\\0')|location.Country(None)
location.Network('x')|location.Network('')|location.Network('1.2.3.4/33')|location.Network('::/129')|location.Network(None)|location.Network()
location.Network('1.2.3.4\\0/8')|location.Network(b'1.2.3.4')|location.Network('1.2.3.4/-1')|location.Network('1.2.3.4/8/8')
location.Database('/nonexistent/file')|location.Database('/')|location.Database('/dev/null')|location.Database()|location.Database(5)|location.Database('')
D.lookup('')|D.lookup('x')|D.lookup('1.2.3')|D.lookup('::g')|D.lookup(None)|D.lookup()|D.lookup(5)|D.lookup('1.2.3.4\\0')|D.lookup('\\ud800')
D.get_as(-1)|D.get_as(2**32)|D.get_as(2**63)|D.get_as('x')|D.get_as()|D.get_as(None)
D.get_country('XX')|D.get_country('')|D.get_country('D')|D.get_country(7)|D.get_country()|D.get_country('DEU')|D.get_country('\\ud800')
D.search_networks(country_codes=['XX'])|D.search_networks(country_codes=['DE','']);|D.search_networks(country_codes='DE')|D.search_networks(country_codes=[5])
D.search_networks(country_codes=[None])|D.search_networks(asns=[-1])|D.search_networks(asns=[2**32])|D.search_networks(asns=['1'])|D.search_networks(asns=5)
D.search_networks(asns=[1,2,None])|D.search_networks(nonsense=1)|D.search_networks(flags='x')|D.search_networks(family='x')
D.search_networks(country_codes=['\\ud800'])|D.search_as(5)|D.search_as()|D.list_bogons(family='x')|D.list_bogons(nonsense=1)
D.verify()|D.verify(None)|D.verify('x')|D.vendor = 'x'|D.created_at = 5
N.country_code = 'XX'|N.country_code = 'D'|N.country_code = 'DEU'|N.country_code = 'A1'|N.country_code = '\\ud800'|N.country_code = 5
N.asn = 0|N.asn = -1|N.asn = 2**32|N.asn = 2**80|N.asn = 'x'|N.asn = None|N.asn = 1.5
N.set_flag('x')|N.set_flag()|N.set_flag(2**40)|N.has_flag()|N.has_flag(None)|N.has_flag(2**40)
N.exclude(5)|N.exclude()|N.exclude('10.0.0.0/8')|N.is_subnet_of('10.0.0.0/8')|N.is_subnet_of()|N.is_subnet_of(None)|N.reverse_pointer(5)
N < 5|N.family = 4|N.first_address = 'x'
C.continent_code = 'E'|C.continent_code = 'EUR'|C.continent_code = 5|C.continent_code = '\\ud800'|C.name = 5|C.name = '\\ud800'|C.code = 'FR'|C < 5
A.name = 5|A.name = '\\ud800'|A.number = 4|A < 5
W.add_network('x')|W.add_network('1.2.3.4/33')|W.add_network()|W.add_network(5)|W.add_as(-1)|W.add_as(2**32)|W.add_as('x')|W.add_as()
W.add_country('XX')|W.add_country('')|W.add_country(5)|W.add_country()|W.vendor = 5|W.vendor = '\\ud800'|W.description = '\\ud800'|W.license = '\\ud800'
W.license = 5|W.write('/nonexistent/x/y')|W.write('/dev/null', 77)|W.write('/dev/null', -1)|W.write()|W.write(5)|W.write('/dev/null', 'x')
location.Writer('x')|location.Writer(1, 2, 3)|location.Writer(open('/dev/null'))|location.Writer(None, open('/etc/passwd'))|location.Writer(open('/dev/null', 'w'))|W.write('/dev/full')|location.country_code_is_valid()|location.country_code_is_valid(5)""".replace("\n", "|").split("|")

LUABAD = """location.Network.new('x')|location.Network.new('')|location.Network.new('1.2.3.4/33')|location.Network.new()|location.Network.new({})
location.Database.open('/nonexistent/file')|location.Database.open('/dev/null')|location.Database.open()|location.Database.open('')|location.Database.open({})
D:lookup('x')|D:lookup('')|D:lookup('1.2.3')|D:lookup()|D:lookup({})|D:get_as('x')|D:get_as()|D:get_as({})|D:get_country()|D:get_country({})
D:verify('/nonexistent/key')|D:verify()|D.lookup()|D.lookup(N, '1.2.3.4')|D.get_as(N, 1)|N.get_asn(D)|N.get_asn()|N.has_flag(N)|N:has_flag('x')
N.reverse_pointer(N, {})|N.subnets()|N.get_family(D)|location.Country.new('XX')|location.Country.new('')|location.Country.new()|location.Country.new('D')
location.Country.new('DEU')|location.Country.new('de')|location.Country.new('A1')|location.AS.new('x')|location.AS.new()|location.AS.new({})
C.get_code(D)|C.get_name()|A.get_name(C)|A.get_number()|D.list_networks()|D.list_networks(N)|D.created_at()|D.get_vendor(N)|D.get_license()|D.get_description(5)
location.Network.new('1.2.3.4/32'):subnets()|location.Network.new('::1/128'):subnets()""".replace("\n", "|").split("|")

PERLBAD = """Location::init('/nonexistent/file')|Location::init('/dev/null')|Location::init('')|Location::init()
Location::lookup_country_code($d, 'x')|Location::lookup_country_code($d, '')|Location::lookup_country_code($d, '1.2.3')|Location::lookup_country_code($d)
Location::lookup_asn($d, 'x')|Location::lookup_asn($d, '1.2.3.4.5')|Location::lookup_asn($d)|Location::lookup_asn('x', '1.2.3.4')
Location::lookup_network_has_flag($d, '1.2.3.4', 'X')|Location::lookup_network_has_flag($d, '1.2.3.4', '')|Location::lookup_network_has_flag($d, 'x', 'LOC_NETWORK_FLAG_DROP')
Location::lookup_network_has_flag($d, '1.2.3.4')|Location::verify($d, '/nonexistent/key')|Location::verify($d)|Location::verify($d, '')
Location::get_vendor('x')|Location::get_vendor(undef)|Location::get_vendor()|Location::get_country_name($d)|Location::get_as_name($d)|Location::database_countries(5)
Location::get_description(5)|Location::get_license('')|Location::get_continent_code($d)|Location::get_as_name(1, 2)
Location::get_vendor([])|Location::lookup_asn({}, '1.2.3.4')|Location::get_vendor(\\1)|Location::database_countries(bless({}, 'Other'))|Location::verify(sub {1}, 'x')""".replace("\n", "|").split("|")

def rstr(rng):
    k = rng.randint(0, 7)
    if k == 0:
        return "".join(rng.choice("abcDEF0129.:/%-sn \u00e9\u65e5") for _ in range(rng.randint(0, 60)))
    if k == 1:
        return mutate(rng, rng.choice(["1.2.3.4", "2001:db8::/32", "::ffff:1.2.3.4", "10.0.0.0/8"]))
    if k == 2:
        return rng.choice(BAD_ADDR + BADCODES)
    if k == 3:
        return "x" * rng.choice([0, 1, 45, 46, 47, 255, 256, 5000, 100000])
    if k == 4:
        return rng.choice(ALLCODES)
    if k == 5:
        return "%s" * rng.randint(1, 20) + "%n"
    return str(rand_set(rng, 1)[0])

def rint(rng):
    return rng.choice([0, 1, 2, 4, 8, 15, -1, 10, 255, 65535, 65536, 2**31 - 1, -2**31, rng.getrandbits(16), rng.getrandbits(31)])

def anycalls(rng, lang, n):
    """right types, any values: may succeed or fail"""
    out = []
    q = (lambda s: repr(s)) if lang == "python" else (lambda s: '"' + "".join(
        c if c.isascii() and c.isalnum() else "".join("\\%03d" % b if lang == "lua" else "\\x%02x" % b for b in c.encode()) for c in s) + '"')
    for _ in range(n):
        s, t, i = q(rstr(rng)), q(rstr(rng)), rint(rng)
        u = rng.choice(NUMBERS + [rng.getrandbits(32)])
        if lang == "python":
            out.append(rng.choice([
                "str(D.lookup(%s))" % s, "repr(D.get_country(%s))" % s, "str(D.get_as(%d))" % u,
                "list(D.search_as(%s))" % s, "str(location.Network(%s))" % s, "repr(location.Country(%s))" % s,
                "N.has_flag(%d)" % i, "n = location.Network('10.0.0.0/8'); n.set_flag(%d); str(n)" % i,
                "N.reverse_pointer(suffix=%s)" % s, "location.Network(%s).reverse_pointer(%s)" % (t, s),
                "[str(n) for n in D.search_networks(flags=%d, family=%d, flatten=%r)]" % (i, rint(rng), rng.random() < .5),
                "[str(n) for n in D.search_networks(country_codes=[%s], asns=[%d])]" % (s, u),
                "[str(n) for n in D.list_bogons(family=%d)]" % rint(rng),
                "location.country_code_is_valid(%s)" % s, "location.AS(%d).name = %s" % (u, s),
                "c = location.Country('DE'); c.continent_code = %s; repr(c)" % s, "c = location.Country('DE'); c.name = %s; repr(c), str(c)" % s,
                "a = location.AS(%d); a.name = %s; repr(a), str(a), a.name" % (u, s),
                "location.Network(%s).exclude(location.Network(%s))" % (s, t), "location.Network(%s) < location.Network(%s)" % (s, t),
                "w = location.Writer(); w.vendor = %s; w.license = %s; w.add_network(%s); w.add_as(%d); w.add_country(%s)" % (s, t, s, u, t),
                "W.write('/dev/null', %d)" % rng.choice([0, 1]), "location.set_log_level(%d)" % rng.choice([0, 3, 3, 6]),
                "D.search_networks(country_codes=[], asns=[]).__next__()", "repr(D), D.vendor, D.description",
                "x = D.networks; y = D.ases; del x; list(y)", "hash(location.Country(%s))" % s,
                "D.__init__('/nonexistent/file')" if False else "bool(D)"]))
        elif lang == "lua":
            out.append(rng.choice([
                "return tostring(D:lookup(%s))" % s, "return D:get_country(%s)" % s, "return tostring(D:get_as(%d))" % u,
                "return tostring(location.Network.new(%s))" % s, "return location.Country.new(%s)" % s,
                "return N:has_flag(%d)" % i, "return N:reverse_pointer(%s)" % s, "return location.Network.new(%s):reverse_pointer(%s)" % (t, s),
                "return location.Network.new(%s):subnets()" % s, "local e = D:list_networks(); D = nil; e(); e(); return e()",
                "return tostring(location.AS.new(%d))" % u, "return location.Country.new(%s) == location.Country.new(%s)" % (s, t),
                "return location.version()", "return D:get_as(%d)" % u, "return D:verify(%s)" % s]))
        else:
            out.append(rng.choice([
                "Location::lookup_country_code($d, %s)" % s, "Location::lookup_asn($d, %s)" % s,
                "Location::lookup_network_has_flag($d, %s, %s)" % (s, t), "Location::get_country_name($d, %s)" % s,
                "Location::get_continent_code($d, %s)" % s, "Location::get_as_name($d, %d)" % u,
                "Location::lookup_network_has_flag($d, %s, \"LOC_NETWORK_FLAG_DROP\")" % s, "my @q = Location::database_countries($d)",
                "Location::verify($d, %s)" % s, "my $x = Location::get_vendor($d) . Location::get_license($d)"]))
    return out

def released(s):
    s.group(["x.release %s" % pct(s.path())], lambda rs: [dict({"e": "released"}, **rs[0])])

def dropped(chk, tier, rng):
    """C14 through the bindings: after everything is dropped the file is not in use any more"""
    d = tempfile.mkdtemp(dir=scratch())
    for lang in ("python", "lua", "perl"):
        bad = {"python": PYBAD, "lua": LUABAD, "perl": PERLBAD}[lang]
        scns = []
        for i in range(size(tier, 40, 400)):
            s = BindScn("%srel%d" % (lang, i), d, lang)
            s.wnew()
            nets, nums, codes = content(s, rng)
            s.wwrite(s.path())
            s.split = len(s.steps)
            s.dopen(s.path())
            cmds = []
            for _ in range(rng.choice([0, 1, 1, 2, 6])):
                k = rng.randrange(7)
                if k == 0:
                    cmds.append("d.lookup 0 %s" % pct(addrstr(rng.choice(critical(nets, rng, 2)))))
                elif k == 1:
                    cmds.append("d.as 0 %d" % rng.choice(nums + [5]))
                elif k == 2:
                    cmds.append("d.country 0 %s" % pct(rng.choice(codes + ["DE", "XX"])))
                elif k == 3:
                    cmds.append("d.verify 0 %s" % pct(p_sign.keys()[rng.choice(["A", "junk"])][1]))
                elif k == 4 and lang != "perl":
                    j = rng.randrange(3)
                    if lang == "python":
                        f = rng.choice(["1 0 0 0 - - -", "1 1 0 0 - - -", "1 0 4 0 - - -", "1 0 0 0 DE,FR - -", "1 0 0 0 - 5,6 -", "1 1 0 3 DE 7 -",
                                        "2 0 0 0 - - -", "2 0 0 0 - - s:a", "3 0 0 0 - - -", "4 0 0 0 - - -", "4 0 6 0 - - -"])
                    else:
                        f = "1 0 0 0 - - -"
                    cmds.append("e.new %d 0 %s" % (j, f))
                    cmds += ["e.%s %d" % ({"2": "as", "3": "country"}.get(f[0], "net"), j)] * rng.choice([0, 1, 3, 40])
                elif k == 5:
                    cmds += ["x.call %s" % pct(c) for c in rng.sample(bad, 3)]
                elif k == 6:
                    cmds += ["x.call %s" % pct(c) for c in anycalls(rng, lang, 3)]
            s.group(cmds, lambda rs: [])
            released(s)
            # and as if nothing had happened
            s.dopen(s.path())
            s.metaq()
            released(s)
            scns.append(s)
        judge(chk, "released by " + lang, scns, {"released", "open", "meta"}, kind=lang)
    shutil.rmtree(d, ignore_errors=True)

def elsewhere(n, d, lang, rng):
    """a file that this library did not write"""
    import p_format
    b, keys = p_format.random_image(rng, name, 15 if lang == "perl" else 0xffff)
    s = BindScn(n, d, lang)
    with open(s.path(), "wb") as f:
        f.write(b)
    ev = {"e": "f.file", "path": s.path(), "f": p_format.pages(b), "keys": list(keys)}
    s.event(lambda rs: [ev])
    nets, nums, codes = p_format.content_of(b)
    s.dopen(s.path())
    s.astrings(rng, critical(nets, rng, 3, cap=25), "d.attrs" if lang == "perl" else "d.lookups")
    s.asq(sorted(set(nums + rng.sample(NUMBERS, 5))))
    for c in codes + rng.sample(ALLCODES, 2):
        s.countryq(c)
    def meta(rs):
        r = rs[0]
        ev = [{"e": "d.meta", "d": 0, "vendor": r["vendor"], "description": r["description"], "license": r["license"],
               "count": r.get("count", -1), "fresh": True}]
        if "created" in r:
            ev.append({"e": "d.created", "d": 0, "t": p_format.limbs(int(r["created"]) & (2**64 - 1))})
        return ev
    s.group(["d.meta 0"], meta)
    for k in ("A", "B", "C", "R"):
        s.verify(k)
    if lang == "perl":
        s.codes()
    else:
        s.dnets()
    if lang == "python":
        s.dnets(flat=True, cls="flat")
        s.dbogons()
        s.listas()
        s.listct()
    return s

def c15(chk, tier, rng):
    d = tempfile.mkdtemp(dir=scratch())
    for lang, n in (("python", size(tier, 110, 1200)), ("lua", size(tier, 70, 800)), ("perl", size(tier, 70, 800))):
        scns = []
        for i in range(n):
            scns.append(scenario("%s%d" % (lang, i), d, lang, rng, lang == "python" and i % 3 == 0))
        # many networks, ASes, countries
        s = BindScn(lang + "large", d, lang)
        s.wnew()
        nets = rand_set(rng, 150, nattr=20)
        if lang == "perl":
            nets = [Net(x.v, x.p, x.cc, x.asn, x.fl & 15) for x in nets]
        s.wnets(nets)
        nums = rng.sample(range(2**32), 600)
        s.ases([(x, "name %d" % x) for x in nums])
        for c in rng.sample(ALLCODES, 200):
            s.country(c, rng.choice(CONTS), "Country " + c)
        s.wwrite(s.path())
        s.split = len(s.steps)
        s.dopen(s.path())
        s.astrings(rng, critical(nets, rng, 10, cap=150), "d.attrs" if lang == "perl" else "d.lookups")
        s.asq(sorted(rng.sample(nums, 60)))
        if lang != "perl":
            s.dnets()
        else:
            s.codes()
        if lang == "python":
            s.listas()
            s.listct()
            for k in (90, 130, 250, 500):
                cs = rng.sample(ALLCODES, k)
                s.dnets(cls="search", cs=cs)
                s.dnets(cls="search", asns=rng.sample(range(2**32), k) + rng.sample(sorted(set(x.asn for x in nets)), 3))
        scns.append(s)
        # calls that have to be refused, and calls with any values
        for i in range(size(tier, 12, 120)):
            s = BindScn("%scalls%d" % (lang, i), d, lang)
            s.wnew()
            content(s, rng)
            s.wwrite(s.path())
            s.split = len(s.steps)
            s.dopen(s.path())
            if lang != "perl":
                s.group(["n.new 0 %s" % pct("10.0.0.0/8"), "a.new 0 77", "c.new 0 %s" % pct("DE")], lambda rs: [])
            if lang == "python":
                s.group(["w.new 0 - -"], lambda rs: [])
            bad = {"python": PYBAD, "lua": LUABAD, "perl": PERLBAD}[lang]
            s.calls(bad if i == 0 else rng.sample(bad, 20))
            s.calls(anycalls(rng, lang, 60), refused=False)
            s.metaq()
            scns.append(s)
        for i in range(size(tier, 25, 300)):
            scns.append(elsewhere("%selse%d" % (lang, i), d, lang, rng))
        judge(chk, lang, scns, ALLCLS | {"format", "created"}, kind=lang)
    # the objects of the Python module
    scns = []
    for t in range(size(tier, 40, 500)):
        s = ObjScn("obj%d" % t)
        nets = rand_set(rng, rng.randint(3, 7), rng.choice([(4,), (6,), (4, 6)]))
        for k, x in enumerate(nets):
            s.net(k, x)
        for i in range(len(nets)):
            s.nget(i)
            s.rp(i, rng.choice([None, "example.com.", "", "x"]), 4 if is4(nets[i].v, nets[i].p) else 6)
            for j in range(len(nets)):
                s.rel(i, j)
                s.exclude(i, j)
        for _ in range(15):
            i, k = rng.randrange(len(nets)), rng.randint(0, 3)
            if k == 0:
                c = rng.choice(BADCODES + rng.sample(ALLCODES, 8))
                valid = not c or (len(c) == 2 and all("A" <= x <= "Z" for x in c) and c[0] != "X")
                s.do("n.setcc %d %s" % (i, pct(c)), {"e": "n.setcc", "i": i, "chars": ch(c), "cc": c if valid else ""})
            elif k == 1:
                a = rng.choice([x for x in NUMBERS if x] + [rng.getrandbits(32) | 1])
                s.do("n.setasn %d %d" % (i, a), {"e": "n.setasn", "i": i, "asn": u32(a)})
            elif k == 2:
                f = rng.choice([0, 1, 2, 4, 8, 3, 15, 16, 0x8000, 0xffff, rng.getrandbits(16)])
                s.do("n.setflag %d %d" % (i, f), {"e": "n.setflag", "i": i, "fl": f})
            else:
                f = rng.choice([0, 1, 2, 4, 8, 3, 6, 12, 15, 16, 0x8000, rng.getrandbits(16)])
                s.do("n.hasflag %d %d" % (i, f), {"e": "n.hasflag", "i": i, "fl": f})
        ns = [rng.choice(NUMBERS + [rng.getrandbits(32)]) for _ in range(4)]
        cs = [rng.choice(ALLCODES) for _ in range(4)]
        for i in range(4):
            s.do("a.new %d %d" % (i, ns[i]), {"e": "a.new", "a": i, "n": u32(ns[i])})
            s.do("c.new %d %s" % (i, pct(cs[i])), {"e": "c.new", "c": i, "chars": ch(cs[i]), "code": cs[i], "k": ckey(cs[i])})
        for _ in range(8):
            i, j = rng.randrange(4), rng.randrange(4)
            s.do("a.cmp %d %d" % (i, j), {"e": "a.cmp", "a": i, "b": j})
            s.do("c.cmp %d %d" % (i, j), {"e": "c.cmp", "c": i, "d": j})
            c = rng.choice(["EU", "AS", "E", "EUR", "XX", "NA", ""])
            def make(rs, i=i, c=c):
                g = rs[0]["country"]
                return [{"e": "c.setcont", "c": i, "chars": ch(c), "cont": c, "r": rs[0]["r"],
                         "got": {"code": g["code"], "cont": g["cont"]}}]
            s.group(["c.setcont %d %s" % (i, pct(c))], make)
        for c in rng.sample(BADCODES + ALLCODES, 12):
            s.do("cc.valid %s" % pct(c), {"e": "cc.valid", "chars": ch(c)})
        bases = ["1.2.3.4", "1.2.3.4/24", "0.0.0.0/0", "::/0", "2001:db8::/32", "1:2:3:4:5:6:7:8/128", "::ffff:10.0.0.0/104"]
        strings = [mutate(rng, rng.choice(bases)) for _ in range(40)] + bases
        s.parses([x for x in strings if not leading_zero_prefix(x)])
        scns.append(s)
    judge(chk, "python objects", scns, {"arith", "parse", "text", "attr"}, module="TraceObj", cfg="TraceObj.cfg", kind="python")
    # the objects of the Lua module
    scns = []
    for t in range(size(tier, 25, 300)):
        s = ObjScn("lobj%d" % t)
        nets = rand_set(rng, 8, rng.choice([(4,), (6,), (4, 6)]), ccs=[""], asns=[0], flags=False)
        for k, x in enumerate(nets):
            s.do("n.new %d %s" % (k, pct(str(x))), {"e": "n.new", "i": k, "chars": ch(str(x)), "cc": "", "asn": [0, 0], "fl": 0})
            s.subnets(k)
            s.rp(k, rng.choice([None, "example.com.", "", "x"]), 4 if is4(x.v, x.p) else 6)
        strings = [mutate(rng, rng.choice(["1.2.3.4/24", "2001:db8::/32", "::ffff:10.0.0.0/104", "1.2.3.4"])) for _ in range(30)]
        s.parses([x for x in strings if not leading_zero_prefix(x)], slot=99)
        for c in rng.sample(BADCODES, 5) + rng.sample(ALLCODES, 3):
            s.do("c.new 0 %s" % pct(c), {"e": "c.new", "c": 0, "chars": ch(c), "code": c, "k": ckey(c + "\0\0")})
        scns.append(s)
    judge(chk, "lua objects", scns, {"arith", "parse", "text", "attr"}, module="TraceObj", cfg="TraceObj.cfg", kind="lua")
    shutil.rmtree(d, ignore_errors=True)
    chk.assumptions += ["the interpreters Python 3.12, Lua 5.4 and Perl 5 of this machine",
                        "Lua numbers and Perl references of the kinds the bindings document"]
