"""C24: what the importer writes; C25: how its data follows its sources; C26: how it reads them."""
import base64, gzip, ipaddress, json, os, random
from common import *
import common
from p_db import size, ALLCODES
import p_sign

V4 = 0xffff << 32
SOURCES = ["AFRINIC", "APNIC", "ARIN", "JPNIC", "LACNIC", "RIPE"]
URLS = {
    "AFRINIC": [("std", "https://ftp.afrinic.net/pub/pub/dbase/afrinic.db.gz")],
    "APNIC": [("in6", "https://ftp.apnic.net/apnic/whois/apnic.db.inet6num.gz"),
              ("in4", "https://ftp.apnic.net/apnic/whois/apnic.db.inetnum.gz"),
              ("aut", "https://ftp.apnic.net/apnic/whois/apnic.db.aut-num.gz"),
              ("org", "https://ftp.apnic.net/apnic/whois/apnic.db.organisation.gz")],
    "ARIN": [("ext", "https://ftp.arin.net/pub/stats/arin/delegated-arin-extended-latest"),
             ("csv", "https://ftp.arin.net/pub/resource_registry_service/asns.csv")],
    "JPNIC": [("std", "https://ftp.nic.ad.jp/jpirr/jpirr.db.gz")],
    "LACNIC": [("std", "https://ftp.lacnic.net/lacnic/dbase/lacnic.db.gz"),
               ("ext", "https://ftp.lacnic.net/pub/stats/lacnic/delegated-lacnic-extended-latest")],
    "RIPE": [("in6", "https://ftp.ripe.net/ripe/dbase/split/ripe.db.inet6num.gz"),
             ("in4", "https://ftp.ripe.net/ripe/dbase/split/ripe.db.inetnum.gz"),
             ("aut", "https://ftp.ripe.net/ripe/dbase/split/ripe.db.aut-num.gz"),
             ("org", "https://ftp.ripe.net/ripe/dbase/split/ripe.db.organisation.gz")],
}
FEEDS = ["AWS-IP-RANGES", "SPAMHAUS-DROP", "SPAMHAUS-DROPV6", "SPAMHAUS-ASNDROP"]
FEEDURL = {
    "AWS-IP-RANGES": "https://ip-ranges.amazonaws.com/ip-ranges.json",
    "SPAMHAUS-DROP": "https://www.spamhaus.org/drop/drop.txt",
    "SPAMHAUS-DROPV6": "https://www.spamhaus.org/drop/dropv6.txt",
    "SPAMHAUS-ASNDROP": "https://www.spamhaus.org/drop/asndrop.json",
}
# each registry's own space, so that no two speak about the same place
SPACE = {"AFRINIC": (41, 0x2c00), "APNIC": (1, 0x2400), "ARIN": (23, 0x2600), "JPNIC": (133, 0x2402),
         "LACNIC": (177, 0x2800), "RIPE": (5, 0x2a00)}
KNOWN = ["DE", "FR", "GB", "US", "JP", "BR", "ZA", "CN", "IE", "AU", "IT"]
ASNS = [1, 3333, 23455, 23457, 64495, 131072, 200000, 2147483647, 2147483648, 4199999999, 65536 * 40 + 7, 15169]
BADASN = [0, 23456, 64496, 64512, 65535, 131071, 4200000000, 4294967295]

b64 = lambda b: base64.b64encode(b).decode()
hx = lambda v: [(v >> (112 - 16 * i)) & 0xffff for i in range(8)]
NF = {"px": -1, "sat": -1, "any": -1, "drop": -1}

def place(n):
    """n: an ipaddress network"""
    v, p = int(n.network_address), n.prefixlen
    return {"a": hx(v | V4), "p": p + 96} if n.version == 4 else {"a": hx(v), "p": p}

def nw(s):
    return ipaddress.ip_network(s)

def blocks(a, b, bits):
    """the blocks of a range, as (first, prefix)"""
    out = []
    while a <= b:
        k = bits if a == 0 else (a & -a).bit_length() - 1
        while k and a + (1 << k) - 1 > b:
            k -= 1
        out.append((a, bits - k))
        a += 1 << k
    return out

class Feedback:
    """what a web server does with a document"""
    OK = "ok"

def respond(rng, doc, how="ok"):
    """a reply with the document; how: ok, or the way in which it fails"""
    if how.startswith("short") and not doc:      # nothing can be missing
        how = "reset"
    if how == "ok":
        r = {"headers": {}}
        body = doc
        if rng.random() < .5:
            body = gzip.compress(doc, mtime=0)
            r["headers"]["Content-Type"] = rng.choice(["application/x-gzip", "application/gzip", "text/plain"])
        elif rng.random() < .5:
            r["headers"]["Content-Type"] = "text/plain"
        if rng.random() < .3:
            r["chunked"] = rng.choice([1000, 7, 65536])
        r["body"] = b64(body)
        return r
    if how.startswith("http"):
        return {"status": int(how[4:]), "body": b64(b"<html>sorry</html>")}
    if how in ("url", "invalid", "timeout", "reset", "disconnect", "unicode"):
        return {"err": how}
    if how == "short":      # the connection ends early
        return {"body": b64(doc), "err": "short", "at": rng.randrange(max(1, len(doc)))}
    if how == "shortchunk":
        n = rng.choice([7, 1000])
        return {"body": b64(doc), "chunked": n, "err": "short", "at": rng.randrange(max(1, len(doc)))}
    z = gzip.compress(doc, mtime=0)
    if how == "cutgz":      # the file itself is cut off
        return {"body": b64(z[:rng.randrange(11, len(z))]), "headers": {"Content-Type": "application/gzip"}}
    if how == "badgz":
        i = rng.randrange(len(z) - 8, len(z))
        return {"body": b64(z[:i] + bytes([z[i] ^ 0x55]) + z[i + 1:])}
    if how == "notgz":
        return {"body": b64(b"<html>" + doc), "headers": {"Content-Type": "application/x-gzip"}}
    raise ToolError(how)
FAILS = ["http500", "http404", "http403", "url", "timeout", "reset", "disconnect", "short", "shortchunk", "cutgz", "badgz", "notgz"]

class ImpScn(Scenario):
    def __init__(self, name, rng):
        super().__init__(name)
        self.rng, self.n = rng, 0

    def cmd(self, c, ev, dump=False):
        def make(rs, ev=ev):
            if rs[0].get("limit"):
                return [{"e": "limit"}]
            e = dict(ev, rc=rs[0]["rc"])
            if dump:
                e["db"] = rs[0].get("db", {"nets": [], "ases": [], "countries": [], "verifies": False,
                                           "meta": {"vendor": "", "desc": "", "lic": ""}})
            return [e]
        self.steps.append(([json.dumps(c)], make))

    # -------------------------------------------------------- countries
    def countries(self, codes, junk=False):
        lines, text = [], []
        for i, c in enumerate(codes):
            c = c if isinstance(c, tuple) else (c, ["EU", "AS", "AF", "NA", "SA", "OC"][i % 6], "Land of %s" % c)
            lines.append({"code": c[0], "cont": c[1], "name": c[2]})
            text.append(self.rng.choice(["%s %s %s", "%s\t%s\t%s", "%s  %s %s "]) % c)
            if junk and self.rng.random() < .3:
                text.append(self.rng.choice(["# comment", "", "XY", "XY EU", "#DE EU wrong"]))
        self.n += 1
        self.cmd({"argv": ["import-countries", "@/countries.txt"], "files": {"countries.txt": b64(("\n".join(text) + "\n").encode())}},
                 {"e": "countries", "lines": lines})

    # ------------------------------------------------------------ whois
    def whois(self, srcs, select=None):
        """srcs: {name: (objs, fails)}: fails is {part number: how}; select: names on the command line"""
        rng, web, ev = self.rng, {}, []
        for name in SOURCES:
            if select and name not in select:
                continue
            objs, fails = srcs.get(name, (None, {}))
            if objs is None:
                ev.append({"name": name, "fail": True, "objs": []})
                continue
            docs = self.documents(name, objs)
            for i, ((kind, url), doc) in enumerate(zip(URLS[name], docs)):
                web[url] = respond(rng, doc, fails.get(i, "ok"))
            order = [o for kind, _ in URLS[name] for o in objs if o.get("k") and kind in o["in"]]
            ev.append({"name": name, "fail": bool(fails),
                       "objs": [{k: v for k, v in o.items() if k not in ("in", "text")} for o in order if not o.get("void")]})
        argv = ["update-whois"] + list(select or [])
        self.cmd({"argv": argv, "web": web}, {"e": "whois", "srcs": ev})

    def documents(self, name, objs):
        out = []
        for kind, _ in URLS[name]:
            t = []
            mine = [o for o in objs if kind in o["in"]]
            if kind == "ext":
                t.append("2|%s|20240101|%d|19840101|20240101|+0000\n" % (name.lower(), len(mine)))
                t.append("%s|*|ipv4|*|%d|summary\n" % (name.lower(), len(mine)))
                t.append("%s|*|asn|*|3|summary\n" % name.lower())
                t += [o["text"] + "\n" for o in mine]
            elif kind == "csv":
                t.append('"Org Handle","Org Name","AS Handle","AS Name","Start AS Number","End AS Number","Registration Date","Status"\n')
                t += [o["text"] + "\n" for o in mine]
            else:
                if self.rng.random() < .5:
                    t.append("# The contents of this file are subject to\n# %s Terms\n\n" % name)
                for o in mine:
                    if self.rng.random() < .1:
                        t.append("% a comment\n")
                    t.append(o["text"] + "\n" * self.rng.choice([1, 1, 1, 2]))
                    t.append("" if o is mine[-1] and self.rng.random() < .5 else "\n")
            out.append(("".join(t)).encode("utf-8", "surrogateescape") if self.rng.random() < .8 else ("".join(t)).encode("latin-1", "replace"))
        return out

    # ---------------------------------------------------- announcements
    def announce(self, routes, how="ok"):
        """routes: [(network, asn, aggregated)]"""
        rng = self.rng
        t, table = ["0001 BIRD 2.0.12 ready.\n"], {}
        fam = None
        evs, agg = [], []
        for n, asn, ag in sorted(routes, key=lambda r: r[0].version):
            if n.version != fam:
                fam = n.version
                if len(t) > 1 and rng.random() < .5:
                    t.append(" \n")
                t.append("1007-Table master%d:\n" % fam)
            pad = " " * rng.choice([1, 8, max(1, 20 - len(str(n)))])
            t.append(" %s%sunicast [%s %s%s] * (100) [%s%s]\n" % (n, pad, rng.choice(["upstream1", "bgp", "AS64500_v4"]),
                     rng.choice(["2024-05-01", "12:00:01.123"]), rng.choice(["", " from 192.0.2.1"]), "" if ag else "AS%d" % asn, rng.choice("ie?")))
            t.append("\tvia 192.0.2.1 on eth0\n" if rng.random() < .3 else "")
            if ag:
                agg.append(({"a": place(n)["a"], "p": place(n)["p"], "n": u32(asn or 0)}, n, asn))
            else:
                evs.append(dict(place(n), n=u32(asn)))
        for e, n, asn in agg:
            if asn is None:
                a = "0001 BIRD 2.0.12 ready.\n8001 Network not found\n"
            else:
                a = ("0001 BIRD 2.0.12 ready.\n1007-Table master%d:\n %s unicast [up 2024] * (100) [i]\n1008-\tType: BGP univ\n"
                     "1012-\tBGP.origin: IGP\n\tBGP.as_path: 64500 3356 %d {%d}\n\tBGP.next_hop: 192.0.2.1\n0000 \n"
                     % (n.version, n, asn, rng.choice([7, 65000])))
                evs.append(e)
            table["show route %s all" % n] = {"pieces": [b64(x) for x in self.pieces(a.encode())]}
        t.append("0000 \n")
        doc = "".join(t).encode()
        if how == "eof":
            doc = doc[:rng.randrange(1, len(doc) - 6)]
        table["show route"] = {"pieces": [b64(x) for x in self.pieces(doc)], "close": how == "eof"}
        self.cmd({"argv": ["update-announcements", "@/bird.ctl" if how != "absent" else "@/nowhere.ctl"],
                  "bird": table if how != "absent" else None},
                 {"e": "announce", "routes": evs, "fail": how != "ok"})

    def pieces(self, data):
        rng = self.rng
        k = rng.choice([1, 1, 2, 5, 9])
        cuts = sorted(rng.randrange(len(data) + 1) for _ in range(k - 1))
        if k > 1 and b"\n" in data and rng.random() < .5:     # between the lines
            nl = [i for i, c in enumerate(data) if c == 10]
            cuts = sorted(rng.choice(nl) + rng.choice([0, 1]) for _ in range(k - 1))
        out, p = [], 0
        for c in cuts + [len(data)]:
            if c > p:
                out.append(data[p:c])
                p = c
        return out

    def age(self, days):
        self.cmd({"age": days}, {"e": "age", "days": days})

    # --------------------------------------------------------- geofeeds
    def geofeeds(self, resp):
        """resp: {url: (how, [(network, cc)])}"""
        rng, web, ev = self.rng, {}, []
        for url, (how, rows) in resp.items():
            t, good = [], []
            for n, cc in rows:
                s = str(n)
                t.append("%s,%s,%s,%s,%s" % (s, rng.choice([cc, cc.lower(), " %s " % cc]), rng.choice(["", cc + "-XX"]), rng.choice(["", "Town"]), ""))
                if rng.random() < .1:
                    t[-1] = t[-1].rstrip(",") + ",,,,,,"
                good.append(dict(place(n), cc=cc))
                if rng.random() < .25:
                    t.append(rng.choice(["# comment", "", "nonsense", "5.1.0.0/40,DE,,,", "5.1.0.0/24,DE", "%s,,,," % n, "%s,X1,,," % n, "%s,DEU,,," % n,
                                         "#%s,ZZ,,," % n, "%s,1 ,,," % n]))
            nl = rng.choice(["\n", "\r\n"])
            doc = (nl.join(t) + rng.choice(["", nl])).encode()
            if rng.random() < .2:
                doc = b"# caf\xe9\xff" + nl.encode() + doc
            if how == "fail":
                how = rng.choice([f for f in FAILS if f != "http404"] + ["invalid", "unicode"])
            web[url] = respond(rng, doc, {"gone": "http404"}.get(how, how))
            ev.append({"url": url, "kind": how if how in ("ok", "gone") else "gone" if how == "http404" else "fail", "rows": good if how == "ok" else []})
        self.cmd({"argv": ["update-geofeeds"], "web": web}, {"e": "geofeeds", "resp": ev})

    # ------------------------------------------------------------ feeds
    def feeds(self, data, select=None):
        """data: {name: (how, rows)}; rows of AWS: (network, region, cc, anycast), of DROP: network, of ASNDROP: asn"""
        rng, web, ev = self.rng, {}, []
        for name in FEEDS:
            if select and name not in select:
                continue
            how, rows = data.get(name, ("http500", []))
            rs, ases = [], []
            if name == "AWS-IP-RANGES":
                v4, v6 = [], []
                for n, region, cc, any_ in rows:
                    (v4 if n.version == 4 else v6).append({"ip_prefix" if n.version == 4 else "ipv6_prefix": str(n), "region": region, "service": "EC2",
                                                           "network_border_group": region})
                rows = [r for r in rows if r[0].version == 6] + [r for r in rows if r[0].version == 4]
                rs = [dict(place(n), cc=cc, fl=dict(NF, any=1 if any_ else 0)) for n, region, cc, any_ in rows if cc or any_]
                if rng.random() < .3:
                    v4.insert(0, rng.choice([{"ip_prefix": rng.choice(["5.7.0.0/33", "nonsense", "5.7.0.1/16", None, ""]), "region": "us-east-1"},
                                             {"region": "us-east-1"}, {"ip_prefix": "5.7.0.0/16"}, {"ip_prefix": "5.7.0.0/16", "region": None}, {}]))
                doc = json.dumps({"syncToken": "1", "prefixes": v4, "ipv6_prefixes": v6}).encode()
            elif name == "SPAMHAUS-ASNDROP":
                t = []
                for a in rows:
                    ases.append(u32(a))
                    t.append(json.dumps({"asn": a, "rir": "ripencc", "domain": "x.org", "cc": "US", "asname": "BAD"}))
                    if rng.random() < .2:
                        t.append(rng.choice(['{"domain":"x"}', "nonsense", '{"asn":0}', "[]", "17", '"x"', '{"asn":"AS5"}', '{"asn":null}', "null", t[-1], "caf\udce9"]))
                t.insert(rng.choice([0, len(t), len(t), rng.randint(0, len(t))]), '{"type":"metadata","timestamp":1,"size":1,"records":1}')
                doc = ("\n".join(t) + "\n").encode("utf-8", "surrogateescape")
            else:
                t = ["; Spamhaus DROP List 2024/05/01 - (c) 2024\n"]
                for n in rows:
                    rs.append(dict(place(n), cc="", fl=dict(NF, drop=1)))
                    t.append("%s ; SBL%d\n" % (n, rng.randrange(10**6)))
                    if rng.random() < .2:
                        t.append(rng.choice(["; comment\n", "5.9.0.0/33 ; SBL1\n", "5.9.0.1/16 ; SBL2\n", "nonsense\n", t[-1], "; caf\udce9\n", "n\udcffnsense\n", "\n", "  \n"]))
                doc = "".join(t).encode("utf-8", "surrogateescape")
            if how == "fail":
                how = rng.choice(FAILS + ["empty"] if "DROP" in name and "ASN" not in name else FAILS)
            if how == "empty":
                web[FEEDURL[name]] = respond(rng, rng.choice([b"", b"; nothing\n"]).replace(b"\n", b""))
            elif name in data:
                web[FEEDURL[name]] = respond(rng, doc, how)
            ev.append({"name": name, "fail": how != "ok", "rows": rs if how == "ok" else [], "ases": ases if how == "ok" else []})
        self.cmd({"argv": ["update-feeds"] + list(select or []), "web": web}, {"e": "feeds", "feeds": ev})

    # -------------------------------------------------------- overrides
    def overrides(self, nets=(), auts=(), geos=(), fail=False, junk=False):
        """nets: (network, cc, flags); auts: (asn, name, cc, flags); geos: (url, https, [networks])"""
        rng = self.rng
        blocks_, en, ea, eg = [], [], [], []
        def flags(fl):
            t = []
            for k, w in (("px", "is-anonymous-proxy"), ("sat", "is-satellite-provider"), ("any", "is-anycast"), ("drop", "drop")):
                v = fl.get(k, -1)
                if v >= 0:
                    t.append("%s:%s%s" % (w, " " * rng.choice([1, 4]), rng.choice(["yes", "1", "Yes"] if v else ["no", "0", "NO"])))
                elif rng.random() < .05:
                    t.append("%s: maybe" % w)
            rng.shuffle(t)
            return t
        for n, cc, fl in nets:
            blocks_.append((0, ["net:     %s" % n, "descr: test"] + (["country: %s" % cc] if cc else []) + flags(fl)))
            en.append(dict(place(n), cc=cc, fl=dict(NF, **fl)))
        for a, name, cc, fl in auts:
            blocks_.append((1, ["aut-num: AS%d" % a] + (["name: %s" % name] if name else []) + (["country: %s" % cc] if cc else []) + flags(fl)))
            ea.append({"n": u32(a), "name": name, "cc": cc, "fl": dict(NF, **fl)})
        for url, https, ns in geos:
            blocks_.append((2, ["geofeed: %s" % url] + ["network: %s" % n for n in ns]))
            if https:
                for n in ns or [nw("::/0"), nw("0.0.0.0/0")]:
                    eg.append(dict(place(n), url=url))
        if junk:
            for b in (["net: 1.2.3.4/40", "country: DE"], ["aut-num: 12345", "name: x"], ["route: 5.5.0.0/16", "x: y"], ["net: nonsense", "country: FR"],
                      ["net: 0.0.0.0/0", "country: FR"], ["net: ::/0", "country: FR"]):
                blocks_.insert(rng.randrange(len(blocks_) + 1), (3, b))
        nf = rng.choice([1, 1, 2, 3])
        parts = [[] for _ in range(nf)]
        # the order of entries is kept over the files
        for i, b in enumerate(blocks_):
            parts[min(nf - 1, i * nf // max(1, len(blocks_)))].append(b[1])
        files = {}
        for i, p in enumerate(parts):
            t = "# overrides\n\n" + "\n\n".join("\n".join(l + (rng.choice(["", "", "", " # why"]) if not l.startswith("geofeed") else "") for l in b) for b in p) + "\n"
            files["o%d.txt" % i] = b64(t.encode())
        argv = ["update-overrides"] + ["@/o%d.txt" % i for i in range(nf)]
        if fail:
            argv.insert(rng.randint(1, len(argv)), "@/absent.txt")
        self.cmd({"argv": argv, "files": files}, {"e": "overrides", "nets": en, "auts": ea, "geos": eg, "fail": fail})

    # ------------------------------------------------------------ write
    def write(self, meta=None, key=None):
        argv = ["write"]
        m = dict({"vendor": "", "desc": "", "lic": ""}, **(meta or {}))
        for k, o in (("vendor", "--vendor"), ("desc", "--description"), ("lic", "--license")):
            if m[k]:
                argv += [o, m[k]]
        c = {"argv": None, "dump": "@/out.db"}
        if key:
            argv += ["--signing-key", key[0]]
            c["pub"] = key[1]
        c["argv"] = argv[:1] + ["@/out.db"] + argv[1:]
        self.cmd(c, {"e": "write", "meta": m}, dump=True)

# ------------------------------------------------------------- objects
def net_obj(rng, first, last, bits, ccs=(), geo="", historic=False, junk=True):
    """a registration of a range"""
    pl = [place(ipaddress.ip_network((a, p))) for a, p in blocks(first, last, bits)] if bits == 32 else \
         [{"a": hx(a), "p": p} for a, p in blocks(first, last, bits)]
    A = ipaddress.IPv4Address if bits == 32 else ipaddress.IPv6Address
    L = []
    if bits == 128:
        L.append("inet6num:       %s/%d" % (A(first), 128 - (last - first + 1).bit_length() + 1))
    else:
        n = last - first + 1
        cidr = n & (n - 1) == 0 and first % n == 0
        form = rng.random()
        if cidr and form < .2:
            L.append("inetnum: %s/%d" % (A(first), 33 - n.bit_length()))
        elif cidr and form < .4 and first & 0xff == 0 and n.bit_length() <= 17:
            # LACNIC's way
            o = str(A(first)).split(".")
            keep = 2 if first & 0xffff == 0 and rng.random() < .5 else 3
            L.append("inetnum: %s/%d" % (".".join(o[:keep]), 33 - n.bit_length()))
        else:
            L.append("inetnum:%s%s%s%s" % (" " * rng.choice([1, 8]), A(first), rng.choice([" - ", "-", " -  "]), A(last)))
    body = ["country:%s%s" % (" " * rng.choice([0, 8]), rng.choice([c, c.lower()])) for c in ccs]
    other = []
    if rng.random() < .6:
        other.append("netname:   " + (rng.choice(["ERX-NETBLOCK", "IANA-NETBLOCK-5", "IANA-NETBLOCK-42", "IANA-NETBLOCK-123", "RIPE-CIDR-BLOCK", "ARIN-CIDR-BLOCK", "AFRINIC-CIDR-BLOCK", "LACNIC-CIDR-BLOCK", "NON-RIPE-NCC-MANAGED-ADDRESS-BLOCK", "STUB-10-0SLASH8"])
                                      if historic else rng.choice(["ACME", "NET-%d" % rng.randrange(99), "MY-ERX-NETBLOCK", "IANA-NETBLOCK", "APNIC-CIDR", "STUB-1"])))
    elif historic:
        other.append("netname: ERX-NETBLOCK")
    if rng.random() < .4:
        other.append("descr: Caf\u00e9 Networks")
    if rng.random() < .2:
        other.append("remarks: Geofeed is not here")
    if geo == PLAIN:        # not taken
        body.append(rng.choice(["geofeed: %s", "remarks: Geofeed %s"]) % geo)
        geo = ""
    elif geo:
        body.append(rng.choice(["geofeed:  %s", "geofeed:%s", "remarks: Geofeed %s", "remarks:   Geofeed   %s", "remarks: Geofeed\t%s"]) % geo)
    elif junk and rng.random() < .1:
        body.append(rng.choice(["geofeed: http://plain.example/feed.csv", "remarks: Geofeed http://plain.example/feed.csv", "geofeed: nonsense"]))
    # the order of attributes is free, but the countries count in order
    for o in other:
        body.insert(rng.randrange(len(body) + 1), o)
    L += body
    if rng.random() < .2:
        L.insert(rng.randint(1, len(L)), "mnt-by: A-MNT # comment")
    return {"k": "net", "places": pl, "ccs": list(ccs), "geo": geo, "void": historic,
            "in": ("std", "in4" if bits == 32 else "in6"), "text": "\n".join(L)}

def aut_obj(rng, asn, org="", descr=""):
    L = ["aut-num:        %s%d" % (rng.choice(["AS", "AS", "as"]), asn), "as-name: X-%d" % asn]
    if descr:
        L += ["descr: " + descr, "descr: second line"]
    if org:
        L.insert(rng.randint(1, len(L)), "org: " + rng.choice([org, org.lower()]))
    return {"k": "aut", "n": u32(asn), "org": org, "descr": descr, "self": "self-%d" % asn, "in": ("std", "aut"), "text": "\n".join(L)}

def org_obj(rng, h, name):
    L = ["organisation:   " + rng.choice([h, h.lower()])] + (["org-name:       " + name] if name else []) + ["org-type: LIR"]
    return {"k": "org", "h": h, "name": name, "in": ("std", "org"), "text": "\n".join(L)}

def ext_obj(rng, reg, cc, first, count_or_prefix, v, status="allocated"):
    if v == 4:
        pl = [place(ipaddress.ip_network((a, p))) for a, p in blocks(first, first + count_or_prefix - 1, 32)]
        t = "%s|%s|ipv4|%s|%d|20200101|%s" % (reg, cc, ipaddress.IPv4Address(first), count_or_prefix, status)
    else:
        pl = [{"a": hx(first), "p": count_or_prefix}]
        t = "%s|%s|ipv6|%s|%d|20200101|%s" % (reg, cc, ipaddress.IPv6Address(first), count_or_prefix, status)
    if rng.random() < .7:
        t += "|f%08x" % rng.getrandbits(32)
    return {"k": "ext", "cc": cc, "places": pl, "void": status not in ("allocated", "assigned") or not cc, "in": ("ext",), "text": t}

def csv_obj(rng, first, last, name, status="Full Registry Services"):
    return {"k": "asn", "ns": [u32(n) for n in range(first, last + 1)], "name": name, "void": status != "Full Registry Services", "in": ("csv",),
            "text": ",".join('"%s"' % x for x in ("ORG-%d" % first, name, "AS%d" % first, "N", first, last, "2000-01-01", status))}

def void(text, where):
    """an object that says nothing"""
    return {"k": "void", "void": True, "in": where, "text": text}

# ---------------------------------------------------------- random data
def rnd_block(rng, src, v=None):
    """a block (first, last, bits) of a registry's space, with many relatives"""
    b4, b6 = SPACE[src]
    if (v or rng.choice([4, 4, 6])) == 4:
        p = rng.choice([16, 16, 18, 20, 22, 23, 24, 24, 25, 28, 32])
        k = rng.choice([0, 0, 1])
        a = b4 << 24 | k << 16 | (rng.choice([0, 0x4000, 0x4100, 0x4180, 0x41ff, 0x8000]) & ~((1 << (32 - p)) - 1) & 0xffff)
        if rng.random() < .3:       # a range that is no block
            n = rng.choice([3, 5, 6, 7, 12, 24, 40]) * rng.choice([1, 16, 64, 256])
            a = b4 << 24 | k << 16 | rng.choice([0, 0x4000, 0x4100, 0x8000, 0x4080])
            return a, a + n - 1, 32
        return a, a + (1 << (32 - p)) - 1, 32
    p = rng.choice([16, 20, 28, 32, 32, 36, 40, 47, 48, 56, 64, 127, 128])
    a = b6 << 112 | rng.choice([0, 0, 1, 0x4000]) << 96 | rng.choice([0, 0, 0x8000]) << 80 | rng.choice([0, 1]) << 64
    a &= ~((1 << (128 - p)) - 1)
    return a, a + (1 << (128 - p)) - 1, 128

def rnd_net(rng, src=None, maxp=None):
    while True:
        a, b, bits = rnd_block(rng, src or rng.choice(SOURCES))
        n = b - a + 1
        if n & (n - 1) or a % n:
            continue
        p = bits + 1 - n.bit_length()
        if bits == 128 and p < 16 or maxp and p > maxp[bits]:
            continue
        return ipaddress.ip_network((a, p)) if bits == 32 else ipaddress.IPv6Network((a, p))

PLAIN = "http://plain.example/feed.csv"
URL = ["https://geo.example.com/feed.csv", "https://example.net/g?x=1&y=2", "https://as3333.example/geofeed"]

def rnd_source(rng, src, tag, nobj=None, geo=True, bad=False, located=False):
    """the objects of one registry"""
    objs = []
    kinds = [k for k, _ in URLS[src]]
    for _ in range(nobj if nobj is not None else rng.randint(2, 7)):
        if "ext" in kinds and ("std" not in kinds or rng.random() < .5):
            while True:
                a, b, bits = rnd_block(rng, src)
                # LACNIC: keep apart from the other format
                if "std" in kinds:
                    a, b = a | 1 << (bits - 9), b | 1 << (bits - 9)
                break
            cc = rng.choice(KNOWN)
            if bits == 32:
                objs.append(ext_obj(rng, src.lower(), cc, a, b - a + 1, 4, rng.choice(["allocated", "allocated", "assigned"])))
            else:
                objs.append(ext_obj(rng, src.lower(), cc, a, 129 - (b - a + 1).bit_length(), 6, rng.choice(["allocated", "assigned"])))
        else:
            a, b, bits = rnd_block(rng, src)
            ccs = rng.choice([[], [rng.choice(KNOWN)], [rng.choice(KNOWN)], [rng.choice(KNOWN)], ["UK"], ["ZZ"], ["QQ", rng.choice(KNOWN)], ["YU", "FR"],
                              [rng.choice(KNOWN), rng.choice(KNOWN)]])
            if (located or src == "LACNIC") and not any(c in KNOWN or c == "UK" for c in ccs):
                ccs = [rng.choice(KNOWN)]
            objs.append(net_obj(rng, a, b, bits, ccs, rng.choice(URL) if geo and rng.random() < .25 else "", historic=rng.random() < .05))
    base = 1000 * (SOURCES.index(src) + 1)
    if "csv" in kinds:
        for i in range(rng.randint(0, 2)):
            f = rng.choice([base + 10 * i, 4199999990 + i, 23454, 2147483646])
            objs.append(csv_obj(rng, f, f + rng.choice([0, 0, 1, 3]), "Org %s %d" % (tag, f), rng.choice(["Full Registry Services"] * 3 + ["Legacy"])))
    else:
        hs = ["ORG-%s%d" % (src[:2], i) for i in range(3)]
        for h in hs:
            if rng.random() < .8:
                objs.append(org_obj(rng, h, "%s of %s" % (h, tag)))
                if rng.random() < .15:
                    objs.append(org_obj(rng, h, "%s renamed" % h))
        for i in range(rng.randint(0, 4)):
            asn = rng.choice([base + i, base + i, base + 5, 2147483648 + base, 131072 + base])
            objs.append(rng.choice([aut_obj(rng, asn, rng.choice(hs)), aut_obj(rng, asn, "", "descr of %s %d" % (tag, asn)), aut_obj(rng, asn, rng.choice(hs), "ignored"),
                                    aut_obj(rng, asn)]))
    rng.shuffle(objs)
    return objs

UNROUTED = ["0.0.0.0/8", "127.0.0.0/8", "10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16", "192.0.0.0/24", "192.0.2.0/24", "198.18.0.0/15", "198.51.100.0/24",
            "203.0.113.0/24", "100.64.0.0/10", "169.254.0.0/16", "192.88.99.0/24", "2002::/16", "224.0.0.0/4", "240.0.0.0/4"]
def edge(rng):
    """a network at the edge of a range that is not announced"""
    u = nw(rng.choice(UNROUTED))
    bits = 32 if u.version == 4 else 128
    p = min(u.prefixlen + rng.choice([0, 1, 2, 3, 4, 8]), 24 if bits == 32 else 48)
    k = 1 << (bits - p)
    a = rng.choice([int(u.network_address), int(u.broadcast_address) - k + 1, int(u.network_address) - k, int(u.broadcast_address) + 1])
    if not 0 <= a < 1 << bits:
        return u
    return ipaddress.ip_network((a, p)) if bits == 32 else ipaddress.IPv6Network((a, p))

def rnd_routes(rng, n):
    out, seen = [], set()
    for _ in range(n):
        net = rnd_net(rng, maxp={32: 28, 128: 56}) if rng.random() < .8 else edge(rng) if rng.random() < .5 else nw(rng.choice(
            ["0.0.0.0/0", "::/0", "10.1.0.0/16", "127.0.0.0/8", "172.16.5.0/24", "192.168.0.0/16", "192.0.2.0/24", "198.18.0.0/15", "198.51.100.0/24", "203.0.113.0/24",
             "100.64.0.0/10", "100.64.3.0/24", "169.254.0.0/16", "192.88.99.0/24", "2002::/16", "224.0.0.0/4", "240.0.0.0/4", "fd00::/8", "fe80::/10", "0.1.0.0/16",
             "192.0.0.0/24", "2002:102::/32", "3fff::/20", "4000::/16", "172.32.0.0/16", "100.128.0.0/16", "223.255.0.0/16", "198.20.0.0/16", "11.0.0.0/8", "2003::/16"]))
        if net in seen:
            continue
        seen.add(net)
        asn = rng.choice(ASNS + [1000, 1001, 2000, 6000]) if rng.random() < .9 else rng.choice(BADASN)
        out.append((net, asn, rng.random() < .15 and asn not in (0,)))
    if rng.random() < .2:
        n = rnd_net(rng, maxp={32: 24, 128: 48})
        if n not in seen:
            out.append((n, None, True))
    return out

def rnd_flags(rng, p=.3):
    return {k: rng.choice([0, 1, 1]) for k in NF if rng.random() < p}

REGIONS = [("af-south-1", "ZA"), ("il-central-1", "IL"), ("ap-northeast-1", "JP"), ("ap-northeast-2", "KR"), ("ap-northeast-3", "JP"), ("ap-east-1", "HK"),
           ("ap-south-1", "IN"), ("ap-south-2", "IN"), ("ap-southeast-1", "SG"), ("ap-southeast-2", "AU"), ("ap-southeast-4", "AU"), ("ap-southeast-5", "MY"),
           ("ca-central-1", "CA"), ("ca-west-1", "CA"), ("eu-central-1", "DE"), ("eu-central-2", "CH"), ("eu-north-1", "SE"), ("eu-west-1", "IE"), ("eu-west-2", "GB"),
           ("eu-west-3", "FR"), ("eu-south-1", "IT"), ("eu-south-2", "ES"), ("me-central-1", "AE"), ("me-south-1", "BH"), ("mx-central-1", "MX"), ("sa-east-1", "BR"),
           ("eusc-de-east-1", "DE"), ("us-east-1", "US"), ("us-west-2", "US"), ("us-gov-west-1", "US"), ("cn-north-1", "CN"), ("cn-northwest-1", "CN"),
           ("GLOBAL", ""), ("mars-1", "")]
def region(rng):
    n, cc = rng.choice(REGIONS)
    return n, cc, int(n == "GLOBAL")

def rnd_feeds(rng, fail=0.):
    aws = []
    for _ in range(rng.randint(0, 4)):
        aws.append((rnd_net(rng),) + region(rng))
    taken = {a[0] for a in aws}
    def drops(v, k):
        out = []
        for _ in range(k):
            n = rnd_net(rng)
            if n.version == v and n not in taken:
                taken.add(n)
                out.append(n)
        if rng.random() < .3:
            out.append(nw("10.0.0.0/8") if v == 4 else nw("fd00::/8"))
        return out
    how = lambda: "fail" if rng.random() < fail else "ok"
    d4, d6 = drops(4, 4), drops(6, 4)
    return {"AWS-IP-RANGES": (how(), aws), "SPAMHAUS-DROP": (how() if d4 else "fail", d4), "SPAMHAUS-DROPV6": (how() if d6 else "fail", d6),
            "SPAMHAUS-ASNDROP": (how(), rng.sample(ASNS + BADASN[1:] + [1000, 1001, 6000], 3))}

def rnd_overrides(s, rng, fail=False, geos=True):
    nets = [(rnd_net(rng), rng.choice(["", rng.choice(KNOWN)]), rnd_flags(rng)) for _ in range(rng.randint(0, 5))]
    auts = [(rng.choice(ASNS + [1000, 1001, 2000, 6000]), rng.choice(["", "Renamed"]), rng.choice(["", rng.choice(KNOWN)]), rnd_flags(rng)) for _ in range(rng.randint(0, 3))]
    if nets and rng.random() < .3:
        nets.append((rng.choice(nets)[0], rng.choice(KNOWN), rnd_flags(rng)))
    if auts and rng.random() < .3:
        auts.append((rng.choice(auts)[0], "Again", rng.choice(KNOWN), rnd_flags(rng)))
    gs = []
    if geos and rng.random() < .5:
        gs.append(("https://own.example/geo.csv", True, rng.choice([[], [rnd_net(rng)], [nw("::/0")], [nw("5.0.0.0/8"), rnd_net(rng)]])))
        if rng.random() < .2:
            gs.append(("http://own.example/geo.csv", False, []))
    s.overrides(nets, auts, gs, fail, junk=rng.random() < .4)

def rnd_rows(rng, taken):
    out = []
    for _ in range(rng.randint(0, 6)):
        n = rnd_net(rng)
        if rng.random() < .25:      # larger than what it may speak about
            n = n.supernet(rng.choice([1, 1, 2, 4]))
        if n in taken:
            continue
        taken.add(n)
        out.append((n, rng.choice(KNOWN + ["TV", "UK"])))
    return out

def rnd_geofeeds(s, rng, fail=0.):
    """no two feeds speak about the same place: which of them counts is not defined"""
    taken, resp = s.__dict__.setdefault("taken", {}), {}
    for u in URL + ["https://own.example/geo.csv", PLAIN]:
        k = "fail" if rng.random() < fail else "gone" if rng.random() < fail / 2 else "ok"
        others = set().union(*[v for w, v in taken.items() if w != u]) if taken else set()
        mine = set(others)
        rows = rnd_rows(rng, mine)
        taken[u] = taken.get(u, set()) | (mine - others)
        resp[u] = (k, rows)
    s.geofeeds(resp)

# -------------------------------------------------------------- checks
def imp_judge(chk, label, scns, checked):
    lim = [0, 0]
    def post(o):
        cut = [i for i, e in enumerate(o.events) if e.get("e") == "limit"]
        if cut:
            lim[0] += 1
            o.events = o.events[:cut[0]]
        lim[1] += sum(e["e"] == "write" for e in o.events)
    outs = judge(chk, label, scns, checked, module="TraceImport", cfg="TraceImport.cfg", kind="importer", post=post)
    if lim[0]:
        chk.note(label + ": statements beyond the stand-in for PostgreSQL", scenarios=lim[0])
    if scns and outs and not lim[1]:
        chk.note(label + ": inconclusive, the stand-in for PostgreSQL does not understand this tree's statements", scenarios=len(outs))
    return outs

def layers(rng, k, tag):
    """every layer speaks about an outer or an inner block, or not, in many cells of one database"""
    s = ImpScn("layers-%s" % tag, rng)
    s.countries(KNOWN + ["NL", "CH", "AT"])
    objs, routes, rows, aws, drop4, drop6, nov, aov, adrop = [], [], [], [], [], [], [], [], []
    names = []
    for i in range(k):
        if i % 3 == 2:
            o, n = nw("2a%02x:%x::/32" % (i // 16, 16 * (i % 16))), None
            n = ipaddress.IPv6Network((int(o.network_address) | 0x4000 << 80, 36))
            deep = ipaddress.IPv6Network((int(o.network_address) | 0x4400 << 80, 48))
        else:
            o = ipaddress.IPv4Network((5 << 24 | i << 16, 16))
            n = ipaddress.IPv4Network((5 << 24 | i << 16 | 0x4000, 20))
            deep = ipaddress.IPv4Network((5 << 24 | i << 16 | 0x4100, 24))
        if rng.random() < .5:       # nested one bit at a time
            n = list(o.subnets())[rng.randrange(2)]
            deep = list(n.subnets())[rng.randrange(2)]
        who = lambda p=.5: [x for x in (o, n, deep) if rng.random() < p]
        cc = lambda: rng.choice(KNOWN)
        a1, a2 = 10000 + 2 * i, 10001 + 2 * i
        for x in who(.6):
            routes.append((x, rng.choice([a1, a2]), rng.random() < .05))
        geo = rng.random() < .4
        for x in who(.6):
            objs.append(net_obj(rng, int(x.network_address), int(x.broadcast_address), 32 if x.version == 4 else 128,
                                rng.choice([[], [cc()], [cc()], [cc()]]), URL[0] if geo and rng.random() < .6 else "", junk=False))
        if rng.random() < .4:
            for x in who():
                rows.append((x, cc()))
            x = rng.choice([o, n, deep]).supernet(rng.choice([1, 1, 2]))
            if rng.random() < .3 and x not in {y[0] for y in rows} | {o, n, deep}:
                rows.append((x, cc()))
        for x in who(.25):
            if rng.random() < .6:
                aws.append((x,) + region(rng))
            else:
                (drop4 if x.version == 4 else drop6).append(x)
        for x in who(.25):
            nov.append((x, rng.choice(["", cc()]), rnd_flags(rng)))
        for a in (a1, a2):
            if rng.random() < .2:
                adrop.append(a)
            if rng.random() < .25:
                aov.append((a, rng.choice(["", "override %d" % a]), rng.choice(["", cc()]), rnd_flags(rng)))
            if rng.random() < .4:
                objs.append(aut_obj(rng, a, "", "AS %d" % a))
    rng.shuffle(objs)
    s.whois({"RIPE": (objs, {})}, ["RIPE"])
    steps = [lambda: s.announce(routes), lambda: s.geofeeds({URL[0]: ("ok", rows)}), lambda: s.overrides(nov, aov),
             lambda: s.feeds({"AWS-IP-RANGES": ("ok", aws), "SPAMHAUS-DROP": ("ok" if drop4 else "fail", drop4),
                              "SPAMHAUS-DROPV6": ("ok" if drop6 else "fail", drop6), "SPAMHAUS-ASNDROP": ("ok", adrop)})]
    rng.shuffle(steps)
    for f in steps:
        f()
    s.write()
    return s

def c24(chk, tier, rng):
    lemma(chk, "MC_Import", size(tier, "MC_Import.cfg", "MC_ImportT.cfg"))
    scns = [layers(random.Random(rng.random()), 14, str(i)) for i in range(size(tier, 60, 600))]
    for i in range(size(tier, 60, 600)):
        r = random.Random(rng.random())
        s = ImpScn("all-%d" % i, r)
        s.countries(KNOWN)
        s.whois({x: (rnd_source(r, x, "a", r.randint(1, 4)), {}) for x in SOURCES})
        todo = [lambda: s.announce(rnd_routes(r, 10)), lambda: s.feeds(rnd_feeds(r)), lambda: rnd_overrides(s, r)]
        r.shuffle(todo)
        for f in todo:
            f()
        rnd_geofeeds(s, r)
        s.write({"vendor": r.choice(["", "V"]), "desc": r.choice(["", "D e"]), "lic": r.choice(["", "CC"])}, r.choice([None, p_sign.keys()["A"]]) if i % 10 == 0 else None)
        scns.append(s)
    imp_judge(chk, "databases", scns, {"write", "rc"})

def c25(chk, tier, rng):
    lemma(chk, "MC_Import", size(tier, "MC_ImportHist.cfg", "MC_ImportHistT.cfg"))
    scns = []
    for i in range(size(tier, 90, 900)):
        r = random.Random(rng.random())
        s = ImpScn("hist-%d" % i, r)
        srcs = r.sample(SOURCES, 3)
        if r.random() < .9:
            s.countries(KNOWN)
        fail = r.choice([0, .3, .6])
        for step in range(r.randint(5, 10)):
            k = r.choice(["whois", "whois", "announce", "announce", "geofeeds", "geofeeds", "feeds", "overrides", "age", "age", "countries"])
            if k == "whois":
                up = r.sample(srcs, r.randint(1, 3))
                data = {}
                for x in up:
                    fails = {r.randrange(len(URLS[x])): r.choice(FAILS)} if r.random() < fail else {}
                    data[x] = (rnd_source(r, x, "s%d" % step, r.randint(0, 3)), fails)
                s.whois(data, up)
            elif k == "announce":
                s.announce(rnd_routes(r, r.randint(0, 6)), r.choice(["eof", "absent"]) if r.random() < fail / 2 else "ok")
            elif k == "geofeeds":
                rnd_geofeeds(s, r, fail)
            elif k == "feeds":
                s.feeds(rnd_feeds(r, fail), r.choice([None, None, r.sample(FEEDS, 2)]))
            elif k == "overrides":
                rnd_overrides(s, r, r.random() < fail / 2)
            elif k == "countries":
                s.countries(r.choice([KNOWN, KNOWN, KNOWN + ["TV"]]), junk=True)
            else:
                s.age(r.choice([1, 6, 7, 8, 13, 14, 15]))
                continue
            if r.random() < .7:
                s.write()
        s.write()
        scns.append(s)
    # entries of feeds come and go
    for i in range(size(tier, 24, 240)):
        r = random.Random(rng.random())
        s = ImpScn("feeds-%d" % i, r)
        s.countries(KNOWN)
        nets = [nw("5.%d.0.0/16" % k) for k in range(4)] + [nw("2a00:%d::/32" % k) for k in range(1, 4)]
        asns = [1000, 2000, 131072, 3333]
        s.announce([(n, asns[k % 4], False) for k, n in enumerate(nets)])
        for step in range(r.randint(2, 4)):
            some = lambda v: [list(n.subnets())[r.randrange(2)] for n in nets if n.version == v and r.random() < .5]
            d4, d6 = some(4), some(6)
            how = lambda p=.2: "fail" if r.random() < p else "ok"
            s.feeds({"AWS-IP-RANGES": (how(), [(n,) + region(r) for n in nets if r.random() < .5]), "SPAMHAUS-DROP": (how() if d4 else "fail", d4),
                     "SPAMHAUS-DROPV6": (how() if d6 else "fail", d6), "SPAMHAUS-ASNDROP": (how(), r.sample(asns, r.randint(1, 2)))}, r.choice([None, None, r.sample(FEEDS, 2)]))
            s.write()
        scns.append(s)
    # links to geofeeds come, change and go, with the registry's data and with the overrides
    for i in range(size(tier, 40, 400)):
        r = random.Random(rng.random())
        s = ImpScn("links-%d" % i, r)
        s.countries(KNOWN)
        nets = [nw("5.%d.0.0/16" % k) for k in range(3)] + [nw("2a00:%d::/32" % k) for k in range(1, 3)]
        rows = {u: [(list(n.subnets(new_prefix=n.prefixlen + 2))[j], r.choice(KNOWN)) for n in nets] for j, u in enumerate(URL)}
        for step in range(r.randint(4, 8)):
            k = r.choice(["whois", "whois", "over", "geo", "geo", "age"]) if step else "whois"
            if k == "whois":
                s.whois({"RIPE": ([net_obj(r, int(n.network_address), int(n.broadcast_address), 32 if n.version == 4 else 128, [r.choice(KNOWN)],
                                           r.choice(["", r.choice(URL), URL[0]]), junk=False) for n in nets if r.random() < .8],
                                  {r.randrange(4): r.choice(FAILS)} if r.random() < .15 else {})}, ["RIPE"])
            elif k == "over":
                s.overrides(geos=[(u, True, r.sample(nets, r.randint(1, 3))) for u in r.sample(URL, r.randint(0, 2))], fail=r.random() < .15)
            elif k == "geo":
                s.geofeeds({u: (r.choice(["ok", "ok", "ok", "fail", "gone"]), rows[u]) for u in URL})
            else:
                s.age(r.choice([6, 7, 8, 14]))
                continue
            if r.random() < .8:
                s.write()
        s.write()
        scns.append(s)
    imp_judge(chk, "histories", scns, {"write", "rc"})

BADSTD = {
    "in4": ["inetnum: nonsense\ncountry: DE", "inetnum: 5.0.0.0 - 5.0.0.999\ncountry: DE", "inetnum: 5.0.0.255 - 5.0.0.0\ncountry: DE",
            "inetnum: 5.0.0.0 - 2a00::\ncountry: DE", "inetnum: 5.0.0.0 -\ncountry: FR", "inetnum: 5/8\ncountry: FR", "inetnum:\ncountry: FR",
            "inetnum: 10.0.0.0 - 10.255.255.255\ncountry: DE", "inetnum: 100.64.0.0 - 100.127.255.255\ncountry: DE", "inetnum: 100.65.0.0/16\ncountry: DE",
            "inetnum: 203.0.113.0/24\ncountry: DE", "inetnum: 240.1.0.0/16\ncountry: DE", "inetnum: 127.1.0.0 - 127.1.255.255\ncountry: DE", "inetnum: 0.0.0.0 - 255.255.255.255\ncountry: DE", "inetnum: 192.168.0.0/24\ncountry: DE",
            "inetnum: 4.0.0.0 - 7.255.255.255\ncountry: DE", "inetnum: 5.0.0.0/33\ncountry: DE", "inetnum: 24.152.8\ncountry: DE", "inetnum: 24.152.8/x\ncountry: DE"],
    "in6": ["inet6num: nonsense\ncountry: DE", "inet6num: 2a00::/129\ncountry: DE", "inet6num: 2a00:::/16\ncountry: DE", "inet6num:\ncountry: DE",
            "inet6num: fd00::/8\ncountry: DE", "inet6num: ::/0\ncountry: DE", "inet6num: 2000::/3\ncountry: FR", "inet6num: 2a00::/9\ncountry: FR"],
    "aut": ["aut-num: X12\ndescr: x", "aut-num: ASx\ndescr: x", "as-block: AS1 - AS5\ndescr: x", "aut-num: AS77", "aut-num: AS4294967296\ndescr: x", "aut-num: AS99999999999999999999999\ndescr: x", "aut-num: AS\ndescr: x", "as-set: AS-X\nmembers: AS1"],
    "org": ["organisation: ORG-NONE", "organisation: ORG-NONE\norg-type: LIR", "person: x\nnic-hdl: X1", "role: y"],
}
BADEXT = ["nonsense", "arin|US|ipv4", "arin|US|ipv5|5.0.0.0|256|20200101|allocated", "arin|US|ipv4|23.9.0.0|many|20200101|allocated",
          "arin|US|ipv4|23.9.0|256|20200101|allocated", "arin||ipv4|23.9.0.0|256|20200101|reserved", "arin|US|ipv4|23.9.0.0|256|20200101|available|x",
          "arin|QQ|ipv4|23.9.0.0|256|20200101|allocated", "arin|US|ipv6|2600::|200|20200101|allocated", "arin|US|ipv4|23.9.0.0|0|20200101|allocated",
          "arin|US|ipv4|23.9.0.0|-256|20200101|allocated", "arin|US|asn|1|1|20200101|allocated", "# comment", "", "arin|US|ipv4|23.9.0.0|256|allocated",
          "arin|US|ipv4|10.0.0.0|256|20200101|allocated|x", "arin|US|ipv4|23.9.0.0|256|20200101|reserved|x", "arin|US|ipv4|23.9.0.0|256|20200101|reserved",
          "arin|US|ipv4|23.9.0.0|256|20200101|available", "arin|US|ipv6|2600:9::|32|20200101|reserved|x", "arin|US|ipv4|100.64.0.0|65536|20200101|allocated|x",
          "arin|US|ipv6|2600::|9|20200101|allocated", "arin|US|ipv4|24.0.0.0|67108864|20200101|allocated", "arin|US|ipv4|255.255.255.0|512|20200101|allocated",
          "arin|US|ipv4|23.9.0.caf\udce9|256|20200101|allocated", "\udcff\udcfe"]
BADCSV = ['"O","Name","AS1","N","","","2000-01-01","Full Registry Services"', '"O","Name","AS1","N","x","2","2000-01-01","Full Registry Services"',
          '"O","Name","AS1","N","9","3","2000-01-01","Full Registry Services"', '"O"', '"O","Name","AS1","N","700","70x","2000-01-01","Full Registry Services"',
          '"O","caf\udce9","AS1","N","700","701","2000-01-01","Legacy"', '"O","Name","AS1","N","4294967296","4294967297","2000-01-01","Full Registry Services"']

def c26(chk, tier, rng):
    scns = []
    def base(name, r):
        s = ImpScn(name, r)
        s.countries(KNOWN + r.choice([[], [], ["ZZ", "YU", "UK"]]), junk=True)
        return s
    # every kind of unusable object, alone among good ones
    for src in ("RIPE", "AFRINIC", "LACNIC", "ARIN"):
        kinds = {k for k, _ in URLS[src]}
        bad = []
        for k, ts in BADSTD.items():
            if k in kinds or "std" in kinds:
                bad += [void(t, ("std", k)) for t in ts]
        if "ext" in kinds:
            bad += [void(t.replace("arin", src.lower()), ("ext",)) for t in BADEXT]
        if "csv" in kinds:
            bad += [void(t, ("csv",)) for t in BADCSV]
        for i, b in enumerate(bad):
            r = random.Random(rng.random())
            s = base("bad-%s-%d" % (src, i), r)
            objs = rnd_source(r, src, "b", r.randint(2, 4), geo=False)
            objs.insert(r.randint(0, len(objs)), b)
            s.whois({src: (objs, {})}, [src])
            s.write()
            scns.append(s)
    # the largest blocks that are taken, and ranges of which only some blocks are
    for i in range(size(tier, 24, 120)):
        r = random.Random(rng.random())
        src = ["RIPE", "AFRINIC", "ARIN", "LACNIC"][i % 4]
        s = base("wide-%s-%d" % (src, i), r)
        objs = rnd_source(r, src, "w", r.randint(0, 2), geo=False)
        ip = lambda t: int(ipaddress.ip_address(t))
        v6 = lambda t: (int(nw(t).network_address), int(nw(t).broadcast_address), 128)
        for a, b, bits in r.sample([(ip("2.0.0.0"), ip("3.255.255.255"), 32), (ip("60.0.0.0"), ip("60.255.255.255"), 32), v6("2a00::/10"), v6("2a40::/11"), v6("2c00::/12"),
                                    (ip("10.255.255.0"), ip("11.0.1.255"), 32), (ip("9.255.0.0"), ip("10.0.255.255"), 32), (ip("100.127.0.0"), ip("100.128.255.255"), 32),
                                    (ip("126.255.255.0"), ip("127.0.0.255"), 32), (ip("172.31.255.0"), ip("172.32.0.255"), 32), (ip("203.0.112.0"), ip("203.0.114.255"), 32)], 4):
            if src == "ARIN" or src == "LACNIC" and r.random() < .5:
                objs.append(ext_obj(r, src.lower(), r.choice(KNOWN), a, b - a + 1 if bits == 32 else 129 - (b - a + 1).bit_length(), 4 if bits == 32 else 6))
            else:
                objs.append(net_obj(r, a, b, bits, [r.choice(KNOWN)]))
        s.whois({src: (objs, {})}, [src])
        s.write()
        scns.append(s)
    # names of records that describe space which the registry does not manage, the spellings of links, and links that are not followed
    for i in range(size(tier, 30, 150)):
        r = random.Random(rng.random())
        s = base("names-%d" % i, r)
        objs = []
        for k in range(8):
            a, b, bits = 5 << 24 | k << 16, 5 << 24 | k << 16 | 0xffff, 32
            objs.append(net_obj(r, a, b, bits, [r.choice(KNOWN + ["UK"])], r.choice(["", URL[0], URL[1], PLAIN]), historic=r.random() < .4))
        s.whois({"RIPE": (objs, {})}, ["RIPE"])
        rows = lambda j: [(nw("5.%d.%d.0/20" % (k, 16 * j)), r.choice(KNOWN)) for k in range(8)]
        s.geofeeds({URL[0]: ("ok", rows(0)), URL[1]: ("ok", rows(1)), PLAIN: ("ok", rows(2))})
        s.write()
        scns.append(s)
    # ranges and spellings
    for i in range(size(tier, 60, 600)):
        r = random.Random(rng.random())
        s = base("read-%d" % i, r)
        src = r.choice(SOURCES)
        objs = rnd_source(r, src, "r", r.randint(4, 9))
        bad = [void(r.choice(ts), ("std", k)) for k, ts in BADSTD.items()] if "ext" not in {k for k, _ in URLS[src]} or src == "LACNIC" else []
        for b in r.sample(bad, min(len(bad), r.randint(0, 2))):
            objs.insert(r.randint(0, len(objs)), b)
        s.whois({src: (objs, {})}, [src])
        s.write()
        scns.append(s)
    # every kind of unusable geofeed next to usable ones, routes in pieces, aggregated routes
    for i, how in enumerate(FAILS + ["invalid", "unicode"]):
        for j in range(size(tier, 2, 8)):
            r = random.Random(rng.random())
            s = base("geo-%s-%d" % (how, j), r)
            nets = [nw("5.%d.0.0/16" % k) for k in range(3)]
            s.whois({"RIPE": ([net_obj(r, int(n.network_address), int(n.broadcast_address), 32, ["DE"], URL[k], junk=False) for k, n in enumerate(nets)], {})}, ["RIPE"])
            rows = lambda c: {URL[k]: ("ok", [(x, c) for x in n.subnets(new_prefix=18)]) for k, n in enumerate(nets)}
            if r.random() < .7:
                s.geofeeds(rows("FR"))
                s.write()
                s.age(r.choice([7, 8, 14]))
            g = rows("IT")
            for u in r.sample(URL, r.choice([1, 1, 2])):
                g[u] = (how, g[u][1])
            s.geofeeds(g)
            s.write()
            scns.append(s)
    # feeds with all regions and all kinds of unusable lines
    for i in range(size(tier, 30, 300)):
        r = random.Random(rng.random())
        s = base("feeds-%d" % i, r)
        nets = [nw("5.%d.0.0/16" % k) for k in range(24)] + [nw("2a00:%d::/32" % k) for k in range(1, 13)]
        r.shuffle(nets)
        regs = r.sample(REGIONS, 12)
        aws = [(n, g[0], g[1], int(g[0] == "GLOBAL")) for n, g in zip(nets, regs)]
        rest = nets[12:]
        asns = r.sample(ASNS + BADASN, 8)
        s.announce([(n, asns[k % 8], False) for k, n in enumerate(r.sample(nets, 20))])
        drops = lambda v: [n for n in rest if n.version == v][:5] or [nw("5.77.0.0/16" if v == 4 else "2a00:77::/32")]
        s.feeds({"AWS-IP-RANGES": ("ok", aws), "SPAMHAUS-DROP": ("ok", drops(4) + [nw("10.1.0.0/16"), nw("5.99.0.0/24")]),
                 "SPAMHAUS-DROPV6": ("ok", drops(6) + [nw("fd00::/16"), nw("2a00:99::/48")]), "SPAMHAUS-ASNDROP": ("ok", r.sample(asns, 5))})
        s.write()
        scns.append(s)
    for i in range(size(tier, 30, 300)):
        r = random.Random(rng.random())
        s = base("routes-%d" % i, r)
        s.announce(rnd_routes(r, r.randint(1, 30)))
        s.write()
        s.announce(rnd_routes(r, r.randint(1, 12)))
        s.write()
        scns.append(s)
    imp_judge(chk, "records", scns, {"write", "rc"})
