"""C23: version discovery by DNS."""
import calendar, random, struct, time
from common import *
from p_db import size

class DnsScn(Scenario):
    def ask(self, version, reply):
        b = list(reply) if reply is not None else []
        def make(rs):
            r = rs[0]
            t = int(r["t"])
            return [{"e": "dns", "version": str(version), "silent": reply is None, "b": b, "r": r["r"], "q": r["q"],
                     "day": t // 86400, "sec": t % 86400}]
        self.group(["dns %d %s" % (version, "-" if reply is None else (bytes(reply).hex() or "00"))], make)

def stamp(t):
    return time.strftime("%a, %d %b %Y %H:%M:%S GMT", time.gmtime(t)).encode()

def label(s):
    return bytes([len(s)]) + s

def name(*labels):
    return b"".join(label(l) for l in labels) + b"\0"

def ptr(o):
    return struct.pack("!H", 0xc000 | o)

HDR = struct.pack("!HHHHHH", 0x1234, 0x8180, 1, 1, 0, 0)

def rr(nm, type, data, cls=1, ttl=60):
    return nm + struct.pack("!HHIH", type, cls, ttl, len(data)) + data

def question(version=1, type=16, cls=1):
    return name(b"_v%d" % version, b"_db", b"location", b"ipfire", b"org") + struct.pack("!HH", type, cls)

def txt(text):
    return label(text)

def pad_label(rng, n):
    return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789-") for _ in range(n))

def longname(rng, n):
    """a name whose text has n characters"""
    ls, left = [], n
    while left > 0:
        k = min(left - 1, rng.randint(20, 63)) if left > 1 else 0
        if k <= 0:
            break
        if left - k - 1 == 1:
            k -= 1
        ls.append(pad_label(rng, k))
        left -= k + 1
    return name(*ls)

def good(rng, text, version=1):
    q = question(version)
    out = HDR + q
    base = 12
    for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
        out += rr(ptr(base) if rng.random() < .7 else name(b"x", b"ipfire", b"org"), 5,
                  rng.choice([name(b"a", b"b"), label(b"cdn") + ptr(base), ptr(base)]))
    nm = rng.choice([ptr(12), question(version)[:-4], b"\0", longname(rng, rng.randint(3, 120))])
    data = txt(text)
    for _ in range(rng.choice([0, 0, 1])):
        data += txt(b"more text")
    out += rr(nm, 16, data)
    for _ in range(rng.choice([0, 0, 1, 2])):
        out += rr(ptr(12), rng.choice([16, 2, 41]), rng.choice([txt(b"other"), b"", name(b"ns")]))
    return out

def filled(rng, text, total=512):
    """a reply of exactly this size with the text at its very end"""
    head = HDR + question()
    tail = rr(ptr(12), 16, txt(text))
    rest = total - len(head) - len(tail)
    mid = rr(ptr(12), 5, b"\0" * (rest - 12)) if rest >= 12 else b""
    return head + mid + tail

BADTEXTS = [b"", b"x", b"2024-01-01", b"0", b"Mon", b"Mon, 01 Jan 2024 00:00:00", b"Mon, 01 Jan 2024 00:00:00 UTC", b"Mon, 01 Jan 2024 00:00:00 GMTx",
            b"Mon, 01 Jan 2024 00:00:00 GMT ", b"Mon, 01 Jan 2024 00:00 GMT", b"Mon 01 Jan 2024 00:00:00 GMT", b"%s%n%s%n%s%n", b"A" * 255,
            b"Mon, 01 Jan 2024 00:00:00 GMT\0", b"\xff" * 29, b"1704067200", b"Mon, 01 Jan 2024 00:00:00 GMT GMT!"]

def c23(chk, tier, rng):
    r = tlc("MC_Dns", "MC_Dns.cfg", workers=1)
    if r.code:
        raise ToolError("MC_Dns:\n" + r.out[-2000:])
    chk.model("MC_Dns", r)
    T = [0, 1, 86399, 86400, 951782400, 951868799, 951868800, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 4107542400, 1709164800, 1709251199,
         1709251200, 1735689599, 1735689600]
    scns = []
    versions = [1, 1, 1, 2, 0, 65535, 2**32 - 1]
    def scn():
        s = DnsScn("d%d" % len(scns))
        scns.append(s)
        return s
    # good replies
    for i in range(size(tier, 60, 1500)):
        s = scn()
        for _ in range(6):
            t = rng.choice(T + [rng.randrange(2**31), rng.randrange(2**31), rng.randrange(2**32)])
            v = rng.choice(versions)
            s.ask(v, good(rng, stamp(t), v))
        s.ask(rng.choice(versions), None)
    # sizes around the limit
    s = scn()
    for total in list(range(500, 520)) + [100, 1000, 4096, 65535]:
        for text in (stamp(1700000000), b"x"):
            s.ask(1, filled(rng, text, total))
    # a record that ends with its name or in the middle of its header, at the end of the reply
    for total in (300, 510, 511, 512):
        for nm in (ptr(12), b"\0", name(b"ipfire")):
            for k in range(0, 13):
                head = HDR + question()
                tail = nm + struct.pack("!HHIH", 16, 1, 60, 30)[:k] + b"\x1d"[:max(0, k - 10)] + b"T" * max(0, k - 11)
                rest = total - len(head) - len(tail)
                s.ask(1, head + rr(ptr(12), 5, b"\0" * (rest - 12)) + tail)
    # the same behind a question only
    for k in range(0, 13):
        tail = ptr(12) + struct.pack("!HHIH", 16, 1, 60, 30)[:k] + b"\x1d"[:max(0, k - 10)] + b"T" * max(0, k - 11)
        s.ask(1, HDR + question() + tail)
        s.ask(1, HDR + question()[:-k] if k else HDR)
    for n in range(0, 256, size(tier, 5, 1)):
        s.ask(1, filled(rng, b"A" * n, 512))
        s.ask(1, filled(rng, b"A" * n, 511))
    # texts
    s = scn()
    for b in BADTEXTS:
        s.ask(1, HDR + question() + rr(ptr(12), 16, txt(b)))
        s.ask(1, HDR + question() + rr(ptr(12), 16, txt(b) + txt(stamp(1700000000))))
    g = stamp(1700000000)
    for i in range(len(g)):
        s.ask(1, HDR + question() + rr(ptr(12), 16, txt(g[:i])))
        s.ask(1, HDR + question() + rr(ptr(12), 16, txt(g[:i] + rng.choice([b"!", b"\0", b"x", b"9", b" "]) + g[i + 1:])))
    # the length byte of the text, the length of the record
    s = scn()
    for k in list(range(0, 40)) + [63, 127, 128, 255]:
        s.ask(1, HDR + question() + rr(ptr(12), 16, bytes([k]) + g))
        s.ask(1, HDR + question() + ptr(12) + struct.pack("!HHIH", 16, 1, 60, k) + txt(g))
    for k in (0x7fff, 0x8000, 0xffff, 256, 512):
        s.ask(1, HDR + question() + ptr(12) + struct.pack("!HHIH", 16, 1, 60, k) + txt(g))
        s.ask(1, HDR + question() + ptr(12) + struct.pack("!HHIH", 5, 1, 60, k) + txt(g))
    # types
    for t in (1, 2, 5, 6, 12, 15, 16, 28, 41, 255, 0):
        s.ask(1, HDR + question(type=t) + rr(ptr(12), 16, txt(g)))
        s.ask(1, HDR + question() + rr(ptr(12), t, txt(g)))
    # names: pointers that loop, leave the reply, long ones
    s = scn()
    names = [ptr(12), ptr(0), ptr(511), ptr(0x3fff), ptr(len(HDR + question())), ptr(len(HDR + question()) + 2), b"\x40", b"\x80\x01", b"\xbf\xff",
             b"\x3f", b"\xc0", label(b"a") + ptr(12), name(*[b"a"] * 100), name(b"\xff" * 30), name(b".a.b\\"), name(b"\0\0")]
    names += [longname(rng, n) for n in (118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 140, 200, 254)]
    for nm in names:
        s.ask(1, HDR + question() + rr(nm, 16, txt(g)))
        s.ask(1, HDR + nm + struct.pack("!HH", 16, 1) + rr(b"\0", 16, txt(g)))
        s.ask(1, HDR + question() + rr(ptr(12), 5, nm) + rr(nm, 16, txt(g)))
    # every prefix of a reply, and damaged replies
    full = good(random.Random(7), g)
    for part in range(0, len(full), 40):
        s = scn()
        for k in range(part, min(part + 40, len(full))):
            s.ask(1, full[:k])
    for i in range(size(tier, 40, 2000)):
        s = scn()
        for _ in range(25):
            b = bytearray(good(rng, stamp(rng.randrange(2**31))))
            for _ in range(rng.choice([1, 1, 2, 5])):
                k = rng.randrange(4)
                p = rng.randrange(12 if rng.random() < .9 else 0, len(b))
                if k == 0:
                    b[p] = rng.getrandbits(8)
                elif k == 1:
                    b[p] ^= 1 << rng.randrange(8)
                elif k == 2:
                    del b[p:p + rng.randint(1, 9)]
                else:
                    b[p:p] = bytes(rng.choice([0, 0xc0, 0xff, 12, 16]) for _ in range(rng.randint(1, 4)))
                if len(b) < 13:
                    break
            s.ask(1, bytes(b))
        s.ask(1, bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 11, 12, 13, 40, 512]))))
    judge(chk, "replies", scns, set(), module="TraceDns", cfg="TraceDns.cfg")
    # times are the same wherever the machine is
    for tz in ("EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3"):
        scns = []
        for i in range(size(tier, 6, 60)):
            s = scn()
            for _ in range(8):
                s.ask(1, good(rng, stamp(rng.choice(T + [rng.randrange(2**32)]))))
        judge(chk, "replies in the zone " + tz[:4], scns, set(), module="TraceDns", cfg="TraceDns.cfg", env={"TZ": tz})
    chk.assumptions += ["the resolver (res_query) is replaced: it returns the reply or fails", "the C locale"]
