"""C10: signatures."""
import os, re, subprocess
from common import *
from nets import *
from p_db import size

KEYS = {}
def keys():
    """private and public keys: A, B (EC), R (RSA), C (EC, never signs);
    E and X cannot sign what is fed to them piece by piece"""
    if KEYS:
        return KEYS
    d = os.path.join(scratch(), "keys")
    os.makedirs(d)
    for k, args in (("A", ["-algorithm", "EC", "-pkeyopt", "ec_paramgen_curve:P-521"]),
                    ("B", ["-algorithm", "EC", "-pkeyopt", "ec_paramgen_curve:P-256"]),
                    ("C", ["-algorithm", "EC", "-pkeyopt", "ec_paramgen_curve:P-521"]),
                    ("R", ["-algorithm", "RSA", "-pkeyopt", "rsa_keygen_bits:2048"]),
                    ("E", ["-algorithm", "ED25519"]), ("X", ["-algorithm", "X25519"])):
        priv, pub = os.path.join(d, k + ".pem"), os.path.join(d, k + ".pub")
        for cmd in (["openssl", "genpkey"] + args + ["-out", priv], ["openssl", "pkey", "-in", priv, "-pubout", "-out", pub]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise ToolError("openssl: %s" % p.stdout)
        KEYS[k] = (priv, pub)
    for name, text in (("junk", "nonsense"), ("empty", "")):
        f = os.path.join(d, name)
        open(f, "w").write(text)
        KEYS[name] = (None, f)
    return KEYS

S1, S2, L1, L2, MAXSIG = 72, 72 + 2048, 68, 70, 2048
def slot(s):
    return (S1, L1) if s == 1 else (S2, L2)

class SignScn(Scenario):
    def f(self, i):
        return "g_%s_%d" % (self.name, i)
    def write(self, i, wid, k1, k2, rng, nets=3, big=0, license=None):
        """a new writer w writes file i; wid makes its content unique"""
        K = keys()
        priv = lambda k: pct(K[k][0]) if k != "none" else "-"
        cmds = ["w.new %d %s %s" % (i, priv(k1), priv(k2)), "w.meta %d vendor %s" % (i, pct("content %d" % wid))]
        for n in rand_set(rng, nets):
            cmds.append("w.net %d %s %s %d %d -" % (i, pct(str(n)), n.cc or "-", n.asn, n.fl))
        for k in range(big):
            cmds.append("w.as %d %d %s -" % (i, k + 1, pct("".join(rng.choice("abcdefgh") for _ in range(6000)))))
        if license is not None:
            cmds.append("w.meta %d license %s" % (i, pct("l" * license)))
        cmds.append("w.write %d %s 1" % (i, pct(self.f(i))))
        self.group(cmds, lambda rs: [{"e": "write", "i": i, "id": wid, "k1": k1, "k2": k2, "r": rs[-1]["r"]}])
    def rewrite(self, i, wid, k1, k2):
        """the same writer again, with another content"""
        self.group(["w.meta %d vendor %s" % (i, pct("content %d" % wid)), "w.write %d %s 1" % (i, pct(self.f(i)))],
                   lambda rs: [{"e": "write", "i": i, "id": wid, "k1": k1, "k2": k2, "r": rs[-1]["r"]}])
    def ev(self, cmds, e):
        self.group(cmds, lambda rs: [e])
    def flip(self, i, pos, m):
        self.ev(["f.xor %s %d %d" % (pct(self.f(i)), pos, m)], {"e": "flip", "i": i, "pos": pos, "m": m})
    def cut(self, i, n):
        self.ev(["f.cut %s %d" % (pct(self.f(i)), n)], {"e": "cut", "i": i, "n": n})
    def append(self, i, b):
        self.ev(["f.append %s %s" % (pct(self.f(i)), bytes(b).hex())], {"e": "append", "i": i, "bytes": list(b)})
    def copy(self, i, j):
        self.ev(["f.copy %s %s" % (pct(self.f(i)), pct(self.f(j)))], {"e": "copy", "i": i, "j": j})
    def sflip(self, i, s, pos, m, inside):
        self.ev(["f.xor %s %d %d" % (pct(self.f(i)), slot(s)[0] + pos, m)],
                {"e": "sflip", "i": i, "s": s, "pos": pos, "m": m, "inside": inside})
    def scopy(self, i, s, j, t):
        a, b = slot(s), slot(t)
        self.ev(["f.range %s %d %d %s %d" % (pct(self.f(i)), a[0], MAXSIG, pct(self.f(j)), b[0]),
                 "f.range %s %d 2 %s %d" % (pct(self.f(i)), a[1], pct(self.f(j)), b[1])],
                {"e": "scopy", "i": i, "s": s, "j": j, "t": t})
    def sclear(self, i, s):
        a = slot(s)
        self.ev(["f.put %s %d %s" % (pct(self.f(i)), a[0], "00" * MAXSIG), "f.put %s %d 0000" % (pct(self.f(i)), a[1])],
                {"e": "sclear", "i": i, "s": s})
    def sjunk(self, i, s, rng, n=None):
        a = slot(s)
        n = n or rng.choice([1, 64, 72, 139, 256, 2047, 2048])
        self.ev(["f.put %s %d %s" % (pct(self.f(i)), a[0], bytes(rng.getrandbits(8) for _ in range(n)).hex()),
                 "f.put %s %d %04x" % (pct(self.f(i)), a[1], n)], {"e": "sjunk", "i": i, "s": s})
    def slen(self, i, s, kind, rng):
        n = rng.choice([1, 30, 63, 600, 1024, 2047, 2048]) if kind == "other" else rng.choice([2049, 4096, 65535])
        self.ev(["f.put %s %d %04x" % (pct(self.f(i)), slot(s)[1], n)], {"e": "slen", "i": i, "s": s, "len": kind})
    def check(self, i, k):
        self.group(["f.check %s %s" % (pct(self.f(i)), pct(keys()[k][1]))],
                   lambda rs: [{"e": "check", "i": i, "key": k, "opened": rs[0]["opened"], "accepted": rs[0]["accepted"]}])
    def unlink(self, *ids):
        self.group(["f.unlink %s" % pct(self.f(i)) for i in ids], lambda rs: [])

INITS = [("A", "none"), ("none", "A"), ("A", "B"), ("A", "A"), ("none", "none"), ("R", "A")]

def apply_op(s, n, rng, pos):
    if n == 1: s.flip(1, pos[0], 1)
    elif n == 2: s.flip(1, pos[1], 128)
    elif n == 3: s.cut(1, 1)
    elif n == 4: s.append(1, [7])    # not what a file ends with: the model takes no account of a cut that is undone
    elif n == 5: s.sflip(1, 1, 10, 1, True)
    elif n == 6: s.sflip(1, 2, 12, 64, True)
    elif n == 7: s.sflip(1, 1, 1000, 1, False)
    elif n == 8: s.scopy(1, 1, 1, 2)
    elif n == 9: s.scopy(1, 2, 1, 1)
    elif n == 10: s.scopy(2, 1, 1, 1)
    elif n == 11: s.scopy(2, 2, 1, 2)
    elif n == 12: s.sclear(1, 1)
    elif n == 13: s.sclear(1, 2)
    elif n == 14: s.slen(1, 1, "other", rng)
    elif n == 15: s.slen(1, 2, "other", rng)
    elif n == 16: s.sjunk(1, 1, rng)
    elif n == 17: s.sjunk(1, 2, rng)
    elif n == 18: s.slen(1, 2, "huge", rng)

# header bytes whose change leaves the file readable, anything of the body
HEADPOS = list(range(8, 28)) + list(range(4168, 4200))

def c10(chk, tier, rng):
    keys()
    depth = size(tier, 3, 4)
    r = tlc("MC_Sign", "MC_Sign.cfg", env={"SIGN_DEPTH": str(depth)}, workers=1, heap="8g")
    if r.code:
        raise ToolError("MC_Sign:\n" + r.out[-3000:])
    chk.model("MC_Sign", r)
    hists = sorted((int(m.group(1)), [int(x) for x in m.group(2).split(",")]) for m in
                   re.finditer(r'<<"HIST",\s*(\d+),\s*<<([\d,\s]*)>>\s*>>', r.out))
    pick = rng.sample(hists, min(len(hists), size(tier, 1600, 16000)))
    scns = []
    for n, (ini, h) in enumerate(pick):
        s = SignScn("h%d" % n)
        s.write(1, 1, *INITS[ini - 1], rng)
        s.write(2, 2, "A", "B", rng)
        pos = (rng.choice(HEADPOS), rng.randint(4200, 8300))
        for k, op in enumerate(h):
            apply_op(s, op, rng, pos)
            if k == len(h) - 1 or rng.random() < .3:
                for key in ("A", "B") + (("R", "C") if rng.random() < .15 else ()):
                    s.check(1, key)
        s.unlink(1, 2)
        scns.append(s)
    chk.note("histories", enumerated=len(hists), replayed=len(pick))
    judge(chk, "histories of tampering", scns, set(), module="TraceSign", cfg="TraceSign.cfg")
    # all keys in all slots; repeated checks on one handle; writing again; files without a valid key
    scns = []
    n = 0
    for k1 in ("none", "A", "B", "R"):
        for k2 in ("none", "A", "B", "R"):
            s = SignScn("m%d" % n)
            n += 1
            s.write(1, 1, k1, k2, rng, nets=rng.choice([0, 3, 20]))
            for k in ("A", "B", "R", "C"):
                s.check(1, k)
            s.group(["d.open 1 %s" % pct(s.f(1))], lambda rs: [])
            for k in ("A", "B", "A", "C", "A", "R"):
                s.group(["d.verify 1 %s" % pct(keys()[k][1]), "d.lookup 1 s:1.2.3.4"],
                        lambda rs, k=k: [{"e": "again", "i": 1, "key": k, "accepted": rs[0]["r"] == "ok"}])
            for k in ("junk", "empty"):
                s.group(["d.verify 1 %s" % pct(keys()[k][1])], lambda rs: [{"e": "nokey", "accepted": rs[0]["r"] == "ok"}])
            s.group(["unref d 1"], lambda rs: [])
            s.rewrite(1, 3, k1, k2)
            for k in ("A", "B", "R", "C"):
                s.check(1, k)
            s.write(2, 4, "C", "none", rng)
            s.scopy(2, 1, 1, 1)
            for k in ("A", "C"):
                s.check(1, k)
            s.unlink(1, 2)
            scns.append(s)
    # keys that cannot sign: no database without the signature that was asked for passes for written
    for n, (k1, k2) in enumerate([(k, o) for k in ("E", "X") for o in ("none", "A", "R", "E", "X")] +
                                 [(o, k) for k in ("E", "X") for o in ("none", "A", "R")]):
        s = SignScn("u%d" % n)
        s.write(1, 1, k1, k2, rng)
        s.rewrite(1, 2, k1, k2)
        for k in ("C", "E"):
            s.check(1, k)
        s.unlink(1)
        scns.append(s)
    # reading fails somewhere
    for i in range(size(tier, 6, 40)):
        s = SignScn("read%d" % i)
        k1, k2 = rng.choice(INITS[:4])
        s.write(1, 1, k1, k2, rng, big=rng.choice([0, 0, 40]))
        s.group(["d.open 1 %s" % pct(s.f(1))], lambda rs: [])
        for n in (1, 2, 3, 4, 5, 6, 9):
            for k in ("A", "B"):
                s.group(["d.vfail 1 %s %d" % (pct(keys()[k][1]), n)],
                        lambda rs, k=k: [{"e": "vfail", "i": 1, "key": k, "accepted": rs[0]["r"] == "ok", "failed": bool(rs[0]["failed"])}])
            s.group(["d.verify 1 %s" % pct(keys()["A"][1])],
                    lambda rs: [{"e": "again", "i": 1, "key": "A", "accepted": rs[0]["r"] == "ok"}])
        s.group(["unref d 1"], lambda rs: [])
        s.unlink(1)
        scns.append(s)
    # what is no private key does not make a writer
    s = SignScn("nokeys")
    K = keys()
    for n, bad in enumerate([K["junk"][1], K["empty"][1], K["A"][1], "/dev/null"]):
        for k1, k2 in ((bad, None), (None, bad), (K["A"][0], bad), (bad, K["A"][0])):
            s.group(["w.new 7 %s %s" % (pct(k1), pct(k2))], lambda rs: [{"e": "nokey", "accepted": rs[0]["r"] == "ok"}])
    scns.append(s)
    # every single byte, every length
    K = keys()
    def scans(tag, big, k1, k2, key, step, full):
        """one scenario per part of the file, so that they run in parallel"""
        for part in range(16):
            s = SignScn("scan%s-%d" % (tag, part))
            s.write(1, 1, k1, k2, rng, big=big)
            s.check(1, key)
            m = rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
            lo, hi, st = (part, 10**9, 16 * step) if full else (part * 4099 + rng.randint(0, 4098), 10**9, 65551)
            s.group(["f.flipscan %s %s %d %d %d %d" % (pct(s.f(1)), pct(K[key][1]), lo, st, hi, m)],
                    lambda rs: [{"e": "flipscan", "i": 1, "key": key, "accepted": rs[0]["accepted"], "n": rs[0]["n"]}])
            if big:
                # around the ends of the blocks that are read at once, and the end of the file
                for b in (65536, 131072, 196608):
                    for off in (b - 1, b, b + 4199, b + 4200, b + 4201):
                        s.group(["f.flipscan %s %s %d 1 %d %d" % (pct(s.f(1)), pct(K[key][1]), off, off + 1, m)],
                                lambda rs: [{"e": "flipscan", "i": 1, "key": key, "accepted": rs[0]["accepted"], "n": 1}])
            lo = 4000 + part if not big else 60000 + part * 4096 + rng.randint(0, 4000)
            st = size(tier, 16 * 11, 16) if not big else 16 * 4096
            s.group(["f.cutscan %s %s %d %d %d" % (pct(s.f(1)), pct(K[key][1]), lo, st, 10**9)],
                    lambda rs: [{"e": "cutscan", "accepted": rs[0]["accepted"], "full": rs[0]["full"]}])
            s.append(1, [rng.getrandbits(8) for _ in range(rng.choice([1, 2, 4096, 65536]))] if part % 2 else [0])
            s.check(1, key)
            s.unlink(1)
            scns.append(s)
    scans("a", 0, "A", "none", "A", size(tier, 3, 1), True)
    scans("b", 0, "none", "B", "B", size(tier, 1, 1), True)
    scans("big", 60, "B", "A", "B", 1, False)
    # files that end anywhere around the blocks in which the signature takes them in: one byte into
    # the next block, a few bytes, one byte short of it
    for k in size(tier, (1,), (1, 2, 3, 16)):
        for base in (4200, 0):
            for t in (-1, 0, 1, 2, 17, 63, 64, 65, 255, 511, 1000, 4095):
                total = base + 65536 * k + t
                s = SignScn("tail%d-%d-%d" % (k, base, t))
                k1, k2 = rng.choice(INITS[:4])
                s.write(1, 1, k1, k2, rng, nets=0, license=total - 12290 - len("content 1") - 1)
                key = rng.choice([x for x in (k1, k2) if x != "none"])
                for other in ("A", "B", "C"):
                    s.check(1, other)
                m = rng.choice([1, 128, 255])
                for lo, st, hi in ((total - 70, 1, total), (4200 + 65536 * k - 3, 1, 4200 + 65536 * k + 3),
                                   (rng.randint(4200, 30000), 9973, total)):
                    if lo < total:
                        s.group(["f.flipscan %s %s %d %d %d %d" % (pct(s.f(1)), pct(K[key][1]), lo, st, hi, m)],
                                lambda rs, key=key: [{"e": "flipscan", "i": 1, "key": key, "accepted": rs[0]["accepted"], "n": rs[0]["n"]}])
                s.group(["f.cutscan %s %s %d 1 %d" % (pct(s.f(1)), pct(K[key][1]), total - 40, total)],
                        lambda rs: [{"e": "cutscan", "accepted": rs[0]["accepted"], "full": rs[0]["full"]}])
                for n, b in ((1, 0), (1, 7), (63, 0)):
                    s.append(1, [b] * n)
                    s.check(1, key)
                    s.cut(1, n)
                s.unlink(1)
                scns.append(s)
    if tier == "thorough":
        scans("r", 0, "R", "none", "R", 1, True)
        scans("c", 0, "C", "B", "B", 1, True)
    judge(chk, "keys and scans", scns, set(), module="TraceSign", cfg="TraceSign.cfg")
    chk.assumptions.append("the signature scheme itself (OpenSSL) is sound: a changed signature or content is not valid by chance")
