"""C22: failing media and reproducible files."""
import os, random, shutil, tempfile
from common import *
from nets import *
from p_db import size, DataScn, NUMBERS, ALLCODES, CONTS, rand_name
import p_sign

class MediaScn(DataScn):
    def filled(self, rng, keys, big=0, w=0, nets=None, alone=False):
        K = p_sign.keys()
        pr = [K[k][0] for k in keys] + [None, None]
        self.do("w.new %d %s %s" % (w, pct(pr[0]), pct(pr[1])), {"e": "w.new", "w": w, "keys": list(keys)})
        self.keys = list(keys)
        nets = nets or rand_set(rng, big or rng.randint(0, 25), nattr=4)
        self.content = (nets, [(n, rng.choice([rand_name(rng), rand_name(rng), "", None])) for n in rng.sample(NUMBERS, rng.randint(0, 8))],
                        [(c, rng.choice(CONTS), rand_name(rng)) for c in rng.sample(ALLCODES, rng.randint(0, 9))],
                        [(what, rand_name(rng)) for what in ("vendor", "description", "license") if rng.random() < .6])
        if alone:
            self.content = (nets, [], [], [])
        self.fill(w)

    def fill(self, w):
        nets, ases, cts, meta = self.content
        self.wnets(nets, w)
        self.ases(ases, w)
        for c in cts:
            self.country(*c, w=w)
        for m in meta:
            self.setmeta(*m, w=w)

    def reference(self, w=0, keep=None):
        p = keep or self.path("ref")
        self.wwrite(p, w)
        self.ref = [None]
        def make(rs):
            self.ref[0] = [rs[0]["sum"], rs[0]["size"]]
            return []
        self.group(["f.sum %s" % pct(p)], make)
        if not keep:
            self.unlink(p)

    def medium(self, mode, n, w=0, version=1):
        p = self.path("m")
        cmds = ["w.medium %d %s %d %s %d" % (w, pct(p), version, mode, n), "f.sum %s" % pct(p)]
        cmds += ["f.verifies %s %s" % (pct(p), pct(p_sign.keys()[k][1])) for k in self.keys]
        def make(rs):
            return [{"e": "w.medium", "w": w, "r": rs[0]["r"], "failed": bool(rs[0]["failed"]), "mode": mode, "n": n,
                     "sum": [rs[1]["sum"], rs[1]["size"]], "ref": self.ref[0], "verifies": all(r["r"] == "ok" for r in rs[2:])}]
        self.group(cmds, make)

def nested(rng, fixed=False):
    """Halves which can only be merged once the network around them has been merged itself"""
    v = rng.choice([0x07bface1159c << 80, 0x20010db80000 << 80, (0xffff << 32) | 0x0a010400])
    top = 110 + rng.randint(0, 8) if v < 1 << 64 else rng.randint(30, 60)
    A, B = ("DE", 1, 0), ("AT", 2, 16)
    if fixed:
        top, A, B = (118, A, B) if v < 1 << 64 else (46, A, B)
    bit = lambda p: 1 << (128 - p)
    v &= ~(bit(top) - 1)
    nets = [Net(v, top + 1, *B), Net(v + bit(top + 1), top + 1, *B), Net(v, top + 2, *A), Net(v + bit(top + 2), top + 2, *A)]
    if not fixed:
        for _ in range(rng.randint(0, 10)):
            p = rng.randint(top, top + 4)
            nets.append(Net(v + rng.randrange(1 << (p - top)) * bit(p), p, *rng.choice([A, B])))
        seen = {}
        for n in nets:
            seen.setdefault((n.v, n.p), n)
        nets = list(seen.values())
        rng.shuffle(nets)
    return nets

def c22(chk, tier, rng):
    # the writer's protocol on a stream: complete if it says so, and the model can tell
    r = tlc("MC_Write", "MC_Write.cfg")
    if r.code:
        raise ToolError("MC_Write:\n" + r.out[-2000:])
    chk.model("MC_Write", r)
    b = tlc("MC_Write", "MC_WriteBad.cfg")
    if b.code == 0 or "Complete is violated" not in b.out:
        raise ToolError("MC_Write does not notice a careless writer:\n" + b.out[-2000:])
    scns = []
    for i in range(size(tier, 48, 400)):
        s = MediaScn("m%d" % i)
        s.filled(rng, rng.choice([[], ["A"], ["A", "B"], ["R"]]), big=rng.choice([0, 0, 0, 60, 150]))
        s.reference()
        s.medium("none", 0)
        for n in range(1, 14):
            s.medium(("from", "once")[(i + n) % 2] + ("", "n", "", "i", "a", "q", "f")[(i + 3 * n) % 7], n)
        caps = set(rng.sample(range(0, 26000), 6)) | set(rng.sample([0, 1, 7, 8, 9, 4095, 4096, 4097, 4199, 4200, 8191, 8192, 8193,
                   12288, 16383, 16384, 16385, 20479, 20480, 20481, 24576, 24577, 28672], 8)) | {rng.randint(16384, 120000)}
        for n in sorted(caps):
            s.medium("full", n)
        # reading back what has to be signed, seeking
        for n in range(1, 1 + size(tier, 8, 16)):
            for mode in ("rfro", "ronc", "sfro", "sonc"):
                if n > 3 and mode[0] == "r" and tier == "quick":
                    continue
                s.medium(mode + rng.choice(["", "i", "a"]), n)
        s.medium("none", 0)
        scns.append(s)
    judge(chk, "failing media", scns, {"medium", "setup"})
    # the same content in the same order makes the same file
    scns = []
    for i in range(size(tier, 60, 600)):
        s = MediaScn("s%d" % i)
        if i % 3 == 2:
            # networks whose merging makes room for further merging
            s.filled(rng, [], nets=nested(rng) if i > 2 else nested(rng, True))
        else:
            s.filled(rng, rng.choice([[], [], ["A"]]))
        s.reference()
        for w in (1, 2):
            s.wnew(w)
            s.fill(w)
            keys, s.keys = s.keys, []
            s.medium("none", 0, w=w, version=w - 1)
            s.keys = keys
        s.medium("none", 0)
        scns.append(s)
    # what has been read from a file and is written again makes the same file: there is nothing left to optimise
    for i in range(size(tier, 60, 600)):
        s = MediaScn("f%d" % i)
        s.filled(rng, [], nets=nested(rng, i == 0) if i % 2 == 0 else rand_set(rng, rng.randint(1, 30), nattr=rng.choice([2, 2, 3])), alone=True)
        p = s.path("f")
        s.reference(keep=p)
        s.group(["d.open 0 %s" % pct(p)], lambda rs: [])
        s.wnew(1)
        s.group(["w.from 1 0"], lambda rs: [{"e": "nop"} if rs[0]["r"] == "ok" else {"e": "crash"}])
        s.medium("none", 0, w=1)
        s.group(["unref d 0", "f.unlink %s" % pct(p)], lambda rs: [])
        scns.append(s)
    judge(chk, "same files", scns, {"medium", "setup"})
    # Python's writer on a full device
    from p_bind import BindScn
    d = tempfile.mkdtemp(dir=scratch())
    scns = []
    for i in range(size(tier, 6, 40)):
        s = BindScn("p%d" % i, d, "python")
        s.wnew()
        nets = rand_set(rng, [0, 3, 150][i % 3])
        s.wnets(nets)
        s.calls(["W.write('/dev/full')", "W.write('/dev/full', 1)"])
        s.wwrite(s.path())
        scns.append(s)
    judge(chk, "full device", scns, {"refused", "write", "setup"}, kind="python")
    shutil.rmtree(d, ignore_errors=True)
    chk.assumptions += ["glibc's stdio; media report a failed write to the stream"]
