"""D01-D04: dual-mode encryption."""
from vlib import *
from gen import *
from c_ecc import TINY, tiny_driver

SPECIAL_INTS = [0, 1, 2, 255, 256, 1 << 64, (1 << 64) - 1, 1 << 128, (1 << 160) - 1, (1 << 168) - 1, 1 << 167, 1 << 239, (1 << 240) - 1, (1 << 240) - 2, (1 << 239) - 1]


def intmsg(r):
    return r.choice(SPECIAL_INTS) if r.randrange(3) == 0 else r.getrandbits(r.choice([8, 16, 40, 64, 100, 128, 168, 200, 239, 240]))


def ptmsg(r):
    k = r.randrange(8)
    if k == 0:
        return "inf"
    if k == 1:
        return "p" + hx(r.choice([1, 2, -1, 3, -2]))
    if k < 4:
        return "p" + hx(r.randrange(SECP_N))
    return "x" + hx(fel(r, SECP_P))


def seeded(c, i=0):
    return {"VRD_SEED": str(c.seed * 1000 + i)}


def later(c, label, what, n, mode="messy", then=()):
    """A long run of one operation, then a program that is looked at closely."""
    out = ["start fresh", "new 1 " + mode, "many %s %d 1" % (what, n)] + list(then)
    c.trace(label, driver("dme"), "\n".join(out) + "\n", "Trace_Dme", tenv={"CURVE": "secp"}, env=seeded(c, 40), timeout=600, tlc_timeout=800)


def late(c, label, text, n, short=15):
    """A program after much use that nobody looked at."""
    r = c.rand("late" + label)
    lines = text.rstrip("\n").split("\n")
    at = next(k for k, x in enumerate(lines) if x.split()[0] in ("new", "anycrs", "importraw")) + 1
    out = earlier(r, lines, at, "churn 1 %d" % n, "churn 1 %d" % short)
    c.trace(label, driver("dme"), "\n".join(out) + "\n", "Trace_Dme", tenv={"CURVE": "secp"}, env=seeded(c, 41), timeout=600, tlc_timeout=800)


class Prog:
    """Builds a script while following which key opens what."""
    def __init__(self, r, fresh=True):
        self.r, self.out = r, ["start" + (" fresh" if fresh else "")]
        self.nk = self.nc = 0
        self.inst = {}          # instance -> group of instances sharing a reference string
        self.mode = {}
        self.keys = []          # (number, group, branch)
        self.cts = []           # (number, key entry, int?)

    def new(self, i, mode):
        self.out.append("anycrs %d" % i if mode == "any" else "new %d %s" % (i, mode))
        self.inst[i], self.mode[i] = (len(self.out), mode)

    def share(self, i, j, how):
        self.out.append("%s %d %d" % (how, i, j))
        self.inst[i] = self.inst[j]
        self.mode[i] = self.mode[j] if how != "import" else "any"

    def same(self, i):
        return self.r.choice([j for j in self.inst if self.inst[j] == self.inst[i]])

    def keygen(self, i, b):
        self.out.append("keygen %d %d" % (i, b))
        self.nk += 1
        self.keys.append((self.nk, self.inst[i], b, i))
        return self.keys[-1]

    def trap(self, i):
        self.out.append("trap %d" % i)
        self.keys += [(self.nk + 1, self.inst[i], 0, i), (self.nk + 2, self.inst[i], 1, i)]
        self.nk += 2

    def enc(self, k, b, m, i=None):
        self.out.append("enc %d %d %d %s" % (self.same(k[3]) if i is None else i, k[0], b, m))
        self.nc += 1
        self.cts.append((self.nc, k, b, m[0] == "i" and m != "inf"))
        return self.cts[-1]

    def dec(self, x, k=None):
        k = k or x[1]
        self.out.append("%s %d %d %d" % ("decint" if x[3] and x[2] == k[2] and x[1][1] == k[1] else "dec", self.same(k[3]), k[0], x[0]))

    def text(self):
        return "\n".join(self.out) + "\n"


def roundtrips(r, n, fresh=True):
    p = Prog(r, fresh)
    for i, m in ((1, "messy"), (2, "dec"), (3, "any")):
        p.new(i, m)
    p.share(4, 1, "import"); p.share(5, 2, "import"); p.share(6, 3, "import"); p.share(7, 1, "dup"); p.share(8, 2, "dup")
    if not fresh:
        p.out.append("rng biased %d" % r.randrange(1 << 30))
    for i in (1, 2, 3, 4, 5, 7, 8):
        for b in (0, 1):
            p.keygen(i, b)
    p.trap(2); p.trap(8)
    for _ in range(n):
        w = r.randrange(12)
        if w == 0:
            p.keygen(r.choice(list(p.inst)), r.randrange(2))
        elif w == 1 and r.randrange(4) == 0:
            i, j = r.choice([(9, 1), (9, 2), (9, 3), (10, 2), (10, 1), (9, 4), (9, 10), (10, 9), (9, 9)])
            if j not in p.inst:
                continue
            if i in p.inst:
                p.share(i, j, r.choice(["assign", "dup"]))
            else:
                p.share(i, j, r.choice(["import", "dup"]))
            # keys made by an instance that now means something else stay with their group
            p.keys = [(a, g, b, k if p.inst.get(k) == g else next(q for q in p.inst if p.inst[q] == g)) for a, g, b, k in p.keys if any(p.inst[q] == g for q in p.inst)]
            p.cts = [x for x in p.cts if any(x[1][0] == k[0] for k in p.keys)]
            p.cts = [(a, next(k for k in p.keys if k[0] == x[0]), b, d) for a, x, b, d in p.cts]
        else:
            k = r.choice(p.keys)
            b = k[2] if r.randrange(5) else 1 - k[2]
            x = p.enc(k, b, ("i" + hx(intmsg(r))) if r.randrange(2) else ptmsg(r))
            if r.randrange(3):
                p.dec(x)
            if r.randrange(3) == 0:
                p.dec(r.choice(p.cts))
    for x in r.sample(p.cts, min(len(p.cts), 30)):
        p.dec(x)
    return p.text()


def d01(c):
    exe = driver("dme")

    def special():
        r = c.rand("special")
        p = Prog(r)
        for i, m in ((1, "messy"), (2, "dec"), (3, "any")):
            p.new(i, m)
            for b in (0, 1):
                k = p.keygen(i, b)
                for m2 in ["i" + hx(v) for v in SPECIAL_INTS] + ["inf", "p1", "p-1", "p2", "x0", "x5", "x" + hx(SECP_P - 3)]:
                    p.dec(p.enc(k, b, m2))
        for v in MANY_TRIES[10]:
            k = r.choice(p.keys)
            p.dec(p.enc(k, k[2], "i" + hx(v)))
        p.out += ["coding %d %s" % (1 + v % 3, hx(v)) for v in SPECIAL_INTS + MANY_TRIES[10]]
        p.out += ["coding 1 %s" % hx(intmsg(r)) for _ in range(c.scale(200, 1500))]
        c.trace("special", exe, p.text(), "Trace_Dme", tenv={"CURVE": "secp"}, env=seeded(c))
    def small(cid, n):
        """Small group: every degenerate draw occurs."""
        tiny = tiny_driver(c, "dme")
        if not tiny:
            return
        r = c.rand("small" + cid)
        p = Prog(r, False)
        for rep in range(c.scale(60, 300)):
            i = rep + 1
            p.new(i, ("messy", "dec", "any")[rep % 3])
            p.share(i + 1000, i, r.choice(["import", "dup"]))
            for b in (0, 1):
                k = p.keygen(r.choice([i, i + 1000]), b)
                for _ in range(6):
                    p.dec(p.enc(k, r.choice([b, b, 1 - b]), "p%x" % r.randrange(n)))
        c.trace("small-" + cid, tiny, p.text(), "Trace_Dme", env=dict(seeded(c), TINY=TINY[cid]), tenv={"CURVE": cid, "NUMERALS": "1"}, tlc_timeout=800)
    jobs = [special, lambda: small("c3", 3), lambda: small("c5", 5), lambda: c.model("MC_Dme", env={"CURVE": "c3"}, workers=2)]
    if c.thorough:
        jobs += [lambda: c.model("MC_Dme", env={"CURVE": "c5"}, workers=4, timeout=800, heap="6g")]
    jobs.append(lambda: late(c, "late", roundtrips(c.rand("latert"), c.scale(100, 400)), c.scale(300, 1500)))
    for i in range(c.scale(3, 10)):
        r = c.rand("rt%d" % i)
        fresh = i % 3 != 2
        jobs.append(lambda i=i, r=r, fresh=fresh: c.trace("roundtrips-%d" % i, exe, roundtrips(r, c.scale(250, 900), fresh), "Trace_Dme",
                                                         tenv={"CURVE": "secp"}, env=seeded(c, i), tlc_timeout=800))
    c.parallel(jobs)


def small_crs(r, n, count):
    """Proper and degenerate reference strings of a group of n elements, as four logarithms."""
    out = []
    for _ in range(count):
        g0, g1 = r.randrange(1, n), r.randrange(1, n)
        e0, e1 = r.randrange(n), r.randrange(n)
        k = r.randrange(6)
        if k == 0:
            e1 = e0                              # decryption mode
        if k == 1:
            g0, g1, e0, e1 = (r.randrange(n) for _ in range(4))
        out.append((g0, g1, g0 * e0 % n, g1 * e1 % n))
    return out


def distributions(c, cid, label, body, tlc_timeout=800):
    tiny = tiny_driver(c, "dme")
    if tiny:
        c.trace("%s-%s" % (label, cid), tiny, "\n".join(["start"] + body) + "\n", "Trace_Dme", env=dict(seeded(c), TINY=TINY[cid]),
                tenv={"CURVE": cid}, timeout=400, tlc_timeout=tlc_timeout)


def enc_dists(r, n, count, pks, both=True):
    body = []
    nk = 0
    for q in small_crs(r, n, count):
        body.append("importraw 1 " + " ".join("p%x" % v for v in q))
        for _ in range(pks):
            b = r.randrange(2)
            sk = r.randrange(n)
            pk = r.choice([(q[b] * sk % n, q[2 + b] * sk % n)] * 3 + [(r.randrange(n), r.randrange(n))])
            body.append("rawkey 1 p%x p%x" % pk)
            nk += 1
            for bb in (0, 1):
                for m in r.sample(range(n), 2):
                    body.append("distenc 1 %d %d %s 20000" % (nk, bb, "p%x" % m))
    return body


def d02(c):
    exe = driver("dme")

    def big(i):
        r = c.rand("messy%d" % i)
        p = Prog(r)
        for a in (1, 2, 3):
            p.new(a, "messy")
        p.share(4, 1, "dup")
        p.new(5, "messy"); p.share(5, 2, "assign")
        p.new(6, "dec"); p.share(6, 3, "assign")            # assignments to instances of another kind, and a copy of one
        p.new(7, "any"); p.share(7, 1, "assign"); p.share(8, 6, "dup"); p.share(8, 8, "assign")
        p.share(9, 1, "import"); p.share(9, 1, "assign")    # assignments between instances of one reference string
        p.share(10, 2, "import"); p.share(10, 4, "assign"); p.share(11, 8, "import"); p.share(11, 10, "assign"); p.share(10, 1, "assign")
        for _ in range(c.scale(12, 60)):
            a = r.randrange(1, 12)
            for b in (0, 1):
                k = p.keygen(a, b)
                p.out.append("messy %d %d" % (a, k[0]))
                p.out.append("messy %d %d" % (p.same(a), k[0]))
            for _ in range(3):
                b = r.randrange(2)
                p.out.append("rawkey %d off %d %s %d" % (a, b, hx(r.choice([1, 2, -1, r.randrange(SECP_N)])), r.randrange(6)))
                p.nk += 1
                p.out.append("messy %d %d" % (a, p.nk))
            p.out.append("rawkey %d %s %s" % (a, ptmsg(r), ptmsg(r)))
            p.nk += 1
            p.out.append("messy %d %d" % (a, p.nk))
        for _ in range(c.scale(240, 900)):
            k = r.choice(p.keys)
            p.enc(k, r.randrange(2), r.choice(["inf", "p1", "i5", ptmsg(r)]))
        p.out += ["spread s", "spread t"]
        c.trace("messy-%d" % i, exe, p.text(), "Trace_Dme", tenv={"CURVE": "secp"}, env=seeded(c, i), tlc_timeout=800)

    def setups():
        out = ["start fresh"] + ["new 1 messy"] * 220 + ["spread crs", "spread sk", "spread t"]
        c.trace("setups", exe, "\n".join(out) + "\n", "Trace_Dme", tenv={"CURVE": "secp"}, env=seeded(c, 77), tlc_timeout=800)
    jobs = [lambda i=i: big(i) for i in range(c.scale(1, 4))] + [setups, lambda: c.model("MC_Dme", env={"CURVE": c.scale("c3", "c5")}, workers=3, timeout=800, heap="6g")]
    then = ["keygen 1 0", "keygen 1 1"] + ["messy 1 1", "messy 1 2"] * 5 + ["enc 1 %d %d p7" % (1 + k % 2, k // 2 % 2) for k in range(60)]
    jobs.append(lambda: later(c, "many-enc", "enc", c.scale(2000, 10000), "messy", then))
    jobs.append(lambda: later(c, "many-new", "new", c.scale(300, 2000), "messy", ["new 2 messy", "keygen 2 0", "messy 2 1", "enc 2 1 1 p7"]))
    for cid, n in (("c3", 3), ("c5", 5)):
        jobs.append(lambda cid=cid: distributions(c, cid, "findmessy", ["distmessy 20000"]))
        jobs.append(lambda cid=cid, n=n: distributions(c, cid, "ciphertexts", enc_dists(c.rand("enc" + cid), n, c.scale(25, 150), 3)))
        jobs.append(lambda cid=cid: distributions(c, cid, "messy-strings", ["distcrs messy 20000", "distcrs any 20000"]))
    c.parallel(jobs)


def d03(c):
    exe = driver("dme")

    def big(i):
        r = c.rand("dec%d" % i)
        p = Prog(r)
        for a in (1, 2):
            p.new(a, "dec")
        p.share(3, 1, "dup")
        p.new(4, "dec"); p.share(4, 2, "assign")
        p.share(5, 1, "import")
        p.new(6, "messy"); p.share(6, 2, "assign")          # assignments to instances of another kind, and a copy of one
        p.new(7, "any"); p.share(7, 1, "assign"); p.share(8, 6, "dup"); p.share(8, 8, "assign")
        p.share(9, 1, "import"); p.share(9, 1, "assign")    # assignments between instances of one reference string
        p.share(10, 2, "import"); p.share(10, 4, "assign"); p.share(11, 8, "import"); p.share(11, 10, "assign"); p.share(10, 1, "assign")
        traps = [1, 2, 3, 4, 6, 7, 8, 9, 10, 11]
        for _ in range(c.scale(25, 100)):
            a = r.choice(traps)
            p.trap(a)
            k0, k1 = p.keys[-2:]
            for _ in range(3):
                b = r.randrange(2)
                p.dec(p.enc((k0, k1)[b], b, ("i" + hx(intmsg(r))) if r.randrange(2) else ptmsg(r)))
            for b, k in ((0, k1), (1, k0)):          # under the public key of either record, any branch
                x = p.enc(k, b, ptmsg(r))
                p.dec((x[0], (k0, k1)[b], b, x[3]))
        # sk0 and ordinary keys: range, freshness, spread
        for _ in range(220):
            p.trap(r.choice(traps)) if r.randrange(2) else p.keygen(r.randrange(1, 12), r.randrange(2))
        p.out.append("spread sk")
        c.trace("trapdoor-%d" % i, exe, p.text(), "Trace_Dme", tenv={"CURVE": "secp"}, env=seeded(c, i), tlc_timeout=800)

    def setups():
        out = ["start fresh"] + ["new 1 dec"] * 220 + ["spread crs"]
        c.trace("setups", exe, "\n".join(out) + "\n", "Trace_Dme", tenv={"CURVE": "secp"}, env=seeded(c, 78), tlc_timeout=800)

    def keys(cid, n):
        r = c.rand("keys" + cid)
        body = ["distcrs dec 20000", "disttrap 20000"]
        for q in small_crs(r, n, c.scale(30, 200)):
            body.append("importraw 1 " + " ".join("p%x" % v for v in q))
            body += ["distkey 1 0 20000", "distkey 1 1 20000"]
        distributions(c, cid, "keys", body)
    jobs = [lambda i=i: big(i) for i in range(c.scale(1, 4))] + [setups, lambda: c.model("MC_Dme", env={"CURVE": c.scale("c3", "c5")}, workers=3, timeout=800, heap="6g")]
    then = ["trap 1", "enc 1 1 0 p7", "dec 1 1 1", "enc 1 1 1 p8", "dec 1 2 2", "keygen 1 0", "enc 1 3 0 i5", "decint 1 3 3"] * 1
    for what in ("trap", "key"):
        jobs.append(lambda what=what: later(c, "many-" + what, what, c.scale(1500, 20000), "dec", then))
    jobs.append(lambda: later(c, "many-new", "new", c.scale(300, 2000), "dec", ["new 2 dec", "trap 2", "enc 2 1 0 p7", "dec 2 1 1", "enc 2 1 1 p8", "dec 2 2 2"]))
    jobs += [lambda a=a: keys(*a) for a in c.scale([("c3", 3), ("c5", 5)], [("c3", 3), ("c5", 5), ("c7", 7)])]
    c.parallel(jobs)


def d04(c):
    exe = driver("dme")

    def big(i):
        r = c.rand("eval%d" % i)
        p = Prog(r)
        p.new(1, "messy"); p.new(2, "dec"); p.share(3, 1, "import"); p.share(4, 2, "dup"); p.new(5, "any")
        if i % 3 == 2:
            p.out[0] = "start"
            p.out.append("rng biased %d" % r.randrange(1 << 30))
        ev = lambda a, b, at: (p.out.append("eval %d %d %d" % (at, a[0], b[0])), setattr(p, "nc", p.nc + 1), p.cts.append((p.nc, a[1], a[2], False)))[0] or p.cts[-1]
        for rep in range(c.scale(10, 40)):
            k = p.keygen(r.choice([1, 2, 3, 5]), r.randrange(2))
            b = k[2]
            w = hx(r.randrange(1, SECP_N))
            pool = ["inf", "p" + w, "p-" + w, "p" + w, "p1", "p-1", ptmsg(r), ptmsg(r), "i" + hx(intmsg(r))]
            xs = [p.enc(k, b, r.choice(pool)) for _ in range(r.choice([2, 3, 5, 8, 13]))]
            acc = xs[0]                                       # chain
            for x in xs[1:]:
                acc = ev(acc, x, r.randrange(1, 6))
                if r.randrange(3) == 0:
                    p.dec(acc)
            p.dec(acc)
            live = list(xs)                                   # random tree, inputs reused
            while len(live) > 1:
                a = live.pop(r.randrange(len(live)))
                d = live.pop(r.randrange(len(live)))
                live.append(ev(a, d, r.randrange(1, 6)))
            p.dec(live[0])
            y = ev(xs[0], xs[0], 1)
            p.dec(y)
            for _ in range(r.randrange(6)):                   # repeated doubling
                y = ev(y, y, r.randrange(1, 6))
            p.dec(y)
            p.dec(ev(p.enc(k, b, "p" + w), p.enc(k, b, "p-" + w), 1))
            p.dec(ev(p.enc(k, b, "inf"), p.enc(k, b, "inf"), 2))
            p.dec(xs[0])                                      # inputs still decrypt
        c.trace("eval-%d" % i, exe, p.text(), "Trace_Dme", tenv={"CURVE": "secp"}, env=seeded(c, i), tlc_timeout=800)

    def long():
        r = c.rand("long")
        p = Prog(r)
        p.new(1, "messy")
        k = p.keygen(1, 1)
        xs = [p.enc(k, 1, ptmsg(r)) for _ in range(20)]
        cur = xs[0][0]
        for n in range(c.scale(300, 1500)):
            p.out.append("eval 1 %d %d" % (cur, r.choice(xs)[0]))
            p.nc += 1
            cur = p.nc
            if n % 20 == 0:
                p.out.append("dec 1 %d %d" % (k[0], cur))
        p.out.append("dec 1 %d %d" % (k[0], cur))
        c.trace("long-chain", exe, p.text(), "Trace_Dme", tenv={"CURVE": "secp"}, env=seeded(c), tlc_timeout=800)

    def small(cid, n):
        """Small group: coincidences (equal, opposite, infinite components) happen all the time."""
        tiny = tiny_driver(c, "dme")
        if not tiny:
            return
        r = c.rand("small" + cid)
        p = Prog(r, False)
        for rep in range(c.scale(40, 150)):
            i = 1
            q = small_crs(r, n, 1)[0]
            p.out.append("importraw 1 " + " ".join("p%x" % v for v in q))
            p.inst[1] = ("g", rep)
            k = p.keygen(1, r.randrange(2))
            cts = [p.enc(k, k[2], "p%x" % r.randrange(n), 1) for _ in range(6)]
            for _ in range(20):
                a, b = r.choice(cts), r.choice(cts)
                p.out.append("eval 1 %d %d" % (a[0], b[0]))
                p.nc += 1
                cts.append((p.nc, k, k[2], False))
                p.out.append("dec 1 %d %d" % (k[0], p.nc))
        c.trace("small-" + cid, tiny, p.text(), "Trace_Dme", env=dict(seeded(c), TINY=TINY[cid]), tenv={"CURVE": cid, "NUMERALS": "1"}, tlc_timeout=800)
    def worn():
        r = c.rand("worn")
        p = Prog(r)
        p.new(1, "messy")
        for b in (0, 1) * 3:
            k = p.keygen(1, b)
            xs = [p.enc(k, b, ptmsg(r)) for _ in range(4)]
            for x in xs[1:]:
                p.out.append("eval 1 %d %d" % (xs[0][0], x[0]))
                p.nc += 1
                p.out.append("dec 1 %d %d" % (k[0], p.nc))
        late(c, "late", p.text(), c.scale(300, 1500))
    jobs = [worn] + [lambda i=i: big(i) for i in range(c.scale(3, 9))] + [long, lambda: small("c3", 3), lambda: small("c7", 7)]
    jobs.append(lambda: c.model("MC_Dme", env=dict({"CURVE": "c3"}, MAXCT="2"), workers=4, timeout=800, heap="6g"))
    c.parallel(jobs)
