"""O01-O03: oblivious transfer and its distributed form."""
from vlib import *
from gen import *
from c_ecc import TINY, tiny_driver
from c_dme import later, late, intmsg, ptmsg, seeded, small_crs, distributions, SPECIAL_INTS

DME = "Trace_Dme"


class Ot:
    def __init__(self, r, fresh=True, mode="messy", crs=None, first=True):
        self.r = r
        self.out = ["start" + (" fresh" if fresh else "")] if first else []
        self.out.append("importraw 1 " + " ".join("p%x" % v for v in crs) if crs else "anycrs 1" if mode == "any" else "new 1 " + mode)
        self.sel = {}              # receiver -> (selection, branch)
        self.ns = self.nx = 0
        self.kind = {}             # transfer -> (selection, int on branch 0, 1)

    def party(self, what, i, j=1, dot=False):
        self.out.append("%s %d %d%s" % (what, i, j, " dot" if dot else ""))

    def select(self, rcv, b):
        self.out.append("select %d %d" % (rcv, b))
        self.ns += 1
        self.sel[rcv] = (self.ns, b)

    def send(self, s, sel, a, b):
        self.out.append("send %d %d %s %s" % (s, sel, a, b) if a else "sendrnd %d %d" % (s, sel))
        self.nx += 1
        self.kind[self.nx] = (sel, bool(a) and a[0] == "i" and a != "inf")
        return self.nx

    def agg(self, p, xs):
        self.out.append("agg %d %s" % (p, " ".join(map(str, xs))))
        self.nx += 1
        self.kind[self.nx] = (self.kind[xs[0]][0], False)
        return self.nx

    def open(self, rcv, x):
        cur = self.sel.get(rcv)
        if cur:
            isint = self.kind[x][1] and self.kind[x][0] == cur[0]
            self.out.append("%s %d %d" % ("openint" if isint else "open", rcv, x))

    def pair(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return None, None
        if k < 3:
            a = "i" + hx(intmsg(r))
            return a, r.choice([a, "i" + hx(intmsg(r)), "i" + hx(r.choice(SPECIAL_INTS))])
        a = ptmsg(r)
        return a, r.choice([a, ptmsg(r), ptmsg(r)])

    def text(self):
        return "\n".join(self.out) + "\n"


def sessions(r, n, mode, fresh=True, bias=None):
    p = Ot(r, fresh, mode)
    p.out += ["import 2 1", "dup 3 1"]
    if bias is not None:
        p.out.append("rng biased %d" % bias)
    for i in range(1, 4):
        p.party("recv", i, i, dot=i == 3)
        p.party("sndr", i, r.randrange(1, 4), dot=i == 2)
    pend = {1: [], 2: [], 3: []}
    for _ in range(n):
        rc = r.randrange(1, 4)
        k = r.randrange(6)
        if k < 2 or rc not in p.sel:
            p.select(rc, r.randrange(2))
            pend[rc] = []
        elif k < 4:
            x = p.send(r.randrange(1, 4), p.sel[rc][0], *p.pair())
            pend[rc].append(x)
            if r.randrange(2):
                p.open(rc, x)
        elif pend[rc]:
            p.open(rc, r.choice(pend[rc]))
    for rc in pend:
        for x in pend[rc]:
            p.open(rc, x)
    return p.text()


def o01(c):
    exe = driver("dme")
    env = {"CURVE": "secp"}

    def special():
        r = c.rand("special")
        p = Ot(r)
        p.party("recv", 1); p.party("sndr", 1)
        for m in SPECIAL_INTS:
            for b in (0, 1):
                p.select(1, b)
                p.open(1, p.send(1, p.ns, "i" + hx(m), "i" + hx(r.choice(SPECIAL_INTS))))
                p.open(1, p.send(1, p.ns, "i" + hx(r.choice(SPECIAL_INTS)), "i" + hx(m)))
        for b in (0, 1, 1, 0):
            p.select(1, b)
            for a, d in (("inf", "p1"), ("p1", "inf"), ("inf", "inf"), ("p5", "p5"), ("p5", "p-5"), (None, None)):
                p.open(1, p.send(1, p.ns, a, d))
        c.trace("special", exe, p.text(), DME, tenv=env, env=seeded(c), tlc_timeout=800)

    def small(cid, n):
        tiny = tiny_driver(c, "dme")
        if not tiny:
            return
        r = c.rand("small" + cid)
        text = ""
        for q in small_crs(r, n, c.scale(40, 200)):
            p = Ot(r, False, crs=q)
            p.party("recv", 1); p.party("recv", 2); p.party("sndr", 1); p.party("sndr", 2)
            for _ in range(12):
                rc = r.randrange(1, 3)
                if rc not in p.sel or r.randrange(3) == 0:
                    p.select(rc, r.randrange(2))
                p.open(rc, p.send(r.randrange(1, 3), p.sel[rc][0], "p%x" % r.randrange(n), "p%x" % r.randrange(n)))
            text += p.text()
        c.trace("small-" + cid, tiny, text, DME, env=dict(seeded(c), TINY=TINY[cid]), tenv={"CURVE": cid, "NUMERALS": "1"}, tlc_timeout=800)
    jobs = [special, lambda: small("c3", 3), lambda: small("c5", 5), lambda: c.model("MC_Ot", workers=2), lambda: c.model("MC_Ot", "MC_Ot3.cfg", workers=2)]
    jobs.append(lambda: late(c, "late", sessions(c.rand("lates"), c.scale(60, 300), "messy"), c.scale(300, 1500)))
    modes = ["messy", "dec", "any"]
    for i in range(c.scale(3, 12)):
        r = c.rand("sessions%d" % i)
        jobs.append(lambda i=i, r=r: c.trace("sessions-%d" % i, exe, sessions(r, c.scale(160, 600), modes[i % 3], i % 4 != 2, 7 * i + c.seed if i % 4 == 2 else None),
                                             DME, tenv=env, env=seeded(c, i), tlc_timeout=800))
    c.parallel(jobs)


def o02(c):
    exe = driver("dme")
    env = {"CURVE": "secp"}

    def many(i):
        r = c.rand("dot%d" % i)
        p = Ot(r, i % 3 != 2, ("messy", "dec", "any")[i % 3])
        p.out += ["import 2 1", "dup 3 1"]
        if i % 3 == 2:
            p.out.append("rng biased %d" % (c.seed + i))
        p.party("prxy", 1, 1); p.party("prxy", 2, 2)
        for k in (1, 2):
            p.party("recv", k, k, dot=True)
        for s in range(1, 25):
            p.party("sndr", s, r.randrange(1, 4), dot=True)
        for rep, n in enumerate([1, 2, 3, 1, 7, 8, 9, 2, 16, 24, 5, 1] + [r.randrange(1, 25) for _ in range(c.scale(0, 12))]):
            rc = 1 + rep % 2
            p.select(rc, r.randrange(2))
            w = hx(r.randrange(1, SECP_N))
            style = rep % 4
            xs = []
            for s in range(n):
                a, b = (ptmsg(r), ptmsg(r)) if style == 0 else ("p" + w, "p" + w) if style == 1 else \
                       r.choice([("p" + w, "p-" + w), ("p-" + w, "p" + w)]) if style == 2 else p.pair()
                xs.append(p.send(r.randrange(1, 25) if r.randrange(3) else s + 1, p.ns, a, b))
            px = r.randrange(1, 3)
            p.open(rc, p.agg(px, xs))
            p.open(rc, p.agg(px, r.sample(xs, len(xs))))            # again, in another order
            p.open(rc, p.agg(3 - px, xs[::-1]))                     # by the other proxy
            sub = r.sample(xs, r.randrange(1, len(xs) + 1))
            y = p.agg(px, sub)
            p.open(rc, y)
            p.open(rc, p.agg(px, [y, r.choice(xs), y]))             # sums of sums, repeated inputs
            p.open(rc, xs[0])
        c.trace("aggregate-%d" % i, exe, p.text(), DME, tenv=env, env=seeded(c, i), tlc_timeout=800)

    def crowd():
        r = c.rand("crowd")
        p = Ot(r)
        p.party("prxy", 1); p.party("recv", 1, dot=True); p.party("sndr", 1, dot=True); p.party("sndr", 2, dot=True)
        for b in (1, 0):
            p.select(1, b)
            xs = [p.send(1 + k % 2, p.ns, "p%x" % (k * k + 1), "p%x" % (7 * k + 3)) for k in range(c.scale(70, 400))]
            for k in (1, 2, 31, 32, 33, 63, 64, 65, len(xs)):
                p.open(1, p.agg(1, xs[:k]))
            for k in (127, 128, 129, 255, 256, 257, 511, 513, 1000) + c.scale((), (1024, 4097, 65537)):      # each ciphertext many times
                ys = (xs * (k // len(xs) + 1))[:k]
                r.shuffle(ys)
                p.open(1, p.agg(1, ys))
        c.trace("crowd", exe, p.text(), DME, tenv=env, env=seeded(c), tlc_timeout=800)

    def small(cid, n):
        tiny = tiny_driver(c, "dme")
        if not tiny:
            return
        r = c.rand("small" + cid)
        text = ""
        for q in small_crs(r, n, c.scale(40, 200)):
            p = Ot(r, False, crs=q)
            p.party("recv", 1); p.party("sndr", 1); p.party("sndr", 2); p.party("prxy", 1)
            for _ in range(4):
                p.select(1, r.randrange(2))
                xs = [p.send(r.randrange(1, 3), p.ns, "p%x" % r.randrange(n), "p%x" % r.randrange(n)) for _ in range(r.randrange(1, 5))]
                p.open(1, p.agg(1, xs))
                p.open(1, p.agg(1, xs[::-1]))
            text += p.text()
        c.trace("small-" + cid, tiny, text, DME, env=dict(seeded(c), TINY=TINY[cid]), tenv={"CURVE": cid, "NUMERALS": "1"}, tlc_timeout=800)
    def worn():
        r = c.rand("worn")
        p = Ot(r)
        p.party("prxy", 1); p.party("recv", 1, dot=True); p.party("sndr", 1, dot=True); p.party("sndr", 2, dot=True)
        for k in range(8):
            p.select(1, k % 2)
            xs = [p.send(1 + j % 2, p.ns, *p.pair()) for j in range(1 + k % 4)]
            p.open(1, p.agg(1, xs))
            p.open(1, xs[0])
        late(c, "late", p.text(), c.scale(300, 1500))
    jobs = [worn] + [lambda i=i: many(i) for i in range(c.scale(3, 9))] + [crowd, lambda: small("c3", 3), lambda: small("c5", 5)]
    jobs += [lambda: c.model("MC_Ot", workers=2)] + ([lambda: c.model("MC_Ot", "MC_Ot3b.cfg", workers=4, heap="6g")] if c.thorough else [])
    c.parallel(jobs)


def o03(c):
    exe = driver("dme")
    env = {"CURVE": "secp"}

    def full(mode):
        """Every scalar of every transfer is fresh and spread, also when objects are reused."""
        r = c.rand("full" + mode)
        p = Ot(r, True, mode)
        p.out += ["import 2 1"]
        for k in (1, 2):
            p.party("recv", k, k); p.party("sndr", k, k)
        for k in range(c.scale(220, 700)):
            rc = 1 + k % 2
            p.select(rc, r.randrange(2))
            p.send(r.randrange(1, 3), p.ns, "inf" if k % 3 else "i5", "p7" if k % 3 else "i6")
            if k % 10 == 0:
                p.send(r.randrange(1, 3), p.ns, "p1", "p1")
                p.send(1, r.randrange(1, p.ns + 1), "p1", "p2")
        p.out += ["spread " + w for w in ("sk", "s", "t", "s1", "t1")]
        c.trace("scalars-" + mode, exe, p.text(), DME, tenv=env, env=seeded(c), tlc_timeout=800)

    def small(cid, n):
        r = c.rand("small" + cid)
        body = []
        for k, q in enumerate(small_crs(r, n, c.scale(12, 60))):
            body.append("importraw 1 " + " ".join("p%x" % v for v in q))
            body += ["distselect 1 0 20000", "distselect 1 1 20000"]
            b = r.randrange(2)
            sk = r.randrange(n)
            body.append("rawkey 1 p%x p%x" % (q[b] * sk % n, q[2 + b] * sk % n))
            body += ["distsend 1 %d p%x p%x 20000" % (k + 1, r.randrange(n), r.randrange(n)) for _ in range(2)]
        distributions(c, cid, "transfers", body)

    def processes():
        p = Ot(c.rand("proc"))
        p.party("recv", 1); p.party("sndr", 1)
        for k in range(4):
            p.select(1, k % 2)
            p.send(1, p.ns, "p1", "p2")
        c.processes("processes", exe, p.text(), p.text(), DME, tenv=env, n=c.scale(12, 60))
    jobs = [lambda: full("messy"), lambda: full("dec"), lambda: small("c3", 3), processes,
            lambda: c.model("MC_Dme", env={"CURVE": c.scale("c3", "c5")}, workers=3, timeout=800, heap="6g")]
    then = ["recv 1 1", "sndr 1 1", "select 1 0", "send 1 1 p7 p9", "open 1 1", "select 1 1", "send 1 2 p7 p9", "open 1 2"]
    jobs.append(lambda: later(c, "many-select", "select", c.scale(2500, 20000), "messy", then))
    jobs.append(lambda: later(c, "many-send", "send", c.scale(1500, 12000), "dec", then))
    if c.thorough:
        jobs.append(lambda: small("c5", 5))
    c.parallel(jobs)
