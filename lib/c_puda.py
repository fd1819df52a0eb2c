"""P01-P03: aggregation."""
from vlib import *
from gen import *
from c_ecc import TINY, tiny_driver

M = "Trace_Puda"
TIMES = [1, -1, 2, 0, 3, 2**31 - 1, -2**31, 65536, 1000, -5]


def seeded(c, i=0):
    return {"VRD_SEED": str(c.seed * 1000 + 500 + i)}


def split(r, total, n):
    """n 16-bit values with the given sum, in different shapes."""
    k = r.randrange(4)
    if k == 0:
        v = [0] * n
        v[r.randrange(n)] = total
    elif k == 1:
        v = [total // n] * n
        v[0] += total - sum(v)
    else:
        cuts = sorted(r.randrange(total + 1) for _ in range(n - 1))
        v = [b - a for a, b in zip([0] + cuts, cuts + [total])]
    r.shuffle(v)
    return v


class Prog:
    def __init__(self, r, fresh=True):
        self.r, self.out = r, ["start" + (" fresh" if fresh else "")]
        self.n, self.k = {}, 0

    def object(self, o):
        self.out.append("object %d" % o)

    def setup(self, o, n):
        self.out.append("setup %d %d" % (o, n))
        self.n[o] = n

    def enc(self, o, u, t, m):
        self.out.append("enc %d %d %d %d" % (o, u, t, m))
        self.k += 1
        return self.k

    def round(self, o, t, vals):
        us = list(range(1, self.n[o] + 1))
        self.r.shuffle(us)
        return [self.enc(o, u, t, vals[u - 1]) for u in us]

    def agg(self, o, t, xs, ys=None):
        xs, ys = list(xs), list(xs if ys is None else ys)
        self.r.shuffle(xs)
        self.r.shuffle(ys)
        op = "agg" if self.r.randrange(3) else "aggsum %d %d" % tuple(self.r.choice([1, 2, 3, max(1, len(xs))]) for _ in "xy")
        self.out.append(op + " %d %d %d %s %d %s" % (o, t, len(xs), " ".join(map(str, xs)), len(ys), " ".join(map(str, ys))))

    def text(self):
        return "\n".join(" ".join(x.split()) for x in self.out) + "\n"


def history(r, rounds, top, users=(1, 2, 3, 5, 8, 13), fresh=True, bias=None, tries=False):
    """Interleaved rounds of several objects, with repeated aggregations and new set-ups."""
    p = Prog(r, fresh)
    if bias is not None:
        p.out.append("rng biased %d" % bias)
    for o in (1, 2, 3):
        p.object(o)
        p.setup(o, r.choice(users))
    pend = []
    for k in range(rounds):
        o = r.randrange(1, 4)
        if r.randrange(8) == 0:
            p.setup(o, r.choice(users))
            pend = [x for x in pend if x[0] != o]
        t = r.choice(TIMES) if r.randrange(2) else r.randrange(-2**31, 2**31)
        total = r.choice([0, 1, r.randrange(top + 1), r.randrange(top + 1)])
        xs = p.round(o, t, split(r, total, p.n[o]))
        pend.append((o, t, xs))
        if tries and r.randrange(3) == 0 and p.n[o] > 1:      # incomplete, or of another time stamp
            p.out.append("aggtry %d %d %s" % (o, t + r.randrange(2), " ".join(map(str, xs[1:]))))
        if r.randrange(3):
            p.agg(*pend.pop(r.randrange(len(pend))))
        if r.randrange(4) == 0:
            p.agg(o, t, xs)                      # again, in another order
    for x in pend:
        p.agg(*x)
    return p


def late(c, jobs, exe, known):
    """Rounds after many that nobody looked at."""
    r = c.rand("late")
    p = Prog(r)
    p.object(1)
    p.setup(1, 3)
    p.out.append("churn 1 %d" % c.scale(400, 1500))
    for k in range(c.scale(6, 30)):
        t = r.choice(TIMES)
        xs = p.round(1, t, split(r, r.randrange(300), p.n[1]))
        p.agg(1, t, xs)
        p.agg(1, t, xs)
        if k == 3:
            p.out.append("aggtry 1 %d %s" % (t, " ".join(map(str, xs[1:] if len(xs) > 1 else xs + xs))))
            p.agg(1, t, xs)
        if k % 3 == 2:
            p.setup(1, 1 + k % 5)
            p.out.append("churn 1 30")
    jobs.append(lambda: c.trace("late", exe, p.text(), M, tenv=dict(known, CURVE="secp"), env=seeded(c, 99), timeout=600, tlc_timeout=800))


def p01(c):
    exe = driver("puda")
    tiny = tiny_driver(c, "puda")
    known = stub(c)
    jobs = [lambda: c.model("MC_Puda", env={"CURVE": "c5"}, workers=2, heap="4g"),
            lambda: c.model("MC_Puda", env={"CURVE": "c3", "USERS": "3"}, workers=2)]
    if c.thorough:
        jobs.append(lambda: c.model("MC_Puda", env={"CURVE": "c7"}, workers=4, heap="8g", timeout=800))

    def edge(i, total, n):
        r = c.rand("edge%d" % i)
        p = Prog(r)
        p.object(1)
        p.setup(1, n)
        t = r.choice(TIMES)
        xs = p.round(1, t, split(r, total, n))
        p.agg(1, t, xs)
        c.trace("sum-%d-%d-users" % (total, n), exe, p.text(), M, tenv=dict(known, CURVE="secp"), env=seeded(c, i))
    edges = [(65535, 1), (65535, 40), (65534, 3), (32768, 2), (65280, 7)]
    if c.thorough:
        edges += [(65535, 2), (65535, 300), (32767, 5), (65533, 9), (49152, 4), (255, 2), (256, 2)] + [(c.rand("e").randrange(65536), 5) for _ in range(12)]
    for i, (s, n) in enumerate(edges):
        jobs.append(lambda i=i, s=s, n=n: edge(i, s, n))
    late(c, jobs, exe, known)
    for i in range(c.scale(3, 8)):
        r = c.rand("hist%d" % i)
        p = history(r, c.scale(30, 120), 300 if i % 3 else 3000, fresh=i % 3 != 2, bias=7 + i if i % 3 == 2 else None)
        jobs.append(lambda i=i, p=p: c.trace("rounds-%d" % i, exe, p.text(), M, tenv=dict(known, CURVE="secp"), env=seeded(c, 50 + i), timeout=600, tlc_timeout=800))

    def many():
        r = c.rand("many")
        p = Prog(r)
        p.object(1)
        p.setup(1, 400)
        xs = p.round(1, 77, split(r, 2000, 400))
        p.agg(1, 77, xs)
        c.trace("400-users", exe, p.text(), M, tenv=dict(known, CURVE="secp"), env=seeded(c, 90), tlc_timeout=800)
    jobs.append(many)

    def sizes(i, ns):
        """Every number of users."""
        r = c.rand("sizes%d" % i)
        p = Prog(r)
        p.object(1)
        for n in ns:
            p.setup(1, n)
            p.agg(1, n, p.round(1, n, split(r, r.randrange(n, 3 * n + 5), n)))
        c.trace("sizes-%d" % i, exe, p.text(), M, tenv=dict(known, CURVE="secp"), env=seeded(c, 95 + i), timeout=280 if not c.thorough else 800, tlc_timeout=800)
    for i, ns in enumerate([list(range(4, 36)), [40, 47, 48, 49, 50, 60, 63, 64, 65, 66], [96, 97, 100, 101, 127, 128, 129], [192, 255, 256, 257]] +
                           c.scale([], [[511, 512, 513], [1000, 1001, 1023, 1024, 1025]])):
        jobs.append(lambda i=i, ns=ns: sizes(i, ns))
    if tiny:
        # a group of 66373 elements: sums over the whole 16-bit range are quick enough to be many
        for i in range(c.scale(4, 16)):
            r = c.rand("big%d" % i)
            p = history(r, c.scale(8, 60), 65535, fresh=False, tries=True)
            xs = p.round(1, 9, split(r, 65535 - i, p.n[1]))
            p.agg(1, 9, xs)
            jobs.append(lambda i=i, p=p: c.trace("small-%d" % i, tiny, p.text(), M, tenv=dict(known, CURVE="cbig", NUMERALS="1"),
                                                env=dict(seeded(c, i), TINY=TINY["cbig"]), timeout=600, tlc_timeout=800))
    c.parallel(jobs)


def stub(c):
    """The listed finding of P02: Verify accepts everything."""
    return {"STUB": "1"} if listed("P02", "Puda::Verify accepts every") else {}


def p02(c):
    exe = driver("puda")
    known = stub(c)
    seen = {"accepted": 0, "rejected": 0}

    def programs(i, fresh=True):
        r = c.rand("verify%d" % i)
        p = Prog(r, fresh)
        if not fresh:
            p.out.append("rng biased %d" % i)
        for o in (1, 2):
            p.object(o)
            p.setup(o, r.choice((1, 2, 3, 6)))
        last = {1: None, 2: None}
        for k in range(c.scale(25, 120)):
            o = r.randrange(1, 3)
            if r.randrange(8) == 0:
                p.setup(o, r.choice((1, 2, 4, 10)))
                last[o] = None
            t = r.choice(TIMES) if r.randrange(2) else r.randrange(-2**31, 2**31)
            total = r.choice([0, 1, r.randrange(200), r.randrange(200)])
            if k in (7, 15):
                total = r.randrange(1000, 4000)
            xs = p.round(o, t, split(r, total, p.n[o]))
            p.agg(o, t, xs)
            if k % 3 == 1:               # tags of any 16-bit messages, certified whatever their sum (the sum asked for is the other one)
                vals = [r.choice([0, 1, 255, 256, 32767, 32768, 32769, 65534, 65535, r.randrange(65536), r.randrange(65536)]) for _ in range(p.n[o])]
                p.agg(o, t, xs, p.round(o, t, vals))
            ok = "verify %d %d %d tags %s" % (o, t, total, " ".join(map(str, xs)))
            p.out.append(ok)
            ts = " ".join(map(str, xs))
            for bad in r.sample(["verify %d %d %d tags %s" % (o, t, s, ts) for s in (total + 1, total - 1, 65535 - total, (total + 256) % 65536) if 0 <= s < 65536] +
                                ["verify %d %d %d plus %s" % (o, t, total, ts), "verify %d %d %d point %x" % (o, t, total, r.getrandbits(200)),
                                 "verify %d %d %d tags %s" % (o, t, total, " ".join(map(str, xs[1:])))], 3):
                p.out.append(bad)
            p.out.append("verify %d %d %d tags %s" % (o, t, total, ts))
        return p.text()

    def post(lines):
        for x in lines:
            e = json.loads(x)
            if e["op"] == "verify":
                with c.guard:
                    seen["accepted" if e["ok"] else "rejected"] += 1
        return lines

    def one(i, env):
        """The tag equation, and acceptance of the right claims."""
        s = programs(i, i % 3 != 2)
        c.trace("tags-%d" % i, exe, s, M, env=seeded(c, 200 + i), tenv=dict(known, CURVE="secp"), post=post, timeout=300, tlc_timeout=800)
    jobs = [lambda i=i: one(i, None) for i in range(c.scale(4, 12))]

    def users():
        """Tags of many users."""
        r = c.rand("users")
        p = Prog(r)
        p.object(1)
        for n in [17, 33, 65, 129] + c.scale([], [257, 513, 1025]):
            p.setup(1, n)
            total = r.randrange(n, 2 * n)
            xs = p.round(1, n, split(r, total, n))
            p.agg(1, n, xs)
            p.agg(1, n, xs, p.round(1, n, [r.choice([0, 1, 65535, r.randrange(65536)]) for _ in range(n)]))
            p.out.append("verify 1 %d %d tags %s" % (n, total, " ".join(map(str, xs))))
        c.trace("users", exe, p.text(), M, env=seeded(c, 240), tenv=dict(known, CURVE="secp"), post=post, timeout=300, tlc_timeout=800)
    jobs.append(users)
    late(c, jobs, exe, known)
    jobs += [lambda: c.model("MC_Puda", env={"CURVE": "c5"}, workers=2, heap="4g"), lambda: c.model("MC_Puda", env={"CURVE": "c3", "USERS": "3"}, workers=2)]
    if c.thorough:
        jobs.append(lambda: c.model("MC_Puda", env={"CURVE": "c7"}, workers=4, heap="8g", timeout=800))
    tiny = tiny_driver(c, "puda")
    if tiny:
        for i in range(c.scale(2, 10)):
            r = c.rand("tiny%d" % i)
            p = history(r, c.scale(10, 60), 65535, fresh=False)
            jobs.append(lambda i=i, p=p: c.trace("small-%d" % i, tiny, p.text(), M, tenv=dict(known, CURVE="cbig", NUMERALS="1"),
                                                env=dict(seeded(c, 260 + i), TINY=TINY["cbig"]), timeout=600, tlc_timeout=800))
    # if Verify has been given a meaning, it has to be the right one: nothing is excused any more
    lines, _ = drive(exe, programs(0), env=seeded(c, 200), timeout=300)
    verdicts = [json.loads(x)["ok"] for x in lines if '"op":"verify"' in x]
    if known and all(verdicts):
        c.known.append("Puda::Verify accepts every sum and every tag (all of %d claims, most of them altered)" % len(verdicts))
    else:
        known.clear()
    c.parallel(jobs)


def p03(c):
    exe = driver("puda")
    known = stub(c)

    def setups(i):
        r = c.rand("setups%d" % i)
        p = Prog(r)
        for o in (1, 2):
            p.object(o)
        for k in range(c.scale(45, 150)):
            o = r.randrange(1, 3)
            p.setup(o, r.choice((1, 2, 3, 4, 8, 20)))
            if r.randrange(3) == 0:
                t = r.choice(TIMES)
                for u in range(1, p.n[o] + 1):
                    p.enc(o, u, t, r.choice([0, 1, 65535, r.randrange(65536)]))
        for k in range(200):
            p.setup(1, 1)
        p.out += ["spread ek", "spread tk", "spread a"]
        c.trace("setups-%d" % i, exe, p.text(), M, tenv=dict(known, CURVE="secp"), env=seeded(c, 300 + i), timeout=300, tlc_timeout=800)

    def stamps():
        """Base points of many time stamps: all different, none the neutral element."""
        r = c.rand("stamps")
        p = Prog(r)
        p.object(1)
        p.setup(1, 2)
        ts = sorted(set([1, -1, 2, -2, 3, 2**31 - 1, -2**31, 1 << 16, 1 << 8, 255, 256, 65535, 1 << 30, -(1 << 30), -255, -256] + list(range(5, 60)) +
                        [r.randrange(-2**31, 2**31) for _ in range(c.scale(60, 400))]))
        for t in (0, 1, r.randrange(-2**31, 2**31)):      # stamps that differ in one bit
            ts += [((t ^ (1 << k)) + 2**31) % 2**32 - 2**31 for k in range(32)]
        ts = sorted(set(ts))
        for t in ts:
            p.enc(1, r.randrange(1, 3), t, r.randrange(65536))
        for t in r.sample(ts, 30):
            p.enc(1, 1, t, 5)
        c.trace("time-stamps", exe, p.text(), M, tenv=dict(known, CURVE="secp"), env=seeded(c, 333), tlc_timeout=800)

    def processes():
        s = "start fresh\nobject 1\nsetup 1 3\nsetup 1 2\nobject 2\nsetup 2 4\n"
        c.processes("processes", exe, "start fresh\nobject 1\nsetup 1 1\n", s, M, tenv=dict(known, CURVE="secp"), n=c.scale(150, 600))
    jobs = [lambda i=i: setups(i) for i in range(c.scale(2, 5))] + [stamps, processes]
    def many():
        """Set-ups of many users, and very many set-ups."""
        out = ["start fresh", "object 1"]
        for n in [33, 51, 64, 65, 100, 129, 200, 257] + c.scale([600], [600, 1025, 3000]):
            out += ["many 1 %d 1" % n]
        out += ["many 1 1 %d" % c.scale(2500, 30000), "many 1 3 %d" % c.scale(600, 6000), "setup 1 2", "enc 1 1 5 7", "enc 1 2 5 8", "setup 1 1", "setup 1 60"]
        c.trace("many", exe, "\n".join(out) + "\n", M, tenv=dict(known, CURVE="secp"), env=seeded(c, 350), timeout=600, tlc_timeout=800)
    jobs.append(many)
    jobs += [lambda: c.model("MC_Puda", env={"CURVE": "c3", "USERS": "3"}, workers=2), lambda: c.model("MC_Puda", env={"CURVE": "c5"}, workers=2, heap="4g")]
    tiny = tiny_driver(c, "puda")

    def dist(cid, body):
        c.trace("distribution-%s-%d" % (cid, len(body)), tiny, "\n".join(["start"] + body) + "\n", M, env=dict(seeded(c), TINY=TINY[cid]),
                tenv=dict(known, CURVE=cid), timeout=400, tlc_timeout=800)
    if tiny:
        r = c.rand("dist")
        jobs.append(lambda: dist("c3", ["distsetup 1 20000", "distsetup 2 20000"]))
        jobs.append(lambda: dist("c5", ["distsetup 1 20000"]))
        jobs.append(lambda: dist("c3", ["distenc 1 1 20000 1 0", "distenc 1 1 20000 1 2"] + ["distenc 2 %d 20000 %d %d" % (t, u, m) for t in (1, 2) for u in (1, 2) for m in (0, 1, 65535)]))
        if c.thorough:
            jobs.append(lambda: dist("c3", ["distsetup 3 200000"]))
            jobs.append(lambda: dist("c3", ["distenc 3 1 200000 %d %d %d %d" % (u, r.randrange(65536), v, r.randrange(65536)) for u, v in ((1, 2), (2, 3), (3, 1))]))
        jobs.append(lambda: dist("c5", ["distenc 2 1 20000 1 0", "distenc 2 1 20000 1 4", "distenc 2 3 20000 2 65535"]))
    c.parallel(jobs)
