"""E01-E04: programs over point variables, sampling."""
import json
from vlib import *
from gen import *

TINY = {"c3": "7 0 4 0 2 3", "c5": "7 4 1 0 1 5", "c7": "11 2 7 6 2 7", "c11": "7 1 6 1 1 11", "c13": "7 0 3 1 2 13",
        "c17": "11 8 1 0 1 17", "c31": "23 20 8 0 10 31", "c43": "31 0 3 1 2 43", "cbig": "66047 20919 9429 2 35613 66373"}
BIG = {"secp": (SECP_P, SECP_N, SECP_P - 3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
                (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)),
       "bn": (BN_P, BN_N, 0, 2, (BN_P - 1, 1))}

GROUP = {"pt", "inf", "gen", "copy", "assign", "swapcopy", "addeq", "subeq", "add", "sub", "dbl", "eq"}
SCALE = {"mulz", "mulf", "muleqz", "muleqf"}
COMP = {"enc", "dec", "lift", "liftn", "rhs", "valid", "validxy", "pt"}


# ------------------------------------------------------------ a shadow of the group, only used to steer the programs
def padd(P, Q, c):
    p, _, a, _, _ = BIG[c]
    if P is None or Q is None:
        return P or Q
    if P[0] == Q[0] and (P[1] + Q[1]) % p == 0:
        return None
    m = ((3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) if P == Q else (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)) % p
    x = (m * m - P[0] - Q[0]) % p
    return (x, (m * (P[0] - x) - P[1]) % p)


def pneg(P, c):
    return P and (P[0], -P[1] % BIG[c][0])


def pmul(k, P, c):
    k %= BIG[c][1]
    R = None
    while k:
        if k & 1:
            R = padd(R, P, c)
        P = padd(P, P, c)
        k >>= 1
    return R


def lift(x, c):
    p, _, a, b, _ = BIG[c]
    v = (x * x * x + a * x + b) % p
    y = pow(v, (p + 1) // 4, p)
    return (x % p, y) if y * y % p == v else None


def rpoint(r, c):
    k = r.randrange(6)
    if k == 0:
        return pmul(r.choice([1, 2, 3, -1, -2, (BIG[c][1] + 1) // 2]), BIG[c][4], c)
    if k == 1:                       # extreme x
        for x in range(r.choice([0, 1, 2, BIG[c][0] - 9]), BIG[c][0]):
            if lift(x, c):
                return lift(x, c)
    while True:
        P = lift(fel(r, BIG[c][0]), c)
        if P:
            return P if r.randrange(2) else pneg(P, c)


def scalar(r, n):
    k = r.randrange(8)
    if k == 0:
        return r.choice([0, 1, 2, 3, -1, -2, -3])
    if k == 1:
        return r.choice([1, 2, -1, 3, n, 2**300]) * n + r.choice([-2, -1, 0, 1, 2])
    if k == 2:
        return (n + r.choice([-1, 1])) // 2
    return anyint(r, n)


def ptok(P):
    return "inf" if P is None else hx(P[0]) + " " + hx(P[1])


def load(r, d, P):
    if P is None:
        return "inf %d" % d
    k = r.randrange(8)
    if k < 4:
        return "pt %d %s" % (d, ptok(P))
    return "ptstr %d %s %d" % (d, ptok(P), k - 4) if k < 7 else "ptfield %d %s" % (d, ptok(P))


def xcoord(r, c):
    p = BIG[c][0]
    k = r.randrange(5)
    if k == 0:
        return r.choice([0, 1, 2, 3, p - 1, p - 2, BIG[c][4][0]])
    if k == 1:
        return anyint(r, p)
    return fel(r, p)


def program(r, c, n, kind):
    """kind: group | scale | comp"""
    p, order = BIG[c][0], BIG[c][1]
    v = [None] * 4
    out = ["start " + c]
    for s in range(n):
        a, b, d = (r.randrange(1, 4) for _ in range(3))
        if r.randrange(4) == 0:
            b = a
        if r.randrange(4) == 0:
            d = a
        k = r.randrange(4)
        if k == 0 or s < 3:
            w = v[a]
            v[d] = r.choice([None, w, pneg(w, c), w, padd(w, w, c), rpoint(r, c), rpoint(r, c), rpoint(r, c)])
            out.append(load(r, d, v[d]))
            continue
        if kind == "group" or k == 1:
            op = r.choice(["copy", "assign", "swapcopy", "add", "add", "sub", "sub", "addeq", "addeq", "subeq", "subeq", "dbl", "eq", "gen"])
            if op in ("add", "sub"):
                out.append("%s %d %d %d" % (op, d, a, b))
                v[d] = padd(v[a], v[b] if op == "add" else pneg(v[b], c), c)
            elif op in ("addeq", "subeq"):
                out.append("%s %d %d" % (op, a, b))
                v[a] = padd(v[a], v[b] if op == "addeq" else pneg(v[b], c), c)
            elif op == "gen":
                out.append("gen %d" % d)
                v[d] = BIG[c][4]
            else:
                out.append("%s %d %d" % (op, d, a))
                if op != "eq":
                    v[d] = padd(v[a], v[a], c) if op == "dbl" else v[a]
        elif kind == "scale":
            op = r.choice(["mulz", "mulz", "mulf", "muleqz", "muleqf"])
            m = scalar(r, order)
            if op.startswith("muleq"):
                out.append("%s %d %s" % (op, a, hx(m)))
                v[a] = pmul(m, v[a], c)
            else:
                out.append("%s %d %d %s" % (op, d, a, hx(m)))
                v[d] = pmul(m, v[a], c)
        else:
            op = r.choice(["enc", "encdec", "dec", "lift", "lift", "liftn", "liftn", "rhs", "valid", "validxy", "validpt"])
            x = xcoord(r, c)
            if op == "enc":
                if v[a] is not None:
                    out.append("enc %d" % a)
            elif op in ("encdec", "dec"):
                P = v[a] if op == "encdec" else lift(fel(r, p), c)
                if P is None:
                    continue
                e = 2 * P[0] + (1 if lift(P[0], c) == P else 0)
                if op == "dec":
                    e = 2 * P[0] + r.randrange(2)
                self_ = v[d] is not None and r.randrange(2)
                out.append("%s %d %s" % ("decself" if self_ else "dec", d, hx(e)))
                v[d] = lift(P[0], c) if e % 2 else pneg(lift(P[0], c), c)
                out.append("enc %d" % d)
            elif op in ("lift", "liftn"):
                out.append("%s %d %s" % (op, d, hx(x)))
                v[d] = lift(x % p, c)
                if v[d] and op == "liftn":
                    v[d] = pneg(v[d], c)
            elif op == "rhs":
                out.append("rhs %s" % hx(x))
            elif op == "valid":
                out.append("valid %d" % a)
            elif op == "validxy":
                out.append("validxy %s %s" % (hx(x), hx(xcoord(r, c))))
            else:               # a point of the curve, or one that misses it narrowly
                P = rpoint(r, c)
                dx, dy = r.choice([(0, 0), (0, 0), (p, 0), (0, p), (-p, -p), (1, 0), (0, 1), (0, -1), (1, 1), (0, 2 * (p - P[1]) - p)])
                out.append("%s %s %s" % ("validxy" if r.randrange(8) else "validnone", hx(P[0] + dx), hx(P[1] + dy)))
    return "\n".join(out) + "\n"


def pairs(c, r):
    """Every ordered pair of special points through addition and subtraction, plain, compound and aliased."""
    G = BIG[c][4]
    S = [None, G, pneg(G, c), pmul(2, G, c), pmul(-2, G, c), pmul(3, G, c), pmul((BIG[c][1] + 1) // 2, G, c), rpoint(r, c)]
    S.append(pneg(S[-1], c))
    out = ["start " + c]
    for P in S:
        for Q in S:
            out += [load(r, 1, P), load(r, 2, Q), "add 3 1 2", "sub 3 1 2", "eq 1 2", "copy 3 1", "addeq 3 2", "copy 3 1", "subeq 3 2"]
        out += [load(r, 1, P), "add 3 1 1", "sub 3 1 1", "dbl 2 1", "copy 3 1", "addeq 3 3", "eq 3 2", "copy 3 1", "subeq 3 3", "eq 1 1",
                "copy 3 1", "dbl 3 3", "copy 3 1", "add 3 3 3", "copy 2 1", "add 2 2 1", "sub 2 2 1", "eq 2 1", "assign 3 3"]
    return "\n".join(out) + "\n"


def multiples(c, r):
    """Every special scalar on special points, all forms."""
    n = BIG[c][1]
    p = BIG[c][0]
    K = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, -1, -2, -3, n, n - 1, n + 1, n - 2, -n, 1 - n, -n - 1, 2 * n, 2 * n - 1, 2 * n + 1, n * n, n * n + 1, p, p - 1,
         (n + 1) // 2, (n - 1) // 2, 1 << 64, (1 << 64) - 1, 1 << 128, (1 << 255), (1 << 256) - 1, 1 << 256, -(1 << 300), 1 << 1000, (1 << 2000) + 1]
    out = ["start " + c]
    for P in (None, BIG[c][4], rpoint(r, c)):
        for k in K:
            out += [load(r, 1, P), "mulz 2 1 " + hx(k), "mulf 3 1 " + hx(k), "eq 2 3", "copy 3 1", "muleqz 3 " + hx(k), "muleqf 1 " + hx(k), "eq 1 2"]
    return "\n".join(out) + "\n"


def every_width(c, r, part):
    """Scalars of every bit length and around every power of two, on points of all kinds."""
    out = ["start " + c]
    for b in range(part, 258, 2):
        P = rpoint(r, c)
        out.append(load(r, 1, P))
        for k in (1 << b, (1 << b) - 1, (1 << b) + 1, -(1 << b), r.getrandbits(b) | 1 << b, (r.getrandbits(b) | 1 << b) >> r.randrange(b + 1) << r.randrange(64)):
            out.append(r.choice(["mulz 2 1 ", "mulz 2 1 ", "mulf 2 1 "]) + hx(k))
        k = r.getrandbits(256)
        for a in range(r.randrange(8), 256, r.choice([4, 8, 16, 32])):      # zero windows, windows of ones
            k = k & ~(15 << a) if r.randrange(2) else k | (15 << a)
        out += ["mulz 3 1 " + hx(k), "muleqz 1 " + hx(k ^ (1 << b)), "eq 1 3"]
    return "\n".join(out) + "\n"


def compress(c, r):
    p = BIG[c][0]
    out = ["start " + c]
    for x in list(range(0, 24)) + [p - i for i in range(1, 24)] + [-1, p, p + 1, 2 * p + 5, 1 << 300]:
        out += ["lift 1 " + hx(x), "liftn 2 " + hx(x), "rhs " + hx(x), "valid 1"]
        if lift(x % p, c):
            P = lift(x % p, c)
            out += ["enc 1", "enc 2", "dec 3 " + hx(2 * P[0]), "enc 3", "dec 3 " + hx(2 * P[0] + 1), "decself 3 " + hx(2 * P[0]), "add 3 1 2",
                    "validxy %s %s" % (hx(P[0]), hx(P[1])), "validxy %s %s" % (hx(P[0]), hx(-P[1])), "validxy %s %s" % (hx(P[0]), hx(P[1] + 1)),
                    "validnone %s %s" % (hx(P[0]), hx(P[1])), "validnone %s %s" % (hx(P[0]), hx(-P[1]))]
        out += ["%s %s %s" % (op, hx(x), hx(y)) for y in (0, 1, -1, p) for op in ("validxy", "validnone")]
    return "\n".join(out) + "\n"


# ------------------------------------------------------------ replay of the model
def aline(a):
    ix = " ".join(map(str, a["ix"]))
    op = a["op"]
    if op == "pt":
        return "pt %s %s %s" % (ix, hx(a["k"]), hx(a["y"]))
    if op == "validxy":
        return "validxy %s %s" % (hx(a["k"]), hx(a["y"]))
    if op in ("mulz", "mulf", "muleqz", "muleqf", "lift", "liftn", "dec"):
        return "%s %s %s" % (op, ix, hx(a["k"]))
    if op == "rhs":
        return "rhs " + hx(a["k"])
    return (op + " " + ix).strip()


def tok(P):
    return "inf" if not P else hx(P[0]) + " " + hx(P[1])


def tiny_driver(c, name):
    try:
        return driver(name, tiny=True)
    except CheckError as e:
        c.note({"small_parameters": "skipped", "why": str(e)[:200]})
        return None


def replay_model(c, cid, ops):
    exe = tiny_driver(c, "ecc")
    if not exe:
        return
    r = c.model("MC_Curve", env={"CURVE": cid}, timeout=600, heap="4g")
    trans = [t for t in r.prints() if t["act"]["op"] in ops]
    script = ["start secp"]
    for t in trans:
        script += ["set " + " ".join(tok(P) for P in t["pre"]), aline(t["act"])]
    lines, crash = drive(exe, "\n".join(script) + "\n", {"TINY": TINY[cid]}, timeout=300)
    got = [json.loads(x) for x in lines][1:]
    for k, t in enumerate(trans):
        want = [[hx(x) for x in P] for P in t["post"]]
        if k >= len(got) or got[k]["reg"][:2] != want or got[k]["ret"] != t["ret"] or not got[k]["valid"]:
            c.violation("replay-" + cid, "curve %s (p a b gx gy n = %s), points %s, %s: model gives %s %s, code gives %s" % (
                cid, TINY[cid], t["pre"], aline(t["act"]), want, t["ret"], (got[k]["reg"][:2], got[k]["ret"], got[k]["valid"]) if k < len(got) else crash),
                {"driver": "ecc (small curve)", "env": {"TINY": TINY[cid]}, "script": ["start secp", script[1 + 2 * k], script[2 + 2 * k]]})
            return
    c.note({"replay": "MC_Curve/" + cid, "transitions_replayed_on_code": len(trans)})
    with c.guard:
        c.traces += 1
        c.events += len(trans)


def run(c, kind, ops, fixed, per, curves):
    exe = driver("ecc")
    jobs = [lambda cid=cid: replay_model(c, cid, ops) for cid in curves]
    if kind == "group":
        jobs.append(lambda: c.model("MC_CurveBig"))
        jobs.append(lambda: c.model("MC_Num"))
    for cv in BIG:
        jobs.append(lambda cv=cv: c.trace("special-" + cv, exe, fixed(cv, c.rand("special" + cv)), "Trace_Curve", tenv={"CURVE": cv}, tlc_timeout=800))
        for part in (0, 1) if kind == "scale" else ():
            jobs.append(lambda cv=cv, part=part: c.trace("widths-%s-%d" % (cv, part), exe, every_width(cv, c.rand("w%s%d" % (cv, part)), part), "Trace_Curve",
                                                         tenv={"CURVE": cv}, timeout=280, tlc_timeout=800))
        r = c.rand("late-%s-%s" % (kind, cv))
        late = earlier(r, program(r, cv, c.scale(*{"scale": (60, 300)}.get(kind, (400, 1500))), kind).split("\n")[:-1], 1, "churn %d" % c.scale(20000, 200000), "churn 3000")
        jobs.append(lambda cv=cv, late=late: c.trace("late-" + cv, exe, "\n".join(late) + "\n", "Trace_Curve", tenv={"CURVE": cv}, timeout=600, tlc_timeout=800))
        for i in range(c.scale(1, 6)):
            r = c.rand("%s-%s-%d" % (kind, cv, i))
            jobs.append(lambda cv=cv, i=i, r=r: c.trace("program-%s-%d" % (cv, i), exe, program(r, cv, per, kind), "Trace_Curve",
                                                        tenv={"CURVE": cv}, timeout=300, tlc_timeout=800))
    c.parallel(jobs)


def e01(c):
    run(c, "group", GROUP, pairs, c.scale(2500, 6000), c.scale(["c3", "c13"], ["c3", "c5", "c7", "c11", "c13", "c17"]))


def e02(c):
    run(c, "scale", SCALE, multiples, c.scale(500, 2500), c.scale(["c5", "c13"], ["c3", "c5", "c7", "c11", "c13", "c17"]))


def e03(c):
    run(c, "comp", COMP, compress, c.scale(2500, 5000), c.scale(["c7", "c13"], ["c3", "c5", "c7", "c11", "c13", "c17"]))


def e04(c):
    exe = driver("ecc")
    jobs = [lambda: c.model("MC_CurveBig")]
    n = c.scale(260, 900)

    def big(cv):
        script = ["start " + cv, "params"]
        for op in ("scalar", "rpoint", "keypair"):
            script += [op] * n + ["spread"]
        script += ["params"] + [o for _ in range(20) for o in ("keypair", "scalar", "rpoint")]
        c.trace("draws-" + cv, exe, "\n".join(script) + "\n", "Trace_Curve", tenv={"CURVE": cv}, timeout=300, tlc_timeout=800, env={"VRD_SEED": str(c.seed)})

    def long_run(cv, what, k):
        script = "start %s\nscalar\nmany %s %d\n" % (cv, what, k) + "%s\n" % {"point": "rpoint"}.get(what, what) * 3
        c.trace("many-%s-%s" % (what, cv), exe, script, "Trace_Curve", tenv={"CURVE": cv}, timeout=600, tlc_timeout=800, env={"VRD_SEED": str(c.seed + 9)})

    def processes(cv):
        c.processes("processes-" + cv, exe, "start %s\nscalar\n" % cv, "start %s\n" % cv + "scalar\nrpoint\nkeypair\n" * 4, "Trace_Curve", tenv={"CURVE": cv})
    tiny = tiny_driver(c, "ecc")

    def small(cid):
        script = ["start secp"] + ["dist %s 20000" % w for w in ("scalar", "point", "keypair", "ss", "pp", "kk", "sp", "ps", "sk", "ks", "pk", "kp") + (("sss", "pps", "ksp", "spk", "kps") if cid in ("c3", "c5", "c7") else ())]
        c.trace("distribution-" + cid, tiny, "\n".join(script) + "\n", "Trace_Curve", env={"TINY": TINY[cid], "VRD_SEED": str(c.seed)}, tenv={"CURVE": cid})
    for cv in BIG:
        jobs += [lambda cv=cv: big(cv), lambda cv=cv: processes(cv)]
        for what, k in (("scalar", c.scale(20000, 140000)), ("keypair", c.scale(3000, 40000)), ("point", c.scale(3000, 40000))):
            jobs.append(lambda cv=cv, what=what, k=k: long_run(cv, what, k))
    if tiny:
        jobs += [lambda cid=cid: small(cid) for cid in c.scale(["c5", "c13"], ["c3", "c5", "c7", "c11", "c13", "c17", "c31"])]
    c.parallel(jobs)
