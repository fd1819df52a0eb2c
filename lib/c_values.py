"""V01: equality, copying and assignment of the library's values."""
from vlib import *
from gen import *

KINDS = {"fp": "f", "fn": "f", "bp": "f", "bn": "f", "ps": "p", "pb": "p", "crs": "pppp", "tdm": "ss", "tdd": "s", "pk": "pp", "kp": "pps",
         "ct": "pp", "ect": "pp", "ekp": "ps", "ckp": "pn", "share": "ss", "curve": "nnnnn", "raw": "xxc"}
PR = {"fp": SECP_P, "fn": SECP_N, "bp": BN_P, "bn": BN_N}
CURVE = [SECP_P, SECP_P - 3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b, SECP_N, 1]


def modulus(t, kind):
    return PR.get(t) or (SECP_N if kind in "sp" else SECP_P if kind == "x" else 1 << 256)


def comp(r, t, kind, k, cur=None):
    """A component: often close to the present one."""
    if kind == "c":
        return r.randrange(8)
    if kind == "p":
        return r.choice([0, 1, 1, 2, 3, 5, SECP_N - 1 if t != "pb" else BN_N - 1, r.randrange(1, BN_N)])
    if kind == "n" and t == "curve" and r.randrange(2):
        return CURVE[k]
    p = modulus(t, kind)
    if cur is not None and r.randrange(2):
        return r.choice([cur, cur ^ 1, cur ^ (1 << r.randrange(256)), cur ^ (1 << 255), cur + (p if kind != "n" else 0), cur ^ (1 << 64), cur ^ (1 << 32)])
    v = fel(r, p)
    return v + p if kind in "fsx" and r.randrange(6) == 0 else v


def program(r, t, n):
    ks = KINDS[t]
    out = ["start " + t]
    sh = {i: [0] * len(ks) for i in range(1, 5)}
    for s in range(n):
        i, j = r.randrange(1, 5), r.randrange(1, 5)
        w = r.randrange(8)
        if w < 2 or s < 2:
            if r.randrange(3):           # equal to another one but for at most one component
                a = list(sh[j])
                if r.randrange(3):
                    k = r.randrange(len(ks))
                    a[k] = comp(r, t, ks[k], k, a[k])
            else:
                a = [comp(r, t, q, k) for k, q in enumerate(ks)]
            out.append("make %d %s" % (i, " ".join(hx(v) for v in a)))
            sh[i] = a
        elif w < 4:
            if i != j:
                out.append("copy %d %d" % (i, j))
                sh[i] = list(sh[j])
        elif w < 6:
            out.append("assign %d %d" % (i, j))
            sh[i] = list(sh[j])
        else:
            k = r.randrange(len(ks))
            v = sh[j][k] if r.randrange(3) == 0 else comp(r, t, ks[k], k, sh[i][k])
            if ks[k] == "c" or t != "raw" or sh[i][2]:
                out.append("set %d %d %s" % (i, k + 1, hx(v)))
                if t == "raw" and ks[k] == "c" and v and not sh[i][2]:
                    out.pop()
                    continue
                sh[i][k] = v
                if t == "raw" and sh[i][2] == 0:
                    sh[i] = [0, 0, 0]
    return "\n".join(out) + "\n"


def one_component(r, t, reps):
    """Pairs that differ in exactly one component, for every component, and pairs that do not differ."""
    ks = KINDS[t]
    out = ["start " + t]
    for _ in range(reps):
        base = [comp(r, t, q, k) for k, q in enumerate(ks)]
        if t == "raw":
            base[2] = base[2] or 1
        for k, q in enumerate(ks):
            a = list(base)
            m = modulus(t, q)
            a[k] = r.choice([x for x in ((1, 2, 3, 4, 5, 6, 7, 0) if q == "c" else (0, 1, 2, 7)) if x != base[k]]) if q in "cp" else \
                r.choice([base[k] ^ 1, base[k] ^ (1 << 255), base[k] ^ (1 << r.randrange(200)), base[k] + 1, 0])
            if q == "p":
                a[k] = r.choice([(-base[k]) % (BN_N if t == "pb" else SECP_N), base[k] + 1, 0, 1])
            for v, w in ((1, base), (2, a), (3, base), (4, a)):
                out.append("make %d %s" % (v, " ".join(hx(x) for x in w)))
    return "\n".join(out) + "\n"


def model_replay(c, exe):
    """Every transition of the model, on every type with as many components."""
    import json as _j
    trans = {}
    for K in (1, 2, 3):
        trans[K] = list(c.model("MC_Values", env={"K": str(K), "EMIT": "1"}).prints())
    c.model("MC_Values", env={"K": "4"}, timeout=300)
    r = c.rand("replay")
    jobs = []
    for t, ks in KINDS.items():
        if t == "raw":
            continue
        K = len(ks)
        ts = list(trans[min(K, 3)])
        r.shuffle(ts)
        ts = ts[:c.scale(150 if "p" in ks else 400, 2500)]
        enc = [[comp(r, t, q, k), None] for k, q in enumerate(ks)]
        for k, q in enumerate(ks):
            while enc[k][1] in (None, enc[k][0]) or (q in "fsx" and (enc[k][1] - enc[k][0]) % modulus(t, q) == 0):
                enc[k][1] = comp(r, t, q, k)
        pad = r.randrange(K) if K > 3 else None
        def tup(v):
            v = list(v)
            while len(v) < K:
                v.append(v[0])
            return " ".join(hx(enc[k][b]) for k, b in enumerate(v))
        out = ["start " + t]
        for x in ts:
            a = x["act"]
            out += ["make %d %s" % (i + 1, tup(x["pre"][i])) for i in range(3)]
            out.append("make %d %s" % (a["i"], tup(a["args"])) if a["op"] == "make" else
                       "set %d %d %s" % (a["i"], a["k"], hx(enc[a["k"] - 1][a["arg"]])) if a["op"] == "set" else
                       "%s %d %d" % (a["op"], a["i"], a["j"]))
        jobs.append((t, "\n".join(out) + "\n"))
    c.parallel([lambda t=t, s=s: c.trace("replay-" + t, exe, s, "Trace_Values", tlc_timeout=800) for t, s in jobs])


def lives(r, n):
    """Instances are copied, assigned, used and destroyed in every order."""
    out = ["start inst"]
    kinds = [("dme", "messy"), ("dme", "dec"), ("dme", "any"), ("dmhe", "messy"), ("dmhe", "dec"), ("elgamal", ""), ("secp", ""), ("bn", "")]
    live = {}
    nxt = 1

    def use(i):
        out.append("use %d %s %s" % (i, live[i][1] or "-", hx(r.choice([0, 1, r.getrandbits(200), r.getrandbits(64)]))))
    for s in range(n):
        if len(live) < 3 or r.randrange(6) == 0:
            k = kinds[s % len(kinds)] if s < 16 else r.choice(kinds)
            out.append(("new %d %s %s" % (nxt, k[0], k[1])).strip())
            live[nxt] = k
            nxt += 1
        i = r.choice(list(live))
        w = r.randrange(6)
        if w < 2:
            j = nxt
            nxt += 1
            out.append("dup %d %d" % (j, i))
            live[j] = live[i]
            if r.randrange(2):
                use(j)
            if r.randrange(2):
                out.append("drop %d" % i)
                del live[i]
            use(j)
        elif w == 2:
            o = [j for j in live if live[j][0] == live[i][0]]
            j = r.choice(o)
            out.append("assign %d %d" % (i, j))
            live[i] = live[j]
            use(i)
            if i != j and r.randrange(2):
                out.append("drop %d" % j)
                del live[j]
                use(i)
        elif w == 3 and live[i][0] in ("dme", "dmhe"):
            out.append("import %d %d" % (nxt, i))
            live[nxt] = ("dmhe", "any")
            use(nxt)
            if r.randrange(2):
                out.append("drop %d" % i)
                del live[i]
            use(nxt)
            nxt += 1
        elif w == 4 and len(live) > 2:
            out.append("drop %d" % i)
            del live[i]
        else:
            use(i)
        if len(live) > 8:
            i = r.choice(list(live))
            out.append("drop %d" % i)
            del live[i]
    for i in list(live):
        use(i)
        out.append("drop %d" % i)
    return "\n".join(out) + "\n"


def near(r, reps):
    """Instances whose reference strings share all components but one are assigned to each other, in every direction."""
    out = ["start inst"]
    for rep in range(reps):
        kind = ("dme", "dmhe")[rep % 2]
        for mode in ("messy", "dec", "any"):
            for k in (0, 1, 2, 3, 4):
                out += ["new 1 %s %s" % (kind, mode), "near 2 1 %d %s" % (k, hx(r.randrange(1, SECP_N))), "near 3 2 %d %s" % (r.randrange(5), hx(r.randrange(1, SECP_N))), "dup 4 1"]
                sh = {1: mode, 2: "any", 3: "any", 4: mode}
                for a, b in r.choice([[(2, 1)], [(1, 2)], [(2, 1), (1, 3)], [(1, 3), (3, 4)], [(4, 2), (2, 1)], [(3, 1), (3, 2)]]):
                    out.append("assign %d %d" % (a, b))
                    sh[a] = sh[b]
                    out.append("use %d %s %s" % (a, sh[a], hx(r.getrandbits(100))))
                    if r.randrange(3) == 0:
                        out.append("use %d %s %s" % (b, sh[b], hx(r.getrandbits(100))))
    return "\n".join(out) + "\n"


def v01(c):
    exe = driver("values", asan=True)
    jobs = []
    for t in KINDS:
        r = c.rand("prog" + t)
        n = c.scale(150, 2000) * (1 if "p" in KINDS[t] else 2)
        jobs.append(lambda t=t, r=r, n=n: c.trace("program-" + t, exe, program(r, t, n) + one_component(r, t, c.scale(12, 100)), "Trace_Values", tlc_timeout=800))
    for i in range(c.scale(2, 8)):
        r = c.rand("lives%d" % i)
        jobs.append(lambda i=i, r=r: c.trace("instances-%d" % i, exe, lives(r, c.scale(60, 300)), "Trace_Values", timeout=400))
    jobs.append(lambda: c.trace("near", exe, near(c.rand("near"), c.scale(2, 12)), "Trace_Values", timeout=400, tlc_timeout=800))
    jobs.append(lambda: model_replay(c, exe))
    c.parallel(jobs)
