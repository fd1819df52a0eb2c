"""G01: ElGamal encryption."""
from vlib import *
from gen import *
from c_ecc import TINY, tiny_driver

TR = "Trace_ElGamal"
LIM = 1 << 234


def seeded(c, i):
    return {"VRD_SEED": str(c.seed * 1000 + i)}


def message(r):
    k = r.randrange(8)
    if k == 7:
        return r.choice(MANY_TRIES[20])
    if k == 0:
        return r.choice([0, 1, 2, LIM - 1, LIM - 2, LIM // 2, 0xff, (1 << 64) - 1, 1 << 64, 1 << 32])
    if k == 1:
        return r.getrandbits(r.randrange(1, 235))
    if k == 2:
        return 1 << r.randrange(234)
    if k == 3:
        return (1 << r.randrange(1, 235)) - 1
    return r.randrange(LIM)


def scalar(r):
    return r.choice([1, 2, 3, SECP_N - 1, SECP_N - 2, SECP_N // 2, r.getrandbits(64) + 1, r.randrange(1, SECP_N), r.randrange(1, SECP_N), r.randrange(1, SECP_N)])


def history(r, n, objects=2):
    """Keys come and go, ciphertexts are kept and decrypted later, several objects share keys."""
    out = ["start %d" % objects, "keygen 0 1"]
    keys, cts, nk, nc = [1], [], 1, 0
    for _ in range(n):
        k = r.randrange(12)
        if k == 0:
            nk += 1
            keys.append(nk)
            out.append("keygen %d %d" % (r.randrange(objects), nk))
        elif k == 1:
            nk += 1
            keys.append(nk)
            out.append("setkey %d %x" % (nk, scalar(r)))
        elif k < 6:
            nc += 1
            cts.append((nc, r.choice(keys)))
            out.append("encint %d %d %d %x" % (r.randrange(objects), nc, cts[-1][1], message(r)))
        elif k < 8:
            nc += 1
            cts.append((nc, r.choice(keys)))
            out.append("encpt %d %d %d %x" % (r.randrange(objects), nc, cts[-1][1], scalar(r)))
        elif cts:
            i, key = cts[r.randrange(len(cts))]
            out.append("dec %d %d %d" % (r.randrange(objects), i, key))
            if r.randrange(4) == 0:          # under another key
                out.append("dec %d %d %d" % (r.randrange(objects), i, r.choice(keys)))
    return out + ["dec %d %d %d" % (r.randrange(objects), i, key) for i, key in cts]


def g01(c):
    exe = driver("elgamal")
    jobs = [lambda: c.model("MC_ElGamal", env={"CURVE": "c43" if c.thorough else "c31"}, workers=4, timeout=1500)]

    def go(label, out, i, **k):
        jobs.append(lambda: c.trace(label, exe, "\n".join(out) + "\n", TR, env=seeded(c, i), tenv={"CURVE": "secp"}, timeout=400, tlc_timeout=800, **k))
    for k in range(c.scale(4, 24)):
        go("history-%d" % k, history(c.rand("h%d" % k), c.scale(150, 600), 1 + k % 3), k)
    # every length of message, both ends of each
    r = c.rand("lengths")
    out = ["start 1", "keygen 0 1"]
    for b in range(c.scale(8, 1), 235, c.scale(9, 1)):
        for m in (1 << (b - 1), (1 << b) - 1):
            out += ["encint 0 1 1 %x" % m, "dec 0 1 1"]
    for m in [0, 1, LIM - 1, LIM - 2] + list(range(2, c.scale(40, 400))):
        out += ["encint 0 1 1 %x" % m, "dec 0 1 1"]
    go("lengths", out, 90)
    out = ["start 1"] + ["keygen 0 %d" % i for i in range(1, c.scale(230, 900))] + ["spread sk"]
    out += ["encint 0 1 %d %x" % (1 + i % 20, message(r)) for i in range(c.scale(230, 900))] + ["spread u"]
    go("draws", out, 91)

    out = ["start 2", "keygen 0 1", "many 0 %d" % c.scale(1500, 15000)] + ["keygen 1 2", "encint 1 1 2 5", "encpt 0 2 2 7", "dec 0 1 2", "dec 1 2 2"]
    go("many", out, 92)
    r = c.rand("late")
    out = history(r, c.scale(60, 300))
    go("late", earlier(r, out, 1, "churn 0 %d" % c.scale(1200, 12000), "churn 1 150"), 93)

    def processes():
        s = "\n".join(["start 1", "keygen 0 1", "encint 0 1 1 5", "encpt 0 2 1 7", "setkey 2 9", "encint 0 3 2 5", "keygen 0 3"]) + "\n"
        c.processes("processes", exe, "start 1\nkeygen 0 1\nencint 0 1 1 5\n", s, TR, tenv={"CURVE": "secp"}, n=c.scale(150, 600))
    jobs.append(processes)
    tiny = tiny_driver(c, "elgamal")
    if tiny:
        for cid in c.scale(["c5", "c13"], ["c3", "c5", "c7", "c11", "c13", "c17", "c31"]):
            n = int(TINY[cid].split()[5])
            out = ["start 1"] + ["dist keys 0 0 20000", "dist keys2 0 0 20000"]
            out += ["dist enc %d %d 20000" % (s, m) for s in range(n) for m in range(n)] if n <= 13 else ["dist enc %d %d 20000" % (s, m) for s in (0, 1, 2, n - 1) for m in (0, 1, n - 2)]
            out += ["dist enc2 %d %d 20000" % (s, m) for s in (1, n - 1) for m in (0, 1)] + ["dist all 0 %d 20000" % m for m in (0, 1, n - 1)]
            jobs.append(lambda cid=cid, out=out: c.trace("distribution-" + cid, tiny, "\n".join(out) + "\n", TR, env={"TINY": TINY[cid], "VRD_SEED": str(c.seed)}, tenv={"CURVE": cid}, timeout=280, tlc_timeout=800))
    c.parallel(jobs)
