"""S01, S02: Shamir sharing."""
import itertools, json
from vlib import *
from gen import *
from c_ecc import TINY, tiny_driver


def replay(c, cid):
    exe = tiny_driver(c, "sss")
    r = c.model("MC_Shamir", env={"CURVE": cid}, timeout=600, heap="4g")
    if not exe:
        return
    cases = list(r.prints())
    script = ["start"] + ["reconraw " + " ".join(hx(v) for s in t["shares"] for v in s) for t in cases]
    lines, crash = drive(exe, "\n".join(script) + "\n", {"TINY": TINY[cid]})
    got = [json.loads(x) for x in lines][1:]
    for k, t in enumerate(cases):
        if k >= len(got) or int(got[k]["val"], 16) != t["secret"]:
            c.violation("replay-" + cid, "field of %s elements, threshold %d, shares %s: secret is %d, code gives %s" % (
                cid[1:], t["t"], t["shares"], t["secret"], got[k]["val"] if k < len(got) else crash), {"env": {"TINY": TINY[cid]}, "script": ["start", script[k + 1]]})
            return
    c.note({"replay": "MC_Shamir/" + cid, "reconstructions_replayed_on_code": len(cases)})
    with c.guard:
        c.traces += 1
        c.events += len(cases)


def selections(r, t, n, k):
    yield list(range(1, t + 1))
    yield list(range(n, n - t, -1))
    yield list(range(1, n + 1))
    for _ in range(k):
        s = r.sample(range(1, n + 1), r.randrange(t, n + 1) if r.randrange(2) else t)
        yield s


def sharing(r, sessions, big):
    out = ["start"]
    sid = 0
    live = []
    for _ in range(sessions):
        if r.randrange(3) or not live:
            t = r.choice([1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, r.randrange(1, big)])
            n = t + r.choice([0, 0, 1, 2, 5, r.randrange(0, big)])
            s = fel(r, SECP_N)
            out.append("share %d %d %d %s" % (r.randrange(4), t, n, hx(s)))
            sid += 1
            live.append((sid, t, n))
        k, t, n = r.choice(live[-6:])
        if t > 1 and r.randrange(4) == 0:                 # too few: whatever comes out, it leaves nothing behind
            out.append("recon %d %d %s" % (r.randrange(4), k, " ".join(map(str, r.sample(range(1, n + 1), r.randrange(1, t))))))
        for sel in selections(r, t, n, 2):
            out.append("recon %d %d %s" % (r.randrange(4), k, " ".join(map(str, sel))))
    return "\n".join(out) + "\n"


def s01(c):
    exe = driver("sss")
    jobs = [lambda cid=cid: replay(c, cid) for cid in ("c5", "c7")]

    def wide():
        """Many shares, large thresholds: indices beyond one and two bytes."""
        r = c.rand("wide")
        out = ["start", "share 0 3 300 " + hx(fel(r, SECP_N))]
        out += ["recon 1 1 " + " ".join(map(str, s)) for s in ([300, 299, 298], [1, 256, 257], [255, 256, 300], [44, 300, 7], [127, 128, 129])]
        out += ["share 1 2 70000 %s %s" % (hx(fel(r, SECP_N)), "1 2 65535 65536 65537 70000 4464 32768")]
        out += ["recon 2 2 " + " ".join(map(str, s)) for s in ([65536, 70000], [1, 65537], [70000, 4464], [32767, 32768], [65537, 65535])]
        out += ["share 2 %d %d %s" % (t, t + 2, hx(fel(r, SECP_N))) for t in ((40, 70) if not c.thorough else (40, 70, 150, 260))]
        out += ["recon 3 3 " + " ".join(map(str, range(42, 0, -1))), "recon 3 3 " + " ".join(map(str, range(3, 43))),
                "recon 3 4 " + " ".join(map(str, r.sample(range(1, 73), 70)))]
        if c.thorough:
            out += ["recon 3 5 " + " ".join(map(str, range(1, 153))), "recon 3 6 " + " ".join(map(str, range(262, 2, -1)))]
        c.trace("wide", exe, "\n".join(out) + "\n", "Trace_Shamir", tenv={"CURVE": "secp"}, env={"VRD_SEED": str(c.seed)}, tlc_timeout=800)

    def every():
        """Every selection in every order for small parameters, special secrets."""
        out = ["start"]
        k = 0
        for s in (0, 1, SECP_N - 1, SECP_P % SECP_N, 1 << 255):
            for n in range(1, 5):
                for t in range(1, n + 1):
                    out.append("share %d %d %d %s" % (k % 4, t, n, hx(s)))
                    k += 1
                    for m in range(t, n + 1):
                        for sel in itertools.permutations(range(1, n + 1), m):
                            out.append("recon %d %d %s" % ((k + 1) % 4, k, " ".join(map(str, sel))))
        c.trace("every-selection", exe, "\n".join(out) + "\n", "Trace_Shamir", tenv={"CURVE": "secp"}, env={"VRD_SEED": str(c.seed)}, tlc_timeout=800)
    def late():
        r = c.rand("late")
        out = earlier(r, sharing(r, c.scale(60, 200), 25).split("\n")[:-1], 1, "churn %d" % c.scale(30000, 300000), "churn 5000")
        c.trace("late", exe, "\n".join(out) + "\n", "Trace_Shamir", tenv={"CURVE": "secp"}, env={"VRD_SEED": str(c.seed + 70)}, timeout=600, tlc_timeout=800)
    jobs += [wide, every, late]
    for i in range(c.scale(2, 10)):
        r = c.rand("sharing%d" % i)
        jobs.append(lambda i=i, r=r: c.trace("sharing-%d" % i, exe, sharing(r, c.scale(120, 300), c.scale(25, 60)), "Trace_Shamir",
                                             tenv={"CURVE": "secp"}, env={"VRD_SEED": str(c.seed + i)}, tlc_timeout=800))
    c.parallel(jobs)


def s02(c):
    exe = driver("sss")
    tiny = tiny_driver(c, "sss")
    jobs = [lambda cid=cid: c.model("MC_Shamir", env={"CURVE": cid}, timeout=600, heap="4g") for cid in ("c5", "c7")]

    def small(cid, q):
        out = ["start"]
        for t in range(1, 5):
            if q ** (t - 1) > 800:
                break
            for n in (t, t + 1):
                if n < q:
                    out += ["dist %d %d %s 20000" % (t, n, hx(s)) for s in range(q)]
        c.trace("distribution-" + cid, tiny, "\n".join(out) + "\n", "Trace_Shamir", env={"TINY": TINY[cid], "VRD_SEED": str(c.seed)},
                tenv={"CURVE": cid}, tlc_timeout=800)

    def spread(i):
        """Coefficients at full size: fresh and spread over the whole field, at every position, for zero and other secrets."""
        r = c.rand("spread%d" % i)
        out = ["start"]
        for k in range(c.scale(210, 600)):
            t = 9 if i == 0 else r.choice([9, 10, 12])
            out.append("share %d %d %d %s" % (k % 4, t, t + (k % 3), hx(r.choice([0, 1, SECP_N - 1, fel(r, SECP_N), fel(r, SECP_N)]))))
        out += ["spread %d" % p for p in range(1, 9)]
        c.trace("coefficients-%d" % i, exe, "\n".join(out) + "\n", "Trace_Shamir", tenv={"CURVE": "secp"}, env={"VRD_SEED": str(c.seed + i)}, tlc_timeout=800)

    def by_threshold():
        out = ["start"]
        for t in (2, 3, 4):
            for k in range(210):
                out.append("share %d %d %d %s" % (k % 4, t, t, hx(k * 7919)))
        out += ["spread %d" % p for p in (1, 2, 3)]
        for t in (20, 33, 64):
            out.append("share 0 %d %d 5" % (t, t))
        c.trace("thresholds", exe, "\n".join(out) + "\n", "Trace_Shamir", tenv={"CURVE": "secp"}, env={"VRD_SEED": str(c.seed + 9)}, tlc_timeout=800)

    def processes():
        s = "start\n" + "share 0 4 4 1\nshare 1 3 5 2\n" * 3
        c.processes("processes", exe, "start\nshare 0 2 2 1\n", s, "Trace_Shamir", tenv={"CURVE": "secp"})

    def large():
        """Thresholds of every order of magnitude: every coefficient is new."""
        r = c.rand("large")
        out = ["start"]
        for t in [64, 65, 97, 100, 101, 102, 128, 129, 130] + c.scale([200], [255, 256, 257, 300, 400]):
            out.append("share %d %d %d %s" % (t % 4, t, t, hx(fel(r, SECP_N))))
        c.trace("large", exe, "\n".join(out) + "\n", "Trace_Shamir", tenv={"CURVE": "secp"}, env={"VRD_SEED": str(c.seed + 80)}, timeout=600, tlc_timeout=800)

    def history():
        """Many sharings by one process, and sharings after many more."""
        out = ["start"]
        for k in range(c.scale(1500, 12000)):
            out.append("share %d %d %d %s" % (k % 4, 2 + k % 2, 2 + k % 2, hx(k)))
        out += ["spread 1", "churn %d" % c.scale(20000, 300000)]
        for k in range(300):
            out.append("share %d %d %d %s" % (k % 4, 2 + k % 2, 2 + k % 2, hx(k)))
            if k % 60 == 59:
                out.append("churn 3000")
        c.trace("history", exe, "\n".join(out) + "\n", "Trace_Shamir", tenv={"CURVE": "secp"}, env={"VRD_SEED": str(c.seed + 81)}, timeout=600, tlc_timeout=800)
    if tiny:
        jobs += [lambda a=a: small(*a) for a in c.scale([("c5", 5), ("c7", 7)], [("c5", 5), ("c7", 7), ("c11", 11), ("c13", 13)])]
    jobs += [lambda i=i: spread(i) for i in range(c.scale(1, 3))] + [by_threshold, processes, large, history]
    c.parallel(jobs)
