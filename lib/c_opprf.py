"""R01-R04: threshold evaluations."""
from vlib import *
from gen import *

TR = "Trace_Opprf"
SPECIAL = [0, 1, 2, 3, 255, 256, 0x7fff, 0x8000, 0x8001, 0xaaaa, 0x5555, 0xfffe, 0xffff, 1000, 0x00ff, 0xff00]


def seeded(c, i):
    return {"VRD_SEED": str(c.seed * 1000 + i)}


def theta_of(r):
    return r.choice(SPECIAL) if r.randrange(2) else r.randrange(65536)


def secret(r):
    return hx(r.choice([1, 2, SECP_N - 1, r.randrange(1, SECP_N), r.randrange(1, SECP_N), r.getrandbits(64) | 1]))


def inputs(r, theta, n, above=None):
    """Inputs around the threshold, of both sides unless one is asked for."""
    pool = [theta, theta - 1, theta + 1, 0, 65535, theta // 2, theta ^ 1, theta ^ 0x8000] + [theta ^ (1 << k) for k in range(16)] + \
           [(theta >> k << k) - 1 for k in range(1, 16)] + [((theta >> k) + 1) << k for k in range(1, 16)] + [r.randrange(65536) for _ in range(6)]
    pool = [x for x in pool if 0 <= x < 65536 and (above is None or (x > theta) == above)]
    return [r.choice(pool) for _ in range(n)] if pool else []


def glass(s=1, sec="7", clean=True):
    return ["secret %d %s" % (s, sec), "prepare %d" % s] + ["glassround %d %d" % (s, j) for j in range(16, 0, -1)] + ["glassmasks %d" % s] + \
           (["sclean %d" % s] if clean else [])


def session(c, s, x, sec):
    return ["secret %d %s" % (s, sec), "msg %d %d" % (c, x), "prepare %d" % s] + ["round %d %d %d" % (c, s, j) for j in range(16, 0, -1)] + \
           ["unmask %d %d" % (c, s), "sclean %d" % s, "cclean %d" % c]


def broken(r, c, s, x, sec):
    """A session that is given up, or spoilt by a damaged message, and cleaned up."""
    k = r.choice([1, 2, 3, 4, 8, 12, 17, 18, 19, 19])
    out = session(c, s, x, sec)[:k]
    bad = r.randrange(3)
    if k == 19 and bad:
        out.append("unmaskbad %d %d" % (c, s))
    elif 4 <= k < 19 and bad:
        j = 16 - (k - 3)
        out.append("roundbad %d %d %d %d" % (c, s, j, r.choice([i for i in range(1, 16) if i != j])))
    ends = ["sclean %d" % s, "cclean %d" % c]
    r.shuffle(ends)
    return out + ends


def glass_thetas(r, thetas, start="start"):
    out = [start, "crs dec"]
    for i, th in enumerate(thetas):
        out += ["server %d %d" % (i + 1, th)] + glass(i + 1, secret(r))
    return out


def single_runs(r, pairs):
    """Each pair with objects of its own."""
    out = ["start"]
    for i, (th, x) in enumerate(pairs):
        if i % 3 == 0:
            out.append("crs " + r.choice(["any", "any", "messy", "dec"]))
        out += ["server %d %d" % (i + 1, th), "client %d" % (i + 1)] + session(i + 1, i + 1, x, secret(r))
    return out


def go(c, jobs, label, out, i, **k):
    exe = driver("opprf")
    jobs.append(lambda: c.trace(label, exe, "\n".join(out) + "\n", TR, env=seeded(c, i), timeout=600, tlc_timeout=800, **k))


def models(c, jobs):
    jobs.append(lambda: c.model("MC_Opprf", workers=2))
    jobs.append(lambda: c.model("MC_Opprf", "MC_OpprfWide.cfg", workers=2))
    if c.thorough:
        jobs.append(lambda: c.model("MC_Opprf", "MC_OpprfDeep.cfg", workers=4, timeout=2000, heap="6g"))


def r01(c):
    jobs = []
    models(c, jobs)
    for k in range(c.scale(4, 24)):
        r = c.rand("single%d" % k)
        pairs = []
        for _ in range(c.scale(7, 20)):
            th = theta_of(r)
            pairs += [(th, x) for x in inputs(r, th, 1, above=False)]
        pairs[0] = (pairs[0][0], pairs[0][0])          # equality
        if k == 0:
            pairs[1:4] = [(0, 0), (65535, 65535), (65535, 0)]
        go(c, jobs, "runs-%d" % k, single_runs(r, pairs), k)
    for k in range(c.scale(3, 24)):
        r = c.rand("glass%d" % k)
        ths = [theta_of(r) for _ in range(c.scale(5, 12))]
        ths[:3] = [[0, 0xffff, 0x8000], [1, 0xfffe, 0x7fff], [0xaaaa, 0x5555, 1000]][k % 3]
        go(c, jobs, "glass-%d" % k, glass_thetas(r, ths), 100 + k)
    c.parallel(jobs)


def r02(c):
    jobs = []
    models(c, jobs)
    jobs.append(lambda: c.model("MC_Opprf", "MC_OpprfHide.cfg", workers=2))
    for k in range(c.scale(3, 20)):
        r = c.rand("above%d" % k)
        pairs = []
        for _ in range(c.scale(6, 20)):
            th = min(theta_of(r), 65534)
            pairs += [(th, x) for x in inputs(r, th, 1, above=True)]
        if k == 0:
            pairs[:4] = [(0, 1), (0, 65535), (65534, 65535), (0x7fff, 0x8000)]
        go(c, jobs, "runs-%d" % k, single_runs(r, pairs), k)
    for k in range(c.scale(4, 30)):
        r = c.rand("glass%d" % k)
        ths = [theta_of(r) for _ in range(c.scale(6, 12))]
        ths[:3] = [[0, 0xffff, 0x8000], [1, 0xfffe, 0x7fff], [0xaaaa, 0x5555, 1000], [0xff00, 0x00ff, 0x0ff0]][k % 4]
        go(c, jobs, "glass-%d" % k, glass_thetas(r, ths) + ["spread keys"] + (["spread ok"] if len(ths) * 16 >= 200 else []), 100 + k)
    c.parallel(jobs)


def interleaved(r, n):
    """Several servers and clients on one reference string; each pair's session advances at its own pace."""
    ns, nc = 3, 3
    out = ["start", "crs " + r.choice(["any", "messy", "dec"])]
    th = {}
    for s in range(1, ns + 1):
        th[s] = theta_of(r)
        out.append("server %d %d" % (s, th[s]))
    out += ["client %d" % k for k in range(1, nc + 1)]
    free_s, free_c, active, done = list(th), list(range(1, nc + 1)), [], 0
    while done < n or active:
        if done + len(active) < n and free_s and free_c and r.randrange(4) == 0:
            s, k = r.choice(free_s), r.choice(free_c)
            free_s.remove(s), free_c.remove(k)
            active.append([k, s, (broken(r, k, s, r.randrange(65536), secret(r)) if r.randrange(3) == 0 else []) + session(k, s, inputs(r, th[s], 1)[0], secret(r))])
        if active:
            a = r.choice(active)
            for _ in range(r.choice([1, 1, 2, 5])):
                if a[2]:
                    out.append(a[2].pop(0))
            if not a[2]:
                active.remove(a)
                free_s.append(a[1]), free_c.append(a[0])
                done += 1
    return out


def r03(c):
    jobs = []
    models(c, jobs)
    for k in range(c.scale(3, 16)):          # the same two objects again and again
        r = c.rand("again%d" % k)
        th = [1000, 0xffff, 0, 0x8000, 0xaaaa][k % 5] if k < 5 else theta_of(r)
        xs = inputs(r, th, c.scale(6, 30))
        xs[1:4] = [min(th + 1, 65535), th, max(th - 1, 0)]
        out = ["start", "crs any", "server 1 %d" % th, "client 1"]
        same = secret(r)
        for i, x in enumerate(xs):
            out += session(1, 1, x, same if i % 2 else secret(r))
            if i % 2:
                out += broken(r, 1, 1, r.choice(xs), same if i % 3 else secret(r))
        go(c, jobs, "again-%d" % k, out, k)
    for k in range(c.scale(3, 16)):
        go(c, jobs, "interleaved-%d" % k, interleaved(c.rand("inter%d" % k), c.scale(6, 30)), 50 + k)
    for k in range(c.scale(2, 8)):           # everything a server sends over successive sessions is new
        r = c.rand("glass%d" % k)
        out = ["start", "crs dec", "server 1 %d" % theta_of(r), "server 2 %d" % theta_of(r)]
        same = secret(r)
        for i in range(c.scale(6, 30)):
            s = 1 + i % 2 * r.randrange(2)
            out += glass(s, same if i % 3 else secret(r))
            if i % 3 == 1:                    # a session given up half way
                out += glass(s, same)[:r.randrange(1, 20)] + ["sclean %d" % s]
        go(c, jobs, "glass-%d" % k, out, 100 + k)
    for k in range(c.scale(1, 4)):           # ... also after many sessions of which only the keys are looked at, or nothing
        r = c.rand("long%d" % k)
        out = ["start", "crs dec", "server 1 %d" % theta_of(r), "server 2 %d" % theta_of(r), "client 1", "secret 1 " + secret(r), "secret 2 " + secret(r)]
        out += ["prepare %d" % (1 + i % 7 // 6) + "\nsclean %d" % (1 + i % 7 // 6) for i in range(c.scale(80, 400))]
        out += ["churn 1 %d" % c.scale(30, 200)] + glass(1, secret(r)) + session(1, 1, 700, secret(r)) + glass(2, secret(r)) + glass(1, secret(r))
        go(c, jobs, "long-%d" % k, out, 130 + k)
    # sessions of two processes with the system's entropy share nothing
    def processes():
        exe = driver("opprf")
        out = "\n".join(["start", "crs dec", "server 1 1000"] + glass(1)) + "\n"
        c.processes("processes", exe, out, out, TR, n=c.scale(3, 12), timeout=300)
    jobs.append(processes)
    c.parallel(jobs)


def r04(c):
    jobs = []
    models(c, jobs)
    exe = driver("opprf")
    n = c.scale(8, 8)
    per = c.scale(12, 40)

    def order():
        parts = []
        scripts = []
        for k in range(n):
            r = c.rand("order%d" % k)
            # thresholds whose relations are all reachable early
            ths = [r.choice([0x5555, 0xaaaa, 0x4000 + r.randrange(0x4000), 0x8000 + r.randrange(0x4000), r.randrange(1, 65535)]) for _ in range(2)]
            out = ["start", "crs dec", "server 1 %d" % ths[0], "server 2 %d" % ths[1]]
            for i in range(per):
                out += glass(1 + (i % 2), secret(r))
            scripts.append("\n".join(out) + "\n")
        res = c.parallel([lambda s=s, k=k: drive(exe, s, seeded(c, k), 600) for k, s in enumerate(scripts)])
        for lines, crash in res[:-1]:
            parts += lines
            if crash:
                parts.append(json.dumps({"op": "crash", "why": crash[-300:]}))
        c.trace("order", exe, "start\n", TR, post=lambda lines: parts + res[-1][0] + ['{"op":"spread","what":"order"}'], timeout=600, tlc_timeout=850)
    jobs.append(order)

    def processes():
        r = c.rand("proc")
        out = "\n".join(["start", "crs dec", "server 1 1000"] + glass(1, "5") + glass(1, "6") + ["spread process"]) + "\n"
        res = c.parallel([lambda: drive(exe, out, {"VRD_FREEZE": "1"}, 300) for _ in range(2)])
        c.trace("processes", exe, out, TR, env={"VRD_FREEZE": "1"}, timeout=300, tlc_timeout=600, post=lambda lines: res[0][0] + res[1][0] + lines)
    jobs.append(processes)
    c.parallel(jobs)
