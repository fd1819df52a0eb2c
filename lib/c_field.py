"""F01, F02: programs over field variables."""
import json
from vlib import *
from gen import *

PR = {"secp_p": SECP_P, "secp_n": SECP_N, "bn_p": BN_P, "bn_n": BN_N}
ARITH = ["add", "sub", "mul", "addeq", "subeq", "muleq", "neg", "muli", "muleqi", "sq", "copy", "assign", "swapcopy", "eq", "eqmod", "load"]
INVS = ["inv", "div", "diveq"]
THREE = {"add", "sub", "mul", "div"}
ONE = {"load", "muleqi"}


def line(op, ix, k=None):
    return " ".join([op] + [str(i) for i in ix] + ([hx(k)] if k is not None else []))


def act_line(a):
    return line(a["op"], a["ix"], a["k"] if a["op"] in ("load", "muli", "muleqi") else None)


def replay_model(c, ops, p=7):
    """Every transition of the model over a small field, replayed on the real classes linked with that modulus."""
    try:
        exe = driver("field", tiny=True)
    except CheckError as e:
        c.note({"replay": "skipped", "why": str(e)[:200]})
        return
    r = c.model("MC_Field", timeout=300)
    trans = [t for t in r.prints() if t["act"]["op"] in ops]
    script = ["start secp_p"]
    for t in trans:
        script += ["set " + " ".join(hx(v) for v in t["pre"]), act_line(t["act"])]
    lines, crash = drive(exe, "\n".join(script) + "\n", {"TINY": "%d 0 3 1 2 %d" % (p, p)})
    got = [json.loads(x) for x in lines][1:]
    for k, t in enumerate(trans):
        want = [hx(v) for v in t["post"]]
        if k >= len(got) or got[k]["reg"][:2] != want or got[k]["ret"] != t["ret"]:
            c.violation("replay-small-field", "modulus %d, registers %s, %s: model gives %s %s, code gives %s" % (
                p, t["pre"], act_line(t["act"]), want, t["ret"], (got[k]["reg"][:2], got[k]["ret"]) if k < len(got) else crash),
                {"driver": "field (small modulus %d)" % p, "script": ["start secp_p", script[1 + 2 * k], script[2 + 2 * k]]})
            return
    c.note({"replay": "MC_Field", "transitions_replayed_on_code": len(trans), "modulus": p})
    with c.guard:
        c.traces += 1
        c.events += len(trans)


def program(r, f, n, ops):
    """A straight-line program over 4 registers; a shadow evaluation only steers it away from division by zero."""
    p = PR[f]
    v = [0] * 5
    out = ["start " + f]
    for s in range(n):
        op = r.choice(ops)
        if r.randrange(4) == 0 or s < 4:
            op = "load"
        a, b, d = (r.randrange(1, 5) for _ in range(3))
        if r.randrange(4) == 0:
            b = a
        if r.randrange(4) == 0:
            d = a
        k = None
        if op == "load":
            d = s + 1 if s < 4 else d
            if r.randrange(5) == 0:      # related to a present value: equal, opposite, inverse, unreduced
                w = v[a]
                k = r.choice([w, -w, w + p, w - p, p - w, 2 * p - w, w + 1, w - 1, (pow(w, -1, p) if w else 0), p - w + 1, p - w - 1, (1 << 256) - w, (1 << 255) - w,
                              w >> 1, w >> 64, w << 64, w ^ (1 << r.randrange(256)), (2 * pow(w, -1, p) if w else 0), (-pow(w, -1, p) if w else 0)])
            else:
                k = anyint(r, p)
            v[d] = k % p
            out.append(line(op, [d], k))
            continue
        if op in ("inv",) and v[a] == 0 or op in ("div", "diveq") and v[b] == 0:
            continue
        inv = lambda w: pow(w, -1, p)
        if op in ("muli", "muleqi"):
            k = anyint(r, p)
        if op in THREE:
            out.append(line(op, [d, a, b]))
            v[d] = {"add": v[a] + v[b], "sub": v[a] - v[b], "mul": v[a] * v[b], "div": v[a] * inv(v[b]) if op == "div" else 0}[op] % p
        elif op in ("addeq", "subeq", "muleq", "diveq"):
            out.append(line(op, [a, b]))
            v[a] = {"addeq": v[a] + v[b], "subeq": v[a] - v[b], "muleq": v[a] * v[b], "diveq": v[a] * inv(v[b]) if op == "diveq" else 0}[op] % p
        elif op == "muleqi":
            out.append(line(op, [a], k))
            v[a] = v[a] * k % p
        else:
            out.append(line(op, [d, a], k))
            if op in ("eq", "eqmod"):
                continue
            v[d] = {"neg": -v[a], "muli": v[a] * (k or 0), "sq": v[a] * v[a], "copy": v[a], "assign": v[a], "swapcopy": v[a],
                    "inv": inv(v[a]) if op == "inv" else 0}[op] % p
    return "\n".join(out) + "\n"


def boundary(f, ops):
    """All pairs of boundary values through every operation."""
    p = PR[f]
    B = [0, 1, 2, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, 1 << 255, 1 << 128, (1 << 64) - 1, (1 << 192) + (1 << 64)]
    B = [b % p for b in B]
    out = ["start " + f]
    for a in B:
        for b in B:
            out += [line("load", [1], a), line("load", [2], b)]
            for op in ops:
                if op in ("inv", "load") or op in INVS and b == 0:
                    continue
                if op in THREE:
                    out.append(line(op, [3, 1, 2]))
                elif op in ("addeq", "subeq", "muleq", "diveq"):
                    out += [line("copy", [3, 1]), line(op, [3, 2])]
                elif op in ("eq", "eqmod"):
                    out.append(line(op, [1, 2]))
        for op in ops:
            if op in ("neg", "sq") or op == "inv" and a:
                out.append(line(op, [4, 1]))
        if "muli" in ops:
            for k in (0, 1, -1, p, p + 1, -p, 2 * p, 1 << 64, -(1 << 64), 1 << 300):
                out += [line("muli", [4, 1], k), line("muleqi", [4], k), line("load", [4], k)]
    return "\n".join(out) + "\n"


def widths(r, f, ops):
    """Values of every bit length, alone and against each other, next to the powers of two as well."""
    p = PR[f]
    out = ["start " + f]
    for b in range(1, p.bit_length() + 1):
        for v in (1 << (b - 1), (1 << b) - 1, r.getrandbits(b) | 1 << (b - 1), r.getrandbits(b) | 1 << (b - 1)):
            w = r.getrandbits(r.randrange(1, 257)) or 1
            out += [line("load", [1], v), line("load", [2], w)]
            for op in ops:
                if op in ("inv", "div", "diveq") and (v % p == 0 or w % p == 0):
                    continue
                if op in THREE:
                    out += [line(op, [3, 1, 2]), line(op, [3, 2, 1])]
                elif op in ("neg", "sq", "inv"):
                    out.append(line(op, [4, 1]))
                elif op in ("muli",):
                    out.append(line(op, [4, 1], r.choice([-1, 1]) * r.getrandbits(r.randrange(1, 600))))
                elif op == "eq":
                    out.append(line(op, [1, 2]))
                elif op in ("addeq", "subeq", "muleq", "diveq") and v % 4 == 1:
                    out += [line("copy", [3, 1]), line(op, [3, 2])]
    return "\n".join(out) + "\n"


def run(c, ops, label):
    exe = driver("field")
    jobs = [lambda: replay_model(c, set(ops))]
    n, per = c.scale((1, 3000), (6, 6000))
    for f in PR:
        jobs.append(lambda f=f: c.trace("boundary-" + f, exe, boundary(f, ops), "Trace_Field"))
        jobs.append(lambda f=f: c.trace("widths-" + f, exe, widths(c.rand("widths" + f), f, ops), "Trace_Field"))
        r = c.rand("late-%s-%s" % (label, f))
        late = earlier(r, program(r, f, 1000, ops).split("\n")[:-1], 1, "churn %d" % c.scale(300000, 3000000), "churn 70000")
        jobs.append(lambda f=f, late=late: c.trace("late-" + f, exe, "\n".join(late) + "\n", "Trace_Field", tlc_timeout=800))
        for i in range(n):
            r = c.rand("%s-%s-%d" % (label, f, i))
            jobs.append(lambda f=f, i=i, r=r: c.trace("program-%s-%d" % (f, i), exe, program(r, f, per, ops), "Trace_Field", tlc_timeout=800))
    c.parallel(jobs)


def f01(c):
    run(c, ARITH, "arith")


def f02(c):
    run(c, INVS + ["mul", "eq", "load", "copy", "assign"], "inv")
