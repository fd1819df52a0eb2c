"""A01, A02, C01, C02, U01: symmetric encryption, checksums, byte conversion, random integers."""
from vlib import *
from gen import hx, earlier

LENS = [0, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 20, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 80, 127, 128, 129]


def integer(r, n):
    """An integer of n bytes: special or random bytes, the first one not zero."""
    if n == 0:
        return 0
    k = r.randrange(8)
    b = bytearray({0: bytes(n), 1: b"\xff" * n, 2: bytes([1]) * n}.get(k) or r.getrandbits(8 * n).to_bytes(n, "big"))
    if k == 3:      # zero bytes at the end, in the middle
        for i in range(r.randrange(n), n):
            b[i] = 0
    if k == 4 and n > 2:
        for i in range(1, r.randrange(2, n)):
            b[i] = 0
    b[0] = b[0] or r.choice([1, 1, 0x80, 0xff, r.randrange(1, 256)])
    return int.from_bytes(bytes(b), "big")


def key(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice([0, 1, 2, 255, 256, (1 << 128) - 1, 1 << 127, 1 << 120, 1 << 64, (1 << 64) - 1, (1 << 120) - 1])
    if k < 4:
        return r.getrandbits(8 * r.randrange(1, 17))
    return r.getrandbits(128)


def burst(r, nbytes, width=4):
    """(shift, mask) of a non-zero error within `width` consecutive bytes of nbytes."""
    w = min(width, nbytes)
    at = r.choice([0, max(0, nbytes - w), r.randrange(0, nbytes - w + 1)])
    m = r.choice([1 << r.randrange(8 * w), r.getrandbits(8 * w), (1 << (8 * w)) - 1, r.getrandbits(8), 0x82f63b78 & ((1 << 8 * w) - 1),
                  0x1edc6f41 & ((1 << 8 * w) - 1), 0x01000000 & ((1 << 8 * w) - 1)]) or 1
    return 8 * at, m


def ivs(r):
    k = r.randrange(10)
    if k == 0:
        return ""
    if k == 1:
        return "ff" * 16
    if k == 2:
        return "ff" * 15 + "%02x" % r.randrange(0xf0, 0x100)
    if k == 3:
        return "00" * 7 + "ff" * 9
    if k == 4:
        return "%x" % r.getrandbits(64) * 0 + "".join("%02x" % r.choice([0, 0, 1, 255]) for _ in range(16))
    if k == 5:      # shorter than a block: zeros follow
        return "".join("%02x" % r.randrange(256) for _ in range(r.randrange(1, 16)))
    if k == 6:      # longer: the first sixteen bytes count
        return "".join("%02x" % r.randrange(256) for _ in range(r.randrange(17, 40)))
    return "".join("%02x" % r.randrange(256) for _ in range(16))


def cipher_program(r, n, crc, lens, inits=True):
    out = ["start"]
    pool = []                    # (key, iv count, bytes of content)
    epoch = 0
    for s in range(n):
        k = r.randrange(10)
        if k == 0 and inits:
            out.append(("init " + ivs(r)).strip())
            epoch += 1
        elif k < 6 or not pool:
            checked = crc and r.randrange(8) > 0
            kk = r.choice(pool)[0] if pool and r.randrange(3) == 0 else key(r)
            m = integer(r, r.choice(lens))
            out.append("%s %d %s %s" % ("enccrc" if checked else "enc", r.randrange(1, 4), hx(kk), hx(m)))
            nb = (m.bit_length() + 7) // 8
            pool.append((kk, checked, nb + (4 if nb else 0) if checked else nb))
        else:
            i = r.randrange(max(0, len(pool) - 12), len(pool))
            kk, checked, nb = pool[i]
            op = "deccrc" if crc and checked == (r.randrange(12) > 0) else "dec"
            use = kk
            if r.randrange(4) == 0:
                use = r.choice([key(r), kk ^ 1, kk ^ (1 << r.randrange(128)), kk ^ (1 << 127), kk >> 8, (kk << 8) & ((1 << 128) - 1), r.choice(pool)[0]])
            out.append("%s %d %s %d" % (op, r.randrange(1, 4), hx(use), i + 1))
            if nb and r.randrange(3) == 0:
                sh, m = burst(r, nb, r.choice([1, 2, 4, 4, 4, 8]))
                out[-1] += " %d %s" % (sh, hx(m))
    return "\n".join(out) + "\n"


def each_length(r, lens, crc):
    """One message of every length, opened under its key, under another one, and corrupted."""
    out = ["start"]
    for i, n in enumerate(lens):
        k = key(r)
        m = integer(r, n)
        out.append("%s 1 %s %s" % ("enccrc" if crc else "enc", hx(k), hx(m)))
        d = "deccrc" if crc else "dec"
        out.append("%s 2 %s %d" % (d, hx(k), i + 1))
        out.append("%s 2 %s %d" % (d, hx(k ^ (1 << r.randrange(128))), i + 1))
        nb = n + 4 if crc and n else n
        for _ in range(3 if crc else 1):
            if nb:
                out.append("%s 3 %s %d %d %x" % ((d, hx(k), i + 1) + burst(r, nb)))
    return "\n".join(out) + "\n"


def related(r, crc, rounds):
    """Consecutive calls that differ in one small thing: a byte of the key, of the counter, of the message, the object, nothing."""
    out, i = ["start"], 0
    for _ in range(rounds):
        k, iv, m = bytearray(r.getrandbits(128).to_bytes(16, "big")), bytearray(r.getrandbits(128).to_bytes(16, "big")), integer(r, r.choice([1, 4, 15, 16, 17, 40]))
        out.append("init " + iv.hex())
        for step in range(40):
            w = r.randrange(10)
            if w < 3:
                k[step % 16 if w else r.randrange(16)] ^= r.choice([1, 0x80, r.randrange(1, 256)])
            elif w < 6:
                iv[step % 16 if w < 5 else 15] ^= r.choice([1, 0x80, r.randrange(1, 256)])
                out.append("init " + iv.hex())
            elif w == 6:
                m ^= 1 << r.randrange(m.bit_length() + 1)
            elif w == 7:
                out.append("init " + iv.hex())
            elif w == 8:
                k = k[8:] + k[:8]
            i += 1
            out.append("%s %d %s %s" % ("enccrc" if crc else "enc", r.randrange(1, 3), k.hex(), hx(m)))
            if step % 3 == 2:
                j = r.randrange(max(1, i - 3), i + 1)
                out.append("%s %d %s %d" % ("deccrc" if crc else "dec", r.randrange(1, 3), k.hex(), j))
    return "\n".join(out) + "\n"


def relatives(r, crc, rounds):
    """Keys that look alike: opened under everything a key could be mistaken for."""
    M = (1 << 128) - 1
    ends = [0, 1, 2, 0x7f, 0x80, 0xff, 0x55]
    out, i = ["start"], 0
    rev = lambda k: int.from_bytes(k.to_bytes(16, "big")[::-1], "big")
    for n in range(rounds):
        k = r.getrandbits(128)
        a, b = ends[n % 7], ends[n // 7 % 7]
        w = n // 49 % 4
        if w == 0:
            k = k & ~255 | a
        elif w == 1:
            k = k & M >> 8 | a << 120
        elif w == 2:
            k = k & M >> 8 & ~255 | a << 120 | b
        else:
            k >>= 8 * r.randrange(1, 16)
        L = [k >> 8, k << 8 & M, k >> 16, k << 16 & M, k >> 64, k << 64 & M, k >> 1, k << 1 & M, k + 1 & M, k - 1 & M, k ^ 1, k ^ 255, k & ~255, k | 255, k & M >> 8, k & M >> 64, k & (1 << 64) - 1,
             k ^ 1 << 127, k ^ 255 << 120, k ^ M, rev(k), rev(k >> 8), k >> 8 | (k & 255) << 120, k << 8 & M | k >> 120, k >> 64 | k << 64 & M, k << 8 & M | 1, k << 8 & M | 0x80, k << 8 & M | 0xff, k >> 8 | 1 << 120,
             k >> 8 | 0x80 << 120, k >> 8 | 0xff << 120, k & ~255 | 1, k & ~255 | 0x80, k & M >> 8 | 1 << 120, k & M >> 8 | 0x80 << 120, (k >> 8) + 1, -k & M, k ^ 0x80 << 120, k ^ 0x20, 0, 1, M]
        m = integer(r, r.choice([1, 4, 16, 20]))
        i += 1
        out.append("%s 1 %s %s" % ("enccrc" if crc else "enc", hx(k), hx(m)))
        for w in dict.fromkeys(L):
            out.append("%s 2 %s %d" % ("deccrc" if crc else "dec", hx(w), i))
        out.append("%s 3 %s %d" % ("deccrc" if crc else "dec", hx(k), i))
        for w in r.sample(L, 3):              # ... and the same message under them: another ciphertext
            i += 1
            out.append("%s 1 %s %s" % ("enccrc" if crc else "enc", hx(w), hx(m)))
    return "\n".join(out) + "\n"


def crc32(b, crc=0, poly=0x82f63b78):
    for x in b:
        crc ^= x
        for _ in range(8):
            crc = crc >> 1 ^ (poly if crc & 1 else 0)
    return crc


def mistaken(r, m):
    """What may be taken for the checksum of m: errors of the four checksum bytes (written in reverse) that lead to another rule's checksum."""
    b = m.to_bytes((m.bit_length() + 7) // 8, "big")
    M = 0xffffffff
    right = crc32(b)
    raw = lambda c: int.from_bytes(c.to_bytes(4, "little"), "big")      # as the low four bytes of the integer
    sw = int.from_bytes(right.to_bytes(4, "big"), "little")
    rot = lambda k: (right << k | right >> (32 - k)) & M
    alts = [sw, right ^ M, sw ^ M, 0, M, rot(8), rot(16), rot(24), rot(1), rot(31), crc32(b, M), crc32(b, M) ^ M, crc32(b, 0, 0xedb88320), crc32(b, M, 0xedb88320) ^ M,
            crc32(b[::-1]), crc32(b"\0" + b), crc32(b + b"\0"), crc32(b[1:]), crc32(b[:-1]), crc32(b, 1), crc32(b + bytes(4)), right & 0xffff, right & 0xff, right >> 16, right >> 8, right >> 24,
            right & 0xffffff, right & ~0xff & M, right & ~0xffff & M, right & ~0x80000000, right | 0x80000000, right & 0x7fffffff ^ 0x80000000, (right + 1) & M, (right - 1) & M, len(b), sum(b) & M,
            int("{:032b}".format(right)[::-1], 2), right & 0xff000000 | right & 0xffff, right & 0xff00ff00, right & 0x00ff00ff]
    alts += [raw(a) for a in (crc32(b, M), crc32(b, M) ^ M)]
    return [e for e in dict.fromkeys(raw(right) ^ raw(a) for a in alts) if e]


def mistaken_program(r, lens, cipher):
    out, i = ["start"], 0
    for n in lens:
        m = integer(r, n)
        if cipher:
            k = key(r)
            i += 1
            out.append("enccrc 1 %s %s" % (hx(k), hx(m)))
            out += ["deccrc 2 %s %d 0 %x" % (hx(k), i, e) for e in mistaken(r, m)]
        else:
            out.append("roundtrip %s %s" % (hx(m), " ".join("0 %x" % e for e in mistaken(r, m))))
    return "\n".join(out) + "\n"


def appended(m):
    """The integer with its checksum (a generator of inputs only: what is right is said by the specification)."""
    v = 0
    raw = m.to_bytes((m.bit_length() + 7) // 8, "big")
    for b in raw:
        v ^= b
        for _ in range(8):
            v = v >> 1 ^ (0x82f63b78 if v & 1 else 0)
    return int.from_bytes(raw + v.to_bytes(4, "little"), "big")


def carrying(r, lens):
    """Integers that already carry their checksum once or more, and those next to them."""
    for n in lens:
        m = integer(r, n)
        for _ in range(3):
            a = appended(m)
            yield a
            yield a ^ 1 << r.randrange(8 * n + 32)
            yield a << 8
            yield from (a + 1, a - 1)
            m = a


def again_program(r, lens, cipher):
    out, i = ["start"], 0
    for v in carrying(r, lens):
        if v <= 0:
            continue
        if cipher:
            k = key(r)
            i += 1
            out.append("enccrc 1 %s %s" % (hx(k), hx(v)))
            out.append("deccrc 2 %s %d" % (hx(k), i))
        else:
            out += ["append " + hx(v), "valid " + hx(v), "remove " + hx(v), "roundtrip %s %d %x" % ((hx(v),) + burst(r, (v.bit_length() + 7) // 8 + 4))]
    return "\n".join(out) + "\n"


def zero_starts(r, n, crc):
    """Many short messages under many keys: ciphertexts and checksums starting and ending with zero bytes."""
    out = ["start", "init " + "%032x" % r.getrandbits(128)]
    for i in range(n):
        k = r.getrandbits(128)
        m = integer(r, r.choice([1, 1, 2, 3]))
        out.append("%s 1 %s %s" % ("enccrc" if crc else "enc", hx(k), hx(m)))
        out.append("%s 1 %s %d" % ("deccrc" if crc else "dec", hx(k), i + 1))
    return "\n".join(out) + "\n"


def shaped(r, n):
    """Integers of n bytes that look like something: padding, terminators, marks at either end."""
    body = bytearray(r.getrandbits(8 * n).to_bytes(n, "big"))
    body[0] = body[0] or 1
    for v in [0, 1, 2, 3, 8, 10, 15, 16, 17, 32, 127, 128, 255]:
        for k in (1, 2, 4, 16, v):
            if 0 < k < n and k <= 64:
                yield bytes(body[:n - k]) + bytes([v]) * k
    for k in range(1, min(n, 17)):
        yield bytes(body[:n - k]) + b"\x80" + bytes(k - 1)
        yield bytes(body[:n - k]) + bytes(k - 1) + bytes([k])
    for v in (1, 2, 0x30, 0x7f, 0x80, 0xff):
        for k in (1, 2, 4, 16):
            if k <= n:
                yield bytes([v]) * k + bytes(body[k:])
                yield bytes([v]) + bytes(min(n - 1, k)) + bytes(body[min(n, k + 1):])


def tails(r, lens, crc, part):
    out, i = ["start"], 0
    k = key(r)
    for n in lens:
        for b in shaped(r, n):
            if r.randrange(4) >= part:
                continue
            i += 1
            k = r.choice([k, k, key(r)])
            out.append("%s 1 %s %s" % ("enccrc" if crc else "enc", hx(k), b.hex()))
            out.append("%s 2 %s %d" % ("deccrc" if crc else "dec", hx(k), i))
    return "\n".join(out) + "\n"


def model(c):
    c.model("MC_Sym", env=None)


def cipher(c, crc):
    exe = driver("sym", asan=True)
    jobs = [lambda: model(c)]
    go = lambda label, script: jobs.append(lambda: c.trace(label, exe, script, "Trace_Sym"))
    for i in range(c.scale(3, 20)):
        go("program-%d" % i, cipher_program(c.rand("prog%d" % i), c.scale(600, 1500), crc, LENS))
    go("lengths", each_length(c.rand("len"), list(range(0, c.scale(140, 400))), crc))
    go("relatives", relatives(c.rand("relatives"), crc, c.scale(60, 400)))
    r = c.rand("late")
    go("late", "\n".join(earlier(r, cipher_program(r, c.scale(300, 1500), crc, LENS).split("\n")[:-1], 1, "churn 1 %d" % c.scale(70000, 700000), "churn 2 3000")) + "\n")
    go("related", related(c.rand("related"), crc, c.scale(25, 100)))
    go("long", each_length(c.rand("long"), [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4112, 5000], crc))
    for k, lens in enumerate([[8191, 8192, 8193, 8208], [16383, 16384, 16400], [32767, 32768, 32784], [65535, 65536, 65537]] +
                             c.scale([], [[100003], [131072, 131073], [262144 + 5]])):
        go("very-long-%d" % k, each_length(c.rand("long%d" % k), lens, crc))
    if crc:
        go("mistaken", mistaken_program(c.rand("mistaken"), c.scale([1, 2, 3, 4, 5, 7, 8, 12, 13, 16, 17, 20, 31, 40, 64, 100], list(range(1, 120))), True))
        go("again", again_program(c.rand("again"), c.scale([1, 2, 3, 4, 5, 8, 12, 16, 20, 28, 31, 32, 33, 60, 64, 100], list(range(1, 120))), True))
    go("zero-starts", zero_starts(c.rand("zero"), c.scale(1500, 6000), crc))
    for k, lens in enumerate(c.scale([[1, 2, 15, 16, 17, 32], [48, 64, 80, 96], [112, 128, 144, 240, 256]],
                                    [list(range(a, 400, 8)) for a in range(1, 9)] + [[512, 1024, 4096]])):
        go("tails-%d" % k, tails(c.rand("tails%d" % k), lens, crc, c.scale(3, 4)))
    # keys and messages with every number of leading zero bytes
    r = c.rand("keys")
    out = ["start"]
    k = 0
    for nb in range(0, 17):
        for nm in (1, 2, 16, 33):
            for kk in (integer(r, nb), r.getrandbits(8 * nb) if nb else 0):
                k += 1
                out += ["%s 1 %s %s" % ("enccrc" if crc else "enc", hx(kk), hx(integer(r, nm))), "%s 1 %s %d" % ("deccrc" if crc else "dec", hx(kk), k)]
    go("keys", "\n".join(out) + "\n")
    c.parallel(jobs)


def a01(c):
    cipher(c, False)


def a02(c):
    cipher(c, True)


def hexbytes(r, n):
    k = r.randrange(5)
    if n == 0:
        return "-"
    if k == 0:
        return "%02x" % r.choice([0, 1, 0x80, 0xff]) * n
    return "%0*x" % (2 * n, r.getrandbits(8 * n))


def start_value(r):
    return r.choice([0, 0, 1, 0xffffffff, 0x80000000, 0x82f63b78, 0xff, 0xff000000, r.getrandbits(32), r.getrandbits(32)])


def c01(c):
    exe = driver("crc", asan=True)
    jobs = [lambda: model(c)]
    go = lambda label, script: jobs.append(lambda: c.trace(label, exe, script, "Trace_Sym"))
    r = c.rand("crc")
    # every byte value in every slice position, after every number of leading single bytes
    out = ["start"]
    for v in range(256):
        out.append("crc 0 0 %02x" % v)
        out.append("crc 0 %d %s" % (r.randrange(8), "%02x" % v * 3))
        out.append("crc %x 0 %s" % (r.getrandbits(32), "5a" * 4 + "%02x" % v * 16))
        out.append("crc 0 3 %s" % ("00" + "%02x" % v * 8))
        out.append("crc 0 1 %s" % ("a5c3" + "01" + "".join("%02x" % ((v + 31 * i) & 255) for i in range(8)) + "%02x" % v))
    go("tables", "\n".join(out) + "\n")
    # every length and alignment
    for part in range(2):
        out = ["start"]
        for n in range(0, 84):
            for off in range(4 * part, 4 * part + 4):
                out.append("crc %x %d %s" % (start_value(r), off, hexbytes(r, n)))
        go("lengths-%d" % part, "\n".join(out) + "\n")
    out = ["start"]
    for n in [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193] + \
            [16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 65540, 70001] + c.scale([131073], [100003, 131072, 131073, 262147, 1000003]):
        out.append("crc %x %d %s" % (start_value(r), r.randrange(8), "%0*x" % (2 * n, r.getrandbits(8 * n))))
        out.append("crc %x %d %s" % (start_value(r), r.randrange(8), "%0*x" % (2 * n, r.getrandbits(8 * n))))
    go("long", "\n".join(out) + "\n")
    for i in range(c.scale(2, 12)):
        r2 = c.rand("rand%d" % i)
        out = ["start"]
        for _ in range(c.scale(500, 2000)):
            n = r2.choice([r2.randrange(0, 12), r2.randrange(0, 40), r2.randrange(0, 200)])
            b = hexbytes(r2, n)
            if r2.randrange(2):
                out.append("crc %x %d %s" % (start_value(r2), r2.randrange(8), b))
            else:
                cuts = sorted(r2.randrange(0, n + 1) for _ in range(r2.randrange(1, 6)))
                lens = [y - x for x, y in zip([0] + cuts, cuts + [n])]
                out.append("pieces %x %d %s %s" % (start_value(r2), r2.randrange(8), b, " ".join(map(str, lens))))
        go("random-%d" % i, "\n".join(out) + "\n")
    c.parallel(jobs)


def c02(c):
    exe = driver("crc", asan=True)
    jobs = [lambda: model(c)]
    go = lambda label, script: jobs.append(lambda: c.trace(label, exe, script, "Trace_Sym"))
    r = c.rand("short")
    # every short integer shape: validation must answer
    out = ["start"]
    vals = list(range(0, 260)) + [1 << k for k in range(8, 70)] + [(1 << k) - 1 for k in range(8, 70)] + [0xff << k for k in range(0, 60)]
    for v in vals:
        out += ["valid " + hx(v), "remove " + hx(v), "roundtrip " + hx(v)]
    for _ in range(400):
        v = integer(r, r.randrange(1, 9))
        out += ["valid " + hx(v), "remove " + hx(v), "append " + hx(v)]
    go("short", "\n".join(out) + "\n")
    lens = list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000] + c.scale([4096], [4096, 5000, 65536])
    for i in range(c.scale(3, 16)):
        r2 = c.rand("trip%d" % i)
        out = ["start"]
        for n in lens:
            for _ in range(2):
                m = integer(r2, n)
                nb = n + 4
                errs = []
                for _ in range(8):
                    k = r2.randrange(5)
                    if k < 2:
                        sh, e = burst(r2, nb)
                    elif k == 2:     # reaching above the integer
                        sh, e = 8 * max(0, nb - r2.randrange(0, 4)), r2.getrandbits(32) or 1
                    elif k == 3:     # an odd number of single bits
                        e = 0
                        for _ in range(r2.choice([1, 3, 5, 7, 9])):
                            e ^= 1 << r2.randrange(8 * nb)
                        sh, e = 0, e if bin(e).count("1") % 2 else 1
                    else:            # anything
                        sh, e = 0, r2.getrandbits(8 * nb) or 1
                    errs.append("%d %s" % (sh, hx(e)))
                # an error that is itself a codeword goes undetected by any CRC
                out.append("roundtrip %s %s" % (hx(m), " ".join(errs)))
        go("trips-%d" % i, "\n".join(out) + "\n")
    for k, lens in enumerate([[4095, 4096, 4097, 8188, 8192, 16384, 32768], [65531], [65532], [65535], [65536], [70000]] + c.scale([], [[131068], [131069], [131072]])):
        out = ["start"]
        for n in lens:
            m = r.getrandbits(8 * n) | 1 << (8 * n - 1)
            out.append("roundtrip %s %d %x" % ((hx(m),) + burst(r, n + 4)))
        go("long-%d" % k, "\n".join(out) + "\n")
    out = ["start"]
    for n in c.scale([4, 5, 8, 16, 17, 64, 80], list(range(1, 130))):
        for b in shaped(r, n):
            out += ["roundtrip %s %d %x" % ((b.hex(),) + burst(r, n + 4))] + (["valid " + b.hex(), "remove " + b.hex()] if r.randrange(4) == 0 else [])
    go("shaped", "\n".join(out) + "\n")
    go("mistaken", mistaken_program(c.rand("mistaken"), c.scale(list(range(1, 20)) + [31, 32, 33, 64, 100, 300], list(range(1, 200)) + [1000, 5000]), False))
    go("again", again_program(c.rand("again"), c.scale(list(range(1, 20)) + [28, 29, 31, 32, 33, 60, 64, 100], list(range(1, 200)) + [1000]), False))
    # checksums with zero bytes at their ends: many short integers
    r3 = c.rand("zeros")
    out = ["start"]
    for v in list(range(0, c.scale(1500, 20000))) + [r3.getrandbits(24) for _ in range(c.scale(500, 10000))]:
        out.append("roundtrip %s %d %x" % ((hx(v),) + burst(r3, (v.bit_length() + 7) // 8 + 4)))
    go("small", "\n".join(out) + "\n")
    c.parallel(jobs)


def u01(c):
    exe = driver("crc", asan=True)
    jobs = [lambda: model(c)]
    go = lambda label, script, **k: jobs.append(lambda: c.trace(label, exe, script, "Trace_Sym", **k))
    r = c.rand("bytes")
    for i in range(c.scale(1, 6)):
        out = ["start"]
        for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 1000, 4096]:
            for _ in range(4):
                out.append("raw " + hx(integer(r, n)))
                b = hexbytes(r, n)
                if n and r.randrange(2):
                    b = "00" * r.choice([1, 1, 2, 7, 8, 9]) + b
                out.append("unraw " + b)
        for n in (1, 2, 8, 16, 17, 33, 64):
            for b in shaped(r, n):
                out += ["raw " + b.hex(), "unraw " + b.hex(), "unraw 00" + b.hex()]
        out += ["raw %x" % v for v in range(0, 600)] + ["unraw %02x" % v for v in range(256)] + ["unraw 00%02x" % v for v in range(256)]
        out += ["raw %x" % ((1 << k) + d) for k in range(1, 200) for d in (-1, 0, 1)]
        for _ in range(c.scale(60, 400)):                # several at the same time
            n = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000])
            ms = [integer(r, r.choice([n, n, n + 1, max(n - 1, 0), r.randrange(0, 300)])) for _ in range(r.choice([2, 2, 3, 5, 20]))]
            out.append("raws " + " ".join(hx(v) for v in ms))
        go("bytes-%d" % i, "\n".join(out) + "\n")
    for part in (0, 1):
        out = ["start"]
        for n in [4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000] + c.scale([131073], [131071, 131072, 131073, 262145]):
            out.append(("raw " if part else "unraw ") + "%0*x" % (2 * n, r.getrandbits(8 * n)))
        go("long-%d" % part, "\n".join(out) + "\n")
    # random integers: exact distributions for few bits, range and spread for many
    go("uniform", "start\n" + "".join("distrand %d %d\n" % (b, 64 << b) for b in range(0, c.scale(9, 12))), env={"VRD_SEED": str(c.seed)})
    wide = "".join("rand %d\n" % b for b in list(range(0, 112)) * 4)
    for few in ([9, 10, 11, 12, 13, 14, 15], [16, 17, 18, 19, 20, 21, 22], [23, 24, 25, 26, 27, 28, 29], [30, 31, 32, 33, 34, 40, 48], [56, 62, 63, 64, 65, 72, 80],
                [96, 100, 111, 112, 120, 126], [127, 128, 129, 130, 144], [160, 192, 224, 255, 256], [257, 320, 511, 512], [1000, 1023, 1024], c.scale([2048], [2048, 4096, 8192])):
        go("wide-%d" % few[0], "start\n" + wide + "".join("start\n" + ("rand %d\n" % b) * c.scale(300, 3000) + "spread all\n" for b in few), env={"VRD_SEED": str(c.seed + few[0])})
    # a short integer after a longer one
    pairs = [(256, 8), (64, 32), (128, 64), (256, 128), (96, 40), (1024, 512), (17, 9), (33, 32), (129, 128)]
    for k in range(3):
        go("after-%d" % k, "".join("start\n" + ("rand %d\nrand %d\n" % p) * c.scale(300, 3000) + "spread pairs\n" for p in pairs[k::3]), env={"VRD_SEED": str(c.seed + 5000 + k)})
    # two processes with the system's entropy: nothing comes twice
    script = "start fresh\n" + "rand 128\n" * 300

    def twice():
        c.processes("processes", exe, "start fresh\nrand 128\n", script, "Trace_Sym")
    jobs.append(twice)
    c.parallel(jobs)
