"""Input generation shared by the checks: boundary-biased integers, script lines."""
SECP_P = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
SECP_N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
BN_P = 0x2523648240000001BA344D80000000086121000000000013A700000000000013
BN_N = 0x2523648240000001BA344D8000000007FF9F800000000010A10000000000000D


def earlier(r, lines, *churn, more=2):
    """The same program after, and now and then interrupted by, use that nobody looked at: churn = (at, first line) and shorter ones."""
    at, first, short = churn
    lines = list(lines)
    for k in sorted((r.randrange(at, len(lines) + 1) for _ in range(more)), reverse=True):
        lines.insert(k, short)
    lines.insert(at, first)
    return lines


def hx(v):
    return "-%x" % -v if v < 0 else "%x" % v


def fel(r, p):
    """A field element: boundary values, sparse and dense bit patterns, uniform values."""
    k = r.randrange(14)
    b = p.bit_length()
    if k == 0:
        return r.choice([0, 1, 2, 3])
    if k == 1:
        return p - r.choice([1, 2, 3, 4])
    if k == 2:
        return (p + r.choice([-3, -1, 1, 3])) // 2
    if k == 3:
        return (1 << r.randrange(b)) % p
    if k == 4:
        return ((1 << r.randrange(1, b)) - 1) % p
    if k == 5:   # limb patterns
        return sum(r.choice([0, 0xffffffffffffffff, 1, 0x8000000000000000, r.getrandbits(64)]) << (64 * i) for i in range(4)) % p
    if k == 6:
        return r.getrandbits(r.choice([8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 160, 192]))
    if k == 7:
        return (r.getrandbits(64) << r.choice([64, 128, 192])) % p
    if k == 8:
        return p - r.getrandbits(r.choice([8, 32, 64, 128]))
    return r.randrange(p)


def anyint(r, p):
    """An arbitrary integer around the multiples of p, of both signs and up to thousands of bits."""
    k = r.randrange(10)
    if k < 3:
        v = fel(r, p)
    elif k == 3:
        v = p * r.choice([1, 1, 2, 3, 2**64, p, p * p]) + r.choice([-2, -1, 0, 1, 2])
    elif k == 4:
        v = r.getrandbits(r.choice([257, 300, 511, 512, 513, 1024, 4000]))
    elif k == 5:
        v = 1 << r.choice([255, 256, 257, 320, 511, 512, 768])
    elif k == 6:
        v = r.randrange(256)
    else:
        v = r.randrange(2 * p)
    return -v if r.randrange(3) == 0 else v


# The integers below 16000000 whose encoding (shifted by 10 and by 20 bits) tries most x-coordinates before one is on secp256r1: 18 to 34 of them.
MANY_TRIES = {10: [0x886b02, 0x6f87e1, 0xdfc1ae, 0xa35521, 0xd44656, 0x71de89, 0x33a11c, 0x8ae31c, 0x5f51d9, 0xaf4d5a, 0x8a6259, 0x68d89, 0xe2f33c, 0xe5e9fc, 0x83349e, 0x637ff, 0x488e53, 0x2d3911, 0xf08410, 0xb8c916, 0x716070, 0x8b1b89, 0x9f4c58, 0xbe89e4, 0x2ac12, 0x18bd42, 0xb47785, 0xe56396, 0xda1d0a, 0x72facb, 0x38e257, 0x94bd5c, 0xe432af, 0xf8611, 0x89afa8, 0x8c5f68, 0x653d35, 0x5d8213, 0x4afaa0, 0x5404ae],
              20: [0x33e472, 0x10c8ba, 0x13dbcb, 0x977c80, 0x925ec6, 0x767aab, 0xeafe45, 0xef9aeb, 0xd7dafb, 0x2bdd06, 0x8b5850, 0xc9b79a, 0x9ee159, 0x1fc50d, 0x457dd2, 0x3378df, 0x7ce5cd, 0x91ed54, 0x2169eb, 0xe8ff08, 0xa13c0d, 0x48fb56, 0x9eddf1, 0xe31cfc, 0xc10795, 0x1653d3, 0xddc8be, 0x29b897, 0x73b0f1, 0xe1d84d, 0x292133, 0xe2744b, 0xe0be13, 0x6a8339, 0x9dd1f1, 0x88b1f0, 0x44016d, 0x1424fb, 0x3d0fa2, 0xaca1d5]}
