T = "TLA+ specification checked with TLC; "
CHECKS = {
 "F01": (T + "model transitions replayed on the code, recorded programs validated against the specification",
         "Exhaustive over all programs of two registers in a field of 7 elements (replayed on the real templates); at the four real fields, boundary grids and random programs are accepted or rejected by the specification. Trusts TLC and java.math.BigInteger (cross-checked by MC_Num)."),
 "F02": (T + "model transitions replayed on the code, recorded programs validated against the specification",
         "As F01, for inversion and division."),
}
NA = {}
for _p, _w in (("E01", "addition, subtraction, doubling"), ("E02", "scalar multiplication"), ("E03", "compression, lifting, validation")):
    CHECKS[_p] = (T + "model transitions replayed on the code, recorded programs validated against the specification",
        "Exhaustive over all programs of two point variables of small curves (replayed on the real templates); on the two real curves, grids of special points/scalars and random programs (%s) are accepted or rejected by the specification." % _w)
CHECKS["E04"] = (T + "exact outcome distributions of the code on small curves compared with the specification, recorded draws validated against it",
    "Parameters are checked by TLC (Hasse interval, order, primality tests); every outcome of the random source is enumerated on small curves; at full size draws are checked for range, freshness (also across processes) and spread of leading/middle/trailing bits. A generator whose bias is invisible there is not detected.")
CHECKS["S01"] = (T + "reconstructions of the model replayed on the code, recorded sharings validated against the specification",
    "Exhaustive in fields of 5 and 7 elements (all polynomials, selections, orders); at full size recorded sharings and reconstructions (thresholds to 70, 70000 shares, every order for n <= 4) are judged by the specification.")
CHECKS["S02"] = (T + "exact distribution of the code's shares compared with the specification; recovered coefficients of recorded sharings validated",
    "TLC proves the counting argument in small fields; the code's joint share distribution over all its draws equals the specification's there; at full size coefficients are recovered by interpolation and checked for freshness and spread at every position.")
_d = "exhaustive model of the scheme on a small curve; recorded runs on the real curve and on small curves validated against it; exact distributions of the code compared where the property is about distributions"
for _p in ("D01", "D02", "D03", "D04"):
    CHECKS[_p] = (T + _d, "The model covers every reference string, key, randomness and message of groups of 3 (thorough: 5) elements. The code is bound by recorded runs (special and random messages, modes, shared strings, copies) and, for hiding, by enumerating all outcomes of its random draws on small curves.")
for _p in ("O01", "O02", "O03"):
    CHECKS[_p] = (T + "protocol model with re-selection, several senders and a proxy; recorded sessions validated against the specification; exact distributions compared",
        "Protocol model exhaustive for groups of 2 and 3 elements; recorded sessions with reused objects, aggregates of up to 1000 senders, all orders of opening are judged by the specification on the real curve and small curves.")
CHECKS["V01"] = (T + "model of values and copies checked; recorded comparisons and copies validated against the specification",
    "The model enumerates all pairs of values with few components and all copy/assign sequences of a few variables; the code is bound by recorded comparisons of values differing in every single component, and by copy histories of every kind of value.")
CHECKS["P01"] = (T + "protocol model checked exhaustively on small groups; recorded aggregations validated against the specification",
    "Model: all users' values, keys and orders in small groups. Recorded rounds on the real curve (sums 0 to 65535, every number of users to 66 and selected ones to 400, any order, several time stamps) and on small curves are judged by the specification.")
CHECKS["P02"] = (T + "protocol model checked exhaustively on small groups; recorded tags and verdicts validated against the specification",
    "Tags and the verification key are compared with the defining equation. KNOWN-FINDING: Verify accepts everything (it has no implementation to repair).")
CHECKS["P03"] = (T + "protocol model checked exhaustively on small groups; recorded keys and exact distributions of the code on small curves validated",
    "Keys are recovered from what Setup returns; their joint distribution over all random draws is compared on small curves, their range, freshness and spread at full size.")
_r = "The comparison automaton is checked for every threshold and input of up to 6 bits, sessions and interleavings of small ones. The code runs at its full 16 bits: recorded sessions with real clients, and sessions in which every ciphertext of a server is opened for both branches, so that one session decides all 65536 inputs."
for _p in ("R01", "R02", "R03", "R04"):
    CHECKS[_p] = (T + "exhaustive protocol model; recorded sessions of the code (both branches of every message opened) validated against it", _r)
_s = "AES, CTR and CRC-32C are defined in the specification from the standards (reference definitions compared with fast evaluation by TLC); recorded calls with special and random keys, lengths, splits and corruptions are judged by it."
for _p in ("A01", "A02", "C01", "C02", "U01"):
    CHECKS[_p] = (T + "recorded calls validated against the specification; laws model-checked at small sizes", _s)
CHECKS["G01"] = (T + "exhaustive model on a small curve; recorded histories validated against the specification; exact distributions compared",
    "Model: all keys, messages and randomness of a group of 31 elements. Recorded histories on secp256r1 (all message lengths) and all outcomes of the random draws on small curves are judged by the specification.")
