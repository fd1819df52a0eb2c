#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). The text of the properties lives here."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

FT='includes/field_template.hpp'; ET='includes/ecc_template.hpp'; DM='src/dme/dme.cpp'
prop('F01','Field arithmetic is exact modular arithmetic',
 'For every field the library offers (base and scalar fields of secp256r1 and bn254), construction from any integer (negative or arbitrarily large), addition, subtraction, negation, multiplication by an element or by any integer, squaring, comparison and copying give exactly the result of integer arithmetic modulo that field\'s prime, always as the canonical representative in [0, p). Compound forms (+=, -=, *=) leave in their target what the plain operator returns, also when both operands are the same object, and no operation changes any other operand.',
 ['inputs','programs'],'all operand values (boundary values, equal, opposite, unreduced, negative), all operators and all sequences of operations over shared variables, in all four fields',
 'The tests evaluate 13 fixed expressions in one of the four fields with two fixed operands; they never alias operands, never use a compound operator and never touch the bn254 fields.',
 [FT,'src/fields/field_secp256r1.cpp','src/fields/field_bn254.cpp'],
 [('reduction after each operation',FT+': operator+,-,*,square'),('moduli','src/fields/*.cpp constructors')],
 ['getRawValue(), getField(), operator== of every register after every operation'], None,
 [('value','canonical representative',FT),('p','modulus',FT)])
prop('F02','Field inversion and division are exact',
 'For every nonzero element a of each field, the inverse is the unique canonical element whose product with a is 1; for every x, x / a and x /= a give the unique canonical y with y * a = x, also when x and a are the same object. Operands other than the target are left unchanged.',
 ['inputs','programs'],'all nonzero divisors and all dividends in all four fields, within arbitrary operation sequences',
 'The tests invert two fixed values and divide one fixed pair in one field.',
 [FT],[('extended Euclid through GMP',FT+': invert, operator/, operator/=')],['getRawValue() after each inversion/division'])
prop('E01','Point addition, subtraction and doubling form the curve group',
 'On both supported curves, P + Q, P - Q, +=, -= and doubling compute the chord-and-tangent group law for every pair of points of the curve, including equal points, opposite points and the point at infinity on either side; results are always valid points of the curve (or infinity). Operands other than the target are left unchanged, also under aliasing such as P += P and P -= P.',
 ['inputs','programs'],'all pairs of curve points including infinity, equal and opposite points; all sequences of group operations over shared variables',
 'The tests check a handful of fixed sums on one curve; infinity is never subtracted, subtracted from or doubled, compound operators and bn254 are never used.',
 [ET,'src/ecc/ecc_secp256r1.cpp','src/ecc/ecc_bn254.cpp'],
 [('case analysis on infinity / equal x',ET+': operator+'),('negation',ET+': operator-'),('tangent',ET+': pointDouble')],
 ['getX, getY, isInf, isValid of every register after every operation'])
prop('E02','Scalar multiplication is repeated addition for every scalar',
 'For every point P of the curve (infinity included) and every integer or scalar-field k - zero, one, negative, the group order and its neighbours, and values far larger than the order - P * k and P *= k equal the k-fold sum of P, with k taken modulo the group order. P is unchanged by P * k.',
 ['inputs'],'all points and all integer scalars of any sign and size, both curves',
 'The tests multiply one fixed point by three fixed small integers.',
 [ET],[('double and add over the binary expansion',ET+': operator*'),('reduction modulo the order',ET+': operator*(mpz_class)')],
 ['coordinates of the product'])
prop('E03','Point compression, lifting and validation agree with the curve equation',
 'For every finite point P, decoding the encoded x of P yields P again, and the encoding is twice the x-coordinate plus one selecting bit. For every x the two lifting functions return the two square-root points of the curve equation at x when it has a solution, and the point at infinity otherwise; validity checking accepts exactly the points satisfying the curve equation and infinity.',
 ['inputs'],'all finite points, all x in the base field (residue and non-residue), all coordinate pairs on or off the curve, both curves',
 'The tests round-trip one random point, lift two fixed x and validate three good points; no invalid point, no non-residue x and no negative root is tried.',
 [ET],[('square root by exponentiation',ET+': evaluateP, evaluatePneg'),('sign bit',ET+': getEncodedX, setEncodedX'),('isValid',ET)],
 ['encoded integers, decoded points, isValid verdicts'])
prop('E04','Curves have standard parameters and sample uniformly from the right sets',
 'Both curves carry their published domain parameters, with a generator that is a valid point of exactly the published prime order. Random scalars are uniform over [0, order), random points are uniform over the whole group, and a generated key pair always satisfies public key = private key times generator with the private key uniform over [0, order). Successive draws, and draws made by different processes, are independent.',
 ['inputs','histories'],'all outcomes of the random source, both curves, any number of successive draws',
 'The tests take a few draws from one fixed seed and never examine their range or distribution; key-pair generation is never called.',
 ['src/ecc/ecc_secp256r1.cpp','src/ecc/ecc_bn254.cpp',ET],
 [('get_z_range(order)',ET+': getRandomScalar, getRandomPoint, generateKeyPair'),('constants','src/ecc/*.cpp')],
 ['getters of the curve, sampled values as a function of the random source'],'none (the random source is replaced at link time)')
prop('S01','Any threshold-many Shamir shares reconstruct the secret',
 'For every secret, threshold t >= 1 and number of shares n >= t, every selection of at least t distinct shares, in any order, reconstructs exactly the secret, and the n shares carry the distinct indices 1..n. Sharing objects can be reused for any number of secrets without influencing each other.',
 ['inputs','histories'],'all secrets, thresholds, share counts, subsets and orders of shares, and dealer randomness',
 'The test reconstructs one secret from all ten shares of one 7-of-10 sharing.',
 ['src/shamirss/shamirss.cpp','includes/shamirss.hpp'],[('polynomial evaluation','src/shamirss/shamirss.cpp: evalPoly, getShares'),('Lagrange interpolation at 0','src/shamirss/shamirss.cpp: reconSecret')],
 ['shares returned by getShares, value returned by reconSecret'])
prop('S02','Fewer than threshold Shamir shares reveal nothing',
 'For every threshold t, the joint distribution of any t-1 shares over the dealer\'s randomness is the same for every secret (uniform over the field), because every non-constant coefficient of the sharing polynomial is drawn independently and uniformly from the whole scalar field. Each sharing uses fresh randomness.',
 ['inputs','histories'],'all secrets, thresholds, sets of at most t-1 shares and all outcomes of the dealer\'s randomness',
 'The test never looks at an individual share; secrecy is a statement about distributions over all random outcomes.',
 ['src/shamirss/shamirss.cpp'],[('random coefficients','src/shamirss/shamirss.cpp: getShares')],
 ['distribution of the shares over all outcomes of the random source; coefficients recovered from shares at full size'],'none (the random source is replaced at link time)')
prop('D01','Dual-mode decryption recovers the message on the key\'s branch',
 'In messy mode, decryption mode and with an imported reference string (shared between independent instances), decrypting with the secret key of branch b a ciphertext made for branch b returns the message, for every group-element message and for every integer message below 2^240 through the integer encoding. This holds for all keys and encryption randomness, and keys and ciphertexts stay usable in any order and number.',
 ['inputs','histories','configurations'],'all modes, reference strings, branches, keys, messages, encryption randomness and interleavings of operations on several instances',
 'The tests decrypt one message per mode and branch and encode a single 128-bit integer.',
 [DM,'includes/dme.hpp'],[('KeyGen/Enc/Dec equations',DM+': KeyGen, Enc, Dec'),('integer encoding by shifting and trying successive x',DM+': encode, decode')],
 ['keys, ciphertexts and plaintexts returned by the API'],'none (the random source is replaced at link time)')
prop('D02','The messy branch statistically hides the message and is found by the trapdoor',
 'In messy mode, a ciphertext made for the branch other than the key\'s is distributed, over the encryption randomness, independently of the message (uniformly over pairs of group elements), and the trapdoor procedure names exactly that hiding branch for every public key, honest or malicious (other than the pair of infinities, which hides nothing on either branch). Every encryption uses two fresh independent uniform scalars.',
 ['inputs','histories'],'all reference strings with distinct trapdoor exponents, all public keys, messages and all outcomes of the encryption randomness',
 'The tests only observe that one wrong-branch decryption differs from the message; a distribution is a statement about all random outcomes.',
 [DM],[('Enc with fresh s,t',DM+': Enc'),('trapdoor e0,e1',DM+': DME_DDH(mode), FindMessy')],
 ['distribution of ciphertexts over all outcomes of the random source; FindMessy verdicts'],'none (the random source is replaced at link time)')
prop('D03','Decryption mode: trapdoor keys open both branches and keys hide the branch',
 'In decryption mode the trapdoor key generation returns a public key with two secret keys that decrypt, respectively, every branch-0 and every branch-1 ciphertext under that public key. Public keys generated for branch 0 and for branch 1 have the same distribution, so a public key reveals nothing about the chosen branch.',
 ['inputs','histories'],'all decryption-mode reference strings, all keys, messages and outcomes of the random source',
 'The tests try one trapdoor key with one message and never compare key distributions.',
 [DM],[('DDH tuple g1=g0*y, h1=h0*y',DM+': DME_DDH(mode)'),('TrapKeyGen',DM)],
 ['decryptions under both trapdoor keys; distribution of public keys over all random outcomes'],'none (the random source is replaced at link time)')
prop('D04','Homomorphic evaluation adds plaintexts',
 'For ciphertexts made under the same public key and branch, evaluating them together and decrypting gives the sum of the messages, for every message pair (including infinity, equal and opposite messages) and for evaluation chains and trees of any length in any association; inputs are not changed and the result does not depend on which instance evaluates it.',
 ['inputs','programs'],'all messages, keys, branches, modes and evaluation trees',
 'One test adds two random messages once.',
 ['src/dme/dmhe.cpp',DM],[('componentwise addition','src/dme/dmhe.cpp: Eval')],['decryption of evaluated ciphertexts, components of evaluated ciphertexts'])
prop('V01','Equality and copying of library values are by value',
 'Two field elements, points, curves, reference strings, keys, key pairs, trapdoors or ciphertexts compare equal exactly when all their components are equal (for curves: prime, coefficients, order and cofactor), symmetrically, whichever component differs. Assigning or copying any of these values, or an encryption instance, yields an equal, independent value that is fully usable while the curve object its points refer to exists.',
 ['inputs','programs'],'all pairs of values, in particular pairs that differ in exactly one component; all copy/assign sequences',
 'The tests only use equality of points and fields to report their own verdicts, and never compare ciphertexts, keys or reference strings.',
 [FT,ET,DM,'includes/dme.hpp'],[('operator== and operator= of each type',FT+', '+ET+', '+DM)],['operator== verdicts, component getters after copies'])
prop('O01','Oblivious transfer delivers the chosen message, in every session',
 'For every reference string, choice, pair of group-element or integer messages (below 2^240) and every history of sessions, the receiver decrypts exactly the message of the branch it selected last, from ciphertexts the sender made for the public key of that selection. Senders and receivers are separate objects sharing only the reference string, and can be reused for any number of transfers.',
 ['inputs','histories','configurations'],'all reference strings (messy, decryption, random), choices, message pairs, and session histories of any length with several senders and receivers',
 'The tests run three single transfers on one reference string.',
 ['src/ot/ot.cpp','includes/ot.hpp',DM],[('selection state','src/ot/ot.cpp: selectMsg'),('encMsgs/decryptMsg','src/ot/ot.cpp')],['messages returned by decryptMsg / decryptMsgDecode'])
prop('O02','Distributed OT aggregation delivers the sum of the chosen messages',
 'For any number of senders (one or more) encrypting for the same receiver key, aggregation by the proxy and decryption by the receiver yield exactly the sum of the messages all senders put on the chosen branch, for both choices, independently of sender order, repeated use of the proxy and equal or cancelling messages.',
 ['inputs','histories'],'all numbers of senders, messages, choices, orders, reference strings and repeated aggregations',
 'One test aggregates three senders for choice 0.',
 ['src/ot/dot.cpp','includes/dot.hpp','src/dme/dmhe.cpp'],[('fold over ciphertexts','src/ot/dot.cpp: aggregate')],['aggregated ciphertexts and their decryption'])
prop('O03','Oblivious transfer hides the unchosen message and the choice',
 'With a messy reference string, what a receiver obtains for the branch it did not select is distributed independently of the sender\'s message on that branch, in every session; with a decryption-mode reference string, the receiver\'s public key has the same distribution for both choices. Each transfer uses fresh sender and receiver randomness.',
 ['inputs','histories'],'all reference strings of the respective mode, choices, messages and all outcomes of the random source, over session histories',
 'Secrecy is about the distribution over all random outcomes; the tests never look at the unchosen message.',
 ['src/ot/ot.cpp',DM],[('fresh key per selection','src/ot/ot.cpp: selectMsg'),('fresh randomness per encryption','src/ot/ot.cpp: encMsgs')],
 ['distribution of public keys and of both ciphertexts over all random outcomes'],'none (the random source is replaced at link time)')
prop('P01','PUDA aggregation returns exactly the sum of all users\' values',
 'For any number of users, any 16-bit values whose sum is at most 65535 and any time stamp, aggregating one ciphertext per user of that time stamp with the aggregator key yields exactly the sum, whatever the order of the ciphertexts. One setup serves any number of time stamps and aggregations.',
 ['inputs','histories'],'all user counts, values with sum <= 65535 (0 and 65535 included), time stamps, orders and rounds',
 'The test aggregates ten equal small values once; larger sums are slow at full size and never tried.',
 ['src/puda/puda.cpp','includes/puda.hpp'],[('keys summing to zero','src/puda/puda.cpp: Setup'),('Enc/Agg','src/puda/puda.cpp'),('exhaustive discrete logarithm','src/puda/puda.cpp: compute_dlog')],['sum returned by Agg'])
prop('P02','PUDA tags authenticate the aggregate',
 'The aggregate of the users\' tags for a time stamp is always the tag that the verification key certifies for the exact sum and that time stamp (the equation over public values holds), and verification accepts it. Verification rejects any other sum or a tag that is not the aggregate for that sum and time stamp.',
 ['inputs','histories'],'all user counts, values, time stamps, keys; all altered sums and tags',
 'The test ignores the verification result and never looks at tags.',
 ['src/puda/puda.cpp'],[('Tag, tag aggregation','src/puda/puda.cpp: Tag, Agg'),('Verify','src/puda/puda.cpp: Verify')],['tags, verification key, verdict of Verify'])
prop('P03','PUDA reveals only the aggregate',
 'User encryption keys and the aggregator key always sum to zero in the scalar field, and user keys are independent and uniform over the whole scalar field, so that a single ciphertext, or any incomplete set of ciphertexts, at a nonzero time stamp is distributed independently of the values encrypted in it; ciphertexts of different time stamps carry different masks. Tag keys are likewise fresh, independent and uniform, and their sum is the one the verification key commits to.',
 ['inputs','histories'],'all numbers of users, all incomplete subsets of users, all outcomes of the setup randomness',
 'The test never inspects keys or partial aggregates; secrecy is about all random outcomes.',
 ['src/puda/puda.cpp'],[('independent ek,tk per user','src/puda/puda.cpp: Setup'),('mask hash(t)*ek','src/puda/puda.cpp: Enc')],
 ['keys returned by Setup, distribution of ciphertexts over all random outcomes'],'none (the random source is replaced at link time)')
prop('R01','OPPRF evaluates correctly for every input up to the threshold',
 'For every 16-bit threshold and every client input not larger than it (equality included), every secret point, reference string and random outcome, an honest run ends with the client holding exactly the server\'s per-session key plus the input times the secret point. No honest run aborts.',
 ['inputs','histories','configurations'],'all pairs input <= threshold of 16-bit values, all secrets, reference strings and all outcomes of the random sources (all key and ciphertext byte patterns)',
 'The test runs three inputs against one threshold with one fixed random sequence; values whose bytes make keys or ciphertexts shorter never occur in it.',
 ['src/opprf/opprf.cpp','includes/opprf.hpp'],[('bitwise comparison automaton over encrypted keys','src/opprf/opprf.cpp: prepareKeysAndInputs'),('OT rounds','src/opprf/opprf.cpp: runOTRound*'),('masks','src/opprf/opprf.cpp: sendEncryptedMasks, unmaskResult')],['getResult(), getKOPPRF()'])
prop('R02','OPPRF gives nothing above the threshold',
 'For every client input larger than the threshold, the value the client ends with is masked by a fresh uniformly random point and is not the server\'s key plus the input times the secret. At every bit position the client obtains exactly one key of the server - the one for the relation (less, equal, greater) between the prefixes of its input and of the threshold - and no information about the keys of the other relations or the other branch.',
 ['inputs','histories'],'all pairs input > threshold, all prefixes and bit positions, all random outcomes, clients that follow the protocol with arbitrary bits',
 'The test only uses inputs below the threshold.',
 ['src/opprf/opprf.cpp'],[('key chains k_lt,k_eq,k_gt','src/opprf/opprf.cpp: prepareKeysAndInputs'),('random mask for greater','src/opprf/opprf.cpp: sendEncryptedMasks')],
 ['getResult(); server messages decrypted by an instrumented client that uses the public API'])
prop('R03','OPPRF sessions are independent',
 'After both sides clean up, the same client and server objects can run any number of further evaluations with new inputs, secrets and session keys, each as correct as the first and using entirely fresh keys, masks and session key; evaluations by several clients and servers sharing a reference string do not influence each other.',
 ['histories','inputs'],'all sequences and interleavings of evaluations on shared objects with inputs below, equal to and above the threshold',
 'The test runs three evaluations of inputs below the threshold in sequence with one client.',
 ['src/opprf/opprf.cpp'],[('clean','src/opprf/opprf.cpp: OPPRFserver::clean, OPPRFclient::clean'),('fresh keys','src/opprf/opprf.cpp: prepareKeysAndInputs')],['getResult, getKOPPRF, server messages of successive sessions'])
prop('R04','OPPRF messages do not reveal the comparison through their order',
 'The three encrypted keys of every round and the three encrypted masks are sent in a random order, so that the position at which a client finds the one it can open is uniform, independent of the relation between its input and the threshold, and unpredictable from one process to the next.',
 ['inputs','histories'],'all rounds, relations and outcomes of the random source',
 'Tests do not look at positions; a fixed order passes them.',
 ['src/opprf/opprf.cpp'],[('shuffle','src/opprf/opprf.cpp: runOTRound, sendEncryptedMasks')],['position of the ciphertext that opens, per relation, over many rounds'])
prop('A01','AES encryption of integers is AES-128-CTR and always invertible',
 'For every 128-bit key (leading zero bytes included) and every non-negative integer message of any length, decrypt(key, encrypt(key, m)) returns m, and the ciphertext carries exactly the AES-128-CTR encryption of the big-endian bytes of m under that key and the configured 16-byte initial counter. The result depends only on key, counter and message, never on earlier calls or other objects.',
 ['inputs','histories'],'all keys, messages of all byte lengths and patterns (including leading zero bytes of key and ciphertext), all counters set by init, all call histories',
 'One test encrypts one 128-bit message under one fixed key; short keys, ciphertexts starting with zero bytes, long messages and other counters never occur.',
 ['src/utilities/aes.cpp','includes/aes.hpp'],[('encrypt/decrypt through OpenSSL','src/utilities/aes.cpp'),('counter','src/utilities/aes.cpp: init')],['integers returned by encrypt and decrypt'])
prop('A02','Checked encryption opens under the right key and only under it',
 'decryptCRC(key, encryptCRC(key, m)) returns m for every 128-bit key and positive integer m of any length. Decrypting with any other key, or after any corruption of the encrypted content that is confined to four consecutive bytes, is reported as failure by returning zero (up to the 2^-32 chance inherent in a 32-bit checksum under a wrong key).',
 ['inputs','histories'],'all keys, messages, wrong keys and burst corruptions',
 'One test decrypts one message under the right key; failure is never exercised.',
 ['src/utilities/aes.cpp','includes/crc.hpp'],[('checksum before encryption, validation after decryption','src/utilities/aes.cpp: encryptCRC, decryptCRC')],['integers returned by encryptCRC and decryptCRC'])
prop('C01','The checksum is CRC-32C for every buffer',
 'The checksum of any byte buffer of any length and memory alignment, continued from any previous checksum value, is the CRC with the Castagnoli polynomial (reflected, no final inversion) of those bytes; consequently checksumming a buffer in consecutive pieces gives the same value as in one piece.',
 ['inputs'],'all byte strings, lengths (0 and up), alignments, starting values and splits',
 'One test checksums one 128-byte buffer and compares it with itself.',
 ['includes/crc.hpp'],[('table-driven and 8-slice computation','includes/crc.hpp: calculate_crc32c, crc32c_sb8_64_bit, tables')],['value returned by calculate_crc32c'])
prop('C02','Appended checksums validate, detect corruption and come off cleanly',
 'For every non-negative integer n, appending a checksum gives an integer that validates and from which removing the checksum returns n. Any change of the checksummed integer that is confined to four consecutive bytes, or flips an odd number of bits, makes it fail validation, and validation answers for every integer, however short.',
 ['inputs'],'all integers of all byte lengths (0 included), all errors within four consecutive bytes and all odd-weight errors',
 'One test round-trips one 1024-bit value and never corrupts anything.',
 ['includes/crc.hpp','src/utilities/utilities.cpp'],[('appendCRC, validateCRC, removeCRC','includes/crc.hpp')],['results of append, validate and remove'])
prop('U01','Raw byte conversion is faithful and random integers stay in range',
 'Converting any non-negative integer to bytes gives its minimal big-endian representation (no bytes for zero) and converting bytes to an integer gives their big-endian value, leading zero bytes included, so that the two are inverse up to leading zeros. A random integer of b bits is uniform over [0, 2^b).',
 ['inputs'],'all integers and byte strings, all bit counts, all outcomes of the random source',
 'No test checks the bytes produced or the range of random integers.',
 ['src/utilities/utilities.cpp'],[('mpz_export / mpz_import','src/utilities/utilities.cpp: getRawMpz, setRawMpz'),('get_z_bits','src/utilities/utilities.cpp: getRandom')],['bytes and integers returned'])
prop('G01','ElGamal decryption recovers every encodable message',
 'Key generation returns a key pair with public key = secret key times generator, and for every key pair, every integer message below 2^234 and all encryption randomness, decrypting an encryption of the message returns it. Each encryption uses fresh uniform randomness and the ciphertext is the ElGamal encryption of the encoded message (or of the given point).',
 ['inputs','histories'],'all keys, messages and outcomes of the random source',
 'There is no ElGamal test and the component is not part of the build.',
 ['src/elgamal/elgamal.cpp','includes/elgamal.hpp',ET],[('encrypt/decrypt equations and encoding','src/elgamal/elgamal.cpp'),('key generation','includes/elgamal.hpp, '+ET+': generateKeyPair')],['key pairs, ciphertexts, decrypted integers'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P),'properties')
