// Stands in for src/fields/field_secp256r1.cpp and src/ecc/ecc_secp256r1.cpp: the same classes with the small
// parameters given in the environment (TINY="p a b gx gy n", decimal), so that every state can be enumerated.
#include <cstdlib>
#include <sstream>
#include <gmpxx.h>
#include "field_secp256r1.hpp"
#include "ecc_secp256r1.hpp"

namespace
{
struct Par { mpz_class p, a, b, gx, gy, n; };
const Par& par()
{
    static Par* v = [] {
        Par* r = new Par;
        const char* e = getenv("TINY");
        std::istringstream is(e ? e : "7 0 3 1 2 13");
        is >> r->p >> r->a >> r->b >> r->gx >> r->gy >> r->n;
        return r;
    }();
    return *v;
}
}
namespace field
{
Field_secp256r1_n::Field_secp256r1_n(mpz_class v) : PrimeField<Field_secp256r1_n>(v, par().n) {}
Field_secp256r1_n::Field_secp256r1_n() { p = par().n; }
Field_secp256r1_p::Field_secp256r1_p(mpz_class v) : PrimeField<Field_secp256r1_p>(v, par().p) {}
Field_secp256r1_p::Field_secp256r1_p() { p = par().p; }
}
namespace ecc
{
Curve_secp256r1::Curve_secp256r1()
{
    prime = par().p; a = par().a; b = par().b; order = par().n; cofactor = 1;
    G = Point_secp256r1(par().gx, par().gy, this);
}
Curve_secp256r1::~Curve_secp256r1() {}
}
