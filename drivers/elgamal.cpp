#include "common.hpp"
#include "elgamal.hpp"
using namespace elgamal;

static std::vector<std::unique_ptr<ElGamal>> objs;
static std::map<long, keypair_t> keys;
static std::map<long, ctxt_t> cts;
static CURVE helper;

static std::string tn(const mpz_class& v) { return v.get_str(10); }
static std::string tp(const POINT& p) { return p.isInf() ? "[]" : "[" + tn(p.getX().getRawValue()) + "," + tn(p.getY().getRawValue()) + "]"; }
static std::string jct(const ctxt_t& c) { return "[" + jpt(c.u) + "," + jpt(c.mv) + "]"; }
static std::string tct(const ctxt_t& c) { return "[" + tp(c.u) + "," + tp(c.mv) + "]"; }

int main()
{
    script([](Cmd& c) {
        const std::string op = c.op();
        Event e(op);
        auto K = [&] { long k = c.i(); e.i("k", k); return k; };
        auto C = [&] { long k = c.i(); e.i("c", k); return k; };
        if (op == "start")
        {
            cts.clear(); keys.clear(); objs.clear();
            long n = c.more() ? c.i() : 2;
            for (long i = 0; i < n; i++) objs.emplace_back(new ElGamal());
        }
        else if (op == "keygen")
        { // object, key
            ElGamal& g = *objs.at(c.i()); long k = K();
            keys[k] = g.keyGen();
            e.i("w", drawnBits()).n("sk", keys[k].sk.getRawValue()).p("pk", keys[k].pk);
        }
        else if (op == "setkey")
        { // key, secret
            long k = K(); mpz_class s = c.n();
            keys[k] = keypair_t{skey_t(s), helper.getDefaultGen() * FIELD_n(s)};
            e.n("sk", keys[k].sk.getRawValue()).p("pk", keys[k].pk);
        }
        else if (op == "encint")
        { // object, ciphertext, key, integer
            ElGamal& g = *objs.at(c.i()); long i = C(), k = K(); mpz_class m = c.n();
            cts[i] = g.encrypt(keys.at(k).pk, m);
            e.n("m", m).raw("ct", jct(cts[i])).i("w", drawnBits());
        }
        else if (op == "encpt")
        { // object, ciphertext, key, scalar of the point
            ElGamal& g = *objs.at(c.i()); long i = C(), k = K();
            POINT p = helper.getDefaultGen() * FIELD_n(c.n());
            e.p("pt", p);
            cts[i] = g.encrypt(keys.at(k).pk, p);
            e.raw("ct", jct(cts[i])).i("w", drawnBits());
        }
        else if (op == "dec")
        { // object, ciphertext, key
            ElGamal& g = *objs.at(c.i()); long i = C(), k = K();
            e.n("v", g.decrypt(keys.at(k).sk, cts.at(i)));
        }
        else if (op == "churn")
        { // object, times: earlier use that nobody looked at
            ElGamal& g = *objs.at(c.i());
            for (long n = c.i(); n > 0; n--) { keypair_t k = g.keyGen(); g.decrypt(k.sk, g.encrypt(k.pk, mpz_class(n))); }
            return;
        }
        else if (op == "many")
        { // object, times: keys, and encryptions of one message for one key
            ElGamal& g = *objs.at(c.i());
            std::vector<mpz_class> v, x;
            keypair_t k = g.keyGen();
            for (long n = c.i(); n > 0; n--) { v.push_back(g.keyGen().sk.getRawValue()); POINT u = g.encrypt(k.pk, mpz_class(5)).u; x.push_back(u.isInf() ? mpz_class(0) : u.getX().getRawValue()); }
            e.raw("vs", jl(v, [](const mpz_class& k){ return jn(k); })).raw("xs", jl(x, [](const mpz_class& k){ return jn(k); }));
        }
        else if (op == "dist")
        { // what, secret key, scalar of the message, runs
            std::string w = c.s(); long s = c.i(), m = c.i();
            ElGamal& g = *objs.at(0);
            POINT pk = helper.getDefaultGen() * FIELD_n(mpz_class(s)), M = helper.getDefaultGen() * FIELD_n(mpz_class(m));
            auto kp = [&](const keypair_t& k) { return "[" + tn(k.sk.getRawValue()) + "," + tp(k.pk) + "]"; };
            distribution(e.str("what", w).i("sk", s).i("m", m), [&]() -> std::string {
                if (w == "keys") return kp(g.keyGen());
                if (w == "keys2") { auto a = kp(g.keyGen()); return "[" + a + "," + kp(g.keyGen()) + "]"; }
                if (w == "enc") return tct(g.encrypt(pk, M));
                if (w == "enc2") { auto a = tct(g.encrypt(pk, M)); return "[" + a + "," + tct(g.encrypt(pk, M)) + "]"; }
                keypair_t k = g.keyGen(); auto a = kp(k); return "[" + a + "," + tct(g.encrypt(k.pk, M)) + "]";
            }, c.i());
            return;
        }
        else if (op == "spread") e.str("what", c.s());
        else { fprintf(stderr, "script: %s\n", op.c_str()); exit(3); }
        e.out();
    });
}
