#include "common.hpp"
#include "ecc_secp256r1.hpp"
#include "ecc_bn254.hpp"

template <class CURVE, class POINT, class FP, class FN> struct Machine
{
    CURVE curve;
    std::vector<POINT> r;
    Machine() : r(3) {}
    std::string tiny(const mpz_class& v)
    {
#ifdef TINY
        return v.get_str(10);
#else
        return jn(v);
#endif
    }
    std::string tp(const POINT& p)
    { return p.isInf() ? "[]" : "[" + tiny(p.getX().getRawValue()) + "," + tiny(p.getY().getRawValue()) + "]"; }

    // outcome of one random computation, as JSON
    std::string sample(const std::string& what)
    {
        auto kp = [&] { auto k = curve.generateKeyPair(); return "[" + tiny(k.sk) + "," + tp(k.pk) + "]"; };
        if (what == "scalar") return tiny(curve.getRandomScalar().getRawValue());
        if (what == "point") return tp(curve.getRandomPoint());
        if (what == "keypair") return kp();
        std::string all;                                    // several draws, a letter each
        for (char k : what) all += (all.empty() ? "" : ",") + sample(k == 's' ? "scalar" : k == 'p' ? "point" : "keypair");
        return "[" + all + "]";
    }
    void run(Cmd& c)
    {
        const std::string op = c.op();
        Event e(op);
        std::string ret = "none", k = "0", y = "0";
        std::vector<long> ix;
        auto R = [&](Cmd& c) -> POINT& { long i = c.i(); ix.push_back(i); return r.at(i - 1); };
        auto K = [&](Cmd& c) { mpz_class v = c.n(); k = hex(v); return v; };
        auto Y = [&](Cmd& c) { mpz_class v = c.n(); y = hex(v); return v; };
        if (op == "params")
        {
            POINT g = curve.getDefaultGen();
            e.n("p", curve.getPrime()).n("a", curve.getA()).n("b", curve.getB()).n("af", curve.getAField().getRawValue())
                .n("bf", curve.getBField().getRawValue()).n("n", curve.getOrder()).p("g", g).b("gvalid", g.isValid())
                .p("nm1g", g * mpz_class(curve.getOrder() - 1)).out();
            return;
        }
        if (op == "scalar") { FN v = curve.getRandomScalar(); e.n("v", v.getRawValue()).n("mod", v.getField()).out(); return; }
        if (op == "rpoint") { POINT p = curve.getRandomPoint(); e.p("pt", p).b("valid", p.isValid()).raw("draws", jdraws()).out(); return; }
        if (op == "keypair") { auto kp = curve.generateKeyPair(); e.n("sk", kp.sk).p("pk", kp.pk).b("valid", kp.pk.isValid()).out(); return; }
        if (op == "spread") { e.out(); return; }
        if (op == "many")                                   // many what count: a long run of draws
        {
            std::string what = c.s();
            std::vector<mpz_class> v, x;
            bool ok = true;
            for (long n = c.i(); n > 0; n--)
            {
                POINT p;
                if (what == "scalar") v.push_back(curve.getRandomScalar().getRawValue());
                else if (what == "keypair") { auto kp = curve.generateKeyPair(); v.push_back(kp.sk); p = kp.pk; }
                else p = curve.getRandomPoint();
                if (what != "scalar") { ok = ok && p.isValid() && !p.isInf(); x.push_back(p.isInf() ? mpz_class(0) : p.getX().getRawValue()); }
            }
            e.str("what", what).b("valid", ok).raw("vs", jl(v, [](const mpz_class& k) { return jn(k); }))
                .raw("xs", jl(x, [](const mpz_class& k) { return jn(k); })).out();
            return;
        }
        if (op == "dist")
        {
            std::string what = c.s();
            bool one = what == "scalar" || what == "point" || what == "keypair";
            std::string kinds;
            for (char k : one ? what.substr(0, 1) : what) kinds += std::string(kinds.empty() ? "\"" : ",\"") + k + "\"";
            distribution(e.b("one", one).raw("kinds", "[" + kinds + "]"), [&] { return sample(what); }, c.i());
            return;
        }
        auto at = [&](const POINT& target, const POINT& result) { if (&target != &result) ret = "elsewhere"; };    // compound forms give their target
        if (op == "churn")                                   // earlier use that nobody looked at
        {
            POINT a = curve.getDefaultGen(), b = a + a;
            for (long n = c.i(); n > 0; n--)
            {
                POINT d = a + b; d -= a; d += b; b = d.pointDouble(); b *= mpz_class(n);
                POINT t = curve.getDefaultGen(); t.setEncodedX(b.isInf() ? a.getEncodedX() : b.getEncodedX());
                curve.evaluateP(FP(n)); curve.evaluatePneg(FP(n));
                if (!t.isValid() || t == a) b = a;
                a = t - b; if (a.isInf()) a = curve.getDefaultGen();
            }
            return;
        }
        if (op == "set")
        {
            for (auto& p : r) if (c.more()) { std::string s = c.s(); if (s == "inf") p = POINT(); else { mpz_class x(s, 16); p = POINT(x, c.n(), &curve); } }
            return;
        }
        if (op == "pt") { POINT& d = R(c); mpz_class x = K(c); d = POINT(x, Y(c), &curve); }
        else if (op == "ptfield") { POINT& d = R(c); mpz_class x = K(c); d = POINT(FP(x), FP(Y(c)), &curve); }
        else if (op == "ptstr")
        {
            POINT& d = R(c); mpz_class x = K(c), yy = Y(c);
            switch (c.i())
            {
            case 0: d = POINT(x.get_str(10), yy.get_str(10), &curve); break;
            case 1: d = POINT(x.get_str(16), yy.get_str(16), &curve, 16); break;
            case 2: d = POINT(x.get_str(10).c_str(), yy.get_str(10).c_str(), &curve); break;
            default: d = POINT(x.get_str(16).c_str(), yy.get_str(16).c_str(), &curve, 16); break;
            }
        }
        else if (op == "inf") R(c) = POINT();
        else if (op == "gen") R(c) = curve.getDefaultGen();
        else if (op == "copy") { POINT& d = R(c); POINT t(R(c)); d = t; }
        else if (op == "assign") { POINT& d = R(c); POINT& s = R(c); at(d, d = s); }
        else if (op == "swapcopy") { POINT& d = R(c); POINT& s = R(c); POINT t(s), u; u = t; t += curve.getDefaultGen(); d = u; }
        else if (op == "add") { POINT& d = R(c); POINT& a = R(c); POINT& b = R(c); d = a + b; }
        else if (op == "sub") { POINT& d = R(c); POINT& a = R(c); POINT& b = R(c); d = a - b; }
        else if (op == "addeq") { POINT& a = R(c); POINT& b = R(c); at(a, a += b); }
        else if (op == "subeq") { POINT& a = R(c); POINT& b = R(c); at(a, a -= b); }
        else if (op == "dbl") { POINT& d = R(c); POINT& a = R(c); d = a.pointDouble(); }
        else if (op == "mulz") { POINT& d = R(c); POINT& a = R(c); d = a * K(c); }
        else if (op == "mulf") { POINT& d = R(c); POINT& a = R(c); d = a * FN(K(c)); }
        else if (op == "muleqz") { POINT& a = R(c); at(a, a *= K(c)); }
        else if (op == "muleqf") { POINT& a = R(c); at(a, a *= FN(K(c))); }
        else if (op == "eq") { POINT& a = R(c); POINT& b = R(c); ret = jb(a == b); }
        else if (op == "valid") ret = jb(R(c).isValid());
        else if (op == "validxy") { mpz_class x = K(c); ret = jb(POINT(x, Y(c), &curve).isValid()); }
        else if (op == "validnone") { mpz_class x = K(c); ret = jb(POINT(x, Y(c), nullptr).isValid()); }
        else if (op == "enc") ret = hex(R(c).getEncodedX());
        else if (op == "dec") { POINT& d = R(c); POINT t = curve.getDefaultGen(); t.setEncodedX(K(c)); d = t; }
        else if (op == "decself") { POINT& d = R(c); d.setEncodedX(K(c)); }
        else if (op == "lift") { POINT& d = R(c); d = curve.evaluateP(FP(K(c))); }
        else if (op == "liftn") { POINT& d = R(c); d = curve.evaluatePneg(FP(K(c))); }
        else if (op == "rhs") ret = hex(curve.evaluatePy2(FP(K(c))).getRawValue());
        else { fprintf(stderr, "bad command %s\n", op.c_str()); exit(3); }
        bool valid = true;
        for (auto& p : r) valid = valid && p.isValid();
        e.raw("ix", jl(ix, [](long v) { return std::to_string(v); })).str("k", k).str("y", y).str("ret", ret).b("valid", valid)
            .raw("reg", jl(r, [](const POINT& p) { return jpt(p); })).out();
    }
};

int main()
{
    std::function<void(Cmd&)> run;
    script([&](Cmd& c) {
        if (c.op() == "start")
        {
            std::string f = c.s();
            auto go = [&](auto p) { run = [p](Cmd& c) { p->run(c); }; };
            if (f == "bn") go(std::make_shared<Machine<ecc::Curve_bn254, ecc::Point_bn254, field::Field_bn254_p, field::Field_bn254_n>>());
            else go(std::make_shared<Machine<ecc::Curve_secp256r1, ecc::Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>>());
            Event("start").out();
        }
        else run(c);
    });
}
