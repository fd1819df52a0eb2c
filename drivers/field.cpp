#include "common.hpp"
#include "field_secp256r1.hpp"
#include "field_bn254.hpp"

template <class F> struct Machine
{
    std::vector<F> r;
    Machine() { for (int i = 0; i < 4; i++) r.push_back(F()); }
    size_t x(Cmd& c) { return c.i() - 1; }
    bool run(Cmd& c)
    {
        const std::string op = c.op();
        Event e(op);
        std::string ret = "none";
        std::vector<long> ix;
        std::string k = "0";
        auto R = [&](Cmd& c) -> F& { long i = c.i(); ix.push_back(i); return r.at(i - 1); };
        auto N = [&](Cmd& c) { mpz_class v = c.n(); k = hex(v); return v; };
        auto at = [&](const F& target, const F& result) { if (&target != &result) ret = "elsewhere"; };    // compound forms give their target
        if (op == "load") { F& d = R(c); d = F(N(c)); }
        else if (op == "copy") { F& d = R(c); F t(R(c)); d = t; }
        else if (op == "assign") { F& d = R(c); F& s = R(c); at(d, d = s); }
        else if (op == "swapcopy") { F& d = R(c); F& s = R(c); F t(s); F u; u = t; t += F(1); d = u; }
        else if (op == "add") { F& d = R(c); F& a = R(c); F& b = R(c); d = a + b; }
        else if (op == "sub") { F& d = R(c); F& a = R(c); F& b = R(c); d = a - b; }
        else if (op == "mul") { F& d = R(c); F& a = R(c); F& b = R(c); d = a * b; }
        else if (op == "div") { F& d = R(c); F& a = R(c); F& b = R(c); d = a / b; }
        else if (op == "addeq") { F& a = R(c); F& b = R(c); at(a, a += b); }
        else if (op == "subeq") { F& a = R(c); F& b = R(c); at(a, a -= b); }
        else if (op == "muleq") { F& a = R(c); F& b = R(c); at(a, a *= b); }
        else if (op == "diveq") { F& a = R(c); F& b = R(c); at(a, a /= b); }
        else if (op == "neg") { F& d = R(c); F& a = R(c); d = -a; }
        else if (op == "muli") { F& d = R(c); F& a = R(c); d = a * N(c); }
        else if (op == "muleqi") { F& a = R(c); at(a, a *= N(c)); }
        else if (op == "sq") { F& d = R(c); F& a = R(c); d = a.square(); }
        else if (op == "inv") { F& d = R(c); F& a = R(c); d = a.invert(); }
        else if (op == "eq") { F& a = R(c); F& b = R(c); ret = jb(a == b); }
        else if (op == "eqmod") { F& a = R(c); F& b = R(c); F t(b); t = F(a); t.setField(a.getField() + 2); ret = jb(a == t || t == a); }
        else if (op == "churn")                               // earlier use that nobody looked at
        {
            F a(mpz_class(3)), b(mpz_class(5));
            for (long n = c.i(); n > 0; n--)
            {
                F d = a * b + F(n), s = a - b; d += s; d = -d;
                if (!(d == F())) { s /= d; a = d.invert(); }
                b = s.square() + F(1);
            }
            return true;
        }
        else if (op == "set") { for (auto& v : r) if (c.more()) v = F(c.n()); return true; }
        else return false;
        e.raw("ix", jl(ix, [](long v) { return std::to_string(v); })).str("k", k);
        out(e, ret);
        return true;
    }
    std::string mod() { for (auto& v : r) if (v.getField() != r[0].getField()) return "mixed"; return hex(r[0].getField()); }
    void out(Event& e, const std::string& ret)
    {
        e.str("ret", ret).raw("reg", jl(r, [](const F& v) { return jn(v.getRawValue()); }))
            .str("mod", mod()).out();
    }
};

int main()
{
    std::function<bool(Cmd&)> run;
    script([&](Cmd& c) {
        if (c.op() == "start")
        {
            std::string f = c.s();
            auto go = [&](auto m) {
                auto p = std::make_shared<decltype(m)>();
                run = [p](Cmd& c) { return p->run(c); };
                Event e("start"); e.str("field", f); p->out(e, "none");
            };
            if (f == "secp_p") go(Machine<field::Field_secp256r1_p>());
            else if (f == "secp_n") go(Machine<field::Field_secp256r1_n>());
            else if (f == "bn_p") go(Machine<field::Field_bn254_p>());
            else if (f == "bn_n") go(Machine<field::Field_bn254_n>());
        }
        else if (!run(c)) { fprintf(stderr, "bad command %s\n", c.op().c_str()); exit(3); }
    });
}
