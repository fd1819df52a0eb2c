#include "common.hpp"
#include "shamirss.hpp"

int main()
{
    std::vector<sss::ShamirSS> obj(4);
    std::vector<sss::share_v_t> kept;
    auto tiny = [](const mpz_class& v) {
#ifdef TINY
        return v.get_str(10);
#else
        return jn(v);
#endif
    };
    script([&](Cmd& c) {
        const std::string op = c.op();
        Event e(op);
        if (op == "start") { kept.clear(); e.out(); }
        else if (op == "share")
        {
            auto& o = obj.at(c.i());
            long t = c.i(), n = c.i();
            mpz_class s = c.n();
            kept.push_back(o.getShares(t, n, sss::FIELD(s)));
            auto& v = kept.back();
            std::vector<long> sel;
            if (c.more()) while (c.more()) sel.push_back(c.i());
            else for (long i = 1; i <= n; i++) sel.push_back(i);
            e.i("t", t).i("n", n).n("secret", s).i("cnt", v.size()).raw("shares", jl(sel, [&](long i) {
                return i > (long) v.size() ? std::string("[0,\"0\",\"0\"]")
                    : "[" + std::to_string(i) + "," + jn(v[i - 1].idx.getRawValue()) + "," + jn(v[i - 1].val.getRawValue()) + "]"; })).out();
        }
        else if (op == "recon")
        {
            auto& o = obj.at(c.i());
            size_t sid = c.i();
            std::vector<long> sel;
            while (c.more()) sel.push_back(c.i());
            sss::share_v_t in;
            for (long i : sel) in.push_back(kept.at(sid - 1).at(i - 1));
            e.i("sid", sid).raw("sel", jl(sel, [](long v) { return std::to_string(v); })).n("val", o.reconSecret(in).getRawValue()).out();
        }
        else if (op == "reconraw")
        {
            sss::share_v_t in;
            while (c.more()) { mpz_class a = c.n(); in.push_back(sss::share_t(sss::FIELD(a), sss::FIELD(c.n()))); }
            e.n("val", obj[0].reconSecret(in).getRawValue()).out();
        }
        else if (op == "churn")                               // earlier use that nobody looked at
        {
            for (long n = c.i(); n > 0; n--) { auto v = obj.at(n % 4).getShares(2 + n % 2, 3, sss::FIELD(mpz_class(n))); obj.at(n % 3).reconSecret(v); }
        }
        else if (op == "spread") e.i("pos", c.i()).out();
        else if (op == "dist")
        {
            long t = c.i(), n = c.i();
            mpz_class s = c.n();
            e.i("t", t).i("n", n).raw("secret", tiny(s));
            distribution(e, [&] {
                return jl(obj[1].getShares(t, n, sss::FIELD(s)), [&](const sss::share_t& x) {
                    return "[" + tiny(x.idx.getRawValue()) + "," + tiny(x.val.getRawValue()) + "]"; });
            }, c.i());
        }
        else { fprintf(stderr, "bad command %s\n", op.c_str()); exit(3); }
    });
}
