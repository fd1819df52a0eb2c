// Aggregation rounds: set-ups, encryptions, tags, aggregations and verifications of any number of Puda objects.
#include "common.hpp"
#include "puda.hpp"
using namespace puda;

static std::string tn(const mpz_class& v)
{
#ifdef TINY
    return v.get_str(10);
#else
    return jn(v);
#endif
}
static std::string num(const mpz_class& v) { return jn(v); }
static std::string tp(const POINT1& p) { return p.isInf() ? "[]" : "[" + tn(p.getX().getRawValue()) + "," + tn(p.getY().getRawValue()) + "]"; }

struct Obj { Puda* p; ek_v_t ek; sk_v_t sk; ak_t ak; vk_t vk; };
struct World
{
    std::map<long, Obj> objs;                 // never destroyed: points refer to the curves of their objects
    std::vector<ctxt_t> cts;
    std::vector<tag_t> tags;
    static POINT1 base(Obj& o, int t) { return o.p->Enc(ek_t(1), 0, t); }
    template <class V> static std::string scalars(const V& v) { return jl(v, [](const ek_t& k) { return jn(k.getRawValue()); }); }

    void run(Cmd& c)
    {
        const std::string op = c.op();
        Event e(op == "aggsum" ? "agg" : op);
        auto idx = [&](const char* k, long v) { e.i(k, v); return v; };
        if (op == "object") { long o = idx("o", c.i()); objs[o] = Obj{new Puda}; e.out(); return; }
        if (op == "setup")
        {
            Obj& o = objs.at(idx("o", c.i()));
            long n = idx("n", c.i());
            auto r = o.p->Setup(n);
            o.ek = std::get<0>(r); o.sk = std::get<1>(r); o.ak = std::get<2>(r); o.vk = std::get<3>(r);
            e.raw("ek", scalars(o.ek)).raw("tk", jl(o.sk, [](const sk_t& k) { return jn(k.tk.getRawValue()); }));
            e.raw("a", jl(o.sk, [](const sk_t& k) { return jn(k.a); })).n("ak", o.ak.getRawValue()).p("vk1", o.vk.vk_1).p("vk2", o.vk.vk_2);
            e.raw("draws", jdraws());
            e.p("h1", base(o, 1)).out();
        }
        else if (op == "enc")                          // enc o u t m
        {
            Obj& o = objs.at(idx("o", c.i()));
            long u = idx("u", c.i());
            int t = (int) idx("t", c.i());
            long m = idx("m", c.i());
            cts.push_back(o.p->Enc(o.ek.at(u - 1), m, t));
            tags.push_back(o.p->Tag(o.sk.at(u - 1), m, t));
            e.p("base", base(o, t)).p("ct", cts.back()).p("tag", tags.back()).out();
        }
        else if (op == "agg" || op == "aggsum")        // agg o t <k> ciphertexts <k> tags; aggsum g h o t ..: those of g (h) users already added up
        {
            long g = op == "aggsum" ? c.i() : 1, h = op == "aggsum" ? c.i() : 1;
            Obj& o = objs.at(idx("o", c.i()));
            int t = (int) idx("t", c.i());
            std::vector<long> x, y;
            ctxt_v_t cv;
            tag_v_t tv;
            for (long k = c.i(); k > 0; k--) { x.push_back(c.i()); if ((x.size() - 1) % g) cv.back() += cts.at(x.back() - 1); else cv.push_back(cts.at(x.back() - 1)); }
            for (long k = c.i(); k > 0; k--) { y.push_back(c.i()); if ((y.size() - 1) % h) tv.back() += tags.at(y.back() - 1); else tv.push_back(tags.at(y.back() - 1)); }
            auto r = o.p->Agg(o.ak, cv, tv, t);
            auto ls = [](long v) { return std::to_string(v); };
            e.raw("xs", jl(x, ls)).raw("ys", jl(y, ls)).i("sum", r.first).p("tag", r.second);
            e.b("ok", o.p->Verify(o.vk, r.first, r.second, t)).out();
        }
        else if (op == "verify")                       // verify o t sum <kind of tag> tags..: an altered claim
        {
            Obj& o = objs.at(idx("o", c.i()));
            int t = (int) idx("t", c.i());
            long sum = idx("sum", c.i());
            std::string kind = c.s();
            tag_t tag;
            if (kind == "point") { tag = o.vk.vk_2 * c.n(); }
            else while (c.more()) tag += tags.at(c.i() - 1);
            if (kind == "plus") tag += o.vk.vk_2;
            e.p("tag", tag).b("ok", o.p->Verify(o.vk, sum, tag, t)).out();
        }
        else if (op == "aggtry")                        // aggtry o t xs..: an aggregation that cannot succeed; nobody looks at its result
        {
            Obj& o = objs.at(c.i());
            int t = (int) c.i();
            ctxt_v_t cv; tag_v_t tv;
            while (c.more()) { long x = c.i(); cv.push_back(cts.at(x - 1)); tv.push_back(tags.at(x - 1)); }
            try { o.p->Agg(o.ak, cv, tv, t); } catch (const std::exception&) {}
        }
        else if (op == "churn")                         // earlier rounds that nobody looked at: churn o n
        {
            Obj& o = objs.at(c.i());
            for (int n = c.i(); n > 0; n--)
            {
                ctxt_v_t cv; tag_v_t tv;
                for (size_t u = 0; u < o.ek.size(); u++) { cv.push_back(o.p->Enc(o.ek[u], u + n % 3, n)); tv.push_back(o.p->Tag(o.sk[u], u + n % 3, n)); }
                auto r = o.p->Agg(o.ak, cv, tv, n);
                o.p->Verify(o.vk, r.first, r.second, n);
            }
        }
        else if (op == "many")                          // many o n times: set-ups of n users, one after the other
        {
            Obj& o = objs.at(idx("o", c.i()));
            long n = idx("n", c.i());
            std::vector<mpz_class> v;
            for (long k = c.i(); k > 0; k--)
            {
                auto r = o.p->Setup(n);
                for (auto& x : std::get<0>(r)) v.push_back(x.getRawValue());
                for (auto& x : std::get<1>(r)) v.push_back(x.tk.getRawValue());
                v.push_back(std::get<1>(r).at(0).a);
            }
            e.raw("vs", jl(v, num)).out();
        }
        else if (op == "spread") e.str("what", c.s()).out();
        // ---- distributions (small curves)
        else if (op == "distsetup")
        {
            long n = idx("n", c.i());
            distribution(e, [&] {
                Puda p;
                auto r = p.Setup(n);
                auto& vk = std::get<3>(r);
                return "[" + tp(p.Enc(ek_t(1), 0, 1)) + "," + jl(std::get<0>(r), [](const ek_t& k) { return tn(k.getRawValue()); }) + "," +
                    jl(std::get<1>(r), [](const sk_t& k) { return tn(k.tk.getRawValue()); }) + "," +
                    jl(std::get<1>(r), [](const sk_t& k) { return tn(k.a); }) + "," + tn(std::get<2>(r).getRawValue()) + "," + tp(vk.vk_1) + "," + tp(vk.vk_2) + "]"; }, c.i());
        }
        else if (op == "distenc")                      // distenc n t runs (u m)*: joint ciphertexts of some users, with the base
        {
            long n = idx("n", c.i());
            int t = (int) idx("t", c.i());
            long runs = c.i();
            std::vector<std::pair<long, long>> um;
            while (c.more()) { long u = c.i(); um.push_back({u, c.i()}); }
            e.raw("us", jl(um, [](const std::pair<long, long>& x) { return std::to_string(x.first); }));
            e.raw("ms", jl(um, [](const std::pair<long, long>& x) { return std::to_string(x.second); }));
            distribution(e, [&] {
                Puda p;
                auto r = p.Setup(n);
                return "[" + tp(p.Enc(ek_t(1), 0, t)) + "," + tn(std::get<2>(r).getRawValue()) + "," + jl(um, [&](const std::pair<long, long>& x) { return tp(p.Enc(std::get<0>(r).at(x.first - 1), x.second, t)); }) + "]"; }, runs);
        }
        else { fprintf(stderr, "bad command %s\n", op.c_str()); exit(3); }
    }
};
int main()
{
    std::unique_ptr<World> w;
    script([&](Cmd& c) {
        if (c.op() == "start") { bool f = c.more() && c.s() == "fresh"; w.reset(new World); Event("start").b("fresh", f).out(); }
        else w->run(c);
    });
}
