#include "common.hpp"
#include "dme.hpp"
#include "dmhe.hpp"
#include "ot.hpp"
#include "dot.hpp"

using namespace dme;

static std::string tn(const mpz_class& v)
{
#ifdef TINY
    return v.get_str(10);
#else
    return jn(v);
#endif
}
static std::string tp(const POINT& p)
{ return p.isInf() ? "[]" : "[" + tn(p.getX().getRawValue()) + "," + tn(p.getY().getRawValue()) + "]"; }
static std::string jcrs(const crs_ddh_t& c) { return "[" + jpt(c.g0) + "," + jpt(c.g1) + "," + jpt(c.h0) + "," + jpt(c.h1) + "]"; }
static std::string tcrs(const crs_ddh_t& c) { return "[" + tp(c.g0) + "," + tp(c.g1) + "," + tp(c.h0) + "," + tp(c.h1) + "]"; }
static std::string jpk(const pkey_t& k) { return "[" + jpt(k.g) + "," + jpt(k.h) + "]"; }
static std::string tpk(const pkey_t& k) { return "[" + tp(k.g) + "," + tp(k.h) + "]"; }
static std::string jct(const ctxt_t& k) { return "[" + jpt(k.u) + "," + jpt(k.mv) + "]"; }
static std::string tct(const ctxt_t& k) { return "[" + tp(k.u) + "," + tp(k.mv) + "]"; }

// A message: "inf", or "p<k>" the k-fold generator, or "i<v>" an integer, or "x<v>" the point at x = v or the next one
// that has one; all hexadecimal.
struct Msg { bool isInt = false; mpz_class i; POINT p; };

struct World
{
    // Objects are never destroyed: values made by an instance refer to its curve.
    template <class T> struct Slot { T* p = nullptr; void reset(T* q) { p = q; } T& operator*() { return *p; } T* operator->() { return p; } };
    std::map<long, Slot<DMHE_DDH>> inst;
    std::vector<std::pair<pkey_t, skey_t>> keys;
    std::vector<ctxt_t> cts;
    std::map<long, Slot<ot::OTrecv>> recv;
    std::map<long, Slot<ot::OTsndr>> sndr;
    std::map<long, Slot<ot::DOTprxy>> prxy;
    std::vector<pkey_t> sels;
    std::vector<ot::ctxt_v_t> xfer;
    CURVE* curve = new CURVE;     // shared by everything the scripts construct themselves

    POINT mk(const std::string& s)
    {
        if (s == "inf") return POINT();
        mpz_class v(s.substr(1), 16);
        if (s[0] == 'p') return curve->getDefaultGen() * v;
        for (;; v += 1) { POINT p = curve->evaluateP(FIELD_p(v)); if (!p.isInf()) return p; }
    }
    Msg msg(Cmd& c)
    {
        std::string s = c.s();
        Msg m;
        if (s[0] == 'i' && s != "inf") { m.isInt = true; m.i = mpz_class(s.substr(1), 16); }
        else m.p = mk(s);
        return m;
    }
    void out(Event& e, const char* k, const Msg& m)
    { e.raw(k, m.isInt ? "{\"int\":" + jn(m.i) + "}" : "{\"pt\":" + jpt(m.p) + "}"); }
    DMHE_DDH& I(long i) { auto p = inst.find(i); if (p == inst.end()) { fprintf(stderr, "no instance\n"); exit(3); } return *p->second; }
    crs_ddh_t crs(Cmd& c) { POINT a = mk(c.s()), b = mk(c.s()), d = mk(c.s()), f = mk(c.s()); return crs_ddh_t(a, b, d, f); }

    void run(Cmd& c)
    {
        const std::string op = c.op();
        Event e(op);
        auto branch = [&](Cmd& c) { return branch_t(c.i()); };
        auto idx = [&](const char* k, long v) { e.i(k, v); return v; };
        if (op == "new")
        {
            long i = idx("i", c.i());
            std::string m = c.s();
            inst[i].reset(new DMHE_DDH(m == "dec" ? dme::mode_t::dec : dme::mode_t::messy));
            if (c.more()) { e.str("note", c.s()); }
            e.str("mode", m).raw("crs", jcrs(I(i).crs)).raw("draws", jdraws()).out();
        }
        else if (op == "anycrs")                        // the default constructor of the base class
        {
            long i = idx("i", c.i());
            DME_DDH d;
            inst[i].reset(new DMHE_DDH(d.crs));
            e.raw("crs", jcrs(I(i).crs)).raw("draws", jdraws()).out();
        }
        else if (op == "import")                        // import i from-instance j
        {
            long i = idx("i", c.i()), j = idx("j", c.i());
            inst[i].reset(new DMHE_DDH(I(j).crs));
            e.raw("crs", jcrs(I(i).crs)).out();
        }
        else if (op == "importraw") { long i = idx("i", c.i()); inst[i].reset(new DMHE_DDH(crs(c))); e.raw("crs", jcrs(I(i).crs)).out(); }
        else if (op == "dup") { long i = idx("i", c.i()), j = idx("j", c.i()); inst[i].reset(new DMHE_DDH(I(j))); e.raw("crs", jcrs(I(i).crs)).out(); }
        else if (op == "assign") { long i = idx("i", c.i()), j = idx("j", c.i()); I(i) = I(j); e.raw("crs", jcrs(I(i).crs)).out(); }
        else if (op == "keygen")
        {
            long i = idx("i", c.i());
            branch_t b = branch(c);
            keypair_t k = I(i).KeyGen(b);
            keys.push_back({k.pk, k.sk});
            e.i("b", b).raw("pk", jpk(k.pk)).n("sk", k.sk.getRawValue()).raw("draws", jdraws()).out();
        }
        else if (op == "trap")
        {
            long i = idx("i", c.i());
            auto t = I(i).TrapKeyGen();
            keys.push_back({std::get<0>(t), std::get<1>(t)});
            keys.push_back({std::get<0>(t), std::get<2>(t)});
            e.raw("pk", jpk(std::get<0>(t))).n("sk0", std::get<1>(t).getRawValue()).n("sk1", std::get<2>(t).getRawValue()).raw("draws", jdraws()).out();
        }
        else if (op == "rawkey")                        // rawkey i g h: points as in messages, or "c<b>,<k>" k times base b of i
        {
            long i = idx("i", c.i());
            std::string f = c.s();
            pkey_t pk;
            if (f == "off")                             // on branch b but for a last touch
            {
                branch_t b = branch(c);
                mpz_class k = c.n();
                long d = c.i();
                auto& r = I(i).crs;
                pk = pkey_t((b ? r.g1 : r.g0) * k, (b ? r.h1 : r.h0) * k);
                if (d == 1) pk.h += curve->getDefaultGen();
                if (d == 2) pk.g += curve->getDefaultGen();
                if (d == 3) pk.h = pk.h * mpz_class(-1);
                if (d == 4) pk.g = POINT();
                if (d == 5) pk.h = POINT();
            }
            else { POINT g = mk(f), h = mk(c.s()); pk = pkey_t(g, h); }
            keys.push_back({pk, skey_t(1)});
            e.raw("pk", jpk(pk)).out();
        }
        else if (op == "enc")
        {
            long i = idx("i", c.i()), k = idx("k", c.i());
            branch_t b = branch(c);
            Msg m = msg(c);
            auto& kp = keys.at(k - 1);
            cts.push_back(m.isInt ? I(i).Enc(kp.first, b, m.i) : I(i).Enc(kp.first, b, m.p));
            out(e.i("b", b), "m", m);
            e.raw("ct", jct(cts.back())).raw("draws", jdraws()).out();
        }
        else if (op == "dec") { long i = idx("i", c.i()), k = idx("k", c.i()), x = idx("c", c.i()); e.p("pt", I(i).Dec(keys.at(k - 1).second, cts.at(x - 1))).out(); }
        else if (op == "decint") { long i = idx("i", c.i()), k = idx("k", c.i()), x = idx("c", c.i()); e.n("val", I(i).DecDecode(keys.at(k - 1).second, cts.at(x - 1))).out(); }
        else if (op == "eval")
        {
            long i = idx("i", c.i()), a = idx("a", c.i()), b = idx("b", c.i());
            ctxt_t r = I(i).Eval(cts.at(a - 1), cts.at(b - 1));
            cts.push_back(r);
            e.raw("ct", jct(r)).raw("ca", jct(cts.at(a - 1))).raw("cb", jct(cts.at(b - 1))).out();
        }
        else if (op == "messy") { long i = idx("i", c.i()), k = idx("k", c.i()); e.i("b", I(i).FindMessy(keys.at(k - 1).first)).out(); }
        else if (op == "coding") { long i = idx("i", c.i()); mpz_class m = c.n(); POINT p = I(i).encode(m); e.n("m", m).p("pt", p).n("back", I(i).decode(p)).out(); }
        else if (op == "spread") e.str("what", c.s()).out();
        // ------------------------------------------------------------ transfers
        else if (op == "recv")  { long r = idx("r", c.i()), j = idx("j", c.i()); recv[r].reset(c.more() && c.s() == "dot" ? new ot::DOTrecv(I(j).crs) : new ot::OTrecv(I(j).crs)); e.out(); }
        else if (op == "sndr")  { long r = idx("s", c.i()), j = idx("j", c.i()); sndr[r].reset(c.more() && c.s() == "dot" ? new ot::DOTsndr(I(j).crs) : new ot::OTsndr(I(j).crs)); e.out(); }
        else if (op == "prxy")  { long r = idx("p", c.i()), j = idx("j", c.i()); prxy[r].reset(new ot::DOTprxy(I(j).crs)); e.out(); }
        else if (op == "select")
        {
            long r = idx("r", c.i());
            branch_t b = branch(c);
            sels.push_back(recv.at(r)->selectMsg(b));
            e.i("b", b).i("gb", recv.at(r)->getBranch()).raw("pk", jpk(sels.back())).raw("draws", jdraws()).out();
        }
        else if (op == "send")
        {
            long s = idx("s", c.i()), k = idx("k", c.i());
            std::string rnd;
            Msg a = msg(c), b = msg(c);
            xfer.push_back(a.isInt ? sndr.at(s)->encMsgs(sels.at(k - 1), a.i, b.i) : sndr.at(s)->encMsgs(sels.at(k - 1), a.p, b.p));
            out(e, "m0", a); out(e, "m1", b);
            e.raw("cts", jl(xfer.back(), jct)).raw("draws", jdraws()).out();
        }
        else if (op == "sendrnd")
        {
            long s = idx("s", c.i()), k = idx("k", c.i());
            Msg a, b;
            a.p = sndr.at(s)->getRandomMsg();
            b.p = sndr.at(s)->getRandomMsg();
            rng::log.clear();
            xfer.push_back(sndr.at(s)->encMsgs(sels.at(k - 1), a.p, b.p));
            e.s.replace(7, 7, "send");
            out(e, "m0", a); out(e, "m1", b);
            e.raw("cts", jl(xfer.back(), jct)).raw("draws", jdraws()).out();
        }
        else if (op == "open") { long r = idx("r", c.i()), x = idx("x", c.i()); e.p("pt", recv.at(r)->decryptMsg(xfer.at(x - 1))).out(); }
        else if (op == "openint") { long r = idx("r", c.i()), x = idx("x", c.i()); e.n("val", recv.at(r)->decryptMsgDecode(xfer.at(x - 1))).out(); }
        else if (op == "agg")
        {
            long p = idx("p", c.i());
            std::vector<long> xs;
            std::vector<ot::ctxt_v_t> in;
            while (c.more()) { xs.push_back(c.i()); in.push_back(xfer.at(xs.back() - 1)); }
            xfer.push_back(prxy.at(p)->aggregate(in));
            e.raw("xs", jl(xs, [](long v) { return std::to_string(v); })).raw("cts", jl(xfer.back(), jct)).raw("ins", jl(xs, [&](long v) { return jl(xfer.at(v - 1), jct); })).out();
        }
        else if (op == "churn")                         // earlier use that nobody looked at: churn instance n
        {
            DMHE_DDH& d = I(c.i());
            ot::OTrecv r(d.crs); ot::DOTsndr s(d.crs); ot::DOTprxy p(d.crs);
            POINT m = curve->getDefaultGen();
            for (long n = c.i(); n > 0; n--)
            {
                branch_t b = branch_t(n % 2);
                keypair_t k = d.KeyGen(b);
                ctxt_t x = d.Enc(k.pk, b, m), y = d.Enc(k.pk, branch_t(1 - b), mpz_class(n));
                m = d.Dec(k.sk, d.Eval(x, x)); if (m.isInf()) m = curve->getDefaultGen();
                auto t = s.encMsgs(r.selectMsg(b), m, m);
                r.decryptMsg(p.aggregate({t, t}));
            }
        }
        else if (op == "many")                          // many what n instance..: a long run, of which only some coordinates are shown
        {
            std::string what = c.s();
            long n = c.i();
            DMHE_DDH& d = I(c.i());
            std::vector<mpz_class> x;
            auto put = [&](const POINT& p) { x.push_back(p.isInf() ? mpz_class(0) : p.getX().getRawValue()); };
            pkey_t pk = what == "new" ? pkey_t() : d.KeyGen(b0).pk;
            POINT m = curve->getDefaultGen();
            ot::OTrecv r(d.crs); ot::OTsndr s(d.crs);
            for (long k = 0; k < n; k++)
            {
                branch_t b = branch_t(k % 2);
                if (what == "key") put(d.KeyGen(b).pk.g);
                else if (what == "trap") put(std::get<0>(d.TrapKeyGen()).g);
                else if (what == "enc") put(d.Enc(pk, b, m).u);
                else if (what == "select") put(r.selectMsg(b).g);
                else if (what == "send") { auto t = s.encMsgs(pk, m, m); put(t.at(0).u); put(t.at(1).u); }
                else if (what == "new") { DMHE_DDH q(k % 2 ? dme::mode_t::dec : dme::mode_t::messy); put(q.crs.g0); put(q.crs.g1); put(q.crs.h0); put(q.crs.h1); }
                else { fprintf(stderr, "what\n"); exit(3); }
            }
            e.str("what", what).raw("xs", jl(x, [](const mpz_class& v) { return jn(v); })).out();
        }
        // ------------------------------------------------------------ distributions (small curves)
        else if (op == "distenc")
        {
            long i = c.i(), k = c.i();
            branch_t b = branch(c);
            Msg m = msg(c);
            e.raw("crs", tcrs(I(i).crs)).raw("pk", tpk(keys.at(k - 1).first)).i("b", b).raw("m", tp(m.p));
            distribution(e, [&] { return tct(I(i).Enc(keys.at(k - 1).first, b, m.p)); }, c.i());
        }
        else if (op == "distkey")
        {
            long i = c.i();
            branch_t b = branch(c);
            e.raw("crs", tcrs(I(i).crs)).i("b", b);
            distribution(e, [&] { keypair_t k = I(i).KeyGen(b); return "[" + tpk(k.pk) + "," + tn(k.sk.getRawValue()) + "]"; }, c.i());
        }
        else if (op == "distselect")
        {
            long i = c.i();
            branch_t b = branch(c);
            e.raw("crs", tcrs(I(i).crs)).i("b", b);
            ot::OTrecv r(I(i).crs);
            distribution(e, [&] { return tpk(r.selectMsg(b)); }, c.i());
        }
        else if (op == "distsend")                      // both ciphertexts of one transfer
        {
            long i = c.i(), k = c.i();
            Msg a = msg(c), b = msg(c);
            e.raw("crs", tcrs(I(i).crs)).raw("pk", tpk(keys.at(k - 1).first)).raw("m0", tp(a.p)).raw("m1", tp(b.p));
            ot::OTsndr s(I(i).crs);
            distribution(e, [&] { auto x = s.encMsgs(keys.at(k - 1).first, a.p, b.p); return "[" + tct(x.at(0)) + "," + tct(x.at(1)) + "]"; }, c.i());
        }
        else if (op == "distcrs")
        {
            std::string m = c.s();
            e.str("mode", m);
            distribution(e, [&] {
                if (m == "any") { DME_DDH d; return tcrs(d.crs); }
                DMHE_DDH d(m == "dec" ? dme::mode_t::dec : dme::mode_t::messy);
                return tcrs(d.crs); }, c.i());
        }
        else if (op == "distmessy")
        {
            std::vector<POINT> pts;
            for (mpz_class k = 0; k < curve->getOrder(); k++) pts.push_back(curve->getDefaultGen() * k);
            e.raw("pts", jl(pts, tp));
            distribution(e, [&] {
                DMHE_DDH d(dme::mode_t::messy);
                std::string a;
                for (auto& g : pts) for (auto& h : pts) a += std::string(a.empty() ? "" : ",") + std::to_string(d.FindMessy(pkey_t(g, h)));
                return "[" + tcrs(d.crs) + ",[" + a + "]]"; }, c.i());
        }
        else if (op == "disttrap")
        {
            distribution(e, [&] {
                DMHE_DDH d(dme::mode_t::dec);
                if (d.crs.g1.isInf()) { d.KeyGen(b0); return std::string("[[],[],[],[]]"); }
                auto t = d.TrapKeyGen();
                return "[" + tcrs(d.crs) + "," + tpk(std::get<0>(t)) + "," + tn(std::get<1>(t).getRawValue()) + "," + tn(std::get<2>(t).getRawValue()) + "]"; }, c.i());
        }
        else { fprintf(stderr, "bad command %s\n", op.c_str()); exit(3); }
    }
};

int main()
{
    std::unique_ptr<World> w;
    script([&](Cmd& c) {
        if (c.op() == "start") { bool f = c.more() && c.s() == "fresh"; w.reset(new World); Event("start").b("fresh", f).out(); }
        else w->run(c);
    });
}
