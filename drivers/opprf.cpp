// Threshold evaluations: any number of servers and clients, and a "glass" client whose keys open both branches of
// every transfer, so that everything a server sends becomes visible.
#include "common.hpp"
#include "dmhe.hpp"
#include "opprf.hpp"
using namespace opprf;

static std::string num(const mpz_class& v) { return jn(v); }
static std::string jprf(const G_t& p) { return jpt(p); }
static std::string jdrawsr()
{ return jl(rng::log, [](const rng::Draw& d) { return "[" + jn(d.range) + "," + jn(d.val) + "]"; }); }

struct World
{
    // never destroyed: points refer to the curves of their objects
    dme::DME_DDH* dme = nullptr;
    dme::CURVE* curve = new dme::CURVE;
    std::map<long, OPPRFserver*> srv;
    std::map<long, OPPRFclient*> cli;
    std::map<long, ot_ctxts_t> wire;
    OPPRFserver& S(long i) { if (!srv.count(i)) { fprintf(stderr, "no server\n"); exit(3); } return *srv[i]; }
    OPPRFclient& C(long i) { if (!cli.count(i)) { fprintf(stderr, "no client\n"); exit(3); } return *cli[i]; }

    void run(Cmd& c)
    {
        const std::string op = c.op();
        Event e(op);
        auto idx = [&](const char* k, long v) { e.i(k, v); return v; };
        if (op == "crs")                                // crs messy|dec|any
        {
            std::string m = c.s();
            dme = m == "any" ? new dme::DME_DDH : new dme::DME_DDH(m == "dec" ? dme::mode_t::dec : dme::mode_t::messy);
            e.str("mode", m).out();
        }
        else if (op == "server") { long s = idx("s", c.i()); long th = idx("theta", c.i()); srv[s] = new OPPRFserver(th, dme->crs); e.raw("draws", jdrawsr()).out(); }
        else if (op == "client") { long k = idx("c", c.i()); cli[k] = new OPPRFclient(dme->crs); e.out(); }
        else if (op == "secret")                        // secret s k: the k-fold generator
        {
            OPPRFserver& s = S(idx("s", c.i()));
            G_t ga = curve->getDefaultGen() * c.n();
            e.p("ga", ga);
            s.setSecret(ga);
            e.out();
        }
        else if (op == "prepare")
        {
            OPPRFserver& s = S(idx("s", c.i()));
            s.prepareKeysAndInputs();
            e.p("k", s.getKOPPRF()).raw("draws", jdrawsr()).out();
        }
        else if (op == "glassround")                    // glassround s j
        {
            OPPRFserver& s = S(idx("s", c.i()));
            long j = idx("j", c.i());
            auto key = dme->TrapKeyGen();
            dme::skey_t sk[2] = {std::get<1>(key), std::get<2>(key)};
            ot_ctxts_t w = s.runOTRound(j, std::get<0>(key));
            std::vector<int> bs = {0, 1};
            e.raw("syms", jl(bs, [&](int b) {
                std::vector<mpz_class> v;
                for (int p = 0; p < (j == MSG_BITS ? 1 : 3); p++) v.push_back(dme->DecDecode(sk[b], w.ctxt[p].at(b)));
                return jl(v, num); }));
            e.raw("prf", jl(bs, [&](int b) { return jpt(dme->Dec(sk[b], w.cprf.at(b))); })).out();
        }
        else if (op == "glassmasks")
        {
            OPPRFserver& s = S(idx("s", c.i()));
            symctxt_t m = s.sendEncryptedMasks();
            e.raw("syms", jl(m, num)).raw("draws", jdrawsr()).out();
        }
        else if (op == "sclean") { S(idx("s", c.i())).clean(); e.raw("draws", jdrawsr()).out(); }
        else if (op == "churn")                         // churn s times: earlier sessions that nobody looked at
        {
            OPPRFserver& s = S(c.i());
            for (long n = c.i(); n > 0; n--) { s.prepareKeysAndInputs(); s.sendEncryptedMasks(); s.clean(); }
            rng::log.clear();
        }
        else if (op == "cclean") { C(idx("c", c.i())).clean(); e.out(); }
        else if (op == "msg") { OPPRFclient& k = C(idx("c", c.i())); k.setMessage(idx("x", c.i())); e.out(); }
        else if (op == "round")                         // round c s j
        {
            OPPRFclient& k = C(idx("c", c.i()));
            OPPRFserver& s = S(idx("s", c.i()));
            long j = idx("j", c.i());
            std::string err;
            try { k.runOTRound_end(j, s.runOTRound(j, k.runOTRound_start(j))); }
            catch (const std::exception& x) { err = "exception"; }
            e.str("err", err).out();
        }
        else if (op == "roundbad")                      // roundbad c s j i: round j answered with what belongs to round i
        {
            OPPRFclient& k = C(idx("c", c.i()));
            OPPRFserver& s = S(idx("s", c.i()));
            long j = idx("j", c.i()), i = idx("i", c.i());
            if (j == MSG_BITS || i == MSG_BITS) { fprintf(stderr, "round\n"); exit(3); }
            try { k.runOTRound_end(j, s.runOTRound(i, k.runOTRound_start(j))); } catch (const std::exception& x) {}
            e.out();
        }
        else if (op == "unmaskbad")                     // unmaskbad c s: masks damaged on the way
        {
            OPPRFclient& k = C(idx("c", c.i()));
            symctxt_t m = S(idx("s", c.i())).sendEncryptedMasks();
            for (auto& v : m) v ^= 1;
            try { k.unmaskResult(m); } catch (const std::exception& x) {}
            e.out();
        }
        else if (op == "unmask")                        // unmask c s
        {
            OPPRFclient& k = C(idx("c", c.i()));
            OPPRFserver& s = S(idx("s", c.i()));
            std::string err;
            try { k.unmaskResult(s.sendEncryptedMasks()); }
            catch (const std::exception& x) { err = "exception"; }
            e.p("result", k.getResult()).p("k", s.getKOPPRF()).str("err", err).out();
        }
        else if (op == "spread") e.str("what", c.s()).out();
        else { fprintf(stderr, "bad command %s\n", op.c_str()); exit(3); }
    }
};
int main()
{
    std::unique_ptr<World> w;
    script([&](Cmd& c) {
        if (c.op() == "start") { w.reset(new World); Event("start").str("kind", c.more() ? c.s() : "").out(); }
        else w->run(c);
    });
}
