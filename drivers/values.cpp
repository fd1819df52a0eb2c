// Equality, copying and assignment of the library's values; lifetime of copies of curves and encryption instances.
#include "common.hpp"
#include "dme.hpp"
#include "dmhe.hpp"
#include "elgamal.hpp"
#include "shamirss.hpp"
#include "ecc_bn254.hpp"

typedef std::vector<mpz_class> Args;
static std::string num(const mpz_class& v) { return jn(v); }

// Curves with parameters of the script's choosing.
template <class C> struct MyCurve : C
{
    MyCurve(const Args& a) { this->prime = a[0]; this->a = a[1]; this->b = a[2]; this->order = a[3]; this->cofactor = a[4]; }
    std::string comps(C&) const
    { return "[" + jn(this->prime) + "," + jn(this->a) + "," + jn(this->b) + "," + jn(this->order) + "," + jn(this->cofactor) + "]"; }
};

// One point of a given multiple, computed in different ways.
template <class C> auto multiple(C& c, const mpz_class& k, int route)
{
    auto G = c.getDefaultGen();
    mpz_class n = c.getOrder();
    switch (route % 4)
    {
    case 0: return G * k;
    case 1: return G * mpz_class(k + 1) - G;
    case 2: { auto P = G * mpz_class(n - k); decltype(G) O; return O - P; }
    default: { auto P = G * mpz_class(k - 5); P += G * mpz_class(5); return P; }
    }
}
static ecc::Curve_secp256r1& SC() { static auto* c = new ecc::Curve_secp256r1; return *c; }
static ecc::Curve_bn254& BC() { static auto* c = new ecc::Curve_bn254; return *c; }
static int route;
static dme::POINT sp(const mpz_class& k) { return multiple(SC(), k, route++); }

template <class T> struct Ops;          // make, set, comps, use; eq: comparable
#define OPS(T) template <> struct Ops<T>
template <class F> struct FieldOps
{
    static const bool eq = true;
    static F make(const Args& a) { return F(a[0]); }
    static void set(F& v, int, const mpz_class& a) { v += F(a) - v; }
    static std::string comps(const F& v) { return "[" + jn(v.getRawValue()) + "]"; }
    static std::string use(const F& v) { F w = v; w = w * v; return jn(w.getRawValue()); }
};
OPS(field::Field_secp256r1_p) : FieldOps<field::Field_secp256r1_p> {};
OPS(field::Field_secp256r1_n) : FieldOps<field::Field_secp256r1_n> {};
OPS(field::Field_bn254_p) : FieldOps<field::Field_bn254_p> {};
OPS(field::Field_bn254_n) : FieldOps<field::Field_bn254_n> {};
template <class P, class C> struct PointOps
{
    static const bool eq = true;
    static P make(const Args& a, C& c) { return multiple(c, a[0], route++); }
    static void set(P& v, int, const mpz_class& a, C& c) { v = c.getDefaultGen(); v *= a; }
    static std::string comps(const P& v) { return "[" + jpt(v) + "]"; }
    static std::string use(const P& v) { return jpt(v.pointDouble()); }
};
OPS(ecc::Point_secp256r1) : PointOps<ecc::Point_secp256r1, ecc::Curve_secp256r1>
{
    static auto make(const Args& a) { return PointOps::make(a, SC()); }
    static void set(ecc::Point_secp256r1& v, int, const mpz_class& a) { PointOps::set(v, 0, a, SC()); }
};
OPS(ecc::Point_bn254) : PointOps<ecc::Point_bn254, ecc::Curve_bn254>
{
    static auto make(const Args& a) { return PointOps::make(a, BC()); }
    static void set(ecc::Point_bn254& v, int, const mpz_class& a) { PointOps::set(v, 0, a, BC()); }
};
static std::string none() { return "\"\""; }
OPS(dme::crs_ddh_t)
{
    static const bool eq = true;
    static dme::crs_ddh_t make(const Args& a) { return dme::crs_ddh_t(sp(a[0]), sp(a[1]), sp(a[2]), sp(a[3])); }
    static void set(dme::crs_ddh_t& v, int k, const mpz_class& a) { (k == 1 ? v.g0 : k == 2 ? v.g1 : k == 3 ? v.h0 : v.h1) = sp(a); }
    static std::string comps(const dme::crs_ddh_t& v) { return "[" + jpt(v.g0) + "," + jpt(v.g1) + "," + jpt(v.h0) + "," + jpt(v.h1) + "]"; }
    static std::string use(const dme::crs_ddh_t& v) { return jpt(v.g0 + v.g1 + v.h0 + v.h1); }
};
OPS(dme::td_messy_ddh_t)
{
    static const bool eq = true;
    static dme::td_messy_ddh_t make(const Args& a) { return dme::td_messy_ddh_t(a[0], a[1]); }
    static void set(dme::td_messy_ddh_t& v, int k, const mpz_class& a) { (k == 1 ? v.e0 : v.e1) = a; }
    static std::string comps(const dme::td_messy_ddh_t& v) { return "[" + jn(v.e0.getRawValue()) + "," + jn(v.e1.getRawValue()) + "]"; }
    static std::string use(const dme::td_messy_ddh_t& v) { return jn((v.e0 + v.e1).getRawValue()); }
};
OPS(dme::td_dec_ddh_t)
{
    static const bool eq = true;
    static dme::td_dec_ddh_t make(const Args& a) { return dme::td_dec_ddh_t(a[0]); }
    static void set(dme::td_dec_ddh_t& v, int, const mpz_class& a) { v.y = a; }
    static std::string comps(const dme::td_dec_ddh_t& v) { return "[" + jn(v.y.getRawValue()) + "]"; }
    static std::string use(const dme::td_dec_ddh_t& v) { return jn((v.y + v.y).getRawValue()); }
};
OPS(dme::pkey_t)
{
    static const bool eq = true;
    static dme::pkey_t make(const Args& a) { return dme::pkey_t(sp(a[0]), sp(a[1])); }
    static void set(dme::pkey_t& v, int k, const mpz_class& a) { (k == 1 ? v.g : v.h) = sp(a); }
    static std::string comps(const dme::pkey_t& v) { return "[" + jpt(v.g) + "," + jpt(v.h) + "]"; }
    static std::string use(const dme::pkey_t& v) { return jpt(v.g + v.h); }
};
OPS(dme::keypair_t)
{
    static const bool eq = true;
    static dme::keypair_t make(const Args& a) { return dme::keypair_t(dme::pkey_t(sp(a[0]), sp(a[1])), a[2]); }
    static void set(dme::keypair_t& v, int k, const mpz_class& a) { if (k == 3) v.sk = a; else (k == 1 ? v.pk.g : v.pk.h) = sp(a); }
    static std::string comps(const dme::keypair_t& v) { return "[" + jpt(v.pk.g) + "," + jpt(v.pk.h) + "," + jn(v.sk.getRawValue()) + "]"; }
    static std::string use(const dme::keypair_t& v) { return jpt(v.pk.g + v.pk.h); }
};
OPS(dme::ctxt_t)
{
    static const bool eq = true;
    static dme::ctxt_t make(const Args& a) { return dme::ctxt_t(sp(a[0]), sp(a[1])); }
    static void set(dme::ctxt_t& v, int k, const mpz_class& a) { (k == 1 ? v.u : v.mv) = sp(a); }
    static std::string comps(const dme::ctxt_t& v) { return "[" + jpt(v.u) + "," + jpt(v.mv) + "]"; }
    static std::string use(const dme::ctxt_t& v) { return jpt(v.u + v.mv); }
};
OPS(elgamal::ctxt_t)
{
    static const bool eq = false;
    static elgamal::ctxt_t make(const Args& a) { return elgamal::ctxt_t{sp(a[0]), sp(a[1])}; }
    static void set(elgamal::ctxt_t& v, int k, const mpz_class& a) { (k == 1 ? v.u : v.mv) = sp(a); }
    static std::string comps(const elgamal::ctxt_t& v) { return "[" + jpt(v.u) + "," + jpt(v.mv) + "]"; }
    static std::string use(const elgamal::ctxt_t& v) { return jpt(v.u + v.mv); }
};
OPS(elgamal::keypair_t)
{
    static const bool eq = false;
    static elgamal::keypair_t make(const Args& a) { return elgamal::keypair_t{elgamal::skey_t(a[1]), sp(a[0])}; }
    static void set(elgamal::keypair_t& v, int k, const mpz_class& a) { if (k == 1) v.pk = sp(a); else v.sk = elgamal::skey_t(a); }
    static std::string comps(const elgamal::keypair_t& v) { return "[" + jpt(v.pk) + "," + jn(v.sk.getRawValue()) + "]"; }
    static std::string use(const elgamal::keypair_t& v) { return jpt(v.pk + v.pk); }
};
typedef ecc::KeyPair<ecc::Curve_secp256r1, ecc::Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n> eccpair;
OPS(eccpair)
{
    static const bool eq = false;
    static eccpair make(const Args& a) { return eccpair(a[1], sp(a[0])); }
    static void set(eccpair& v, int k, const mpz_class& a) { if (k == 1) v.pk = sp(a); else v.sk = a; }
    static std::string comps(const eccpair& v) { return "[" + jpt(v.pk) + "," + jn(v.sk) + "]"; }
    static std::string use(const eccpair& v) { return jpt(v.pk + v.pk); }
};
OPS(sss::share_t)
{
    static const bool eq = false;
    static sss::share_t make(const Args& a) { return sss::share_t(a[0], a[1]); }
    static void set(sss::share_t& v, int k, const mpz_class& a) { (k == 1 ? v.idx : v.val) = a; }
    static std::string comps(const sss::share_t& v) { return "[" + jn(v.idx.getRawValue()) + "," + jn(v.val.getRawValue()) + "]"; }
    static std::string use(const sss::share_t& v) { return jn((v.idx + v.val).getRawValue()); }
};
// Curves, and points given by coordinates on one of them (0 = infinity).
typedef MyCurve<ecc::Curve_secp256r1> XC;
OPS(XC)
{
    static const bool eq = true;
    static XC make(const Args& a) { return XC(a); }
    static void set(XC& v, int k, const mpz_class& a)
    {
        struct Open : XC { static void put(XC& c, int k, const mpz_class& a) { Open& o = static_cast<Open&>(c); (k == 1 ? o.prime : k == 2 ? o.a : k == 3 ? o.b : k == 4 ? o.order : o.cofactor) = a; } };
        Open::put(v, k, a);
    }
    static std::string comps(const XC& v) { return v.comps(SC()); }
    static std::string use(const XC& v) { return jb(v.getDefaultGen().curve == &v && v.getDefaultGen() == v.getDefaultGen()); }
};
struct RawPt
{
    int kind; ecc::Point_secp256r1 p;
    bool operator==(const RawPt& o) const { return p == o.p; }
};
OPS(RawPt)
{
    static const bool eq = true;
    static XC* curve(int i)
    {
        static std::vector<XC*> v;
        if (v.empty())
            for (int k = 0; k < 7; k++)
            {
                Args a{SC().getPrime(), SC().getA(), SC().getB(), SC().getOrder(), 1};
                if (k >= 2) a[k - 2] += 2;
                v.push_back(new XC(a));
            }
        return v.at(i - 1);
    }
    static RawPt make(const Args& a)
    {
        int i = a[2].get_si();
        return i == 0 ? RawPt{0, ecc::Point_secp256r1()} : RawPt{i, ecc::Point_secp256r1(a[0], a[1], curve(i))};
    }
    static void set(RawPt& v, int k, const mpz_class& a)
    {
        if (k == 3) { if (a == 0) v = make({0, 0, 0}); else { v.p = ecc::Point_secp256r1(v.p.getX(), v.p.getY(), curve(a.get_si())); v.kind = a.get_si(); } }
        else if (v.kind)
            v.p = k == 1 ? ecc::Point_secp256r1(field::Field_secp256r1_p(a), v.p.getY(), curve(v.kind)) : ecc::Point_secp256r1(v.p.getX(), field::Field_secp256r1_p(a), curve(v.kind));
    }
    static std::string comps(const RawPt& v)
    { return v.p.isInf() ? std::string("[\"0\",\"0\",\"0\"]") : "[" + jn(v.p.getX().getRawValue()) + "," + jn(v.p.getY().getRawValue()) + "," + jn(v.p.curve == curve(v.kind) ? v.kind : 99) + "]"; }
    static std::string use(const RawPt&) { return none(); }
};

struct World { virtual void run(Cmd& c) = 0; virtual ~World() {} };
template <class T> struct Values : World
{
    typedef Ops<T> O;
    static const int N = 4;
    std::unique_ptr<T> v[N + 1];
    Values(int k) { for (int i = 1; i <= N; i++) v[i].reset(new T(O::make(Args(k, 0)))); }
    void state(Event& e)
    {
        std::vector<int> ix{1, 2, 3, 4};
        e.raw("vals", jl(ix, [&](int i) { return O::comps(*v[i]); })).raw("use", jl(ix, [&](int i) { return O::use(*v[i]); }));
        if constexpr (O::eq)
            e.raw("eq", jl(ix, [&](int i) { return jl(ix, [&](int j) { return jb(*v[i] == *v[j]); }); }));
        e.raw("after", jl(ix, [&](int i) { return O::comps(*v[i]); })).out();
    }
    void run(Cmd& c) override
    {
        Event e(c.op());
        const std::string op = c.op();
        int i = c.i();
        e.i("i", i);
        if (op == "make") { Args a; while (c.more()) a.push_back(c.n()); v[i].reset(new T(O::make(a))); e.raw("args", jl(a, num)); }
        else if (op == "copy") { int j = c.i(); e.i("j", j); v[i].reset(new T(*v[j])); }
        else if (op == "assign") { int j = c.i(); e.i("j", j); *v[i] = *v[j]; }
        else if (op == "set") { int k = c.i(); mpz_class a = c.n(); O::set(*v[i], k, a); e.i("k", k).n("arg", a); }
        else { fprintf(stderr, "bad command\n"); exit(3); }
        state(e);
    }
};

// Instances: the copies must not depend on the originals, which are destroyed by "drop".
struct Instances : World
{
    struct Any
    {
        std::unique_ptr<dme::DME_DDH> d; std::unique_ptr<dme::DMHE_DDH> h; std::unique_ptr<elgamal::ElGamal> g;
        std::unique_ptr<ecc::Curve_secp256r1> s; std::unique_ptr<ecc::Curve_bn254> b;
    };
    std::map<long, Any> v;
    static std::string jcrs(const dme::crs_ddh_t& c) { return Ops<dme::crs_ddh_t>::comps(c); }
    std::string crs(Any& a) { return a.d ? jcrs(a.d->crs) : a.h ? jcrs(a.h->crs) : "[]"; }
    template <class D> void useDme(D& d, Event& e, const std::string& mode, const mpz_class& m)
    {
        std::vector<mpz_class> got;
        std::vector<int> br;
        bool ok = true;
        for (int b = 0; b < 2; b++)
        {
            auto k = d.KeyGen(dme::branch_t(b));
            got.push_back(d.DecDecode(k.sk, d.Enc(k.pk, dme::branch_t(b), m)));
            auto P = d.getCurve()->getDefaultGen() * mpz_class(m + 3);
            ok = ok && d.Dec(k.sk, d.Enc(k.pk, dme::branch_t(b), P)) == P && P.isValid();
            if (mode == "messy") br.push_back(d.FindMessy(k.pk));
        }
        if (mode == "dec")
        {
            auto t = d.TrapKeyGen();
            got.push_back(d.DecDecode(std::get<1>(t), d.Enc(std::get<0>(t), dme::b0, m)));
            got.push_back(d.DecDecode(std::get<2>(t), d.Enc(std::get<0>(t), dme::b1, m)));
        }
        e.raw("got", jl(got, num)).raw("messy", jl(br, [](int b) { return std::to_string(b); })).b("ok", ok);
    }
    void run(Cmd& c) override
    {
        const std::string op = c.op();
        Event e(op);
        long i = c.i();
        e.i("i", i);
        if (op == "new")
        {
            std::string kind = c.s(), mode = c.more() ? c.s() : "";
            auto mu = mode == "dec" ? dme::mode_t::dec : dme::mode_t::messy;
            Any a;
            if (kind == "dme") a.d.reset(mode == "any" ? new dme::DME_DDH : new dme::DME_DDH(mu));
            else if (kind == "dmhe") a.h.reset(new dme::DMHE_DDH(mu));
            else if (kind == "elgamal") a.g.reset(new elgamal::ElGamal);
            else if (kind == "secp") a.s.reset(new ecc::Curve_secp256r1);
            else a.b.reset(new ecc::Curve_bn254);
            v[i] = std::move(a);
            e.str("kind", kind).str("mode", mode).raw("crs", crs(v[i])).out();
        }
        else if (op == "near")                              // near i j k m: as import, with component k of the string (0: none) replaced by m times the generator
        {
            long j = c.i(), k = c.i();
            auto s = v[j].d ? v[j].d->crs : v[j].h->crs;
            ecc::Curve_secp256r1 cv;
            auto p = cv.getDefaultGen() * c.n();
            if (k == 1) s.g0 = p;
            if (k == 2) s.g1 = p;
            if (k == 3) s.h0 = p;
            if (k == 4) s.h1 = p;
            Any a;
            if (v[j].d) a.d.reset(new dme::DME_DDH(s)); else a.h.reset(new dme::DMHE_DDH(s));
            e.i("j", j).i("k", k).p("pt", p).str("kind", a.d ? "dme" : "dmhe");
            v[i] = std::move(a);
            e.raw("crs", crs(v[i])).out();
        }
        else if (op == "import") { long j = c.i(); Any a; a.h.reset(new dme::DMHE_DDH(v[j].d ? v[j].d->crs : v[j].h->crs)); v[i] = std::move(a); e.i("j", j).raw("crs", crs(v[i])).out(); }
        else if (op == "dup")
        {
            long j = c.i();
            Any a, &f = v.at(j);
            if (f.d) a.d.reset(new dme::DME_DDH(*f.d));
            if (f.h) a.h.reset(new dme::DMHE_DDH(*f.h));
            if (f.g) a.g.reset(new elgamal::ElGamal(*f.g));
            if (f.s) a.s.reset(new ecc::Curve_secp256r1(*f.s));
            if (f.b) a.b.reset(new ecc::Curve_bn254(*f.b));
            v[i] = std::move(a);
            e.i("j", j).raw("crs", crs(v[i])).out();
        }
        else if (op == "assign")
        {
            long j = c.i();
            Any &a = v.at(i), &f = v.at(j);
            if (f.d) *a.d = *f.d;
            if (f.h) *a.h = *f.h;
            if (f.g) *a.g = *f.g;
            if (f.s) *a.s = *f.s;
            if (f.b) *a.b = *f.b;
            e.i("j", j).raw("crs", crs(v[i])).out();
        }
        else if (op == "drop") { v.erase(i); e.out(); }
        else if (op == "use")
        {
            std::string mode = c.s();
            mpz_class m = c.n();
            Any& a = v.at(i);
            e.n("m", m).raw("crs", crs(a));
            if (a.d) useDme(*a.d, e, mode, m);
            else if (a.h) useDme(*a.h, e, mode, m);
            else if (a.g)
            {
                auto k = a.g->keyGen();
                auto x = a.g->encrypt(k.pk, m);
                std::vector<mpz_class> got{a.g->decrypt(k.sk, x)};
                e.raw("got", jl(got, num)).raw("messy", "[]").b("ok", k.pk.isValid());
            }
            else
            {
                auto use = [&](auto& cv) {
                    auto P = cv.getDefaultGen() * mpz_class(m + 1);
                    auto R = cv.getRandomPoint() + cv.getDefaultGen();
                    return P.isValid() && R.isValid() && P.pointDouble() - P == P && cv == cv && P.curve == &cv;
                };
                bool ok = a.s ? use(*a.s) : use(*a.b);
                e.raw("got", "[]").raw("messy", "[]").b("ok", ok);
            }
            e.raw("after", crs(a)).out();
        }
        else { fprintf(stderr, "bad command\n"); exit(3); }
    }
};

int main()
{
    std::unique_ptr<World> w;
    script([&](Cmd& c) {
        if (c.op() != "start") { w->run(c); return; }
        std::string t = c.s();
        Event e("start");
        e.str("type", t);
#define T(name, type, k) if (t == name) { auto* x = new Values<type>(k); w.reset(x); x->state(e); return; }
        T("fp", field::Field_secp256r1_p, 1) T("fn", field::Field_secp256r1_n, 1) T("bp", field::Field_bn254_p, 1) T("bn", field::Field_bn254_n, 1)
        T("ps", ecc::Point_secp256r1, 1) T("pb", ecc::Point_bn254, 1) T("crs", dme::crs_ddh_t, 4) T("tdm", dme::td_messy_ddh_t, 2)
        T("tdd", dme::td_dec_ddh_t, 1) T("pk", dme::pkey_t, 2) T("kp", dme::keypair_t, 3) T("ct", dme::ctxt_t, 2) T("ect", elgamal::ctxt_t, 2)
        T("ekp", elgamal::keypair_t, 2) T("ckp", eccpair, 2) T("share", sss::share_t, 2) T("curve", XC, 5) T("raw", RawPt, 3)
        if (t == "inst") { w.reset(new Instances); e.out(); return; }
        fprintf(stderr, "bad type\n"); exit(3);
    });
}
