// Checksums, byte conversion and random integers.
#include "common.hpp"
#include <cstring>
#include "crc.hpp"

static std::string num(const mpz_class& v) { return jn(v); }
static std::string bytes(const unsigned char* p, size_t n)
{
    std::string s = "[";
    for (size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(p[i]);
    return s + "]";
}
// A buffer of exactly the given bytes at the given offset from an 16-byte aligned address.
struct Buffer
{
    unsigned char* base;
    unsigned char* p;
    size_t n;
    Buffer(const std::string& hexstr, size_t off)
    {
        n = hexstr == "-" ? 0 : hexstr.size() / 2;
        base = (unsigned char*) malloc(off + n);
        p = base + off;
        for (size_t i = 0; i < n; i++) p[i] = (unsigned char) strtoul(hexstr.substr(2 * i, 2).c_str(), nullptr, 16);
    }
    ~Buffer() { free(base); }
};
static unsigned long u32(Cmd& c) { return c.n().get_ui(); }

int main()
{
    script([&](Cmd& c) {
        const std::string op = c.op();
        Event e(op);
        if (op == "start") { e.b("fresh", c.more() && c.s() == "fresh").out(); }
        else if (op == "crc")                               // crc start offset bytes
        {
            uint32_t start = u32(c);
            size_t off = c.i();
            Buffer b(c.s(), off);
            uint32_t r = calculate_crc32c(start, b.p, b.n);
            e.n("start", start).i("off", off).raw("bytes", bytes(b.p, b.n)).n("ret", r).out();
        }
        else if (op == "pieces")                            // pieces start offset bytes len...: the same buffer in pieces
        {
            uint32_t start = u32(c);
            size_t off = c.i();
            Buffer b(c.s(), off);
            uint32_t r = start;
            size_t at = 0;
            std::vector<long> cut;
            while (c.more()) { long k = c.i(); cut.push_back(k); r = calculate_crc32c(r, b.p + at, k); at += k; }
            if (at != b.n) { fprintf(stderr, "pieces do not add up\n"); exit(3); }
            e.n("start", start).i("off", off).raw("bytes", bytes(b.p, b.n)).raw("cut", jl(cut, [](long v) { return std::to_string(v); })).n("ret", r).out();
        }
        else if (op == "append") { mpz_class n = c.n(); e.n("n", n).n("ret", appendCRC(n)).out(); }
        else if (op == "valid") { mpz_class n = c.n(); e.n("n", n).b("ret", validateCRC(n)).out(); }
        else if (op == "remove") { mpz_class n = c.n(); e.n("n", n).n("ret", removeCRC(n)).out(); }
        else if (op == "roundtrip")                         // roundtrip n (shift mask)*: append, validate, remove, corrupt
        {
            mpz_class n = c.n(), a = appendCRC(n);
            e.n("n", n).n("sum", a).b("ok", validateCRC(a)).n("back", removeCRC(a));
            std::vector<mpz_class> es;
            std::vector<bool> oks;
            while (c.more())
            {
                long sh = c.i();
                mpz_class m = c.n() << sh, x;
                mpz_xor(x.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t());
                es.push_back(m);
                oks.push_back(validateCRC(x));
            }
            e.raw("errors", jl(es, num)).raw("accepted", jl(oks, [](bool b) { return jb(b); })).out();
        }
        else if (op == "raw")
        {
            mpz_class n = c.n();
            uint8_t* p = nullptr;
            size_t len = utils::getRawMpz(&p, n);
            e.n("n", n).raw("ret", bytes(p, len)).out();
        }
        else if (op == "raws")                               // several results at the same time
        {
            std::vector<mpz_class> ns;
            std::vector<std::pair<uint8_t*, size_t>> rs;
            while (c.more()) { ns.push_back(c.n()); uint8_t* p = nullptr; size_t len = utils::getRawMpz(&p, ns.back()); rs.push_back({p, len}); }
            e.raw("ns", jl(ns, [](const mpz_class& v) { return jn(v); })).raw("rets", jl(rs, [&](const std::pair<uint8_t*, size_t>& x) { return bytes(x.first, x.second); })).out();
        }
        else if (op == "unraw")
        {
            Buffer b(c.s(), 0);
            e.raw("bytes", bytes(b.p, b.n)).n("ret", utils::setRawMpz(b.p, b.n)).out();
        }
        else if (op == "rand") { long b = c.i(); mpz_class v = utils::getRandom(b); e.i("bits", b).n("ret", v).out(); }
        else if (op == "spread") e.str("what", c.s()).out();
        else if (op == "distrand")
        {
            long b = c.i();
            e.i("bits", b);
            distribution(e, [&] { return utils::getRandom(b).get_str(10); }, c.i());
        }
        else { fprintf(stderr, "bad command %s\n", op.c_str()); exit(3); }
    });
}
