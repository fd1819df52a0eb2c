// Symmetric encryption of integers: several objects, keys and counters.
#include "common.hpp"
#include "aes.hpp"

struct World
{
    std::map<long, aes::AES> objs;
    std::vector<mpz_class> cts;
    void run(Cmd& c)
    {
        const std::string op = c.op();
        Event e(op);
        if (op == "init")                                     // init [iv bytes]
        {
            if (!c.more()) { aes::AES::init(); e.raw("iv", "[]").out(); return; }
            std::string h = c.s(), iv;
            for (size_t i = 0; i + 1 < h.size(); i += 2) iv += (char) strtoul(h.substr(i, 2).c_str(), nullptr, 16);
            aes::AES::init(iv);
            e.raw("iv", jl(iv, [](char b) { return std::to_string((unsigned char) b); })).out();
            return;
        }
        if (op == "churn")                                    // churn obj times: earlier use that nobody looked at
        {
            aes::AES& a = objs[c.i()];
            mpz_class k = 1, m = 7;
            for (long n = c.i(); n > 0; n--)
            {
                k = (k * 1103515245 + n) & ((mpz_class(1) << 128) - 1); m = m * 3 + n; if (m >> 300 != 0) m = n;
                mpz_class r = n % 2 ? a.decrypt(k, a.encrypt(k, m)) : a.decryptCRC(n % 3 ? k : mpz_class(k + 1), a.encryptCRC(k, m));
                if (r == 0) k += 5;
            }
            return;
        }
        if (op == "enc" || op == "enccrc")                    // enc obj key message
        {
            aes::AES& a = objs[c.i()];
            mpz_class k = c.n(), m = c.n();
            cts.push_back(op == "enc" ? a.encrypt(k, m) : a.encryptCRC(k, m));
            e.n("key", k).n("m", m).n("ret", cts.back()).out();
        }
        else if (op == "dec" || op == "deccrc")               // dec obj key ciphertext [shift mask]
        {
            aes::AES& a = objs[c.i()];
            mpz_class k = c.n();
            long i = c.i();
            mpz_class x = cts.at(i - 1), err = 0;
            if (c.more()) { long sh = c.i(); err = c.n() << sh; mpz_xor(x.get_mpz_t(), x.get_mpz_t(), err.get_mpz_t()); }
            mpz_class r = op == "dec" ? a.decrypt(k, x) : a.decryptCRC(k, x);
            e.n("key", k).i("i", i).n("err", err).n("ret", r).out();
        }
        else { fprintf(stderr, "bad command %s\n", op.c_str()); exit(3); }
    }
};
int main()
{
    std::unique_ptr<World> w;
    script([&](Cmd& c) {
        if (c.op() == "start") { w.reset(new World); aes::AES::init(); Event("start").out(); }
        else w->run(c);
    });
}
