// convolutional codes
#define VERIF_MAIN
#include "common.h"
void drv_reset() {}
// a positive number as <<mantissa below 2^30, exponent>>
std::string enc_lr(double x)
{
    if (!std::isfinite(x) || x < 0) return "[-1,0]";
    if (x == 0) return "[0,0]";
    int ex;
    double f = std::frexp(x, &ex);
    long long m = std::llround(std::ldexp(f, 30));
    if (m == 1LL << 30) { m /= 2; ex++; }
    return "[" + std::to_string(m) + "," + std::to_string(ex - 30) + "]";
}
template <class M> std::string enc_lrs(const M& m, size_t n)
{
    std::string t = "[";
    for (size_t k = 0; k < n && k < m.size(); k++) { if (k) t += ","; t += enc_lr(m(k)); }
    return t + "]";
}
static susa::ccode make(const J& e)
{
    susa::ccode c((uint32_t)e["gen"].n(), 1, (uint32_t)e["m"].i);
    for (size_t k = 0; k < e["gen"].n(); k++) c.set_generator((uint32_t)e["gen"][k].i, (uint32_t)k);
    return c;
}
// the object that is used: the original, a copy, an assigned one, one with generators set in another order, and with an arbitrary state
static std::unique_ptr<susa::ccode> use(const J& e)
{
    std::unique_ptr<susa::ccode> r;
    const std::string& u = e["use"].s;
    susa::ccode c = make(e);
    if (u == "copy") r.reset(new susa::ccode(c));
    else if (u == "assign") { r.reset(new susa::ccode()); *r = c; }
    else if (u == "reassign") { r.reset(new susa::ccode(3, 1, 4)); r->set_generator(17, 0); *r = c; }
    else if (u == "reset")
    {
        r.reset(new susa::ccode((uint32_t)e["gen"].n(), 1, (uint32_t)e["m"].i));
        for (size_t k = e["gen"].n(); k > 0; k--) r->set_generator(1, (uint32_t)(k - 1));
        for (size_t k = e["gen"].n(); k > 0; k--) r->set_generator((uint32_t)e["gen"][k - 1].i, (uint32_t)(k - 1));
    }
    else if (u == "after") { r.reset(new susa::ccode(make(e))); c.set_generator(0, 0); }
    else r.reset(new susa::ccode(make(e)));
    if (e.has("state")) r->set_internal_state((uint32_t)e["state"].i);
    return r;
}
void drv_command(const J& e, Out& out)
{
    const std::string& op = e["op"].s;
    auto c = use(e);
    out.i("rate", enc_num(c->rate(), 1048576, false));
    if (op == "enc")
    {
        std::string t = "[";
        for (size_t k = 0; k < e["msgs"].n(); k++)
        {
            const J& m = e["msgs"][k];
            susa::matrix<uint8_t> u = (k % 2) ? susa::matrix<uint8_t>(1, m.n()) : susa::matrix<uint8_t>(m.n(), 1);
            for (size_t i = 0; i < m.n(); i++) u(i) = (uint8_t)m[i].i;
            if (k) t += ",";
            if (k % 3 == 2) { c->next_state(1, true); c->set_internal_state(1); }
            t += enc_mat(c->encode(u));
        }
        out.raw("res", t + "]");
    }
    else if (op == "tab")
    {
        std::vector<long long> nx, ow;
        for (auto& s : e["st"].a) for (int b = 0; b < 2; b++) { nx.push_back(c->next_state((uint32_t)s.i, b)); ow.push_back(c->next_output((uint32_t)s.i, b)); }
        out.list("nx", nx).list("ow", ow);
    }
    else if (op == "dec")
    {
        double ebn0 = std::log(2.0) * e["q"].i / 2;
        size_t n = e["gen"].n(), st = e["y"].n() / n;
        std::vector<double> y = dec_vec<double>(e["y"], (double)e["s"].i);
        susa::matrix<double> m = e.geti("row", 0) ? susa::matrix<double>(1, y.size()) : susa::matrix<double>(y.size(), 1);
        for (size_t k = 0; k < y.size(); k++) m(k) = y[k];
        if (e.geti("before", 0))
        {
            susa::matrix<double> o(2 * n, 1, 1.0);
            c->decode_bcjr(o, 1.0);
            c->encode(susa::matrix<uint8_t>(5, 1, 1));
        }
        out.raw("lr", enc_lrs(e.has("ck") ? c->decode_bcjr(m, ebn0, (double)e["ck"].i / 8) : c->decode_bcjr(m, ebn0), st));
        if (e.geti("twice", 0)) { c->encode(susa::matrix<uint8_t>(3, 1, 1)); out.raw("lr2", enc_lrs(c->decode_bcjr(m, ebn0), st)); }
        else out.raw("lr2", "[]");
    }
    else _exit(X_HARNESS);
}
