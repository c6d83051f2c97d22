// random number generators: sessions over a set of generators
#define VERIF_MAIN
#include "common.h"
#include <random>
struct Gen
{
    std::unique_ptr<susa::mt> m;
    std::unique_ptr<susa::rng> r;
    std::unique_ptr<std::mt19937> s;          // the generator of the standard library, to compare the specification with
};
static thread_local std::map<int, Gen> gens;
void drv_reset() { gens.clear(); }
static uint32_t word(const J& w) { return (uint32_t)w[0].i << 16 | (uint32_t)w[1].i; }
static std::string enc_w(const std::vector<uint32_t>& v)
{
    std::string t = "[";
    for (size_t k = 0; k < v.size(); k++) { if (k) t += ","; t += "[" + std::to_string(v[k] >> 16) + "," + std::to_string(v[k] & 65535) + "]"; }
    return t + "]";
}
template <class M> static std::string enc_u(const M& m, Out& out)
{
    std::vector<uint32_t> v;
    for (size_t k = 0; k < m.size(); k++) v.push_back((uint32_t)m(k));
    out.i("rows", (long long)m.no_rows()).i("cols", (long long)m.no_cols());
    return enc_w(v);
}
// a uniform, times 2^32-1, as a word; [-1,-1] when it is not one
static std::string enc_r(const std::vector<double>& v)
{
    std::string t = "[";
    for (size_t k = 0; k < v.size(); k++)
    {
        double x = v[k] * 4294967295.0, y = std::nearbyint(x);
        if (k) t += ",";
        if (!(std::fabs(x - y) < 1e-3) || y < 0 || y > 4294967295.0) t += "[-1,-1]";
        else t += "[" + std::to_string((uint32_t)y >> 16) + "," + std::to_string((uint32_t)y & 65535) + "]";
    }
    return t + "]";
}
template <class M> static std::vector<double> vals(const M& m, Out& out)
{
    std::vector<double> v;
    for (size_t k = 0; k < m.size(); k++) v.push_back((double)m(k));
    out.i("rows", (long long)m.no_rows()).i("cols", (long long)m.no_cols());
    return v;
}
void drv_command(const J& e, Out& out)
{
    const std::string& op = e["op"].s;
    if (op == "begin") return;
    int x = (int)e["x"].i;
    if (op == "new")
    {
        Gen g;
        bool d = e["sd"].n() == 0;
        if (e["k"].s == "mt") { if (d) g.m.reset(new susa::mt()); else g.m.reset(new susa::mt(word(e["sd"]))); }
        else if (e["k"].s == "rng") { if (d) g.r.reset(new susa::rng()); else g.r.reset(new susa::rng(word(e["sd"]))); }
        else { if (d) g.s.reset(new std::mt19937()); else g.s.reset(new std::mt19937(word(e["sd"]))); }
        gens[x] = std::move(g);
        return;
    }
    if (op == "copy")
    {
        Gen g, &o = gens.at((int)e["y"].i);
        if (o.m) g.m.reset(new susa::mt(*o.m));
        if (o.r) g.r.reset(new susa::rng(*o.r));
        if (o.s) g.s.reset(new std::mt19937(*o.s));
        gens[x] = std::move(g);
        return;
    }
    Gen& g = gens.at(x);
    size_t n = (size_t)e.geti("n", 1);
    bool vec = e.geti("vec", 0);
    if (op == "assign")
    {
        Gen& o = gens.at((int)e["y"].i);
        if (o.m) *g.m = *o.m;
        if (o.r) *g.r = *o.r;
        if (o.s) *g.s = *o.s;
    }
    else if (op == "seed")
    {
        uint32_t s = word(e["sd"]);
        if (g.m) *g.m = susa::mt(s);
        if (g.r) g.r->init(s);
        if (g.s) g.s->seed(s);
    }
    else if (op == "words" || op == "mask")
    {
        uint32_t mask = op == "words" ? 0xffffffffu : word(e["mask"]);
        std::vector<uint32_t> v;
        if (vec && !g.s) { out.raw("w", g.m ? enc_u(g.m->rand_mask(mask, (unsigned)n), out) : enc_u(g.r->rand_mask(mask, (unsigned)n), out)); return; }
        for (size_t k = 0; k < n; k++) v.push_back(g.m ? g.m->rand_mask(mask) : g.r ? g.r->rand_mask(mask) : ((*g.s)() & mask));
        out.raw("w", enc_w(v)).i("rows", (long long)n).i("cols", 1);
    }
    else if (op == "skip")
    {
        if (vec && g.m) g.m->rand((unsigned)n);
        else if (vec && g.r) g.r->bernoulli(n);
        else for (size_t k = 0; k < n; k++) { if (g.m) g.m->rand_mask(1); if (g.r) g.r->rand_mask(1); if (g.s) (*g.s)(); }
    }
    else if (op == "rand")
    {
        if (e.has("c")) out.raw("w", enc_r(vals(g.r->rand((unsigned)e["r"].i, (unsigned)e["c"].i), out)));
        else if (g.m) out.raw("w", enc_r(vals(g.m->rand((unsigned)n), out)));
        else if (vec) out.raw("w", enc_r(vals(g.r->rand((unsigned)n), out)));
        else
        {
            std::vector<double> v;
            for (size_t k = 0; k < n; k++) v.push_back(g.r->rand());
            out.raw("w", enc_r(v)).i("rows", (long long)n).i("cols", 1);
        }
    }
    else if (op == "bits") out.raw("v", enc_vec(vals(g.r->bernoulli(n), out)));
    else if (op == "bern")
    {
        std::vector<int> v;
        for (size_t k = 0; k < n; k++) v.push_back((int)g.m->bernoulli((double)e["p"].i / 1048576));
        out.raw("v", enc_vec(v));
    }
    else if (op == "randint")
    {
        std::vector<int> v;
        for (size_t k = 0; k < n; k++) v.push_back((int)g.m->randint((unsigned)e["max"].i));
        out.raw("v", enc_vec(v));
    }
    else if (op == "setp") g.m->set_probabilities(dec_mat<double>(e["p"], 1048576));
    else if (op == "nonu")                  // "m": mode, "arg": probabilities as argument, "set": those set before, "vec": a vector of draws
    {
        std::vector<int> v;
        if (e["m"].s == "vec")
        {
            auto r = g.m->nonuniform(dec_mat<double>(e["p"], 1048576), (unsigned)n);
            out.i("rows", (long long)r.no_rows()).i("cols", (long long)r.no_cols());
            for (size_t k = 0; k < r.size(); k++) v.push_back((int)r(k));
        }
        else for (size_t k = 0; k < n; k++) v.push_back((int)(e["m"].s == "set" ? g.m->nonuniform() : g.m->nonuniform(dec_mat<double>(e["p"], 1048576))));
        out.raw("v", enc_vec(v));
    }
    else if (op == "randn")
    {
        std::vector<double> v;
        if (g.m) v = vals(g.m->randn((unsigned)n), out);
        else if (vec) v = vals(g.r->randn((unsigned)n), out);
        else for (size_t k = 0; k < n; k++) v.push_back(g.r->randn());
        out.raw("v", enc_vec(v, 1048576, false));
    }
    else _exit(X_HARNESS);
}
