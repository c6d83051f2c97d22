// multi-dimensional arrays
#define VERIF_MAIN
#include "common.h"
struct Pool { virtual ~Pool() {} virtual void command(const J&, Out&) = 0; };
template <class T, class A> struct Arrays : Pool
{
    typedef susa::array<T, A> X;
    std::map<std::string, std::unique_ptr<X>> p;
    static X* make(const std::vector<long long>& d)
    {
        switch (d.size())
        {
            case 1: return new X({(size_t)d[0]});
            case 2: return new X({(size_t)d[0], (size_t)d[1]});
            case 3: return new X({(size_t)d[0], (size_t)d[1], (size_t)d[2]});
            case 4: return new X({(size_t)d[0], (size_t)d[1], (size_t)d[2], (size_t)d[3]});
            case 5: return new X({(size_t)d[0], (size_t)d[1], (size_t)d[2], (size_t)d[3], (size_t)d[4]});
            case 6: return new X({(size_t)d[0], (size_t)d[1], (size_t)d[2], (size_t)d[3], (size_t)d[4], (size_t)d[5]});
        }
        _exit(X_HARNESS);
    }
    static std::vector<long long> ints(const J& a) { std::vector<long long> v; for (auto& x : a.a) v.push_back(x.i); return v; }
#define SPREAD(CALL) switch (i.size()) { \
        case 1: CALL((size_t)i[0]); case 2: CALL((size_t)i[0], (size_t)i[1]); case 3: CALL((size_t)i[0], (size_t)i[1], (size_t)i[2]); \
        case 4: CALL((size_t)i[0], (size_t)i[1], (size_t)i[2], (size_t)i[3]); case 5: CALL((size_t)i[0], (size_t)i[1], (size_t)i[2], (size_t)i[3], (size_t)i[4]); \
        case 6: CALL((size_t)i[0], (size_t)i[1], (size_t)i[2], (size_t)i[3], (size_t)i[4], (size_t)i[5]); }
    static T read(X& a, const std::vector<long long>& i, const std::string& how)
    {
        const X& c = a;
        if (how == "vec") return c.get(std::vector<size_t>(i.begin(), i.end()));
#define G(...) return c.get(__VA_ARGS__)
#define GL(...) return c.get({__VA_ARGS__})
#define GC(...) return c(__VA_ARGS__)
#define GM(...) return a(__VA_ARGS__)
        if (how == "get") SPREAD(G)
        else if (how == "list" && i.size() > 1) SPREAD(GL)
        else if (how == "const" || how == "list") SPREAD(GC)
        else SPREAD(GM)
        _exit(X_HARNESS);
    }
    static T& ref(X& a, const std::vector<long long>& i)
    {
        SPREAD(GM)
        _exit(X_HARNESS);
    }
    static size_t raw(X& a, const std::vector<long long>& i)
    {
#define GR(...) return a.get_raw_index(__VA_ARGS__)
        SPREAD(GR)
        _exit(X_HARNESS);
    }
    std::string seen(const J& r)
    {
        X& a = *p.at(r["x"].s);
        const std::string& how = r["how"].s;
        std::string t = "[";
        if (how == "lin") for (long long k = 0; k < r["n"].i; k++) { if (k) t += ","; t += enc(k % 2 ? a.get((size_t)k) : a((size_t)k), 1, false); }
        else
        {
            std::vector<long long> d = ints(r["dims"]), i(d.size(), 0);
            long long n = r["n"].i;
            for (long long k = 0; k < n; k++)
            {
                if (k) t += ",";
                t += enc(read(a, i, how), 1, false);
                for (size_t j = 0; j < d.size(); j++) { if (++i[j] < d[j]) break; i[j] = 0; }
            }
        }
        return "{\"x\":\"" + r["x"].s + "\",\"how\":\"" + how + "\"" + (how == "lin" ? "" : ",\"dims\":" + list_text(ints(r["dims"]))) + ",\"o\":" + t + "]}";
    }
    static std::string list_text(const std::vector<long long>& v) { std::string t = "["; for (size_t k = 0; k < v.size(); k++) { if (k) t += ","; t += std::to_string(v[k]); } return t + "]"; }
    void command(const J& e, Out& out) override
    {
        const std::string& op = e["op"].s;
        std::string x = e["x"].s;
        if (op == "new") p[x].reset(make(ints(e["dims"])));
        else if (op == "new0") p[x].reset(new X());
        else if (op == "copy") p[x].reset(new X(*p.at(e["y"].s)));
        else if (op == "move") p[x].reset(new X(std::move(*p.at(e["y"].s))));
        else if (op == "assign") *p.at(x) = *p.at(e["y"].s);
        else if (op == "del") p.erase(x);
        else if (op == "load")
        {
            std::vector<T> v = dec_vec<T>(e["v"], 1);
            p.at(x)->clone(v.data(), v.size());
            for (auto& w : v) w = T(99);
        }
        else if (op == "set")
        {
            T v = dec<T>(e["v"], 1);
            X& a = *p.at(x);
            std::vector<long long> i = ints(e["i"]);
            if (e.geti("twice", 0)) { T& r = ref(a, i); r = T(77); r = v; }
            else ref(a, i) = v;
            out.i("raw", (long long)raw(a, i));
        }
        else if (op == "get")
        {
            X& a = *p.at(x);
            std::vector<long long> i = ints(e["i"]);
            T v = read(a, i, e["how"].s);
            out.raw("res", enc(v, 1, false));
            out.i("raw", (long long)raw(a, i));
        }
        else _exit(X_HARNESS);
        std::string t = "[";
        if (e.has("look")) for (size_t k = 0; k < e["look"].n(); k++) { if (k) t += ","; t += seen(e["look"][k]); }
        out.raw("seen", t + "]");
    }
};
static thread_local std::unique_ptr<Pool> pool;
void drv_reset() { pool.reset(); }
template <class T> static Pool* make(bool log) { if (log) return new Arrays<T, susa::allocator_log<T>>; return new Arrays<T, std::allocator<T>>; }
void drv_command(const J& e, Out& out)
{
    if (e["op"].s == "begin")
    {
        const std::string& t = e["t"].s;
        bool log = e["al"].s == "log";
        pool.reset(t == "i" ? make<int>(log) : t == "d" ? make<double>(log) : t == "u" ? make<uint8_t>(log) : t == "b" ? make<int8_t>(log) : t == "f" ? make<float>(log) : make<std::complex<double>>(log));
        return;
    }
    pool->command(e, out);
}
