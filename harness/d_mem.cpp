// owners of storage that use the logging allocator, with allocations that fail on request
#define VERIF_MAIN
#include "common.h"
#include <new>
static long fail_in = 0;       // armed: the fail_in-th allocation from now fails
static int hit = 0;
void* operator new(size_t n)
{
    if (fail_in > 0 && --fail_in == 0) { hit = 1; throw std::bad_alloc(); }
    if (n > ((size_t)1 << 40)) { hit = 1; throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Owner
{
    std::string k;
    virtual ~Owner() {}
    virtual long long n() = 0;
    virtual Owner* copy() = 0;
    virtual Owner* move() = 0;
    virtual void assign(Owner& o) = 0;
    virtual void swap(Owner& o) = 0;
    virtual void resize(size_t r, size_t c) = 0;
    virtual void tmp(size_t r, size_t c) = 0;
    virtual void load(size_t n) = 0;
    virtual void text(const std::string& s) = 0;
    virtual void use() = 0;
};
template <class T> struct Mat : Owner
{
    typedef susa::matrix<T, susa::allocator_log<T>> X;
    X x;
    Mat() { k = "m"; }
    Mat(const X& y) : x(y) { k = "m"; }
    Mat(X&& y) : x(std::move(y)) { k = "m"; }
    Mat(size_t r, size_t c, int how) : x(how == 0 ? X(r, c) : how == 1 ? X(r, c, T(3)) : how == 2 ? X(std::tuple<size_t, size_t>(r, c)) : X(std::tuple<size_t, size_t>(r, c), T(4))) { k = "m"; }
    Mat(const std::string& s) : x(s) { k = "m"; }
    long long n() override { return x.size() == x.no_rows() * x.no_cols() ? (long long)x.size() : -7; }
    Owner* copy() override { return new Mat(x); }
    Owner* move() override { return new Mat(std::move(x)); }
    void assign(Owner& o) override { x = static_cast<Mat&>(o).x; }
    void swap(Owner& o) override { std::swap(x, static_cast<Mat&>(o).x); }
    void resize(size_t r, size_t c) override { x.resize(r, c); }
    void tmp(size_t r, size_t c) override { x = X(r, c, T(2)); }
    void load(size_t) override { _exit(X_HARNESS); }
    void text(const std::string& s) override { x = s; }
    void use() override { for (size_t i = 0; i < x.size(); i++) x(i) = T(i % 7); for (size_t i = 0; i < x.no_rows(); i++) for (size_t j = 0; j < x.no_cols(); j++) if (x(i, j) == T(99)) _exit(X_HARNESS); }
};
template <class T> struct Arr : Owner
{
    typedef susa::array<T, susa::allocator_log<T>> X;
    X x;
    size_t len = 0;
    Arr() { k = "a"; }
    Arr(size_t r, size_t c) : x({r, c}) { k = "a"; len = r * c; }
    Arr(const X& y) : x(y) { k = "a"; }
    Arr(X&& y) : x(std::move(y)) { k = "a"; }
    long long n() override { return -1; }
    Owner* copy() override { Arr* r = new Arr(x); r->len = len; return r; }
    Owner* move() override { Arr* r = new Arr(std::move(x)); r->len = len; len = 0; return r; }
    void assign(Owner& o) override { size_t old = len; len = 0; if (this == &o) len = old; x = static_cast<Arr&>(o).x; len = static_cast<Arr&>(o).len; }
    void swap(Owner& o) override { std::swap(x, static_cast<Arr&>(o).x); std::swap(len, static_cast<Arr&>(o).len); }
    void resize(size_t, size_t) override { _exit(X_HARNESS); }
    void tmp(size_t r, size_t c) override { len = 0; x = X({r, c}); len = r * c; }
    void load(size_t m) override { static T buf[1000]; len = 0; x.clone(buf, m); len = m; }
    void text(const std::string&) override { _exit(X_HARNESS); }
    void use() override { for (size_t i = 0; i < len; i++) x(i) = T(i % 7); for (size_t i = 0; i < len; i++) if (x.get(i) == T(99)) _exit(X_HARNESS); }
};
template <class T> struct Vec : Owner
{
    typedef std::vector<T, susa::allocator_log<T>> X;
    X x;
    Vec() { k = "v"; }
    Vec(size_t m) : x(m) { k = "v"; }
    Vec(const X& y) : x(y) { k = "v"; }
    Vec(X&& y) : x(std::move(y)) { k = "v"; }
    long long n() override { return (long long)x.capacity(); }
    Owner* copy() override { return new Vec(x); }
    Owner* move() override { return new Vec(std::move(x)); }
    void assign(Owner& o) override { x = static_cast<Vec&>(o).x; }
    void swap(Owner& o) override { std::swap(x, static_cast<Vec&>(o).x); }
    void resize(size_t r, size_t c) override { x.resize(r * c); }
    void tmp(size_t r, size_t c) override { x = X(r * c); }
    void load(size_t m) override { X y; for (size_t i = 0; i < m; i++) y.push_back(T(i % 7)); x = y; }
    void text(const std::string&) override { _exit(X_HARNESS); }
    void use() override { for (auto& v : x) v = T(1); }
};
static Owner* blank(const std::string& k, int sz)
{
#define EACH(K, C) if (k == K) return sz == 1 ? (Owner*)new C<uint8_t>() : sz == 4 ? (Owner*)new C<int>() : sz == 8 ? (Owner*)new C<double>() : (Owner*)new C<std::complex<double>>();
    EACH("m", Mat) EACH("a", Arr) EACH("v", Vec)
    _exit(X_HARNESS);
}
template <class T> static Owner* fresh(const std::string& k, size_t r, size_t c, int how) { return k == "m" ? (Owner*)new Mat<T>(r, c, how) : k == "a" ? (Owner*)new Arr<T>(r, c) : (Owner*)new Vec<T>(r * c); }
static std::map<std::string, std::unique_ptr<Owner>> p;
void drv_reset() { p.clear(); }
void drv_command(const J& e, Out& out)
{
    const std::string op = e["op"].s;
    if (op == "begin") return;
    const std::string x = e["x"].s, y = e.gets("y", "");
    const bool makes = op == "new" || op == "new0" || op == "fill" || op == "text" || op == "copy" || op == "move";
    const char* res = "ok";
    hit = 0;
    if (makes == (p.count(x) > 0) || (!y.empty() && !p.count(y))) res = "skip";
    else
    {
        const bool huge = e.geti("huge", 0);
        size_t r = huge ? (size_t)1 << 50 : (size_t)e.geti("r", e.geti("n", 1)), c = huge ? 1 : (size_t)e.geti("c", 1);
        int how = (int)e.geti("how", 0), sz = (int)e.geti("sz", 8);
        const std::string k = e.gets("k", "");
        std::string s;
        if (op == "text" || op == "parse") { s = "1"; for (size_t i = 1; i < r * c; i++) { s += i % c ? " 1" : ";1"; } }
        std::unique_ptr<Owner>* q = p.count(x) ? &p[x] : nullptr;
        if (makes) q = &p[x];
        Owner* o = y.empty() ? nullptr : p[y].get();
        // within one kind and element size only
        if ((op == "assign" || op == "swap") && typeid(**q) != typeid(*o)) { res = "skip"; goto done; }
        if (((op == "resize" || op == "parse") && (*q)->k == "a") || (op == "load" && (*q)->k == "m") || (op == "parse" && (*q)->k != "m")) { res = "skip"; goto done; }
        try
        {
            fail_in = e.geti("fail", 0);
            if (op == "new0") q->reset(blank(k, sz));
            else if (op == "new" || op == "fill")
            {
                if (op == "fill" && how == 0) how = 1;
                q->reset(sz == 1 ? fresh<uint8_t>(k, r, c, how) : sz == 4 ? fresh<int>(k, r, c, how) : sz == 8 ? fresh<double>(k, r, c, how) : fresh<std::complex<double>>(k, r, c, how));
            }
            else if (op == "text") q->reset(sz == 1 ? (Owner*)new Mat<uint8_t>(s) : sz == 4 ? (Owner*)new Mat<int>(s) : (Owner*)new Mat<double>(s));
            else if (op == "copy") q->reset(o->copy());
            else if (op == "move") q->reset(o->move());
            else if (op == "assign") (*q)->assign(*o);
            else if (op == "swap") (*q)->swap(*o);
            else if (op == "resize") (*q)->resize(r, c);
            else if (op == "tmp") (*q)->tmp(r, c);
            else if (op == "load") (*q)->load(r);
            else if (op == "parse") (*q)->text(s);
            else if (op == "use") (*q)->use();
            else if (op == "del") p.erase(x);
            else _exit(X_HARNESS);
        }
        catch (const std::bad_alloc&) { res = "badalloc"; }
        fail_in = 0;
        if (makes && p.count(x) && !p[x]) p.erase(x);
    }
done:
    fail_in = 0;
    int h = hit;
    std::string t = "[";
    for (auto& q : p) { if (t.size() > 1) t += ","; t += "{\"x\":\"" + q.first + "\",\"n\":" + std::to_string(q.second->n()) + "}"; }
    out.s("res", res).i("hit", h).i("used", (long long)susa::memory_tacker::instance().read()).raw("own", t + "]");
}
