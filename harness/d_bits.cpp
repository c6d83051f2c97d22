// bit sets
#define VERIF_MAIN
#include "common.h"
#include <set>
static thread_local std::map<std::string, std::unique_ptr<susa::bitset>> p;
static thread_local std::map<std::string, size_t> n;
static thread_local std::set<std::string> gone;
void drv_reset() { p.clear(); n.clear(); gone.clear(); }
static std::string seen(const std::string& x)
{
    susa::bitset& b = *p.at(x);
    std::string t = "[";
    size_t bad = 0;
    for (size_t i = 0; i < n[x]; i++) if (b.exists(i)) { if (t.size() > 1) t += ","; t += std::to_string(i); }
    for (size_t i = n[x]; i < n[x] + 20; i++) bad += b.exists(i);
    for (size_t i : {(size_t)1000, (size_t)1 << 20, (size_t)1 << 32, ((size_t)1 << 35) + 1, (size_t)1 << 63, ~(size_t)0, ~(size_t)0 - 7}) if (i >= n[x]) bad += b.exists(i);
    return "{\"x\":\"" + x + "\",\"o\":" + t + "],\"any\":" + std::to_string(b.any()) + ",\"bad\":" + std::to_string(bad) + "}";
}
// an index beyond the range of the model: 2^63 etc.
static size_t index(const J& e) { return e.has("big") ? ((size_t)1 << e["big"].i) + (size_t)e["off"].i : (size_t)e["i"].i; }
void drv_command(const J& e, Out& out)
{
    const std::string& op = e["op"].s;
    if (op == "begin") return;
    std::string x = e["x"].s;
    long long r = 0;
    if (op == "new") { p[x].reset(new susa::bitset((size_t)e["n"].i)); n[x] = (size_t)e["n"].i; }
    else if (op == "copy") { p[x].reset(new susa::bitset(*p.at(e["y"].s))); n[x] = n[e["y"].s]; }
    else if (op == "move") { p[x].reset(new susa::bitset(std::move(*p.at(e["y"].s)))); n[x] = n[e["y"].s]; gone.insert(e["y"].s); }
    else if (op == "assign") { *p.at(x) = *p.at(e["y"].s); n[x] = n[e["y"].s]; gone.erase(x); }
    else if (op == "del") { p.erase(x); n.erase(x); gone.erase(x); }
    else
    {
        susa::bitset& b = *p.at(x);
        if (op == "set") b.set(index(e));
        else if (op == "push") b.push(index(e));
        else if (op == "reset") b.reset(index(e));
        else if (op == "fill") b.set();
        else if (op == "clear") b.reset();
        else if (op == "pop") r = (long long)b.pop();
        else if (op == "exists") r = b.exists(index(e));
        else if (op == "any") r = b.any();
        else _exit(X_HARNESS);
    }
    std::string t = "[";
    for (auto& q : p) if (!gone.count(q.first)) { if (t.size() > 1) t += ","; t += seen(q.first); }
    out.i("res", r).raw("seen", t + "]");
}
