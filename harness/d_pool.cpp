#define VERIF_MAIN
#include "pool.h"
std::unique_ptr<PoolBase> make_pool_log(const std::string& t, double s);
std::unique_ptr<PoolBase> make_pool_b(const std::string& t, double s);

template <class T> static std::unique_ptr<PoolBase> mk(double s) { return std::unique_ptr<PoolBase>(new Pool<T, std::allocator<T>>(s)); }

std::unique_ptr<PoolBase> make_pool(const std::string& t, const std::string& al, double s)
{
    if (al == "log") return make_pool_log(t, s);
    if (t == "i") return mk<int>(s);
    if (t == "d") return mk<double>(s);
    if (t == "cd") return mk<std::complex<double>>(s);
    return make_pool_b(t, s);
}

static thread_local std::unique_ptr<PoolBase> pool;
void drv_reset() { pool.reset(); }
void drv_command(const J& e, Out& out)
{
    if (e["op"].s == "begin") { pool = make_pool(e["t"].s, e.gets("al", "std"), (double)e.geti("s", 1)); return; }
    pool->exec(e, out);
    if (e.has("mem")) out.i("used", (long long)susa::memory_tacker::instance().read());
    out.raw("pool", pool->dump(e.geti("via", 0)));
}
