#include "pool.h"
template <class T> static std::unique_ptr<PoolBase> mk(double s) { return std::unique_ptr<PoolBase>(new Pool<T, susa::allocator_log<T>>(s)); }
std::unique_ptr<PoolBase> make_pool_log(const std::string& t, double s)
{
    if (t == "i") return mk<int>(s);
    if (t == "d") return mk<double>(s);
    if (t == "u") return mk<uint8_t>(s);
    if (t == "cd") return mk<std::complex<double>>(s);
    fprintf(stderr, "driver: unknown type %s\n", t.c_str());
    _exit(X_HARNESS);
}
