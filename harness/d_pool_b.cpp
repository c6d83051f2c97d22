#include "pool.h"
template <class T> static std::unique_ptr<PoolBase> mk(double s) { return std::unique_ptr<PoolBase>(new Pool<T, std::allocator<T>>(s)); }
std::unique_ptr<PoolBase> make_pool_b(const std::string& t, double s)
{
    if (t == "b") return mk<int8_t>(s);
    if (t == "u") return mk<uint8_t>(s);
    if (t == "f") return mk<float>(s);
    if (t == "cf") return mk<std::complex<float>>(s);
    if (t == "n") return mk<unsigned int>(s);
    if (t == "l") return mk<long long>(s);
    fprintf(stderr, "driver: unknown type %s\n", t.c_str());
    _exit(X_HARNESS);
}
