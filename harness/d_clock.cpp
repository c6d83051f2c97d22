// the chronometer and the time stamp, under a clock that the commands set
#define VERIF_MAIN
#include "common.h"
#include <sstream>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
static bool fake = false;
static long long fsec = 0, fnano = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    if (!fake) return (int)syscall(SYS_clock_gettime, id, t);
    t->tv_sec = fsec;
    t->tv_nsec = fnano;
    return 0;
}
extern "C" time_t time(time_t* t) noexcept
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
extern "C" int gettimeofday(struct timeval* t, void*) noexcept
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
static std::string bytes(const std::string& s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); Out o; o.list("x", v); return o.b.substr(5); }
void drv_reset() { fake = false; }
void drv_command(const J& e, Out& out)
{
    const std::string op = e["op"].s;
    if (op == "begin") return;
    fsec = 946684800LL + 86400LL * e["day"].i + e["sec"].i;
    fnano = e["milli"].i * 1000000LL + e["nano"].i;
    if (e.has("tz")) { setenv("TZ", e["tz"].s.c_str(), 1); tzset(); }
    std::ostringstream o;
    std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    std::string s;
    double x = 0;
    fake = true;
    if (op == "tic") susa::tic();
    else if (op == "toc") x = susa::toc();
    else if (op == "print") susa::toc_print();
    else if (op == "stamp") s = susa::timestamp();
    fake = false;
    std::cout.rdbuf(old);
    if (op == "toc") { out.i("ms", enc_num(x, 1000, false)); }
    if (op == "print") out.raw("txt", bytes(o.str()));
    else if (!o.str().empty()) out.raw("noise", bytes(o.str()));
    if (op == "stamp") out.raw("txt", bytes(s));
}
