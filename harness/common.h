// Conformance harness engine.
//
// A driver reads commands (one JSON object per line), executes each of them on
// the real library and writes the same object back, extended with what was
// observed ("out" and result fields).  The harness never computes an expected
// value: the TLA+ trace specifications in /verif/spec decide every event.
//
// Commands are executed in a forked child, so a command that stops the process
// (assertion, abort, memory error, time-out) is an observation like any other.
// {"op":"begin"} starts a session; when a command of a session ends the process,
// the rest of this session is skipped.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <susa.h>

#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- JSON input
struct J
{
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
    double d = 0;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    bool has(const char* key) const
    {
        for (auto& p : o) if (p.first == key) return true;
        return false;
    }
    const J& operator[](const char* key) const
    {
        for (auto& p : o) if (p.first == key) return p.second;
        fprintf(stderr, "driver: missing field %s\n", key);
        _exit(3);
    }
    const J& operator[](int n) const { return (*this)[(size_t)n]; }
    const J& operator[](size_t n) const
    {
        if (n >= a.size()) { fprintf(stderr, "driver: short list\n"); _exit(3); }
        return a[n];
    }
    size_t n() const { return a.size(); }
    long long geti(const char* key, long long def) const { return has(key) ? (*this)[key].i : def; }
    std::string gets(const char* key, const char* def) const { return has(key) ? (*this)[key].s : std::string(def); }
};

struct JParser
{
    const char* p;
    explicit JParser(const char* q) : p(q) {}
    void ws() { while (*p == ' ' || *p == '\t' || *p == '\r' || *p == '\n') p++; }
    void die(const char* m) { fprintf(stderr, "driver: bad JSON: %s near '%.20s'\n", m, p); _exit(3); }
    J val()
    {
        ws();
        J j;
        if (*p == '{')
        {
            j.k = J::OBJ; p++; ws();
            if (*p == '}') { p++; return j; }
            for (;;)
            {
                ws(); J key = str(); ws();
                if (*p != ':') die("colon");
                p++;
                j.o.emplace_back(key.s, val());
                ws();
                if (*p == ',') { p++; continue; }
                if (*p == '}') { p++; return j; }
                die("object");
            }
        }
        if (*p == '[')
        {
            j.k = J::ARR; p++; ws();
            if (*p == ']') { p++; return j; }
            for (;;)
            {
                j.a.push_back(val());
                ws();
                if (*p == ',') { p++; continue; }
                if (*p == ']') { p++; return j; }
                die("array");
            }
        }
        if (*p == '"') return str();
        if (!strncmp(p, "true", 4)) { p += 4; j.k = J::BOOL; j.i = 1; j.d = 1; return j; }
        if (!strncmp(p, "false", 5)) { p += 5; j.k = J::BOOL; return j; }
        if (!strncmp(p, "null", 4)) { p += 4; return j; }
        char* e;
        j.k = J::NUM;
        j.d = strtod(p, &e);
        if (e == p) die("number");
        j.i = strtoll(p, nullptr, 10);
        p = e;
        return j;
    }
    J str()
    {
        if (*p != '"') die("string");
        p++;
        J j; j.k = J::STR;
        while (*p && *p != '"')
        {
            if (*p == '\\')
            {
                p++;
                switch (*p)
                {
                case 'n': j.s += '\n'; break;
                case 't': j.s += '\t'; break;
                case 'r': j.s += '\r'; break;
                case 'u':
                {
                    char h[5] = {p[1], p[2], p[3], p[4], 0};
                    j.s += (char)strtol(h, nullptr, 16);
                    p += 4;
                    break;
                }
                default: j.s += *p;
                }
                p++;
            }
            else j.s += *p++;
        }
        if (*p != '"') die("unterminated string");
        p++;
        return j;
    }
};

// -------------------------------------------------------------- JSON output
const long long NOTINT  = -2000000001LL;   // too large, or not exactly an integer at this scale
const long long NOTANUM = -2000000002LL;   // NaN or infinite

struct Out
{
    std::string b;
    Out& raw(const char* key, const std::string& v) { b += ",\""; b += key; b += "\":"; b += v; return *this; }
    Out& i(const char* key, long long v) { return raw(key, std::to_string(v)); }
    Out& s(const char* key, const std::string& v) { return raw(key, "\"" + v + "\""); }
    template <class V> Out& list(const char* key, const V& v)
    {
        std::string t = "[";
        bool first = true;
        for (auto x : v) { if (!first) t += ","; first = false; t += std::to_string((long long)x); }
        return raw(key, t + "]");
    }
};

template <class T> struct is_cx : std::false_type {};
template <class T> struct is_cx<std::complex<T>> : std::true_type { };
template <class T> struct real_of { using type = T; };
template <class T> struct real_of<std::complex<T>> { using type = T; };

// a number, times scale, as an integer; exact demands that it is one
inline long long enc_num(double x, double scale, bool exact)
{
    double v = x * scale;
    if (!std::isfinite(v)) return NOTANUM;
    if (std::fabs(v) > 1.9e9) return NOTINT;
    long long r = std::llround(v);
    if (exact && (double)r != v) return NOTINT;
    return r;
}

template <class T> std::string enc(const T& x, double scale, bool exact)
{
    if constexpr (is_cx<T>::value)
        return "[" + enc((typename T::value_type)x.real(), scale, exact) + "," + enc((typename T::value_type)x.imag(), scale, exact) + "]";
    else if constexpr (std::is_integral_v<T>)
    {
        if constexpr (std::is_unsigned_v<T> && sizeof(T) == 8)
            return std::to_string(x > 2000000000ull ? NOTINT : (long long)x);
        else if (scale != 1) return std::to_string(enc_num((double)x, scale, exact));
        else return std::to_string((long long)x);
    }
    else return std::to_string(enc_num((double)x, scale, exact));
}

template <class T, class A>
std::string enc_mat(const susa::matrix<T, A>& m, double scale = 1, bool exact = true)
{
    std::string t = "{\"r\":" + std::to_string(m.no_rows()) + ",\"c\":" + std::to_string(m.no_cols()) + ",\"d\":[";
    size_t n = m.size();
    if (n > 4000000) n = 0;
    for (size_t k = 0; k < n; k++) { if (k) t += ","; t += enc(m.get(k), scale, exact); }
    return t + "]}";
}

template <class V> std::string enc_vec(const V& v, double scale = 1, bool exact = true)
{
    std::string t = "[";
    for (size_t k = 0; k < v.size(); k++) { if (k) t += ","; t += enc((typename V::value_type)v[k], scale, exact); }
    return t + "]";
}

template <class T> T dec(const J& j, double scale = 1)
{
    if constexpr (is_cx<T>::value)
    {
        using R = typename T::value_type;
        if (j.k == J::ARR) return T(dec<R>(j[0], scale), dec<R>(j[1], scale));
        return T(dec<R>(j, scale), R(0));
    }
    else if constexpr (std::is_integral_v<T>) return (T)j.i;
    else return (T)(j.d / scale);
}

template <class T, class A = std::allocator<T>>
susa::matrix<T, A> dec_mat(const J& j, double scale = 1)
{
    size_t r = (size_t)j["r"].i, c = (size_t)j["c"].i;
    susa::matrix<T, A> m;
    if (r == 0 || c == 0) return m;
    m.resize(r, c);
    const J& d = j["d"];
    for (size_t k = 0; k < r * c; k++) m(k) = dec<T>(d[k], scale);
    return m;
}

template <class T> std::vector<T> dec_vec(const J& j, double scale = 1)
{
    std::vector<T> v(j.n());
    for (size_t k = 0; k < j.n(); k++) v[k] = dec<T>(j[k], scale);
    return v;
}

// ------------------------------------------------------------------- engine
enum { X_ABORT = 77, X_TERMINATE = 78, X_TIMEOUT = 79, X_ASAN = 99, X_HARNESS = 3 };

void drv_command(const J& cmd, Out& out);   // defined by each driver
void drv_reset();                           // a new session starts

static volatile int drv_in_command = 0;

inline void drv_timeout(int) { _exit(X_TIMEOUT); }

struct Shared { volatile long next; };

#ifdef VERIF_MAIN
// With DRV_LEAK the number of live heap blocks is compared before and after every command (which runs twice, so that
// caches are warm) or, where commands form sessions, between the resets at the begin of consecutive sessions.
static long drv_live = 0;
#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char* __asan_get_report_description();
static void drv_on_malloc(const volatile void*, size_t) { drv_live++; }
static void drv_on_free(const volatile void* p) { if (p) drv_live--; }
static void drv_on_death()
{
    const char* d = __asan_get_report_description();
    if (d && (strstr(d, "double-free") || strstr(d, "bad-free") || strstr(d, "not-malloc"))) _exit(98);
}
#endif
extern "C" void __assert_fail(const char*, const char*, unsigned, const char*) noexcept { _exit(X_ABORT); }
extern "C" void abort() noexcept { _exit(X_ABORT); }

#ifdef VERIF_PAR
#include "par.h"
#endif
static const char* drv_result(int st)
{
    if (!WIFEXITED(st)) return "signal";
    const int x = WEXITSTATUS(st);
    return x == X_ABORT ? "abort" : x == X_TERMINATE ? "terminate" : x == X_TIMEOUT ? "timeout" : x == X_ASAN ? "asan" : x == 98 ? "doublefree" : x == 66 ? "race" : "exit";
}

int main(int argc, char** argv)
{
    if (argc < 3) { fprintf(stderr, "usage: driver COMMANDS TRACE\n"); return 3; }
    double cpu_limit = getenv("DRV_CPU") ? atof(getenv("DRV_CPU")) : 20;

    std::vector<std::string> lines;
    {
        std::ifstream f(argv[1]);
        if (!f) { fprintf(stderr, "driver: cannot read %s\n", argv[1]); return 3; }
        std::string s;
        while (std::getline(f, s)) if (!s.empty()) lines.push_back(s);
    }
    int fd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (fd < 0) { fprintf(stderr, "driver: cannot write %s\n", argv[2]); return 3; }

#ifdef VERIF_PAR
    for (size_t n = 0; n < lines.size(); ) n += par_group(lines, n, fd, cpu_limit);
    close(fd);
    return 0;
#endif
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next = 0;
    auto is_begin = [&](long n) { return lines[n].find("\"op\":\"begin\"") != std::string::npos || lines[n].find("\"op\": \"begin\"") != std::string::npos; };
    bool sessions = false;
    for (long n = 0; n < (long)lines.size() && !sessions; n++) sessions = is_begin(n);

    while (sh->next < (long)lines.size())
    {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (pid == 0)
        {
            int nul = open("/dev/null", O_RDWR);
            if (!getenv("DRV_VERBOSE")) { dup2(nul, 1); dup2(nul, 2); }
            signal(SIGPROF, drv_timeout);
            signal(SIGALRM, drv_timeout);
            std::set_terminate([]() { _exit(X_TERMINATE); });
            const bool leaks = getenv("DRV_LEAK") != nullptr;
            long base = 0;
            bool based = false;
#ifdef __SANITIZE_ADDRESS__
            __sanitizer_set_death_callback(drv_on_death);
            if (leaks) __sanitizer_install_malloc_and_free_hooks(drv_on_malloc, drv_on_free);
#endif
            while (sh->next < (long)lines.size())
            {
                const std::string& line = lines[sh->next];
                const long top = drv_live;
                struct itimerval tv = {};
                tv.it_value.tv_sec = (long)cpu_limit;
                tv.it_value.tv_usec = (long)((cpu_limit - (long)cpu_limit) * 1e6);
                setitimer(ITIMER_PROF, &tv, nullptr);
                alarm((unsigned)(cpu_limit * 10 + 30));
                J cmd = JParser(line.c_str()).val();
                Out out;
                const char* res = "ok";
                drv_in_command = 1;
                const bool begin = cmd["op"].s == "begin";
                if (leaks && !sessions)
                {
                    try { Out o; drv_command(cmd, o); } catch (const std::exception&) {}
                    out.b.reserve(1 << 20);
                }
                if (begin)
                {
                    const long before = drv_live;
                    drv_reset();
                    const long rest = top + drv_live - before;
                    if (leaks && based) out.i("leak", rest - base);
                    base = rest;
                    based = true;
                }
                if (!sessions) base = drv_live;
                try { drv_command(cmd, out); }
                catch (const std::bad_alloc&) { res = "badalloc"; }
                catch (const std::exception&) { res = "exception"; }
                if (leaks && !sessions) out.i("leak", drv_live - base);
                drv_in_command = 0;
                size_t e = line.find_last_of('}');
                std::string t = line.substr(0, e) + ",\"out\":\"" + res + "\"" + out.b + "}\n";
                const char* q = t.data();
                size_t left = t.size();
                while (left) { ssize_t w = write(fd, q, left); if (w <= 0) _exit(X_HARNESS); q += w; left -= (size_t)w; }
                sh->next++;
            }
            _exit(0);
        }
        int st = 0;
        if (waitpid(pid, &st, 0) != pid) { perror("waitpid"); return 3; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->next >= (long)lines.size()) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == X_HARNESS) { fprintf(stderr, "driver: harness failure at %s\n", sh->next < (long)lines.size() ? lines[sh->next].substr(0, 400).c_str() : "the end"); return 3; }
        const char* res = drv_result(st);
        const std::string& line = lines[sh->next];
        std::string t = line.substr(0, line.find_last_of('}')) + ",\"out\":\"" + res + "\"}\n";
        if (write(fd, t.data(), t.size()) != (ssize_t)t.size()) return 3;
        sh->next++;
        if (sessions) while (sh->next < (long)lines.size() && !is_begin(sh->next)) sh->next++;
    }
    close(fd);
    return 0;
}

#endif // VERIF_MAIN
#endif
