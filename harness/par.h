// Sessions in several threads of one process.
//
// {"op":"par","lens":[n0,n1,..],"slices":[[t,k],..],"milli":0|1} is followed by n0 lines of the first session, n1 of the
// second, ...; it leaves no trace itself.  Each session runs in a thread of its own.  In the variant "par" the compiler
// calls __sanitizer_cov_trace_pc at the begin of every basic block of the library and of the driver: there the running
// thread is held and another one let go, as the slices say: thread t runs for k basic blocks (for k thousandths of the
// basic blocks of its session, when it runs alone).  In the other variants the threads run freely.
#ifndef VERIF_PAR_H
#define VERIF_PAR_H
#include <condition_variable>
#include <mutex>
#include <thread>
#include <atomic>

struct ParShared
{
    volatile long blocks[16];       // of a session that runs alone
    volatile long lines[16];        // finished commands of a session
    volatile long used[16];         // bytes of its trace
    volatile long turn;
    char buf[1];
};
static const size_t PAR_BUF = 1u << 24;
static ParShared* par_sh = nullptr;
static thread_local int par_id = -1;
static thread_local long par_left = 0, par_count = 0;
static std::mutex par_mx;
static std::condition_variable par_cv;
static std::vector<std::pair<int, long>> par_slices;
static size_t par_pos = 0;
static std::vector<char> par_done;
static volatile bool par_free = true;
static long par_progress = 0;

// the next slice of a thread that is not finished; with the mutex held
static void par_next()
{
    while (par_pos + 1 < par_slices.size())
    {
        par_pos++;
        if (!par_done[par_slices[par_pos].first]) { par_sh->turn = par_slices[par_pos].first; par_cv.notify_all(); return; }
    }
    for (size_t t = 0; t < par_done.size(); t++)
        if (!par_done[t]) { par_slices.push_back({(int)t, 1000000000L}); par_pos = par_slices.size() - 1; par_sh->turn = (long)t; break; }
    par_cv.notify_all();
}
static void par_wait(std::unique_lock<std::mutex>& lk, int me)
{
    long last = __atomic_load_n(&par_progress, __ATOMIC_RELAXED);
    while (!par_free && par_sh->turn != me)
        if (par_cv.wait_for(lk, std::chrono::milliseconds(1500)) == std::cv_status::timeout && !par_free && par_sh->turn != me)
        {
            // the thread that should run waits for one that is held: let all go
            if (__atomic_load_n(&par_progress, __ATOMIC_RELAXED) == last) { par_free = true; par_cv.notify_all(); }
            last = __atomic_load_n(&par_progress, __ATOMIC_RELAXED);
        }
    par_left = par_free ? 1000000000L : par_slices[par_pos].second;
}
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc()
{
    const int me = par_id;
    if (me < 0) return;
    par_count++;
    if ((par_count & 1023) == 0) __atomic_fetch_add(&par_progress, 1, __ATOMIC_RELAXED);
    if (--par_left > 0 || par_free) return;
    par_id = -1;
    {
        std::unique_lock<std::mutex> lk(par_mx);
        __atomic_fetch_add(&par_progress, 1, __ATOMIC_RELAXED);
        par_next();
        par_wait(lk, me);
    }
    par_id = me;
}

// the commands of one session, in this thread; returns the number of basic blocks
static long par_session(const std::vector<std::string>& lines, int me, bool held)
{
    char* base = par_sh->buf + (size_t)me * PAR_BUF;
    drv_reset();
    if (held) { std::unique_lock<std::mutex> lk(par_mx); par_wait(lk, me); }
    for (const std::string& line : lines)
    {
        J cmd = JParser(line.c_str()).val();
        Out out;
        const char* res = "ok";
        if (cmd["op"].s == "begin") drv_reset();
        par_id = me;
        try { drv_command(cmd, out); }
        catch (const std::bad_alloc&) { res = "badalloc"; }
        catch (const std::exception&) { res = "exception"; }
        par_id = -1;
        std::string t = line.substr(0, line.find_last_of('}')) + ",\"out\":\"" + res + "\"" + out.b + "}\n";
        if ((size_t)par_sh->used[me] + t.size() > PAR_BUF) _exit(X_HARNESS);
        memcpy(base + par_sh->used[me], t.data(), t.size());
        par_sh->used[me] += (long)t.size();
        par_sh->lines[me]++;
    }
    drv_reset();
    return par_count;
}

static void par_child(int fd_null, double cpu)
{
    if (!getenv("DRV_VERBOSE")) { dup2(fd_null, 1); dup2(fd_null, 2); }
    signal(SIGALRM, drv_timeout);
    signal(SIGPROF, drv_timeout);
    struct itimerval tv = {};
    tv.it_value.tv_sec = (long)cpu;
    setitimer(ITIMER_PROF, &tv, nullptr);
    alarm((unsigned)(cpu * 10 + 30));
    std::set_terminate([]() { _exit(X_TERMINATE); });
}

static const char* drv_result(int st);

// one group; lines[n] is the par line. Returns the number of lines it covers
static size_t par_group(const std::vector<std::string>& lines, size_t n, int fd, double cpu)
{
    J h = JParser(lines[n].c_str()).val();
    const int k = (int)h["lens"].n();
    if (!par_sh)
        par_sh = (ParShared*)mmap(nullptr, sizeof(ParShared) + 16 * PAR_BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::vector<std::vector<std::string>> s(k);
    size_t at = n + 1;
    for (int t = 0; t < k; t++)
        for (long j = 0; j < h["lens"][t].i; j++) s[t].push_back(lines.at(at++));
    static int nul = open("/dev/null", O_RDWR);
    auto clear = [&] { for (int t = 0; t < 16; t++) par_sh->lines[t] = par_sh->used[t] = 0; par_sh->turn = 0; };
    clear();
    if (h.geti("milli", 0))
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            par_child(nul, cpu);
            for (int t = 0; t < k; t++) par_sh->blocks[t] = 1000;
            par_left = 1000000000000L;
            for (int t = 0; t < k; t++) { par_count = 0; par_sh->blocks[t] = par_session(s[t], t, false); }
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        clear();
    }
    pid_t pid = fork();
    if (pid == 0)
    {
        par_child(nul, cpu);
        bool held = h["slices"].n() > 0;
        for (const J& x : h["slices"].a)
        {
            long len = (long)x[1].i;
            if (h.geti("milli", 0)) len = len * par_sh->blocks[x[0].i] / 1000 + 1;
            par_slices.push_back({(int)x[0].i, std::max(1L, len)});
        }
        par_done.assign(k, 0);
        par_free = !held;
        if (held) par_sh->turn = par_slices[0].first;
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        for (int t = 0; t < k; t++)
            th.emplace_back([&, t] {
                ready++;
                while (ready < k) std::this_thread::yield();
                par_session(s[t], t, held);
                std::unique_lock<std::mutex> lk(par_mx);
                __atomic_fetch_add(&par_progress, 1, __ATOMIC_RELAXED);
                par_done[t] = 1;
                if (!par_free && par_sh->turn == t) par_next();
            });
        for (auto& x : th) x.join();
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == X_HARNESS) { fprintf(stderr, "driver: harness failure in a group: %s\n", lines[n].substr(0, 300).c_str()); _exit(3); }
    const bool good = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    int blame = -1;
    if (!good)
    {
        blame = (int)par_sh->turn;
        for (int t = 0; t < k && (blame < 0 || blame >= k || par_sh->lines[blame] >= (long)s[blame].size()); t++) blame = t;
    }
    for (int t = 0; t < k; t++)
    {
        std::string r(par_sh->buf + (size_t)t * PAR_BUF, (size_t)par_sh->used[t]);
        if (t == blame)
        {
            const std::string& l = s[t][std::min<size_t>((size_t)par_sh->lines[t], s[t].size() - 1)];
            r += l.substr(0, l.find_last_of('}')) + ",\"out\":\"" + drv_result(st) + "\"}\n";
        }
        const char* q = r.data();
        size_t left = r.size();
        while (left) { ssize_t w = write(fd, q, left); if (w <= 0) _exit(3); q += w; left -= (size_t)w; }
    }
    return at - n;
}
#endif
