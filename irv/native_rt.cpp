// Native implementation of the verification intrinsics: replays a verifier counterexample, or runs the
// same contract harness on randomly chosen concrete inputs, against the compiled real code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>

static bool random_mode = false;
static uint64_t seed = 1, rng_state = 1;
static uint64_t nxt()
{
    uint64_t z = (rng_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
struct ufun { long els = 0; std::map<std::vector<long>, long> tab; };
static std::map<std::string, ufun> ufs;
static std::vector<std::pair<std::string,long>> inputs;
static size_t pos = 0;
static std::string rec;       // inputs used so far
static int out_fd = 1;
static std::set<std::string> seen_uf;

static void note(const char* n, long v) { char b[200]; snprintf(b, sizeof b, "%s=%ld ", n, v); rec += b; }
static void finish(const char* tag, const char* msg, int rc)
{
    std::string s = std::string(tag) + "\t" + msg + "\t" + rec + "\n";
    if (write(out_fd, s.data(), s.size()) < 0) {}
    _exit(rc);
}
static bool fixed(const char* n, long& v)
{
    if (random_mode) return false;
    for (size_t p = pos; p < inputs.size(); ++p)
        if (inputs[p].first == n) { v = inputs[p].second; pos = p + 1; return true; }
    v = 0;
    return true;
}
static uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ULL; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2)); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; return z ^ (z >> 29); }
static long uf(const char* n, std::vector<long> a, bool pred)
{
    if (random_mode)
    {
        uint64_t h = mix(seed, hstr(n));
        static const int mods[] = {2, 3, 5, 11, 1000003};
        long m = mods[mix(seed, hstr(n) + 7) % 5];
        unsigned bias = mix(seed, hstr(n) + 13) % 5;
        for (long x : a) h = mix(h, (uint64_t)x);
        long r;
        if (pred) { static const unsigned th[] = {50, 20, 80, 5, 95}; r = (h % 100) < th[bias]; }
        else r = (long)(h % m);
        if (rec.size() < 4000)
        {
            std::string k = n; k += '(';
            for (size_t i = 0; i < a.size(); ++i) { if (i) k += ','; k += std::to_string(a[i]); }
            k += ')';
            if (seen_uf.insert(k).second) note(k.c_str(), r);
        }
        return r;
    }
    ufun& u = ufs[n];
    auto it = u.tab.find(a);
    return it == u.tab.end() ? u.els : it->second;
}
static int held = 0;
static std::map<const void*, int> mlocks;
extern "C" {
static void interfere();
long verif_nondet_range(const char* n, long lo, long hi)
{
    if (lo >= hi) finish("ASSUME", n, 77);
    long v;
    if (!fixed(n, v))
    {
        uint64_t span = (uint64_t)(hi - lo);
        uint64_t d = nxt() % 100;
        uint64_t lim = d < 70 ? 9 : d < 90 ? 20 : 70;
        v = lo + (long)(nxt() % (span < lim ? span : lim));
    }
    else if (v < lo || v >= hi) finish("ASSUME", n, 77);
    note(n, v);
    return v;
}
long verif_nondet_long(const char* n)
{
    long v;
    if (!fixed(n, v)) { uint64_t d = nxt() % 100; v = d < 70 ? (long)(nxt() % 8) : d < 90 ? (long)(nxt() % 20) - 6 : (long)(nxt() % 100) - 20; }
    note(n, v); return v;
}
int verif_nondet_int(const char* n) { return (int)verif_nondet_long(n); }
bool verif_nondet_bool(const char* n)
{
    long v;
    if (!fixed(n, v)) v = nxt() % 100 < 25;
    note(n, v); return v & 1;
}
void verif_assume(bool b) { if (!b) finish("ASSUME", "", 77); }
void verif_assert(bool b, const char* n) { if (!b) finish("FAIL", n, 1); }
void verif_cover(const char*) {}
void verif_stop() { finish("ASSUME", "stop", 77); }
void verif_touch() {}
int verif_choice(int k, const char* n)
{
    long v;
    if (!fixed(n, v)) v = nxt() % k;
    if (v < 0 || v >= k) v = 0;
    note(n, v); return (int)v;
}
long verif_ite(bool c, long a, long b) { return c ? a : b; }
bool verif_and(bool a, bool b) { return a && b; }
bool verif_or(bool a, bool b) { return a || b; }
bool verif_not(bool a) { return !a; }
bool verif_may(bool a) { return a; }
bool verif_must(bool a) { return a; }
long verif_uf0(const char* n) { return uf(n, {}, false); }
long verif_uf1(const char* n, long a) { return uf(n, {a}, false); }
long verif_uf2(const char* n, long a, long b) { return uf(n, {a,b}, false); }
long verif_uf3(const char* n, long a, long b, long c) { return uf(n, {a,b,c}, false); }
bool verif_up0(const char* n) { return uf(n, {}, true); }
bool verif_up1(const char* n, long a) { return uf(n, {a}, true); }
bool verif_up2(const char* n, long a, long b) { return uf(n, {a,b}, true); }
bool verif_up3(const char* n, long a, long b, long c) { return uf(n, {a,b,c}, true); }
void verif_log(const char* n, long v) { note(n, v); }
long verif_concretize(long v) { return v; }
#include <malloc.h>
long verif_block_size(const void* p) { return (long)malloc_usable_size((void*)p); }
bool verif_is_init(const void*) { return true; }
bool verif_mutex_held(const void* m) { return mlocks[m] > 0; }
int verif_depth() { return 3; }
int verif_locks_held() { return held; }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
static bool env_on, env_in;
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    interfere();
    if (mlocks[m] > 0 && env_in) finish("ASSUME", "the other thread waits", 77);
    if (mlocks[m] > 0) finish("FAIL", "lock discipline: mutex locked twice by one thread", 1);
    ++mlocks[m]; ++held; return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (mlocks[m] > 0) { --mlocks[m]; --held; } 
    return __real_pthread_mutex_unlock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_trylock(m);
    if (!r) { ++mlocks[m]; ++held; }
    return r;
}
}
struct entry { const char* name; void (*fn)(); };
extern entry verif_entries[];
static const char* signame(int s) { return s == SIGSEGV ? "crash: segmentation fault" : s == SIGABRT ? "crash: abort" : s == SIGALRM || s == SIGVTALRM || s == SIGXCPU ? "timeout" : "crash: signal"; }
static void on_sig(int s) { finish(s == SIGXCPU || s == SIGALRM ? "TIMEOUT" : "CRASH", signame(s), 3); }
static void run(void (*fn)())
{
    signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGBUS, on_sig); signal(SIGFPE, on_sig); signal(SIGXCPU, on_sig); signal(SIGALRM, on_sig);
    alarm(3);
    try { fn(); }
    catch (...)
    {
        int st; const std::type_info* t = abi::__cxa_current_exception_type();
        char* d = t ? abi::__cxa_demangle(t->name(), 0, 0, &st) : nullptr;
        std::string m = std::string("exception leaves the harness: ") + (d ? d : "?");
        finish("FAIL", m.c_str(), 1);
    }
    finish("PASS", "", 0);
}
// usage: prog replay ENTRY FILE | prog random ENTRY SEED COUNT SECONDS
int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    void (*fn)() = nullptr;
    for (entry* e = verif_entries; e->name; ++e) if (!strcmp(e->name, argv[2])) fn = e->fn;
    if (!fn) return 2;
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    if (!strcmp(argv[1], "replay"))
    {
        FILE* f = fopen(argv[3], "r");
        if (!f) return 2;
        char kind[16];
        while (fscanf(f, "%15s", kind) == 1)
        {
            char name[256]; long v; int k;
            if (!strcmp(kind, "in")) { if (fscanf(f, " %ld %255[^\n]", &v, name) != 2) return 2; inputs.emplace_back(name, v); }
            else if (!strcmp(kind, "else")) { if (fscanf(f, " %ld %255[^\n]", &v, name) != 2) return 2; ufs[name].els = v; }
            else if (!strcmp(kind, "uf"))
            {
                if (fscanf(f, " %d %ld", &k, &v) != 2) return 2;
                std::vector<long> a(k);
                for (auto& x : a) if (fscanf(f, " %ld", &x) != 1) return 2;
                if (fscanf(f, " %255[^\n]", name) != 1) return 2;
                ufs[name].tab[a] = v;
            }
        }
        fclose(f);
        run(fn);
    }
    random_mode = true;
    uint64_t s0 = strtoull(argv[3], 0, 10); long count = atol(argv[4]); double secs = atof(argv[5]);
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    long pass = 0, skip = 0, tmo = 0, i = 0;
    for (; i < count; ++i)
    {
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
        int p[2]; if (pipe(p)) return 2;
        pid_t c = fork();
        if (c == 0)
        {
            close(p[0]); out_fd = p[1];
            seed = mix(s0, (uint64_t)i); rng_state = seed;
            run(fn);
        }
        close(p[1]);
        std::string o; char b[8192]; ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, n);
        close(p[0]);
        int st; waitpid(c, &st, 0);
        if (o.compare(0, 4, "PASS") == 0) { ++pass; continue; }
        if (o.compare(0, 6, "ASSUME") == 0) { ++skip; continue; }
        if (o.compare(0, 7, "TIMEOUT") == 0) { ++tmo; continue; }
        if (o.empty()) { o = "CRASH\tabnormal exit\t\n"; }
        printf("%s", o.c_str());
        printf("RUNS\t%ld\t%ld\t%ld\t%ld\n", i + 1, pass, skip, tmo);
        return 1;
    }
    printf("RUNS\t%ld\t%ld\t%ld\t%ld\n", i, pass, skip, tmo);
    return 0;
}
// ---- interference and monitors: the contract file is compiled with clang's thread sanitizer instrumentation, whose call-outs
// land here: before every atomic operation (and mutex lock) the environment function of the contract runs; plain accesses to a
// monitored region need its lock; freed memory must not be accessed.
extern "C" void vf_env() __attribute__((weak));
static void interfere()
{
    if (!env_on || env_in || !vf_env) return;
    env_in = true; vf_env(); env_in = false;
}
struct region { const char *lo, *hi; const void* mx; const char* name; };
static std::vector<region> regions;
static bool mon_off, in_rt;
static std::map<const char*, size_t>* freed;
extern "C" void verif_env(bool b) { env_on = b; }
extern "C" void verif_monitor(const void* p, long n, const char* nm) { regions.push_back({(const char*)p, (const char*)p + n, nullptr, nm}); }
extern "C" void verif_monitor_by(const void* p, long n, const void* m, const char* nm) { regions.push_back({(const char*)p, (const char*)p + n, m, nm}); }
extern "C" void verif_monitor_off(bool b) { mon_off = b; }
static bool is_freed(const void* q)
{
    if (!freed || freed->empty()) return false;
    auto it = freed->upper_bound((const char*)q);
    if (it == freed->begin()) return false;
    --it;
    return (const char*)q < it->first + it->second;
}
extern "C" bool verif_alive(const void* p) { return !is_freed(p); }
#ifdef VERIF_TSAN
extern "C" bool verif_freed(const void* p) { return is_freed(p); }
#else
extern "C" bool verif_freed(const void*) { return true; }
#endif
#ifdef VERIF_TSAN
#include <malloc.h>
#include <new>
// memory is never reused, so that accesses to freed memory are seen
static void* vnew(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void vdel(void* p) { if (!p) return; if (in_rt) { free(p); return; } in_rt = true; if (!freed) freed = new std::map<const char*, size_t>; (*freed)[(const char*)p] = malloc_usable_size(p); in_rt = false; }
void* operator new(size_t n) { return vnew(n); }
void* operator new[](size_t n) { return vnew(n); }
void operator delete(void* p) noexcept { vdel(p); }
void operator delete[](void* p) noexcept { vdel(p); }
void operator delete(void* p, size_t) noexcept { vdel(p); }
void operator delete[](void* p, size_t) noexcept { vdel(p); }
static void plain(const void* a, size_t n)
{
    if (in_rt) return;
    const char* p = (const char*)a;
    if (is_freed(p)) { in_rt = true; finish("FAIL", "memory-safety: access to freed memory", 1); }
    if (mon_off) return;
    for (auto& r : regions)
    {
        if (p + n <= r.lo || p >= r.hi) continue;
        bool ok = false;
        in_rt = true;
        if (r.mx) ok = mlocks[r.mx] > 0;
        else for (auto& m : mlocks) if (m.second > 0 && (const char*)m.first >= r.lo && (const char*)m.first < r.hi) ok = true;
        if (!ok) { std::string s = std::string("lock-discipline: ") + r.name + " accessed without its lock"; finish("FAIL", s.c_str(), 1); }
        in_rt = false;
    }
}
static void before(const void* a) { if (!in_rt && is_freed(a)) finish("FAIL", "memory-safety: access to freed memory", 1); interfere(); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { plain(p, n); } void __tsan_write##n(void* p) { plain(p, n); } void __tsan_unaligned_read##n(void* p) { plain(p, n); } void __tsan_unaligned_write##n(void* p) { plain(p, n); } void __tsan_read_write##n(void* p) { plain(p, n); } void __tsan_unaligned_read_write##n(void* p) { plain(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) plain(p, n); }
void __tsan_write_range(void* p, size_t n) { if (n) plain(p, n); }
void __tsan_vptr_read(void** p) { plain(p, 8); }
void __tsan_vptr_update(void** p, void*) { plain(p, 8); }
void* __tsan_memcpy(void* d, const void* s_, size_t n) { if (n) { plain(s_, n); plain(d, n); } return memcpy(d, s_, n); }
void* __tsan_memmove(void* d, const void* s_, size_t n) { if (n) { plain(s_, n); plain(d, n); } return memmove(d, s_, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) plain(d, n); return memset(d, c, n); }
#define AT(w, T) \
T __tsan_atomic##w##_load(const volatile T* a, int) { before((void*)a); return __atomic_load_n(a, 5); } \
void __tsan_atomic##w##_store(volatile T* a, T v, int) { before((void*)a); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##w##_exchange(volatile T* a, T v, int) { before((void*)a); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##w##_fetch_add(volatile T* a, T v, int) { before((void*)a); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##w##_fetch_sub(volatile T* a, T v, int) { before((void*)a); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##w##_fetch_and(volatile T* a, T v, int) { before((void*)a); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##w##_fetch_or(volatile T* a, T v, int) { before((void*)a); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##w##_fetch_xor(volatile T* a, T v, int) { before((void*)a); return __atomic_fetch_xor(a, v, 5); } \
int __tsan_atomic##w##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { before((void*)a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
int __tsan_atomic##w##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { before((void*)a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
T __tsan_atomic##w##_compare_exchange_val(volatile T* a, T e, T v, int, int) { before((void*)a); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif
