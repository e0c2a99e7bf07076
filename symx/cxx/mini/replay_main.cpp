// Runs one operator of the unmodified sources, compiled natively with every memory access instrumented
// (clang's ThreadSanitizer instrumentation, but with the hooks and the OpenMP runtime below), for concrete
// sizes.  Prints accesses outside the buffers and elements shared by two iterations of a parallel loop.
#include "symx_at.h"
#include <cstdarg>
#include <set>
#include <sys/mman.h>
namespace symx
{
std::map<std::string, Fn> &registry() { static std::map<std::string, Fn> r; return r; }
struct Buf { char *b; ll n; int id; bool input; };
static char *arena;
static ll used = 0;
static const ll SIZE = 1ll << 34, GAP = 1 << 20;
static Buf bufs[256];
static int nbufs = 0;
static bool on = false, quiet = false;
static long iter = -1;                 // current iteration of a parallel loop
static char *frame = nullptr;
struct Who { long it; bool w, many; };
static std::map<char *, Who> *seen = nullptr;
static int reported = 0;
void *alloc(int id, ll bytes)
{
    if (!arena) arena = (char *)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    used += GAP;
    char *p = arena + used;
    if (used + bytes + GAP > SIZE || nbufs >= 256) { puts("TOOBIG"); exit(0); }
    used += (bytes + 63) / 64 * 64;
    bufs[nbufs++] = {p, bytes, id, false};
    return p;
}
static void access(void *a, size_t n, bool w)
{
    if (!on || quiet) return;
    char *p = (char *)a;
    bool ar = p >= arena && p < arena + SIZE;
    quiet = true;
    if (ar)
    {
        bool ok = false;
        int near = -1;
        ll off = 0;
        for (int i = 0; i < nbufs; i++)
        {
            if (p >= bufs[i].b && p + n <= bufs[i].b + bufs[i].n)
            {
                ok = true;
                if (w && bufs[i].input && reported++ < 20) printf("INPUT write to input %d at element %lld\n", bufs[i].id, (ll)(p - bufs[i].b) / 8);
            }
            if (p >= bufs[i].b - GAP / 2) { near = bufs[i].id; off = (p - bufs[i].b) / 8; }
        }
        if (!ok && reported++ < 20) printf("OOB %s element %lld of buffer %d\n", w ? "write" : "read", off, near);
    }
    if (iter >= 0 && seen && (ar || (frame && p >= frame && p < frame + (1 << 20))))
    {
        auto f = seen->find(p);
        if (f == seen->end()) (*seen)[p] = {iter, w, false};
        else
        {
            if (f->second.it != iter) f->second.many = true;
            f->second.w |= w;
            if (f->second.many && f->second.w && (w || f->second.it != iter) && reported++ < 20)
                printf("RACE address %s shared by iterations %ld and %ld\n", ar ? "in a buffer" : "of a variable", f->second.it, iter);
        }
    }
    quiet = false;
}
bool chunk(ll b, ll e, ll &s, ll &t)
{
    if (iter < 0)
    {
        seen = new std::map<char *, Who>;
        frame = nullptr;
        iter = 0;
    }
    else iter++;
    s = b + iter;
    t = s + 1;
    if (s >= e || iter > 63)
    {
        iter = -1;
        return false;
    }
    return true;
}
} // namespace symx
using symx::access;
extern "C" {
#define A(n) \
    void __tsan_read##n(void *a) { access(a, n, false); } \
    void __tsan_write##n(void *a) { access(a, n, true); } \
    void __tsan_read_write##n(void *a) { access(a, n, false); access(a, n, true); } \
    void __tsan_unaligned_read##n(void *a) { access(a, n, false); } \
    void __tsan_unaligned_write##n(void *a) { access(a, n, true); } \
    void __tsan_unaligned_read_write##n(void *a) { access(a, n, false); access(a, n, true); } \
    void __tsan_volatile_read##n(void *a) {} \
    void __tsan_volatile_write##n(void *a) {}
A(1) A(2) A(4) A(8) A(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void *, void *) {}
void __tsan_vptr_read(void *) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access((void *)s, n, false); access(d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access((void *)s, n, false); access(d, n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) access(d, n, true); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(W, T) \
    T __tsan_atomic##W##_load(const volatile T *a, int) { return *a; } \
    void __tsan_atomic##W##_store(volatile T *a, T v, int) { *a = v; } \
    T __tsan_atomic##W##_exchange(volatile T *a, T v, int) { T o = *a; *a = v; return o; } \
    T __tsan_atomic##W##_fetch_add(volatile T *a, T v, int) { T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##W##_fetch_sub(volatile T *a, T v, int) { T o = *a; *a = o - v; return o; } \
    int __tsan_atomic##W##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##W##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)

// OpenMP: the iterations one after the other
static bool asked, done;
static long dnext, dub, dst;
typedef void (*Micro)(int *, int *, ...);
int __kmpc_global_thread_num(void *) { return 0; }
void __kmpc_push_num_threads(void *, int, int) {}
void __kmpc_barrier(void *, int) {}
void __kmpc_serialized_parallel(void *, int) {}
void __kmpc_end_serialized_parallel(void *, int) {}
void __kmpc_for_static_fini(void *, int) {}
void __kmpc_fork_call(void *, int n, Micro f, ...)
{
    va_list v;
    va_start(v, f);
    void *p[16] = {};
    for (int i = 0; i < n && i < 16; i++) p[i] = va_arg(v, void *);
    va_end(v);
    symx::seen = new std::map<char *, symx::Who>;
    symx::frame = (char *)__builtin_frame_address(0) + 16;
    for (symx::iter = 0; symx::iter < 64; symx::iter++)
    {
        int g = 0, b = 0;
        asked = done = false;
        f(&g, &b, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]);
        if (!asked || done) break;
    }
    symx::iter = -1;
}
#define SI(W, T) \
    void __kmpc_for_static_init_##W(void *, int, int, int *last, T *lo, T *up, T *st, T inc, T) \
    { \
        asked = true; \
        T i = *lo + (T)symx::iter * inc; \
        if (inc > 0 ? i > *up : i < *up) { done = true; *lo = 1; *up = 0; if (inc < 0) { *lo = 0; *up = 1; } } \
        else *lo = *up = i; \
        *last = 0; \
        *st = (T)1 << 30; \
    } \
    void __kmpc_dispatch_init_##W(void *, int, int, T lo, T up, T st, T) \
    { \
        asked = true; \
        dnext = lo + symx::iter * st; \
        dub = up; \
        dst = st; \
        if (dnext > dub) done = true; \
    } \
    int __kmpc_dispatch_next_##W(void *, int, int *last, T *lo, T *up, T *st) \
    { \
        if (dnext > dub) return 0; \
        *lo = *up = dnext; \
        *st = 1; \
        *last = 0; \
        dnext = dub + 1; \
        return 1; \
    } \
    void __kmpc_dispatch_fini_##W(void *, int) {}
SI(4, int) SI(8, long) SI(4u, unsigned) SI(8u, unsigned long)
int omp_get_thread_num() { return 0; }
int omp_get_num_threads() { return 1; }
int omp_get_max_threads() { return 1; }
}

int main(int argc, char **argv)
{
    using namespace symx;
    if (argc < 5) return 2;
    auto f = registry().find(argv[1]);
    if (f == registry().end()) { puts("U not registered"); return 0; }
    at::Tensor in[3];
    for (int k = 0; k < 3; k++)
    {
        std::vector<int64_t> sz;
        std::istringstream ss(argv[2 + k]);
        std::string t;
        while (std::getline(ss, t, ',')) if (t.size()) sz.push_back(atoll(t.c_str()));
        in[k] = at::Tensor::fresh(sz, c10::kDouble, true);
        bufs[nbufs - 1].input = true;
    }
    on = true;
    try
    {
        at::Tensor r = f->second(in[0], in[1], in[2]);
        on = false;
        puts("R");
    }
    catch (Reject &e) { on = false; puts(("X " + e.why).c_str()); }
    catch (Unsupported &e) { on = false; puts(("U " + e.why).c_str()); }
    fflush(stdout);
    _exit(0);
}
