// Deterministic allocator: fixed addresses, delayed reuse, poison on free, constant-time "is this freed?" lookup.
#include <cerrno>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

#include "rt.h"

namespace {
constexpr uintptr_t BASE = 0x200000000000ull;
constexpr int MINC = 4, MAXC = 29; // 16 B .. 512 MB
constexpr int NC = MAXC - MINC + 1;
constexpr uintptr_t REGION = 1ull << 32;
constexpr int NARENA = 2;
enum : uint8_t
{
    ST_NEVER = 0,
    ST_USED = 1,
    ST_FREED = 2
};
struct Class
{
    uint64_t bump = 0; // slots handed out so far
    uint32_t head = 0, tail = 0; // FIFO of freed slots, index + 1
    uint64_t qlen = 0;
};
struct Arena
{
    Class c[NC];
};
Arena arenas[NARENA];
int cur_arena = 0;
bool inited = false;
uint8_t* state_base; // one byte per slot
uint32_t* next_base; // FIFO links
size_t state_off[NC + 1]; // slot number offsets
size_t slots_per_arena;
size_t total_bytes;

inline uintptr_t region_base(int a, int c) { return BASE + (uintptr_t)(a * NC + c) * REGION; }

void die(const char* m)
{
    (void)!write(2, m, strlen(m));
    _exit(99);
}

void init()
{
    inited = true;
    size_t off = 0;
    for (int c = 0; c < NC; ++c)
    {
        state_off[c] = off;
        off += REGION >> (c + MINC);
    }
    slots_per_arena = off;
    void* p = mmap((void*)BASE, REGION * NC * NARENA, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)BASE)
        die("alloc: cannot map arena\n");
    state_base = (uint8_t*)mmap(nullptr, slots_per_arena * NARENA, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    next_base = (uint32_t*)mmap(nullptr, slots_per_arena * NARENA * 4, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (state_base == MAP_FAILED || next_base == MAP_FAILED)
        die("alloc: cannot map shadow\n");
}

inline int class_of(size_t n)
{
    if (n <= 16)
        return 0;
    int b = 64 - __builtin_clzll(n - 1);
    return b - MINC;
}

inline bool locate(const void* p, int& a, int& c, uint64_t& slot)
{
    uintptr_t u = (uintptr_t)p;
    if (u < BASE || u >= BASE + REGION * NC * NARENA)
        return false;
    uintptr_t r = (u - BASE) / REGION;
    a = (int)(r / NC);
    c = (int)(r % NC);
    slot = ((u - BASE) % REGION) >> (c + MINC);
    return true;
}

inline uint64_t quarantine_min(int c)
{
    // number of freed slots that must be waiting before one is reused
    size_t sz = (size_t)16 << c;
    uint64_t n = (8u << 20) / sz;
    return n < 4 ? 4 : (n > 4096 ? 4096 : n);
}

void* do_alloc(size_t n)
{
    if (!inited)
        init();
    int c = class_of(n);
    if (c >= NC)
    {
        errno = ENOMEM;
        return nullptr;
    }
    Class& k = arenas[cur_arena].c[c];
    size_t so = slots_per_arena * cur_arena + state_off[c];
    uint64_t slot;
    if (k.qlen > quarantine_min(c))
    {
        slot = k.head - 1;
        k.head = next_base[so + slot];
        if (!k.head)
            k.tail = 0;
        --k.qlen;
    }
    else
    {
        slot = k.bump++;
        if (slot >= (REGION >> (c + MINC)))
            die("alloc: region exhausted\n");
        total_bytes += (size_t)16 << c;
    }
    state_base[so + slot] = ST_USED;
    return (void*)(region_base(cur_arena, c) + (slot << (c + MINC)));
}

void do_free(void* p)
{
    if (!p)
        return;
    int a, c;
    uint64_t slot;
    if (!locate(p, a, c, slot))
        return; // not ours (early libc allocation)
    size_t so = slots_per_arena * a + state_off[c];
    if (state_base[so + slot] != ST_USED)
    {
        rt::fatal("double-free", "");
    }
    size_t sz = (size_t)16 << c;
    memset(p, 0xDD, sz > 65536 ? 65536 : sz);
    state_base[so + slot] = ST_FREED;
    Class& k = arenas[a].c[c];
    next_base[so + slot] = 0;
    if (k.tail)
        next_base[so + k.tail - 1] = (uint32_t)slot + 1;
    else
        k.head = (uint32_t)slot + 1;
    k.tail = (uint32_t)slot + 1;
    ++k.qlen;
}

size_t usable(void* p)
{
    int a, c;
    uint64_t slot;
    if (!locate(p, a, c, slot))
        return 0;
    return (size_t)16 << c;
}
} // namespace

namespace rt {
void select_arena(int n) { cur_arena = n; }
bool is_freed(const void* p)
{
    int a, c;
    uint64_t slot;
    if (!locate(p, a, c, slot))
        return false;
    return state_base[slots_per_arena * a + state_off[c] + slot] == ST_FREED;
}
size_t arena_bytes() { return total_bytes; }
} // namespace rt

extern "C" {
void* malloc(size_t n) { return do_alloc(n); }
void free(void* p) { do_free(p); }
void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
    {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = do_alloc(n);
    if (p)
        memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (!p)
        return do_alloc(n);
    if (n == 0)
    {
        do_free(p);
        return nullptr;
    }
    size_t u = usable(p);
    if (n <= u && n > u / 4)
        return p;
    void* q = do_alloc(n);
    if (!q)
        return nullptr;
    memcpy(q, p, u < n ? u : n);
    do_free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return do_alloc(n < al ? al : n); } // slots are aligned to their size
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n)
{
    *out = memalign(al, n);
    return *out ? 0 : ENOMEM;
}
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) { return usable(p); }
}
