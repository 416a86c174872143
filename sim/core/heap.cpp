// The heap seam: every operator new/delete of the program under simulation.
// Blocks live in one arena at a fixed address, so addresses are a function of
// the choices alone; placement order, reuse policy, contents of fresh memory and
// failures are simulated.  Under ASan, everything not currently allocated is poisoned.
#include "sim.h"
#include "internal.h"
#include <new>
#include <cstring>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VSIM_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif
#define NOSAN __attribute__((no_sanitize("address"), noinline))

namespace
{
const uintptr_t BASE = 0x200000000000ull;
const size_t ARENA = 6ull << 30;
const size_t RZ = 32;
struct Hdr
{
	uint64_t size;   // rounded user size
	uint64_t magic;
	Hdr* next;
	uint64_t pad;
};
const uint64_t LIVE = 0x11A3E11A3E11A3E1ull, DEAD = 0xDEADDEADDEADDEADull;
bool up = false;
uintptr_t lo = 0, hi = 0;
Hdr* bins[260];          // <=4096 by 16
Hdr* big = nullptr;
sim::HeapCfg cfg = {0, 0, 0};
uint64_t rs = 88172645463325252ull;
uint64_t nalloc = 0;
uint64_t fail_at = 0, fail_n = 0, fails = 0;

inline uint64_t rnd()
{
	rs ^= rs << 13;
	rs ^= rs >> 7;
	rs ^= rs << 17;
	return rs;
}
inline void poison(void* p, size_t n)
{
#ifdef VSIM_ASAN
	__asan_poison_memory_region(p, n);
#endif
	(void) p;
	(void) n;
}
inline void unpoison(void* p, size_t n)
{
#ifdef VSIM_ASAN
	__asan_unpoison_memory_region(p, n);
#endif
	(void) p;
	(void) n;
}
void boot()
{
	void* p = mmap((void *) BASE, ARENA, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if(p != (void *) BASE)
	{
		static const char m[] = "vsim: arena mmap failed\n";
		(void) !write(2, m, sizeof m - 1);
		_exit(97);
	}
	lo = BASE;
	hi = BASE + ARENA;
	up = true;
}
NOSAN Hdr* carve(size_t sz)
{
	size_t tot = RZ + sz + RZ;
	size_t gap = 0;
	if(cfg.mode == 3 && (rnd() & 3) == 0)
		gap = (rnd() & 15) * 16;
	if(lo + tot + gap + 65536 > hi)
		return nullptr;
	uintptr_t at;
	bool down = cfg.mode == 2 || (cfg.mode == 3 && (rnd() & 1));
	if(down)
	{
		hi -= tot + gap;
		at = hi;
	}
	else
	{
		at = lo + gap;
		lo += tot + gap;
	}
	Hdr* h = (Hdr *) at;
	unpoison(h, RZ);
	h->size = sz;
	h->next = nullptr;
	return h;
}
NOSAN Hdr* reuse(size_t sz)
{
	if(cfg.mode == 1 || cfg.mode == 2)
		return nullptr;
	if(cfg.mode == 3 && (rnd() & 1))
		return nullptr;
	if(sz <= 4096)
	{
		Hdr*& b = bins[sz / 16];
		Hdr* h = b;
		if(h)
			b = h->next;
		return h;
	}
	Hdr** pp = &big;
	for(int i = 0; *pp && i < 64; i++, pp = &(*pp)->next)
	{
		if((*pp)->size >= sz && (*pp)->size <= 2 * sz)
		{
			Hdr* h = *pp;
			*pp = h->next;
			return h;
		}
	}
	return nullptr;
}
void fill(unsigned char* p, size_t n)
{
	switch(cfg.fill)
	{
	case 0:
		memset(p, 0, n);
		break;
	case 1:
		memset(p, 0xFF, n);
		break;
	case 2:
		for(size_t i = 0; i + 8 <= n; i += 8)
		{
			uint64_t v = rnd();
			memcpy(p + i, &v, 8);
		}
		for(size_t i = n & ~size_t(7); i < n; i++)
			p[i] = (unsigned char) rnd();
		break;
	default:
		for(size_t i = 0; i + 8 <= n; i += 8)
		{
			double v = 1e-3 * double((rnd() >> 40) & 0xFFFF);
			memcpy(p + i, &v, 8);
		}
		for(size_t i = n & ~size_t(7); i < n; i++)
			p[i] = 0x3f;
		break;
	}
}
NOSAN void* get(size_t n, bool& injected)
{
	injected = false;
	if(!up)
		boot();
	nalloc++;
	if(fail_n)
	{
		if(fail_at > 1)
			fail_at--;
		else
		{
			fail_n--;
			fails++;
			injected = true;
			return nullptr;
		}
	}
	size_t sz = n ? (n + 15) & ~size_t(15) : 16;
	Hdr* h = reuse(sz);
	if(!h)
		h = carve(sz);
	if(!h)
		return nullptr;
	unpoison(h, RZ);
	h->magic = LIVE;
	unsigned char* u = (unsigned char *) h + RZ;
	unpoison(u, h->size);
	fill(u, h->size);
	poison(u, h->size + RZ);
	unpoison(u, n ? n : 1);
	poison(h, RZ);
	return u;
}
NOSAN void put(void* p)
{
	if(!p)
		return;
	Hdr* h = (Hdr *) ((char *) p - RZ);
	uintptr_t a = (uintptr_t) p;
	if(a < BASE || a >= BASE + ARENA || (a & 15) || h->magic != LIVE)
	{
		unpoison(h, RZ);
		bool dead = a >= BASE && a < BASE + ARENA && h->magic == DEAD;
		sim::internal::fatal(dead ? "double-free" : "bad-free");
	}
	unpoison(h, RZ);
	unpoison(p, h->size);
	memset(p, cfg.fill == 0 ? 0xDD : 0xFF, h->size < 256 ? h->size : 256);
	poison(p, h->size);
	h->magic = DEAD;
	if(h->size <= 4096)
	{
		h->next = bins[h->size / 16];
		bins[h->size / 16] = h;
	}
	else
	{
		h->next = big;
		big = h;
	}
	poison(h, RZ);
}
}

namespace sim
{
void heap_config(const HeapCfg& c)
{
	cfg = c;
	rs = c.seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
	if(!rs)
		rs = 1;
}
HeapCfg heap_random()
{
	HeapCfg c;
	c.mode = (int) draw(4);
	c.fill = (int) draw(4);
	c.seed = draw(1 << 16);
	return c;
}
uint64_t heap_count()
{
	return nalloc;
}
void heap_fail_at(uint64_t nth, uint64_t howmany)
{
	fail_at = nth ? nth : 1;
	fail_n = howmany;
	fails = 0;
}
uint64_t heap_fail_clear()
{
	uint64_t f = fails;
	fail_n = 0;
	fail_at = 0;
	fails = 0;
	return f;
}
}

void* operator new(size_t n)
{
	bool inj;
	void* p = get(n, inj);
	if(!p)
		throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n)
{
	return operator new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
	bool inj;
	return get(n, inj);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
	bool inj;
	return get(n, inj);
}
void operator delete(void* p) noexcept
{
	put(p);
}
void operator delete[](void* p) noexcept
{
	put(p);
}
void operator delete(void* p, size_t) noexcept
{
	put(p);
}
void operator delete[](void* p, size_t) noexcept
{
	put(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
	put(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
	put(p);
}
