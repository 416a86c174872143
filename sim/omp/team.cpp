#include "team.h"
#include "sim.h"
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <mutex>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <vector>

namespace
{
const int MAXT = 8;
struct Cell
{
	unsigned char r[MAXT], w[MAXT];
};
typedef std::unordered_map<uintptr_t, Cell> Shadow;
enum State { READY, ATBARRIER, WANTLOCK, DONE };
struct Loop
{
	unsigned long long next = 0, end = 0, chunk = 1;
	bool up = true, guided = false;
	long long step = 1;
	int joined = 0, left = 0;
	bool set = false;
};
struct Worker
{
	std::thread* th = nullptr;
	State state = DONE;
	unsigned singles = 0, loops = 0;
	bool locked = false;
};
struct Region
{
	void (*fn)(void*) = nullptr;
	void* data = nullptr;
	int n = 1;
	unsigned single_done = 0;
	std::vector<Loop> loops;
};
std::mutex M;
std::condition_variable C[MAXT];
Worker wk[MAXT];
int holder = -1;            // who has the baton within a region, -1 none
thread_local int self = 0;
thread_local bool inside = false;   // own code below a hook
Region reg;
bool running = false;
int guards = 0;             // static initialisations under way: no switching
long countdown = 0;
long budget = 0;            // switches left in this region
team::Style style;
team::Stats st;
Shadow* shadow = nullptr;
int lock_owner = -1;

// the hooks below also meet the simulator's own memory: they see instrumented code only
void rewind()
{
	countdown = 0;
	if(style.density == 0 || budget <= 0)
		return;
	static const uint64_t span[] = {0, 2000, 150, 12};
	countdown = 1 + (long) sim::draw(span[style.density]);
	budget--;
}
int next_of(bool self_too)
{
	std::vector<int> can;
	for(int i = 0; i < reg.n; i++)
		if((i != self || self_too) && (wk[i].state == READY || (wk[i].state == WANTLOCK && lock_owner < 0)))
			can.push_back(i);
	if(can.empty())
		return -1;
	if(can.size() == 1)
		return can[0];
	return can[sim::draw(can.size())];
}
// hands the baton on and waits for it (M not held)
void hand(int to, bool wait)
{
	if(to == self)
		return;
	st.switches++;
	std::unique_lock<std::mutex> l(M);
	holder = to;
	C[to].notify_one();
	if(wait)
	{
		const int me = self;
		C[me].wait(l, [me] { return holder == me; });
	}
}
void check_barrier()
{
	int at = 0, live = 0;
	for(int i = 0; i < reg.n; i++)
	{
		at += wk[i].state == ATBARRIER;
		live += wk[i].state != DONE;
	}
	if(at && at == live)
	{
		for(int i = 0; i < reg.n; i++)
			if(wk[i].state == ATBARRIER)
				wk[i].state = READY;
		shadow->clear();    // everything before it is ordered before everything after it
	}
}
void move_on(bool self_too)
{
	check_barrier();
	const int to = next_of(self_too);
	if(to < 0)
		sim::fail("threads:deadlock", "no thread of the region can go on");
	rewind();
	hand(to, true);
}
void access(void* a, size_t n, bool write)
{
	if(!running || inside || guards)
		return;
	inside = true;
	st.accesses++;
	if(!wk[self].locked)
	{
		uintptr_t p = (uintptr_t) a, e = p + n;
		while(p < e)
		{
			const uintptr_t g = p & ~(uintptr_t) 7;
			const uintptr_t upto = g + 8 < e ? g + 8 : e;
			unsigned char m = 0;
			for(uintptr_t b = p; b < upto; b++)
				m |= (unsigned char) (1u << (b - g));
			Cell& c = (*shadow)[g];
			for(int i = 0; i < reg.n; i++)
				if(i != self && ((c.w[i] & m) || (write && (c.r[i] & m))))
				{
					running = false;
					sim::fail("threads:race", "thread %d of %d %s memory that thread %d %s, with nothing between them that orders the two", self, reg.n,
						write ? "writes" : "reads", i, (c.w[i] & m) ? "writes" : "reads");
				}
			(write ? c.w : c.r)[self] |= m;
			p = upto;
		}
	}
	if(countdown > 0 && --countdown == 0)
		move_on(true);
	inside = false;
}
void work(int me)
{
	// entered with the baton
	wk[me].state = READY;
	try
	{
		reg.fn(reg.data);
	}
	catch(std::exception& e)
	{
		sim::fail("threads:exception", "%s leaves the parallel region: %s", typeid(e).name(), e.what());
	}
	inside = true;
	wk[me].state = DONE;
	check_barrier();
}
void helper(int me)
{
	self = me;
	for(;;)
	{
		{
			std::unique_lock<std::mutex> l(M);
			C[me].wait(l, [me] { return holder == me; });
		}
		inside = false;
		work(me);
		int to = next_of(false);
		if(to < 0)
		{
			if(wk[0].state != DONE)
				sim::fail("threads:deadlock", "no thread of the region can go on");
			to = 0;
		}
		rewind();
		hand(to, false);
	}
}
void parallel(void (*fn)(void*), void* data, unsigned want)
{
	if(running)     // nested: a team of one
	{
		fn(data);
		return;
	}
	const bool was = inside;
	inside = true;
	int n = want ? (int) want : style.vary ? 1 + (int) sim::draw((uint64_t) style.threads) : style.threads;
	if(n > MAXT)
		n = MAXT;
	st.regions++;
	if(n > st.most)
		st.most = n;
	if(!shadow)
		shadow = new Shadow;
	shadow->clear();
	std::vector<Loop> pre = reg.loops;
	reg = Region();
	reg.loops = pre;
	reg.fn = fn;
	reg.data = data;
	reg.n = n;
	lock_owner = -1;
	for(int i = 0; i < n; i++)
	{
		wk[i].state = READY;
		wk[i].singles = wk[i].loops = 0;
		wk[i].locked = false;
		if(i && !wk[i].th)
			wk[i].th = new std::thread(helper, i);
	}
	budget = 60;
	self = 0;
	running = true;
	{
		std::unique_lock<std::mutex> l(M);
		holder = 0;
	}
	rewind();
	// who begins is drawn as well
	if(n > 1)
	{
		const int to = next_of(true);
		hand(to, true);
	}
	inside = false;
	work(0);
	// wait for the others
	for(;;)
	{
		const int to = next_of(false);
		if(to < 0)
			break;
		rewind();
		hand(to, true);
	}
	for(int i = 0; i < n; i++)
		if(wk[i].state != DONE)
			sim::fail("threads:deadlock", "thread %d of the region cannot go on", i);
	running = false;
	holder = -1;
	reg.loops.clear();
	inside = was;
}
// ---- shared loops -----------------------------------------------------------
void init_loop(Loop& l, bool up, unsigned long long a, unsigned long long e, long long step, unsigned long long chunk, bool guided)
{
	l.next = a;
	l.end = e;
	l.step = step;
	l.up = up;
	l.chunk = chunk ? chunk : 1;
	l.guided = guided;
	l.set = true;
}
template<class T> bool take_chunk(Loop& l, T* a, T* e)
{
	const bool was = inside;
	inside = true;
	const long long left = l.up ? ((long long) (l.end - l.next) + l.step - 1) / l.step : ((long long) (l.next - l.end) - l.step - 1) / -l.step;
	bool got = false;
	if(l.set && left > 0 && (l.up ? l.next < l.end || (long long) l.next < (long long) l.end : true))
	{
		long long k = (long long) l.chunk;
		if(l.guided)
			k = std::max(k, left / (2 * reg.n));
		k = std::min(k, left);
		*a = (T) l.next;
		l.next += (unsigned long long) (k * l.step);
		*e = k == left ? (T) l.end : (T) l.next;
		st.chunks++;
		got = true;
	}
	if(running && reg.n > 1 && !guards && budget > 0)
		move_on(true);
	inside = was;
	return got;
}
Loop& my_loop()
{
	const unsigned k = running ? wk[self].loops : 0;
	if(reg.loops.size() <= k)
		reg.loops.resize(k + 1);
	return reg.loops[k];
}
template<class T> bool start_loop(bool up, T a, T e, long long step, T chunk, bool guided, T* x, T* y)
{
	Loop& l = my_loop();
	if(!l.set)
		init_loop(l, up, (unsigned long long) a, (unsigned long long) e, step, (unsigned long long) chunk, guided);
	return take_chunk(l, x, y);
}
void barrier()
{
	if(!running || reg.n == 1)
		return;
	const bool was = inside;
	inside = true;
	wk[self].state = ATBARRIER;
	move_on(true);
	inside = was;
}
void lock()
{
	if(!running)
		return;
	const bool was = inside;
	inside = true;
	while(lock_owner >= 0 && lock_owner != self)
	{
		wk[self].state = WANTLOCK;
		move_on(false);
		wk[self].state = READY;
	}
	lock_owner = self;
	wk[self].locked = true;
	inside = was;
}
void unlock()
{
	if(!running)
		return;
	lock_owner = -1;
	wk[self].locked = false;
}
}
namespace team
{
void use(const Style& s) { style = s; }
Stats take()
{
	Stats r = st;
	st = Stats();
	return r;
}
}
extern "C"
{
// ---- the runtime's interface as generated by gcc ------------------------------
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { lock(); }
void GOMP_critical_end() { unlock(); }
void GOMP_critical_name_start(void**) { lock(); }
void GOMP_critical_name_end(void**) { unlock(); }
void GOMP_atomic_start() { lock(); }
void GOMP_atomic_end() { unlock(); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
bool GOMP_single_start()
{
	if(!running)
		return true;
	if(wk[self].singles++ == reg.single_done)
	{
		reg.single_done++;
		return true;
	}
	return false;
}
#define LOOPS(kind, guided) \
	bool GOMP_loop_ ## kind ## _start(long a, long e, long s, long c, long* x, long* y) { return start_loop<long>(s > 0, a, e, s, c, guided, x, y); } \
	bool GOMP_loop_ ## kind ## _next(long* x, long* y) { return take_chunk(my_loop(), x, y); } \
	bool GOMP_loop_ull_ ## kind ## _start(bool up, unsigned long long a, unsigned long long e, unsigned long long s, unsigned long long c, unsigned long long* x, unsigned long long* y) \
	{ return start_loop<unsigned long long>(up, a, e, (long long) s, c, guided, x, y); } \
	bool GOMP_loop_ull_ ## kind ## _next(unsigned long long* x, unsigned long long* y) { return take_chunk(my_loop(), x, y); } \
	void GOMP_parallel_loop_ ## kind(void (*fn)(void*), void* data, unsigned n, long a, long e, long s, long c, unsigned) \
	{ reg.loops.assign(1, Loop()); init_loop(reg.loops[0], s > 0, (unsigned long long) a, (unsigned long long) e, s, (unsigned long long) c, guided); parallel(fn, data, n); }
LOOPS(dynamic, false)
LOOPS(guided, true)
LOOPS(static, false)
LOOPS(nonmonotonic_dynamic, false)
LOOPS(nonmonotonic_guided, true)
bool GOMP_loop_runtime_next(long* x, long* y) { return take_chunk(my_loop(), x, y); }
bool GOMP_loop_runtime_start(long a, long e, long s, long* x, long* y) { return start_loop<long>(s > 0, a, e, s, 1, false, x, y); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* x, long* y) { return take_chunk(my_loop(), x, y); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long e, long s, long* x, long* y) { return start_loop<long>(s > 0, a, e, s, 1, false, x, y); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long* x, unsigned long long* y) { return take_chunk(my_loop(), x, y); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, unsigned long long a, unsigned long long e, unsigned long long s, unsigned long long* x, unsigned long long* y)
{ return start_loop<unsigned long long>(up, a, e, (long long) s, 1ull, false, x, y); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long a, long e, long s, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, e, s, 1, f); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long a, long e, long s, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, e, s, 1, f); }
void GOMP_loop_end_nowait()
{
	if(running)
		wk[self].loops++;
}
void GOMP_loop_end()
{
	GOMP_loop_end_nowait();
	barrier();
}
int omp_get_num_threads() { return running ? reg.n : 1; }
int omp_get_thread_num() { return running ? self : 0; }
int omp_get_max_threads() { return style.threads; }
int omp_get_num_procs() { return MAXT; }
int omp_in_parallel() { return running && reg.n > 1; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
double omp_get_wtime() { return 0; }

// ---- every memory access of the library -----------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
	void __tsan_read ## n(void* p) { access(p, n, false); } \
	void __tsan_write ## n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_read ## n(void* p) { access(p, n, false); } \
	void __tsan_unaligned_write ## n(void* p) { access(p, n, true); } \
	void __tsan_volatile_read ## n(void* p) { access(p, n, false); } \
	void __tsan_volatile_write ## n(void* p) { access(p, n, true); } \
	void __tsan_read_write ## n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_read_write ## n(void* p) { access(p, n, true); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_vptr_update(void** p, void* v)
{
	if(*p != v)
		access(p, sizeof *p, true);
}
void __tsan_vptr_read(void** p) { access(p, sizeof *p, false); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
// atomics order things; one baton makes plain operations atomic
#define ATOMIC(n, T) \
	T __tsan_atomic ## n ## _load(const volatile T* a, int) { return *a; } \
	void __tsan_atomic ## n ## _store(volatile T* a, T v, int) { *a = v; } \
	T __tsan_atomic ## n ## _exchange(volatile T* a, T v, int) { T o = *a; *a = v; return o; } \
	T __tsan_atomic ## n ## _fetch_add(volatile T* a, T v, int) { T o = *a; *a = (T) (o + v); return o; } \
	T __tsan_atomic ## n ## _fetch_sub(volatile T* a, T v, int) { T o = *a; *a = (T) (o - v); return o; } \
	T __tsan_atomic ## n ## _fetch_and(volatile T* a, T v, int) { T o = *a; *a = (T) (o & v); return o; } \
	T __tsan_atomic ## n ## _fetch_or(volatile T* a, T v, int) { T o = *a; *a = (T) (o | v); return o; } \
	T __tsan_atomic ## n ## _fetch_xor(volatile T* a, T v, int) { T o = *a; *a = (T) (o ^ v); return o; } \
	bool __tsan_atomic ## n ## _compare_exchange_strong(volatile T* a, T* c, T v, int, int) { if(*a == *c) { *a = v; return true; } *c = *a; return false; } \
	bool __tsan_atomic ## n ## _compare_exchange_weak(volatile T* a, T* c, T v, int, int) { if(*a == *c) { *a = v; return true; } *c = *a; return false; } \
	T __tsan_atomic ## n ## _compare_exchange_val(volatile T* a, T c, T v, int, int) { T o = *a; if(o == c) *a = v; return o; }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// static initialisations: the first thread there does it, nobody switches meanwhile
int __cxa_guard_acquire(__cxxabiv1::__guard* g)
{
	if(*(char*) g)
		return 0;
	guards++;
	return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard* g)
{
	*(char*) g = 1;
	guards--;
}
void __cxa_guard_abort(__cxxabiv1::__guard*) { guards--; }
}
