// A small OpenMP runtime behind GCC's GOMP interface, on pthreads only.
//
// Two purposes:
//  * ThreadSanitizer understands it.  Synchronisation visible to TSan is exactly what OpenMP
//    promises: fork, join, barrier, task creation and completion, critical sections, atomics.
//    Work distribution uses relaxed atomics, so it adds no ordering that could hide a race.
//  * Schedules are chosen by a seed: number of threads, who runs first, who gets which chunk,
//    whether a task runs at once, later, or on a thread of its own.
//
// Modes (shim_config): 0 free running threads with random start delays, 1 baton (one thread at a
// time, handed over at start, chunk requests, barriers and ends in random order; deterministic).
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <vector>
#include <algorithm>

typedef unsigned long long ull;
typedef void (*fn_t)(void*);

namespace {
struct team;
struct task;
enum { WS_MAX = 512 };

struct loop_state { bool is_ull = false, up = true; ull start = 0, end = 0, incr = 1, chunk = 1, trips = 0; size_t ws = 0; };
struct thread_state
{
	team* tm = nullptr;
	unsigned id = 0;
	size_t ws = 0;		// work shares met
	size_t singles = 0;
	loop_state loop;
	task* cur = nullptr;
	uint64_t rnd = 0;
};
struct task
{
	fn_t fn = nullptr;
	void* data = nullptr;
	char* mem = nullptr;
	pthread_t th;
	bool threaded = false, done = false;
	team* tm = nullptr;
	unsigned id = 0;
	std::vector<task*> children;
	uint64_t rnd = 0;
};
struct team
{
	unsigned n = 1;
	fn_t fn = nullptr;
	void* data = nullptr;
	loop_state preset;
	bool has_preset = false;
	std::atomic<ull> counters[WS_MAX];
	std::atomic<size_t> singles;
	std::atomic<void*> copy;
	pthread_barrier_t bar;
	pthread_mutex_t orphan_lock;
	std::vector<task*> orphans;
	// baton mode
	bool baton = false;
	pthread_mutex_t lock;
	pthread_cond_t cond;
	int holder = -1;
	std::vector<int> state;	// 0 ready, 1 at barrier, 2 finished
	uint64_t rnd = 0;
	team() : singles(0), copy(nullptr) { for(auto& c : counters) { c.store(0, std::memory_order_relaxed); } }
};

thread_local thread_state T;
thread_local int T_crit = 0;	// locks held: no hand-over then
std::atomic<uint64_t> g_seed(1);
std::atomic<int> g_mode(0);
std::atomic<uint64_t> g_regions(0), g_tasks(0), g_threads(0), g_handovers(0), g_chunks(0), g_live(0);
std::atomic<uint64_t> g_sched(1469598103934665603ull);	// hash of the schedule (baton mode)
std::atomic<uint64_t> g_order(0);
int g_max = 0;
pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t g_atom = PTHREAD_MUTEX_INITIALIZER;

uint64_t mix(uint64_t z)
{
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
uint64_t rnd(uint64_t& s) { s = s * 6364136223846793005ull + 1442695040888963407ull; return mix(s); }
int max_threads()
{
	if(g_max <= 0)
	{
		const char* e = getenv("OMP_NUM_THREADS");
		g_max = e ? atoi(e) : 0;
		if(g_max <= 0) { g_max = 4; }
	}
	return g_max;
}
void note(uint64_t v) { g_sched.store(mix(g_sched.load(std::memory_order_relaxed) ^ v), std::memory_order_relaxed); }

// ---- baton ----------------------------------------------------------------------------------
// caller holds tm->lock
void pick(team* tm)
{
	std::vector<int> ready;
	for(unsigned i = 0; i < tm->n; ++i) { if(tm->state[i] == 0) { ready.push_back(int(i)); } }
	if(ready.empty())
	{
		bool waiting = false;
		for(unsigned i = 0; i < tm->n; ++i) { if(tm->state[i] == 1) { waiting = true; } }
		if(!waiting) { tm->holder = -2; pthread_cond_broadcast(&tm->cond); return; }
		for(unsigned i = 0; i < tm->n; ++i) { if(tm->state[i] == 1) { tm->state[i] = 0; ready.push_back(int(i)); } }
	}
	tm->holder = ready[rnd(tm->rnd) % ready.size()];
	g_handovers.fetch_add(1, std::memory_order_relaxed);
	note(uint64_t(tm->holder) + 1);
	pthread_cond_broadcast(&tm->cond);
}
void await(team* tm) { while(tm->holder != int(T.id)) { pthread_cond_wait(&tm->cond, &tm->lock); } }
void maybe_switch()
{
	team* tm = T.tm;
	if(!tm || !tm->baton || tm->n == 1 || T_crit) { return; }
	pthread_mutex_lock(&tm->lock);
	pick(tm);
	await(tm);
	pthread_mutex_unlock(&tm->lock);
}
void jitter()
{
	if(g_mode.load(std::memory_order_relaxed) != 0) { return; }
	uint64_t r = rnd(T.rnd);
	if(r % 4 == 0) { usleep(useconds_t((r >> 8) % 60)); }
	else if(r % 4 == 1) { sched_yield(); }
}

// ---- tasks ----------------------------------------------------------------------------------
void finish_children(task* t);
void run_task(task* t)
{
	task* saved = T.cur;
	T.cur = t;
	t->fn(t->data);
	T.cur = saved;
	// children nobody waited for have to end by the next barrier
	if(!t->children.empty())
	{
		pthread_mutex_lock(&t->tm->orphan_lock);
		t->tm->orphans.insert(t->tm->orphans.end(), t->children.begin(), t->children.end());
		pthread_mutex_unlock(&t->tm->orphan_lock);
		t->children.clear();
	}
	t->done = true;
}
void* task_main(void* p)
{
	task* t = static_cast<task*>(p);
	T = thread_state();
	T.tm = t->tm;
	T.id = t->id;
	T.rnd = t->rnd;
	jitter();
	run_task(t);
	return nullptr;
}
void complete(task* t)
{
	if(t->threaded) { pthread_join(t->th, nullptr); g_live.fetch_sub(1, std::memory_order_relaxed); }
	else if(!t->done) { run_task(t); }
	free(t->mem);
	delete t;
}
void finish_children(task* t)
{
	while(!t->children.empty())
	{
		size_t k = rnd(T.rnd) % t->children.size();
		task* c = t->children[k];
		t->children.erase(t->children.begin() + long(k));
		complete(c);
	}
}
void finish_orphans(team* tm)
{
	for(;;)
	{
		std::vector<task*> o;
		pthread_mutex_lock(&tm->orphan_lock);
		o.swap(tm->orphans);
		pthread_mutex_unlock(&tm->orphan_lock);
		if(o.empty()) { return; }
		for(task* t : o) { complete(t); }
	}
}

// ---- teams ----------------------------------------------------------------------------------
void team_barrier(bool last)
{
	team* tm = T.tm;
	if(!tm) { return; }
	finish_children(T.cur);
	if(tm->n == 1) { finish_orphans(tm); return; }
	for(int round = 0; round < 2; ++round)
	{
		if(tm->baton)
		{
			if(!(last && round == 1))
			{
				pthread_mutex_lock(&tm->lock);
				tm->state[T.id] = 1;
				pick(tm);
				await(tm);
				pthread_mutex_unlock(&tm->lock);
			}
		}
		else { pthread_barrier_wait(&tm->bar); }
		if(round == 0 && T.id == 0) { finish_orphans(tm); }
	}
}
void member(team* tm, unsigned id, uint64_t seed)
{
	thread_state saved = T;
	T = thread_state();
	T.tm = tm;
	T.id = id;
	T.rnd = seed;
	task implicit;
	implicit.tm = tm;
	T.cur = &implicit;
	if(tm->has_preset) { T.loop = tm->preset; T.loop.ws = T.ws++; }
	if(tm->baton)
	{
		pthread_mutex_lock(&tm->lock);
		await(tm);
		pthread_mutex_unlock(&tm->lock);
	}
	else { jitter(); }
	tm->fn(tm->data);
	team_barrier(true);
	if(tm->baton)
	{
		pthread_mutex_lock(&tm->lock);
		tm->state[id] = 2;
		pick(tm);
		pthread_mutex_unlock(&tm->lock);
	}
	T = saved;
}
struct start_arg { team* tm; unsigned id; uint64_t seed; };
void* thread_main(void* p)
{
	start_arg* a = static_cast<start_arg*>(p);
	member(a->tm, a->id, a->seed);
	return nullptr;
}
void parallel(fn_t fn, void* data, unsigned n, const loop_state* preset)
{
	if(n == 0) { n = unsigned(max_threads()); }
	if(T.tm && T.tm->n > 1) { n = 1; }	// nested regions run on one thread
	n = std::max(1u, std::min(n, 64u));
	uint64_t order = g_order.fetch_add(1, std::memory_order_relaxed);
	uint64_t s = mix(g_seed.load(std::memory_order_relaxed) * 1000003 + order);
	team* tm = new team();
	tm->n = n;
	tm->fn = fn;
	tm->data = data;
	if(preset) { tm->preset = *preset; tm->has_preset = true; }
	tm->rnd = s;
	tm->baton = g_mode.load(std::memory_order_relaxed) == 1 && n > 1;
	tm->state.assign(n, 0);
	pthread_barrier_init(&tm->bar, nullptr, n);
	pthread_mutex_init(&tm->orphan_lock, nullptr);
	pthread_mutex_init(&tm->lock, nullptr);
	pthread_cond_init(&tm->cond, nullptr);
	g_regions.fetch_add(1, std::memory_order_relaxed);
	g_threads.fetch_add(n, std::memory_order_relaxed);
	if(tm->baton) { tm->holder = int(rnd(tm->rnd) % n); note(uint64_t(tm->holder) + 1); }
	std::vector<start_arg> args(n);
	std::vector<pthread_t> th(n);
	for(unsigned i = 1; i < n; ++i)
	{
		args[i] = start_arg{tm, i, mix(s + i)};
		if(pthread_create(&th[i], nullptr, thread_main, &args[i]) != 0) { fprintf(stderr, "gomp_shim: cannot create a thread\n"); _exit(3); }
	}
	member(tm, 0, mix(s));
	for(unsigned i = 1; i < n; ++i) { pthread_join(th[i], nullptr); }
	pthread_barrier_destroy(&tm->bar);
	pthread_mutex_destroy(&tm->orphan_lock);
	pthread_mutex_destroy(&tm->lock);
	pthread_cond_destroy(&tm->cond);
	delete tm;
}

// ---- loops ----------------------------------------------------------------------------------
loop_state make_loop(long start, long end, long incr, long chunk)
{
	loop_state l;
	l.up = incr > 0;
	l.start = ull(start); l.end = ull(end); l.incr = ull(incr); l.chunk = chunk > 0 ? ull(chunk) : 1;
	if(incr > 0) { l.trips = end > start ? (ull(end) - ull(start) + ull(incr) - 1) / ull(incr) : 0; }
	else { l.trips = end < start ? (ull(start) - ull(end) + ull(-incr) - 1) / ull(-incr) : 0; }
	return l;
}
loop_state make_loop_ull(bool up, ull start, ull end, ull incr, ull chunk)
{
	loop_state l;
	l.is_ull = true;
	l.up = up;
	l.start = start; l.end = end; l.incr = incr; l.chunk = chunk ? chunk : 1;
	if(up) { l.trips = end > start ? (end - start + incr - 1) / incr : 0; }
	else { l.trips = end < start ? (start - end + (0 - incr) - 1) / (0 - incr) : 0; }
	return l;
}
bool next_chunk(ull* a, ull* b)
{
	loop_state& l = T.loop;
	static std::atomic<ull> serial;
	std::atomic<ull>* ctr = &serial;
	maybe_switch();
	if(!T.tm) { return false; }
	ctr = &T.tm->counters[l.ws % WS_MAX];
	jitter();
	ull k = ctr->fetch_add(l.chunk, std::memory_order_relaxed);
	if(k >= l.trips) { return false; }
	ull e = std::min(l.trips, k + l.chunk);
	*a = l.start + k * l.incr;
	*b = e == l.trips ? l.end : l.start + e * l.incr;
	g_chunks.fetch_add(1, std::memory_order_relaxed);
	return true;
}
team* orphan_team()
{
	// a work-sharing construct outside any parallel region: a team of one
	team* tm = new team();
	tm->n = 1;
	pthread_mutex_init(&tm->orphan_lock, nullptr);
	return tm;
}
void ensure_team()
{
	if(!T.tm) { T.tm = orphan_team(); T.cur = new task(); T.cur->tm = T.tm; }
}
bool loop_start(const loop_state& l, ull* a, ull* b)
{
	ensure_team();
	T.loop = l;
	T.loop.ws = T.ws++;
	return next_chunk(a, b);
}
} // namespace

extern "C" {
// ---- control by the monitor -----------------------------------------------------------------
void shim_config(uint64_t seed, int mode)
{
	g_seed.store(seed, std::memory_order_relaxed);
	g_mode.store(mode, std::memory_order_relaxed);
	g_order.store(0, std::memory_order_relaxed);
	g_sched.store(1469598103934665603ull, std::memory_order_relaxed);
}
void shim_counters(uint64_t* out)
{
	out[0] = g_regions.load(); out[1] = g_threads.load(); out[2] = g_tasks.load(); out[3] = g_chunks.load(); out[4] = g_handovers.load(); out[5] = g_sched.load();
}

// ---- parallel regions -----------------------------------------------------------------------
void GOMP_parallel(fn_t fn, void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
#define PLOOP(NAME) \
	void GOMP_parallel_loop_##NAME(fn_t fn, void* data, unsigned n, long s, long e, long i, long c, unsigned) { loop_state l = make_loop(s, e, i, c); parallel(fn, data, n, &l); }
#define PLOOPR(NAME) \
	void GOMP_parallel_loop_##NAME(fn_t fn, void* data, unsigned n, long s, long e, long i, unsigned) { loop_state l = make_loop(s, e, i, 1); parallel(fn, data, n, &l); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
unsigned GOMP_parallel_reductions(fn_t fn, void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); return n ? n : unsigned(max_threads()); }

#define LOOP(NAME) \
	bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(make_loop(s, e, i, c), reinterpret_cast<ull*>(a), reinterpret_cast<ull*>(b)); } \
	bool GOMP_loop_##NAME##_next(long* a, long* b) { return next_chunk(reinterpret_cast<ull*>(a), reinterpret_cast<ull*>(b)); } \
	bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return loop_start(make_loop_ull(up, s, e, i, c), a, b); } \
	bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return next_chunk(a, b); }
#define LOOPR(NAME) \
	bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return loop_start(make_loop(s, e, i, 1), reinterpret_cast<ull*>(a), reinterpret_cast<ull*>(b)); } \
	bool GOMP_loop_##NAME##_next(long* a, long* b) { return next_chunk(reinterpret_cast<ull*>(a), reinterpret_cast<ull*>(b)); } \
	bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return loop_start(make_loop_ull(up, s, e, i, 1), a, b); } \
	bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return next_chunk(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { team_barrier(false); }
bool GOMP_loop_end_cancel(void) { team_barrier(false); return false; }
void GOMP_loop_end_nowait(void) {}

// ---- sections, single, barrier --------------------------------------------------------------
unsigned GOMP_sections_next(void) { ull a, b; return next_chunk(&a, &b) ? unsigned(a) : 0; }
unsigned GOMP_sections_start(unsigned count) { ull a, b; return loop_start(make_loop(1, long(count) + 1, 1, 1), &a, &b) ? unsigned(a) : 0; }
void GOMP_sections_end(void) { team_barrier(false); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(fn_t fn, void* data, unsigned n, unsigned count, unsigned) { loop_state l = make_loop(1, long(count) + 1, 1, 1); parallel(fn, data, n, &l); }
bool GOMP_single_start(void)
{
	if(!T.tm) { return true; }
	maybe_switch();
	size_t mine = T.singles++, seen = mine;
	return T.tm->singles.compare_exchange_strong(seen, mine + 1, std::memory_order_relaxed);
}
void* GOMP_single_copy_start(void)
{
	if(GOMP_single_start()) { return nullptr; }
	team_barrier(false);
	return T.tm->copy.load();
}
void GOMP_single_copy_end(void* p) { if(T.tm) { T.tm->copy.store(p); team_barrier(false); } }
void GOMP_barrier(void) { team_barrier(false); }
bool GOMP_barrier_cancel(void) { team_barrier(false); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

// ---- critical, atomic -----------------------------------------------------------------------
void GOMP_critical_start(void) { pthread_mutex_lock(&g_crit); ++T_crit; }
void GOMP_critical_end(void) { --T_crit; pthread_mutex_unlock(&g_crit); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&g_crit); ++T_crit; }
void GOMP_critical_name_end(void**) { --T_crit; pthread_mutex_unlock(&g_crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&g_atom); ++T_crit; }
void GOMP_atomic_end(void) { --T_crit; pthread_mutex_unlock(&g_atom); }

// ---- tasks ----------------------------------------------------------------------------------
void GOMP_task(fn_t fn, void* data, void (*cpy)(void*, void*), long size, long align, bool if_clause, unsigned flags, void** depend, int, void*)
{
	ensure_team();
	g_tasks.fetch_add(1, std::memory_order_relaxed);
	if((flags & 8) && depend) { finish_children(T.cur); }
	task* t = new task();
	t->tm = T.tm;
	t->fn = fn;
	t->mem = static_cast<char*>(malloc(size_t(size) + size_t(align) + 16));
	t->data = reinterpret_cast<void*>((reinterpret_cast<uintptr_t>(t->mem) + uintptr_t(align)) & ~(uintptr_t(align) - 1));
	if(cpy) { cpy(t->data, data); } else { memcpy(t->data, data, size_t(size)); }
	uint64_t r = rnd(T.rnd);
	t->id = unsigned(r >> 20) % T.tm->n;
	t->rnd = mix(r);
	bool free_mode = !T.tm->baton;
	if(!if_clause || (r % 8) == 0 || T.tm->n == 1)
	{
		note(11);
		run_task(t);
		// what it left behind is in the orphan list
		free(t->mem);
		delete t;
		return;
	}
	if(free_mode && (r % 8) != 1 && g_live.load(std::memory_order_relaxed) < 200)
	{
		t->threaded = true;
		g_live.fetch_add(1, std::memory_order_relaxed);
		if(pthread_create(&t->th, nullptr, task_main, t) != 0) { t->threaded = false; g_live.fetch_sub(1, std::memory_order_relaxed); }
	}
	T.cur->children.push_back(t);
}
void GOMP_taskwait(void) { if(T.cur) { note(13); finish_children(T.cur); } }
void GOMP_taskwait_depend(void**) { if(T.cur) { finish_children(T.cur); } }
void GOMP_taskyield(void) { maybe_switch(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) { if(T.cur) { finish_children(T.cur); finish_orphans(T.tm); } }

// ---- omp_* ----------------------------------------------------------------------------------
int omp_get_num_threads(void) { return T.tm ? int(T.tm->n) : 1; }
int omp_get_thread_num(void) { return T.tm ? int(T.id) : 0; }
int omp_get_max_threads(void) { return max_threads(); }
void omp_set_num_threads(int n) { if(n > 0) { g_max = n; } }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return T.tm && T.tm->n > 1; }
int omp_get_level(void) { return T.tm ? 1 : 0; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_thread_limit(void) { return 64; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
int omp_in_final(void) { return 0; }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
// omp_lock_t has four bytes: it holds a number
static pthread_mutex_t g_locks[256];
static std::atomic<int> g_nlocks(0);
void omp_init_lock(int* l) { *l = g_nlocks.fetch_add(1) % 256; pthread_mutex_init(&g_locks[*l], nullptr); }
void omp_destroy_lock(int* l) { pthread_mutex_destroy(&g_locks[*l]); }
void omp_set_lock(int* l) { pthread_mutex_lock(&g_locks[*l]); ++T_crit; }
void omp_unset_lock(int* l) { --T_crit; pthread_mutex_unlock(&g_locks[*l]); }
int omp_test_lock(int* l) { if(pthread_mutex_trylock(&g_locks[*l]) != 0) { return 0; } ++T_crit; return 1; }
}
