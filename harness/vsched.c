#include <pthread.h>
#include <semaphore.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include "vsched.h"

enum { NONE, RUN, POLL, MUTEX, COND, JOIN, SLEEP, QUIET, DONE };
#define MAX 64
#define EPOCH 1000000000000000ull

typedef struct
{
	sem_t     sem;
	int       state;
	const void* on;
	int       fd;
	int       target;
	uint64_t  deadline;
	uint64_t  prio;
	pthread_t id;
	void*   (*fn)(void*);
	void*     arg;
} Th;

static Th       ths[MAX];
static int      count;
static volatile int on;
static int      cur;
static uint64_t rng;
static uint64_t now;
static uint64_t limit;
static uint64_t steps;
static uint64_t budget;
static bool     runaway;
static int      p_atomic, p_plain, p_shared, pct;
static uint32_t run;
static __thread int me = -1;

extern int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern int __real_pthread_join(pthread_t, void**);
extern int __real_pthread_mutex_lock(pthread_mutex_t*);
extern int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
extern int __real_pthread_cond_signal(pthread_cond_t*);
extern int __real_pthread_cond_broadcast(pthread_cond_t*);
extern int __real_epoll_wait(int, struct epoll_event*, int, int);
extern int __real_sched_yield(void);
extern int __real_usleep(useconds_t);
extern int __real_clock_gettime(clockid_t, struct timespec*);

static uint64_t
rnd(void)
{
	rng ^= rng << 13;
	rng ^= rng >> 7;
	rng ^= rng << 17;
	return rng;
}

static bool
runnable(Th* t)
{
	struct epoll_event ev;
	switch (t->state) {
	case RUN:
		return true;
	case POLL:
		return (t->deadline && t->deadline <= now) ||
		       __real_epoll_wait(t->fd, &ev, 1, 0) > 0;
	case SLEEP:
		return t->deadline <= now;
	case JOIN:
		return ths[t->target].state == DONE;
	}
	return false;
}

static int
pick(void)
{
	for (;;)
	{
		int set[MAX], n = 0;
		for (int i = 0; i < count; i++)
			if (runnable(&ths[i]))
				set[n++] = i;
		if (runaway && ths[0].state == QUIET)
			return 0;
		if (n > 0)
		{
			if (! pct)
				return set[rnd() % n];
			int best = set[0];
			for (int i = 1; i < n; i++)
				if (ths[set[i]].prio > ths[best].prio)
					best = set[i];
			return best;
		}
		// next timer
		uint64_t next = 0;
		for (int i = 0; i < count; i++)
			if ((ths[i].state == POLL || ths[i].state == SLEEP) && ths[i].deadline)
				if (! next || ths[i].deadline < next)
					next = ths[i].deadline;
		if (next && (next <= limit || ths[0].state != QUIET))
		{
			now = next;
			continue;
		}
		if (ths[0].state == QUIET)
			return 0;
		// the controller itself can never go on
		fprintf(stderr, "vsched: all threads wait\n");
		_exit(4);
	}
}

static void
sw(bool wait)
{
	int self = me;
	int next = pick();
	ths[next].state = RUN;
	if (next == self)
		return;
	cur = next;
	sem_post(&ths[next].sem);
	if (wait)
		while (sem_wait(&ths[self].sem) != 0);
}

static void
demote(void)
{
	ths[me].prio = rnd() >> 40;
}

// below all others: it waits for one of them
static void
sink(void)
{
	uint64_t min = UINT64_MAX;
	for (int i = 0; i < count; i++)
		if (i != me && ths[i].prio < min)
			min = ths[i].prio;
	if (min == 0)
	{
		for (int i = 0; i < count; i++)
			ths[i].prio++;
		min = 1;
	}
	ths[me].prio = min - 1;
}

static inline void
point(int p)
{
	if (! on || me < 0)
		return;
	steps++;
	if (budget && --budget == 0)
	{
		runaway = true;
		sw(true);
		return;
	}
	if (p <= 0 || rnd() % p)
		return;
	if (pct)
		demote();
	sw(true);
}

void
vs_begin(uint64_t seed, int atomic, int plain)
{
	memset(ths, 0, sizeof(ths));
	rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
	for (int i = 0; i < 8; i++)
		rnd();
	count = 1;
	sem_init(&ths[0].sem, 0, 0);
	ths[0].state = RUN;
	ths[0].prio  = rnd() >> 2;
	me       = 0;
	cur      = 0;
	now      = EPOCH;
	limit    = now;
	steps    = 0;
	budget   = 0;
	runaway  = false;
	pct      = seed % 3 == 0;
	p_atomic = pct ? atomic * 8 : atomic;
	p_plain  = pct ? plain * 8 : plain;
	p_shared = (p_plain + 3) / 4;
	run++;
	on       = 1;
}

void
vs_end(void)
{
	on = 0;
	me = -1;
}

bool
vs_active(void)
{
	return on;
}

bool
vs_quiesce(int ms)
{
	limit   = now + ms * 1000000ull;
	budget  = 20000000;
	runaway = false;
	ths[0].state = QUIET;
	sw(true);
	budget = 0;
	if (ms && ! runaway)
		now = limit;
	return ! runaway;
}

uint64_t
vs_time_ms(void)
{
	return (now - EPOCH) / 1000000;
}

uint64_t
vs_steps(void)
{
	return steps;
}

static void*
th_main(void* arg)
{
	Th* t = arg;
	while (sem_wait(&t->sem) != 0);
	me = t - ths;
	void* rc = t->fn(t->arg);
	t->state = DONE;
	sw(false);
	me = -1;
	return rc;
}

int
__wrap_pthread_create(pthread_t* id, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
	if (! on || me < 0)
		return __real_pthread_create(id, attr, fn, arg);
	Th* t = &ths[count];
	if (count == MAX)
		_exit(4);
	sem_init(&t->sem, 0, 0);
	t->fn    = fn;
	t->arg   = arg;
	t->prio  = rnd() >> 2;
	t->state = RUN;
	int rc = __real_pthread_create(&t->id, attr, th_main, t);
	if (rc)
		return rc;
	*id = t->id;
	count++;
	point(1);
	return 0;
}

int
__wrap_pthread_join(pthread_t id, void** out)
{
	if (on && me >= 0)
		for (int i = 1; i < count; i++)
			if (ths[i].id == id)
			{
				ths[me].state  = JOIN;
				ths[me].target = i;
				sw(true);
				break;
			}
	return __real_pthread_join(id, out);
}

int
__wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (! on || me < 0)
		return __real_pthread_mutex_lock(m);
	point(p_atomic);
	for (;;)
	{
		if (pthread_mutex_trylock(m) == 0)
			return 0;
		ths[me].state = MUTEX;
		ths[me].on    = m;
		sw(true);
	}
}

int
__wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	int rc = __real_pthread_mutex_unlock(m);
	if (! on || me < 0)
		return rc;
	for (int i = 0; i < count; i++)
		if (ths[i].state == MUTEX && ths[i].on == m)
			ths[i].state = RUN;
	point(p_atomic);
	return rc;
}

int
__wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (! on || me < 0)
		return __real_pthread_cond_wait(c, m);
	ths[me].state = COND;
	ths[me].on    = c;
	__real_pthread_mutex_unlock(m);
	for (int i = 0; i < count; i++)
		if (ths[i].state == MUTEX && ths[i].on == m)
			ths[i].state = RUN;
	sw(true);
	return __wrap_pthread_mutex_lock(m);
}

static int
wake(pthread_cond_t* c, bool all)
{
	int at = rnd() % count;
	for (int k = 0; k < count; k++)
	{
		int i = (at + k) % count;
		if (ths[i].state != COND || ths[i].on != c)
			continue;
		ths[i].state = RUN;
		if (! all)
			break;
	}
	point(p_atomic);
	return 0;
}

int
__wrap_pthread_cond_signal(pthread_cond_t* c)
{
	if (! on || me < 0)
		return __real_pthread_cond_signal(c);
	return wake(c, false);
}

int
__wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
	if (! on || me < 0)
		return __real_pthread_cond_broadcast(c);
	return wake(c, true);
}

int
__wrap_epoll_wait(int fd, struct epoll_event* ev, int n, int timeout)
{
	if (! on || me < 0)
		return __real_epoll_wait(fd, ev, n, timeout);
	point(p_atomic);
	if (timeout != 0)
	{
		ths[me].state    = POLL;
		ths[me].fd       = fd;
		ths[me].deadline = timeout > 0 ? now + timeout * 1000000ull : 0;
		sw(true);
		ths[me].deadline = 0;
	} else
	if (pct)
	{
		demote();
		point(1);
	}
	return __real_epoll_wait(fd, ev, n, 0);
}

int
__wrap_sched_yield(void)
{
	if (! on || me < 0)
		return __real_sched_yield();
	sink();
	sw(true);
	return 0;
}

int
__wrap_usleep(useconds_t us)
{
	if (! on || me < 0)
		return __real_usleep(us);
	ths[me].state    = SLEEP;
	ths[me].deadline = now + us * 1000ull;
	sw(true);
	return 0;
}

int
__wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	if (! on || me < 0)
		return __real_clock_gettime(id, ts);
	ts->tv_sec  = now / 1000000000;
	ts->tv_nsec = now % 1000000000;
	return 0;
}

// ------------------------------------------------ compiler instrumentation
static const void* last_addr[MAX];
static int         last_same[MAX];

// threads that used an address
#define SEEN 65536
static struct { uint64_t at; uint32_t run, by; } seen[SEEN];

static bool
shared(const void* p)
{
	uint64_t at = (uint64_t)p >> 3;
	uint32_t i  = (at * 0x9E3779B97F4A7C15ull) >> 48;
	if (seen[i].at != at || seen[i].run != run)
	{
		seen[i].at  = at;
		seen[i].run = run;
		seen[i].by  = 0;
	}
	seen[i].by |= 1u << (me & 31);
	return seen[i].by & ~(1u << (me & 31));
}

static inline void
access_plain(const void* p)
{
	if (! on || me < 0)
		return;
	bool both = shared(p);
	// waiting for another thread to change this?
	if (last_addr[me] == p) {
		if (++last_same[me] > 50)
		{
			last_same[me] = 0;
			sink();
			steps++;
			if (budget && --budget == 0)
				runaway = true;
			sw(true);
			return;
		}
	} else {
		last_addr[me] = p;
		last_same[me] = 0;
	}
	point(both ? p_shared : p_plain);
}

static inline void
access_atomic(const volatile void* p)
{
	if (! on || me < 0)
		return;
	if (last_addr[me] == p) {
		if (++last_same[me] > 10)
		{
			last_same[me] = 0;
			sink();
			steps++;
			if (budget && --budget == 0)
				runaway = true;
			sw(true);
			return;
		}
	} else {
		last_addr[me] = (const void*)p;
		last_same[me] = 0;
	}
	point(p_atomic);
}

void __tsan_init(void) {}
void __tsan_func_entry(void* p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** p, void* v) {}
void __tsan_vptr_read(void** p) {}
void __tsan_read_range(void* p, unsigned long n) { access_plain(p); }
void __tsan_write_range(void* p, unsigned long n) { access_plain(p); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { return memset(d, c, n); }

#define PLAIN(N) \
void __tsan_read##N(void* p) { access_plain(p); } \
void __tsan_write##N(void* p) { access_plain(p); } \
void __tsan_read_write##N(void* p) { access_plain(p); } \
void __tsan_unaligned_read##N(void* p) { access_plain(p); } \
void __tsan_unaligned_write##N(void* p) { access_plain(p); } \
void __tsan_unaligned_read_write##N(void* p) { access_plain(p); } \
void __tsan_volatile_read##N(void* p) { access_atomic(p); } \
void __tsan_volatile_write##N(void* p) { access_atomic(p); } \
void __tsan_unaligned_volatile_read##N(void* p) { access_atomic(p); } \
void __tsan_unaligned_volatile_write##N(void* p) { access_atomic(p); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)

#define RMW(N, T, NAME, FN) \
T __tsan_atomic##N##_##NAME(volatile T* p, T v, int mo) \
{ access_atomic(p); T rc = FN(p, v, __ATOMIC_SEQ_CST); point(p_atomic); return rc; }
#define ATOMIC(N, T) \
T __tsan_atomic##N##_load(const volatile T* p, int mo) \
{ access_atomic(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T* p, T v, int mo) \
{ access_atomic(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); point(p_atomic); } \
RMW(N, T, exchange, __atomic_exchange_n) \
RMW(N, T, fetch_add, __atomic_fetch_add) \
RMW(N, T, fetch_sub, __atomic_fetch_sub) \
RMW(N, T, fetch_and, __atomic_fetch_and) \
RMW(N, T, fetch_or, __atomic_fetch_or) \
RMW(N, T, fetch_xor, __atomic_fetch_xor) \
RMW(N, T, fetch_nand, __atomic_fetch_nand) \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) \
{ access_atomic(p); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) \
{ access_atomic(p); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) \
{ access_atomic(p); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
