// See vpsched.h.  This file is compiled without instrumentation; it supplies the functions to which the compiler's
// thread instrumentation turns memory accesses and atomics, and interposes the thread library.
#include "vpsched.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace {
long rawsys(long n, long a, long b, long c, long d, long e, long f) {
	long r;
	register long r10 asm("r10") = d;
	register long r8 asm("r8") = e;
	register long r9 asm("r9") = f;
	asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}

enum State { RUNNABLE, ON_MUTEX, ON_COND, ON_JOIN, ON_OTHER, PRED, SETTLE, SETTLE_OR, HELD, DONE };
struct Th {
	int id;
	State st;
	const void *obj;
	bool timed, timedout;
	std::function<bool()> pred;
	int word;
	long prio;
	pthread_t real;
	bool joined;
	void *(*fn)(void *);
	void *arg, *ret;
};
std::vector<Th *> ths;
__thread Th *me;
bool on;
uint64_t rs;
int policy;
int swprob;     // 1 of swprob
size_t nsteps;
std::vector<size_t> changes;
long lowprio;
void (*stuckfn)(const char *);
const char *wbase;
size_t wlen;
struct Mx { Th *owner; int depth; };
struct Ob { long a, b; Th *w; };
std::map<const void *, Mx> mxs;
std::map<const void *, Ob> obs;
std::map<pthread_t, Th *> byreal;
std::vector<std::string> planned;
size_t planpos;
bool planon;

uint64_t rnd_() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
inline uint64_t below(uint64_t n) { return (rnd_() >> 20) % n; }

void park(Th *t) {
	while (__atomic_load_n(&t->word, __ATOMIC_ACQUIRE) == 0)
		rawsys(SYS_futex, (long)&t->word, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
	__atomic_store_n(&t->word, 0, __ATOMIC_RELEASE);
}
void unpark(Th *t) {
	__atomic_store_n(&t->word, 1, __ATOMIC_RELEASE);
	rawsys(SYS_futex, (long)&t->word, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// who goes next; the state of the chosen thread becomes RUNNABLE
Th *pick() {
	for (;;) {
		std::vector<Th *> c;
		for (auto t : ths) {
			if (t->st == RUNNABLE)
				c.push_back(t);
			else if ((t->st == PRED || t->st == SETTLE_OR) && t->pred())
				c.push_back(t);
			else if (t->st == HELD && !planon)
				c.push_back(t);
		}
		if (policy != sched::PCT && !c.empty() && below(48) == 0)     // a spurious wake-up
			for (auto t : ths)
				if (t->st == ON_COND && below(2)) {
					t->st = RUNNABLE;
					c.push_back(t);
					break;
				}
		if (c.empty()) {
			bool held = false;
			for (auto t : ths)
				held |= t->st == HELD;
			if (held) {
				planon = false;
				continue;
			}
			for (auto t : ths)
				if (t->st == SETTLE || t->st == SETTLE_OR)
					c.push_back(t);
			if (c.empty())
				for (auto t : ths)
					if ((t->st == ON_COND || t->st == ON_OTHER) && t->timed) {
						t->timedout = true;
						c.push_back(t);
						break;
					}
			if (c.empty())
				return nullptr;
		}
		Th *n;
		if (policy == sched::PCT) {
			n = *std::max_element(c.begin(), c.end(), [](Th *a, Th *b) { return a->prio < b->prio; });
		} else
			n = c[below(c.size())];
		n->st = RUNNABLE;
		return n;
	}
}
void stuck(const char *why) {
	on = false;
	stuckfn(why);
	_exit(0);
}
void switch_to(Th *n) {
	if (n == me)
		return;
	Th *m = me;
	unpark(n);
	park(m);
}
void yield_now() {
	Th *n = pick();
	if (!n)
		stuck("deadlock");
	switch_to(n);
}
void point_(int weight) {
	if (++nsteps > 3000000)
		stuck("livelock");
	if (policy == sched::PCT) {
		bool ch = false;
		for (auto c : changes)
			ch |= c == nsteps;
		if (ch)
			me->prio = --lowprio;
		else if (weight > 4)
			return;
		yield_now();
		return;
	}
	if (below((uint64_t)swprob * weight) == 0)
		yield_now();
}
// blocks until somebody makes the thread runnable again
void block(State st, const void *obj) {
	me->st = st;
	me->obj = obj;
	if (++nsteps > 3000000)
		stuck("livelock");
	yield_now();
}
void wake(State st, const void *obj, int n = INT_MAX) {
	std::vector<Th *> c;
	for (auto t : ths)
		if (t->st == st && t->obj == obj)
			c.push_back(t);
	while (n-- > 0 && !c.empty()) {
		size_t k = below(c.size());
		c[k]->st = RUNNABLE;
		c[k]->timedout = false;
		c.erase(c.begin() + k);
	}
}
Th *newth() {
	Th *t = new Th();
	t->id = ths.size();
	t->st = RUNNABLE;
	t->prio = 1000 + below(1000000);
	ths.push_back(t);
	return t;
}
template<class F> F real(F &cache, const char *name) {
	if (!cache)
		cache = (F)dlsym(RTLD_NEXT, name);
	return cache;
}
inline bool ctl() { return on && me; }
void *entry(void *p) {
	Th *t = (Th *)p;
	me = t;
	park(t);
	t->ret = t->fn(t->arg);
	if (sched::on_exit_thread)
		sched::on_exit_thread(t->id);
	t->st = DONE;
	wake(ON_JOIN, t);
	Th *n = pick();
	if (!n)
		stuck("deadlock");
	void *ret = t->ret;
	me = nullptr;
	unpark(n);
	return ret;
}
bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
void m_lock(pthread_mutex_t *m) {
	for (;;) {
		Mx &x = mxs[m];
		if (!x.owner || (x.owner == me && recursive(m))) {
			x.owner = me;
			x.depth++;
			return;
		}
		block(ON_MUTEX, m);
	}
}
int m_unlock(pthread_mutex_t *m) {
	Mx &x = mxs[m];
	if (x.owner != me)
		return EPERM;
	if (--x.depth == 0) {
		x.owner = nullptr;
		wake(ON_MUTEX, m);
	}
	return 0;
}
int c_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
	int d = mxs[m].depth;
	mxs[m].depth = 1;
	m_unlock(m);
	me->timed = timed;
	me->timedout = false;
	block(ON_COND, c);
	bool to = me->timedout;
	me->timed = me->timedout = false;
	m_lock(m);
	mxs[m].depth = d;
	return to ? ETIMEDOUT : 0;
}
} // namespace

namespace sched {
void (*on_exit_thread)(int th);
int fail_create;
void begin(uint64_t seed, int pol, int estimate, void (*st)(const char *)) {
	rs = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
	for (int i = 0; i < 5; i++)
		rnd_();
	stuckfn = st;
	policy = pol;
	static const int probs[] = {2, 3, 6, 12};
	swprob = pol == RARE ? 40 + below(200) : pol == ROUND ? 1 : probs[below(4)];
	if (pol == PCT) {
		int d = below(6);
		for (int i = 0; i < d; i++)
			changes.push_back(1 + below(estimate));
	}
	lowprio = 0;
	me = newth();
	me->real = pthread_self();
	on = true;
}
void end() { on = false; }
bool active() { return on; }
int self() { return me ? me->id : -1; }
void watch(const void *p, size_t n) { wbase = (const char *)p; wlen = n; }
void point(int w) { if (ctl()) point_(w); }
void wait_for(const std::function<bool()> &pred) {
	point_(1);
	if (pred()) return;
	me->pred = pred;
	block(PRED, nullptr);
}
void settle() { block(SETTLE, nullptr); }
void until_or_settled(const std::function<bool()> &pred) {
	if (pred()) return;
	me->pred = pred;
	block(SETTLE_OR, nullptr);
}
void plan(const std::string *items, size_t n) { planned.assign(items, items + n); planpos = 0; planon = n > 0; }
void event_point(const std::string &what) {
	if (!ctl()) return;
	if (planon) {
		while (planon) {
			if (planpos == planned.size()) { planon = false; break; }
			if (planned[planpos] == what) {
				planpos++;
				for (auto t : ths)
					if (t->st == HELD) t->st = RUNNABLE;
				return;
			}
			block(HELD, nullptr);
		}
		return;
	}
	point_(1);
}
size_t plan_done() { return planpos; }
size_t steps() { return nsteps; }
uint64_t rnd() { return rnd_(); }
}

// ------------------------------------------------------------------ the thread library
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
	static int (*f)(pthread_mutex_t *);
	if (!ctl()) return real(f, "pthread_mutex_lock")(m);
	point_(1);
	m_lock(m);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
	static int (*f)(pthread_mutex_t *);
	if (!ctl()) return real(f, "pthread_mutex_trylock")(m);
	point_(1);
	Mx &x = mxs[m];
	if (x.owner && !(x.owner == me && recursive(m))) return EBUSY;
	x.owner = me;
	x.depth++;
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { pthread_mutex_lock(m); return 0; }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { pthread_mutex_lock(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) {
	static int (*f)(pthread_mutex_t *);
	if (!ctl()) return real(f, "pthread_mutex_unlock")(m);
	int r = m_unlock(m);
	point_(1);
	return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	static int (*f)(pthread_cond_t *, pthread_mutex_t *);
	if (!ctl()) return real(f, "pthread_cond_wait")(c, m);
	point_(1);
	return c_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
	static int (*f)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
	if (!ctl()) return real(f, "pthread_cond_timedwait")(c, m, t);
	point_(1);
	return c_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
	static int (*f)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
	if (!ctl()) return real(f, "pthread_cond_clockwait")(c, m, k, t);
	point_(1);
	return c_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t *c) {
	static int (*f)(pthread_cond_t *);
	if (!ctl()) return real(f, "pthread_cond_signal")(c);
	wake(ON_COND, c, 1);
	point_(1);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
	static int (*f)(pthread_cond_t *);
	if (!ctl()) return real(f, "pthread_cond_broadcast")(c);
	wake(ON_COND, c);
	point_(1);
	return 0;
}
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	static int (*f)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
	if (!ctl()) return real(f, "pthread_create")(p, a, fn, arg);
	point_(1);
	if (sched::fail_create && --sched::fail_create == 0) return EAGAIN;
	Th *t = newth();
	t->fn = fn;
	t->arg = arg;
	int r = real(f, "pthread_create")(&t->real, a, entry, t);
	if (r != 0) {
		t->st = DONE;
		return r;
	}
	*p = t->real;
	byreal[t->real] = t;
	point_(1);
	return 0;
}
int pthread_join(pthread_t p, void **ret) {
	static int (*f)(pthread_t, void **);
	if (!ctl() || !byreal.count(p)) return real(f, "pthread_join")(p, ret);
	point_(1);
	Th *t = byreal[p];
	while (t->st != DONE)
		block(ON_JOIN, t);
	byreal.erase(p);
	return real(f, "pthread_join")(p, ret);
}
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
int sched_yield() {
	static int (*f)();
	if (!ctl()) return real(f, "sched_yield")();
	me->prio = --lowprio;
	++nsteps;
	yield_now();
	return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
	static int (*f)(const struct timespec *, struct timespec *);
	if (!ctl()) return real(f, "nanosleep")(a, b);
	return sched_yield();
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
	static int (*f)(clockid_t, int, const struct timespec *, struct timespec *);
	if (!ctl()) return real(f, "clock_nanosleep")(c, fl, a, b);
	return sched_yield();
}
int usleep(useconds_t u) {
	static int (*f)(useconds_t);
	if (!ctl()) return real(f, "usleep")(u);
	return sched_yield();
}
int pthread_once(pthread_once_t *o, void (*fn)()) {
	static int (*f)(pthread_once_t *, void (*)());
	if (!ctl()) return real(f, "pthread_once")(o, fn);
	point_(1);
	while (*o == 1)
		block(ON_OTHER, o);
	if (*o == 2) return 0;
	*o = 1;
	fn();
	*o = 2;
	wake(ON_OTHER, o);
	return 0;
}
// reader-writer locks: a = readers, w = writer
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
	static int (*f)(pthread_rwlock_t *);
	if (!ctl()) return real(f, "pthread_rwlock_wrlock")(l);
	point_(1);
	while (obs[l].a || obs[l].w) block(ON_OTHER, l);
	obs[l].w = me;
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
	static int (*f)(pthread_rwlock_t *);
	if (!ctl()) return real(f, "pthread_rwlock_rdlock")(l);
	point_(1);
	while (obs[l].w) block(ON_OTHER, l);
	obs[l].a++;
	return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
	static int (*f)(pthread_rwlock_t *);
	if (!ctl()) return real(f, "pthread_rwlock_trywrlock")(l);
	if (obs[l].a || obs[l].w) return EBUSY;
	obs[l].w = me;
	return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
	static int (*f)(pthread_rwlock_t *);
	if (!ctl()) return real(f, "pthread_rwlock_tryrdlock")(l);
	if (obs[l].w) return EBUSY;
	obs[l].a++;
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
	static int (*f)(pthread_rwlock_t *);
	if (!ctl()) return real(f, "pthread_rwlock_unlock")(l);
	if (obs[l].w == me) obs[l].w = nullptr;
	else obs[l].a--;
	wake(ON_OTHER, l);
	point_(1);
	return 0;
}
int pthread_spin_lock(pthread_spinlock_t *l) {
	static int (*f)(pthread_spinlock_t *);
	if (!ctl()) return real(f, "pthread_spin_lock")(l);
	point_(1);
	while (obs[(void *)l].w) block(ON_OTHER, (void *)l);
	obs[(void *)l].w = me;
	return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *l) {
	static int (*f)(pthread_spinlock_t *);
	if (!ctl()) return real(f, "pthread_spin_unlock")(l);
	obs[(void *)l].w = nullptr;
	wake(ON_OTHER, (void *)l);
	point_(1);
	return 0;
}
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n) {
	obs[b].a = n;
	obs[b].b = 0;
	static int (*f)(pthread_barrier_t *, const pthread_barrierattr_t *, unsigned);
	return real(f, "pthread_barrier_init")(b, a, n);
}
int pthread_barrier_wait(pthread_barrier_t *b) {
	static int (*f)(pthread_barrier_t *);
	if (!ctl()) return real(f, "pthread_barrier_wait")(b);
	point_(1);
	if (++obs[b].b == obs[b].a) {
		obs[b].b = 0;
		wake(ON_OTHER, b);
		point_(1);
		return PTHREAD_BARRIER_SERIAL_THREAD;
	}
	block(ON_OTHER, b);
	return 0;
}
int sem_init(sem_t *s, int sh, unsigned v) {
	obs[s].a = v;
	static int (*f)(sem_t *, int, unsigned);
	return real(f, "sem_init")(s, sh, v);
}
int sem_wait(sem_t *s) {
	static int (*f)(sem_t *);
	if (!ctl()) return real(f, "sem_wait")(s);
	point_(1);
	while (obs[s].a == 0) block(ON_OTHER, s);
	obs[s].a--;
	return 0;
}
int sem_trywait(sem_t *s) {
	static int (*f)(sem_t *);
	if (!ctl()) return real(f, "sem_trywait")(s);
	if (obs[s].a == 0) { errno = EAGAIN; return -1; }
	obs[s].a--;
	return 0;
}
int sem_post(sem_t *s) {
	static int (*f)(sem_t *);
	if (!ctl()) return real(f, "sem_post")(s);
	obs[s].a++;
	wake(ON_OTHER, s);
	point_(1);
	return 0;
}
// std::atomic waiting: every wait is allowed to return early
long syscall(long n, ...) {
	va_list ap;
	va_start(ap, n);
	long a[6];
	for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
	va_end(ap);
	if (ctl() && n == SYS_futex) {
		int op = a[1] & 127;
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			if (*(int *)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
			me->timed = op == FUTEX_WAIT_BITSET && a[3];
			block(ON_OTHER, (void *)a[0]);
			me->timed = false;
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			wake(ON_OTHER, (void *)a[0], (int)a[2]);
			point_(1);
			return 1;
		}
	}
	long r = rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (r < 0 && r > -4096) { errno = -r; return -1; }
	return r;
}

// ------------------------------------------------------------------ instrumentation
static inline void touched(const void *p) {
	if (ctl() && (size_t)((const char *)p - wbase) < wlen)
		point_(3);
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { touched(p); } void __tsan_write##n(void *p) { touched(p); } \
	void __tsan_read##n##_pc(void *p, void *) { touched(p); } void __tsan_write##n##_pc(void *p, void *) { touched(p); } \
	void __tsan_unaligned_read##n(void *p) { touched(p); } void __tsan_unaligned_write##n(void *p) { touched(p); } \
	void __tsan_volatile_read##n(void *p) { touched(p); } void __tsan_volatile_write##n(void *p) { touched(p); } \
	void __tsan_read_write##n(void *p) { touched(p); } void __tsan_unaligned_read_write##n(void *p) { touched(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long) { touched(p); }
void __tsan_write_range(void *p, unsigned long) { touched(p); }
void __tsan_vptr_update(void **p, void *) { touched(p); }
void __tsan_vptr_read(void **p) { touched(p); }
void *__tsan_memcpy(void *a, const void *b, size_t n) { return memcpy(a, b, n); }
void *__tsan_memmove(void *a, const void *b, size_t n) { return memmove(a, b, n); }
void *__tsan_memset(void *a, int b, size_t n) { return memset(a, b, n); }
#define AT(n, T) \
	T __tsan_atomic##n##_load(const volatile T *a, int) { sched::point(1); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##n##_store(volatile T *a, T v, int) { sched::point(1); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { sched::point(1); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { sched::point(1); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { sched::point(1); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { sched::point(1); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { sched::point(1); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { sched::point(1); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { sched::point(1); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sched::point(1); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sched::point(1); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sched::point(1); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
