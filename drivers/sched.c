// A deterministic scheduler behind the POSIX thread functions. Threads are coroutines of one system thread; every call
// of a thread function is a point where another thread may be chosen. explore() runs one scenario under all schedules
// within the bounds (number of preemptions, spurious wake-ups, early time-outs), then under random ones, and hands the
// recorded events of every run that has not been seen before to the caller.
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <ucontext.h>

enum { MAXT = 24, STACK = 128 * 1024, MAXEV = 4096, MAXD = 100000 };
enum { UNUSED, READY, LOCKING, WAITING, RELOCK, JOINING, ONCE, DONE };
typedef struct { uint32_t magic; int owner; int count; int type; } Mx;
typedef struct { uint32_t magic; } Cv;
typedef struct { int state; int running; } On;
#define MXMAGIC 0x4d75u
#define CVMAGIC 0x4376u
static struct
{
	ucontext_t ctx;
	char *stack;
	int state;
	Mx *mx;
	Cv *cv;
	On *on;
	int timed, timedout, count, join, detached, waits;
	struct timespec deadline;
	void *(*fn)(void *);
	void *arg, *result;
} th[MAXT];
static int nth, cur = -1;
static ucontext_t home;
static int ev[MAXEV], nev;
static int misuse, livelock, steps, streak;
static int pre_left, spur_left, time_left;
static int dec[MAXD], opt[MAXD], ndec, depth;
static int random_mode;
static uint64_t rng;
static struct timespec now;
int sched_fail_create = -1, sched_creates;
int sched_active;
int sched_max_steps = 6000;

static uint32_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (uint32_t)(rng >> 16); }
static int choose(int n)
{
	if (n <= 1) return 0;
	if (random_mode) return rnd() % n;
	if (depth < ndec)
	{
		int d = dec[depth];
		opt[depth] = n;
		if (d >= n) d = n - 1;
		depth++;
		return d;
	}
	if (ndec >= MAXD) return 0;
	dec[ndec] = 0;
	opt[ndec] = n;
	ndec++;
	depth++;
	return 0;
}
void sched_event(int type, int op, int val)
{
	if (nev + 4 > MAXEV) return;
	ev[nev++] = cur;
	ev[nev++] = type;
	ev[nev++] = op;
	ev[nev++] = val;
}
int sched_self(void) { return cur; }

static int enabled(int t)
{
	switch (th[t].state)
	{
		case READY: return 1;
		case LOCKING: case RELOCK: return th[t].mx->owner < 0;
		case JOINING: return th[th[t].join].state == DONE;
		case ONCE: return !th[t].on->running;
		default: return 0;
	}
}

// Chooses who runs next and goes there. `may_stay`: the running thread could go on.
static void reschedule(int forced)
{
	int me = cur;
	if (++steps > sched_max_steps) { livelock = 1; swapcontext(&th[me].ctx, &home); return; }
	for (;;)
	{
		int list[3 * MAXT], n = 0;
		int can = enabled(me) && !forced;
		if (can) list[n++] = me;
		int others = 0;
		for (int k = 1; k < nth; k++) if (enabled((me + k) % nth)) others++;
		if (can && streak > 60 && others) { can = 0; n = 0; }
		int preempt = 0;
		if (!can || pre_left > 0 || (random_mode && rnd() % 8 == 0))
		{
			for (int k = 1; k < nth; k++)
			{
				int t = (me + k) % nth;
				if (enabled(t)) { list[n++] = t; }
			}
			preempt = 1;
		}
		if (!n && forced && enabled(me)) { list[n++] = me; }
		int base = n;
		for (int t = 0; t < nth; t++)
			if (th[t].state == WAITING && (spur_left > 0)) list[n++] = 100 + t;
		for (int t = 0; t < nth; t++)
			if (th[t].state == WAITING && th[t].timed && (time_left > 0 || base == 0)) list[n++] = 200 + t;
		if (!n || (base == 0 && !preempt && n == 0))
		{
			swapcontext(&th[me].ctx, &home);   // nobody can run: the end of this run
			return;
		}
		int pick = list[choose(n)];
		if (pick >= 200)
		{
			int t = pick - 200;
			if (base) time_left--;
			th[t].timedout = 1;
			if (th[t].deadline.tv_sec > now.tv_sec || (th[t].deadline.tv_sec == now.tv_sec && th[t].deadline.tv_nsec > now.tv_nsec)) now = th[t].deadline;
			th[t].state = RELOCK;
			continue;
		}
		if (pick >= 100)
		{
			spur_left--;
			th[pick - 100].state = RELOCK;
			continue;
		}
		if (pick != me && can) pre_left--;
		if (pick == me) streak++; else streak = 0;
		if (pick != me)
		{
			cur = pick;
			swapcontext(&th[me].ctx, &th[pick].ctx);
		}
		return;
	}
}
static void point(void) { if (sched_active) reschedule(0); }

static void start(void)
{
	int t = cur;
	th[t].result = th[t].fn(th[t].arg);
	th[t].state = DONE;
	reschedule(0);
	abort();
}
int sched_spawn(void *(*fn)(void *), void *arg)
{
	if (nth >= MAXT) abort();
	int t = nth++;
	char *stack = th[t].stack ? th[t].stack : malloc(STACK);
	memset(&th[t], 0, sizeof(th[t]));
	th[t].stack = stack;
	th[t].fn = fn;
	th[t].arg = arg;
	th[t].state = READY;
	getcontext(&th[t].ctx);
	th[t].ctx.uc_stack.ss_sp = stack;
	th[t].ctx.uc_stack.ss_size = STACK;
	th[t].ctx.uc_link = &home;
	makecontext(&th[t].ctx, start, 0);
	return t;
}

// ------------------------------------------------------------------------------------------------- the thread functions
int pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *)a = 0; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t *a, int type) { *(int *)a = type; return 0; }
int pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *a)
{
	Mx *m = (Mx *)p;
	m->magic = MXMAGIC;
	m->owner = -1;
	m->count = 0;
	m->type = a ? *(const int *)a : 0;
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *p)
{
	Mx *m = (Mx *)p;
	if (m->magic != MXMAGIC) { misuse |= 1; return EINVAL; }
	for (int t = 0; t < nth; t++)
		if (sched_active && ((th[t].state == LOCKING || th[t].state == WAITING || th[t].state == RELOCK) && th[t].mx == m)) misuse |= 2;
	if (m->owner >= 0) return EBUSY;
	m->magic = 0;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *p)
{
	Mx *m = (Mx *)p;
	point();
	if (m->magic != MXMAGIC) { misuse |= 1; return EINVAL; }
	if (m->owner == cur)
	{
		if (m->type == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
		if (m->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	if (m->owner >= 0)
	{
		th[cur].state = LOCKING;
		th[cur].mx = m;
		reschedule(0);
		th[cur].state = READY;
		if (m->magic != MXMAGIC) { misuse |= 1; return EINVAL; }
	}
	m->owner = cur;
	m->count = 1;
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *p)
{
	Mx *m = (Mx *)p;
	point();
	if (m->magic != MXMAGIC) { misuse |= 1; return EINVAL; }
	if (m->owner == cur && m->type == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
	if (m->owner >= 0) return EBUSY;
	m->owner = cur;
	m->count = 1;
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *p)
{
	Mx *m = (Mx *)p;
	if (m->magic != MXMAGIC) { misuse |= 1; return EINVAL; }
	if (m->owner != cur) { if (m->type != PTHREAD_MUTEX_ERRORCHECK && m->type != PTHREAD_MUTEX_RECURSIVE) misuse |= 8; return EPERM; }
	if (--m->count == 0) m->owner = -1;
	point();
	return 0;
}
int pthread_cond_init(pthread_cond_t *p, const pthread_condattr_t *a) { ((Cv *)p)->magic = CVMAGIC; return 0; }
int pthread_cond_destroy(pthread_cond_t *p)
{
	Cv *c = (Cv *)p;
	if (c->magic != CVMAGIC) { misuse |= 16; return EINVAL; }
	for (int t = 0; t < nth; t++) if (th[t].state == WAITING && th[t].cv == c) misuse |= 32;
	c->magic = 0;
	return 0;
}
static int wake(Cv *c, int all)
{
	if (c->magic != CVMAGIC) { misuse |= 16; return EINVAL; }
	for (;;)
	{
		int list[MAXT], n = 0;
		for (int t = 0; t < nth; t++) if (th[t].state == WAITING && th[t].cv == c) list[n++] = t;
		if (!n) return 0;
		th[list[all ? 0 : choose(n)]].state = RELOCK;
		if (!all) return 0;
	}
}
int pthread_cond_signal(pthread_cond_t *p) { point(); return wake((Cv *)p, 0); }
int pthread_cond_broadcast(pthread_cond_t *p) { point(); return wake((Cv *)p, 1); }
static int cond_wait(Cv *c, Mx *m, const struct timespec *ts)
{
	point();
	if (c->magic != CVMAGIC || m->magic != MXMAGIC) { misuse |= 16; return EINVAL; }
	if (m->owner != cur) { misuse |= 8; return EPERM; }
	int count = m->count;
	m->owner = -1;
	m->count = 0;
	th[cur].state = WAITING;
	th[cur].cv = c;
	th[cur].mx = m;
	th[cur].timed = ts != 0;
	th[cur].timedout = 0;
	if (ts) th[cur].deadline = *ts;
	reschedule(0);
	th[cur].state = READY;
	if (m->magic != MXMAGIC) { misuse |= 1; return EINVAL; }
	m->owner = cur;
	m->count = count;
	return ts && th[cur].timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *p, pthread_mutex_t *m) { return cond_wait((Cv *)p, (Mx *)m, 0); }
int pthread_cond_timedwait(pthread_cond_t *p, pthread_mutex_t *m, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec > 999999999) return EINVAL;
	return cond_wait((Cv *)p, (Mx *)m, ts);
}
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	if (sched_fail_create >= 0 && sched_creates++ >= sched_fail_create) return EAGAIN;
	if (nth >= MAXT) return EAGAIN;
	*p = (pthread_t)(sched_spawn(fn, arg) + 1);
	point();
	return 0;
}
int pthread_detach(pthread_t p)
{
	int t = (int)p - 1;
	if (t < 0 || t >= nth || th[t].detached) { misuse |= 64; return EINVAL; }
	th[t].detached = 1;
	return 0;
}
int pthread_join(pthread_t p, void **res)
{
	int t = (int)p - 1;
	point();
	if (t < 0 || t >= nth || th[t].detached) { misuse |= 64; return EINVAL; }
	if (th[t].state != DONE)
	{
		th[cur].state = JOINING;
		th[cur].join = t;
		reschedule(0);
		th[cur].state = READY;
	}
	th[t].detached = 1;
	if (res) *res = th[t].result;
	return 0;
}
void pthread_exit(void *res)
{
	th[cur].result = res;
	th[cur].state = DONE;
	reschedule(0);
	abort();
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
pthread_t pthread_self(void) { return (pthread_t)(cur + 1); }
int pthread_once(pthread_once_t *p, void (*fn)(void))
{
	static struct { void *key; On on; } tab[64];
	(void)tab;
	// 0 = not begun, 1 = running, 2 = done; the flag itself is kept in the word of the caller
	point();
	int *w = (int *)p;
	static On ons[MAXT];
	while (*w == 1)
	{
		On *o = &ons[0];
		o->running = 1;
		th[cur].state = ONCE;
		th[cur].on = o;
		reschedule(0);
		th[cur].state = READY;
	}
	if (*w == 2) return 0;
	*w = 1;
	ons[0].running = 1;
	fn();
	*w = 2;
	ons[0].running = 0;
	point();
	return 0;
}
int sched_yield(void) { if (sched_active) reschedule(1); return 0; }
void sched_point(void) { point(); }
static void advance(int64_t ns)
{
	ns += now.tv_nsec;
	now.tv_sec += ns / 1000000000;
	now.tv_nsec = ns % 1000000000;
}
int nanosleep(const struct timespec *ts, struct timespec *rem)
{
	if (!sched_active) return 0;
	if (ts->tv_nsec < 0 || ts->tv_nsec > 999999999 || ts->tv_sec < 0) { errno = EINVAL; return -1; }
	advance(ts->tv_sec * 1000000000 + ts->tv_nsec);
	reschedule(1);
	return 0;
}
int timespec_get(struct timespec *ts, int base) { *ts = now; return base; }
int64_t sched_now(void) { return (int64_t)now.tv_sec * 1000000000 + now.tv_nsec; }
void sched_set_now(int64_t ns) { now.tv_sec = ns / 1000000000; now.tv_nsec = ns % 1000000000; }

// --------------------------------------------------------------------------------------------------------- exploration
static uint64_t *seen;
static size_t seen_cap, seen_n;
static int remember(uint64_t h)
{
	if (!h) h = 1;
	if (seen_n * 2 >= seen_cap)
	{
		size_t oc = seen_cap;
		uint64_t *old = seen;
		seen_cap = oc ? oc * 2 : 4096;
		seen = calloc(seen_cap, 8);
		for (size_t i = 0; i < oc; i++) if (old[i]) { size_t j = old[i] & (seen_cap - 1); while (seen[j]) j = (j + 1) & (seen_cap - 1); seen[j] = old[i]; }
		free(old);
	}
	size_t j = h & (seen_cap - 1);
	while (seen[j]) { if (seen[j] == h) return 0; j = (j + 1) & (seen_cap - 1); }
	seen[j] = h;
	seen_n++;
	return 1;
}
// setup() makes the objects and spawns the first threads; done() is called after the run
long sched_explore(void (*setup)(void), void (*done)(void), int preempt, int spurious, int timeouts, long max_runs, long random_runs, uint64_t seed)
{
	long runs = 0;
	int complete = 0;
	if (seen) memset(seen, 0, seen_cap * 8);
	seen_n = 0;
	ndec = 0;
	for (;;)
	{
		random_mode = complete || runs >= max_runs;
		if (random_mode && random_runs-- <= 0) break;
		if (random_mode) rng = seed * 0x9E3779B97F4A7C15u + (uint64_t)runs * 0xD1B54A32D192ED03u + 88172645463325252u;
		nth = 0;
		nev = 0;
		misuse = livelock = steps = streak = 0;
		pre_left = random_mode ? 0 : preempt;
		spur_left = spurious;
		time_left = timeouts;
		depth = 0;
		sched_creates = 0;
		now.tv_sec = 1000;
		now.tv_nsec = 400000000;
		cur = -1;
		sched_active = 0;
		setup();
		sched_active = 1;
		cur = 0;
		swapcontext(&home, &th[0].ctx);
		sched_active = 0;
		runs++;
		uint64_t h = 1469598103934665603u;
		for (int i = 0; i < nev; i++) h = (h ^ (uint32_t)ev[i]) * 1099511628211u;
		h = (h ^ (uint32_t)(livelock * 1000 + misuse)) * 1099511628211u;
		if (remember(h ^ (h >> 29)))
		{
			printf("R %d %d", livelock, misuse);
			for (int i = 0; i < nev; i++) printf(" %d", ev[i]);
			printf("\n");
		}
		if (done) done();
		if (!random_mode)
		{
			ndec = depth;
			while (ndec > 0 && dec[ndec - 1] + 1 >= opt[ndec - 1]) ndec--;
			if (!ndec) complete = 1;
			else dec[ndec - 1]++;
		}
	}
	printf("E %ld %d\n", runs, complete);
	fflush(stdout);
	return runs;
}
