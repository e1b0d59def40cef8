/* Deterministic simulation shim.
 *
 * Preloaded into the unmodified subweight binaries. Every thread of the process runs only while it
 * holds a token that the scheduler below hands out; every source of nondeterminism that the
 * programs have (thread choice, clocks, randomness, sockets, processes, files) comes through here
 * and is decided by the scheduler's seeded generator or by the orchestrator at the other end of the
 * control socket. See /verif/DESIGN.md. */
#define _GNU_SOURCE
#include "swcsim.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
typedef uint64_t u64;
typedef uint32_t u32;

static struct shm *S;
static int ctl = -1;
static int active;
#define MAXT 1024
enum { T_FREE, T_RUN, T_FUTEX, T_EPOLL, T_POLL, T_SLEEP, T_JOIN, T_EXITED };
struct thr {
	int state;
	u32 go;
	int tid;
	pthread_t pt;
	void *(*fn)(void *);
	void *arg;
	void *addr;
	u32 bitset;
	int woken;
	int has_deadline;
	u64 deadline;
	int epfd;
	struct pollfd *pfds;
	nfds_t npfds;
	int join_target;
	int is_poller;
	u32 epoch;
	u32 conn; /* connection (in order of acceptance) that this thread read from last */
	u64 fq; /* futex queue position */
};
static struct thr T[MAXT];
static int nthr;
static int cur;
static u64 fq_next = 1;
static u64 rng_s, rng_h;
static int dying_tid;
static pthread_key_t exit_key;
static __thread int me = -1;
static __thread int exit_rounds;

/* ---------- raw system calls (never interposed) ---------- */
static long raw6(long n, long a, long b, long c, long d, long e, long f)
{
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}
#define RAW(n, a, b, c, d, e, f) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static u64 mix(u64 *s)
{
	u64 z = (*s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

#define REAL(ret, name, ...) \
	static ret (*r_##name)(__VA_ARGS__); \
	static inline void *g_##name(void) { if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name); return (void *)r_##name; }

static void die(const char *m)
{
	RAW(SYS_write, 2, m, strlen(m), 0, 0, 0);
	RAW(SYS_write, 2, "\n", 1, 0, 0, 0);
	RAW(SYS_exit_group, 97, 0, 0, 0, 0, 0);
}

/* ---------- control channel ---------- */
static void xfer(int wr, void *p, size_t n)
{
	char *c = p;
	while (n) {
		long k = RAW(wr ? SYS_write : SYS_read, ctl, c, n, 0, 0, 0);
		if (k == -EINTR) continue;
		if (k <= 0) RAW(SYS_exit_group, 98, 0, 0, 0, 0, 0);
		c += k;
		n -= k;
	}
}
static char rbuf[1 << 16];
static struct reply rpc(u32 type, u64 a, u64 b, const void *payload, u32 len)
{
	static char out[1 << 16];
	struct msg m = { type, len, S->now, me < 0 ? 0 : (u32)me, me < 0 ? 0 : T[me].epoch, me < 0 ? 0 : T[me].conn, 0, a, b };
	if (len > sizeof out - sizeof m) die("swcsim: payload too large");
	memcpy(out, &m, sizeof m);
	if (len) memcpy(out + sizeof m, payload, len);
	xfer(1, out, sizeof m + len);
	struct reply r;
	xfer(0, &r, sizeof r);
	if (r.len > sizeof rbuf) die("swcsim: reply too large");
	if (r.len) xfer(0, rbuf, r.len);
	return r;
}

/* ---------- scheduler ---------- */
static int fd_ready(struct pollfd *p, nfds_t n)
{
	struct timespec z = { 0, 0 };
	for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
	return RAW(SYS_ppoll, p, n, &z, 0, 8, 0) > 0;
}
static int runnable(int i)
{
	struct thr *t = &T[i];
	switch (t->state) {
	case T_RUN: return 1;
	case T_FUTEX: if (t->woken) return 1; break;
	case T_EPOLL: { struct pollfd p = { t->epfd, POLLIN, 0 }; if (fd_ready(&p, 1)) return 1; break; }
	case T_POLL: if (fd_ready(t->pfds, t->npfds)) return 1; break;
	case T_JOIN: return T[t->join_target].state == T_EXITED;
	case T_SLEEP: break;
	default: return 0;
	}
	return t->has_deadline && t->deadline <= S->now;
}
static void idle(void)
{
	u64 min = ~0ULL;
	for (int i = 0; i < nthr; i++)
		if (T[i].state > T_RUN && T[i].state < T_JOIN && T[i].has_deadline && T[i].deadline < min) min = T[i].deadline;
	static u64 horizon;
	if (min <= horizon) {
		if (min > S->now) S->now = min;
		return;
	}
	struct reply r = rpc(M_IDLE, min, 0, 0, 0);
	if (r.a > S->now) S->now = r.a;
	horizon = r.b;
}
static u32 dev_pos;
static int yielding; /* the next decision should prefer somebody else */
static int pick(void)
{
	static int list[MAXT];
	for (;;) {
		int n = 0, has_cur = 0;
		for (int i = 0; i < nthr; i++)
			if (runnable(i)) { list[n++] = i; if (i == cur) has_cur = 1; }
		if (!n) { idle(); continue; }
		u64 step = S->steps++;
		if (S->max_steps && step > S->max_steps) { rpc(M_LIVELOCK, step, 0, 0, 0); die("swcsim: livelock"); }
		int def = list[0];
		if (has_cur && !(yielding && n > 1)) def = cur;
		else for (int k = 0; k < n; k++) if (list[k] > cur) { def = list[k]; break; }
		yielding = 0;
		int c = def;
		if (n > 1) {
			S->choice_points++;
			if (S->replay) {
				while (dev_pos < S->n_dev_in && S->dev_in[dev_pos].step < step) dev_pos++;
				if (dev_pos < S->n_dev_in && S->dev_in[dev_pos].step == step)
					for (int k = 0; k < n; k++) if (list[k] == (int)S->dev_in[dev_pos].thread) c = list[k];
			} else {
				u64 x = mix(&rng_s);
				if (x % 1000 < S->preempt_pm) c = list[(x >> 20) % n];
			}
			S->sched_hash = (S->sched_hash ^ (step * 1315423911u + c + 1)) * 1099511628211ULL;
		}
		if (c != def && S->n_dev_out < MAX_DEV) {
			S->dev_out[S->n_dev_out].step = step;
			S->dev_out[S->n_dev_out++].thread = c;
		}
		T[c].state = T_RUN;
		return c;
	}
}
static void hand_over(int c)
{
	cur = c;
	__atomic_store_n(&T[c].go, 1, __ATOMIC_SEQ_CST);
	RAW(SYS_futex, &T[c].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void await_token(struct thr *t)
{
	while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST))
		RAW(SYS_futex, &t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
	t->go = 0;
	if (dying_tid) {
		while (RAW(SYS_tgkill, getpid(), dying_tid, 0, 0, 0, 0) != -ESRCH) RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
		dying_tid = 0;
	}
}
/* The calling thread has set its own state; returns when it is scheduled again. */
static void sched(void)
{
	int self = me, c = pick();
	if (c == self) return;
	S->switches++;
	hand_over(c);
	await_token(&T[self]);
}
static int on(void) { return active && me >= 0; }
static void point(void)
{
	if (!on()) return;
	T[me].state = T_RUN;
	sched();
}
static void sleep_ns(u64 ns)
{
	struct thr *t = &T[me];
	t->state = T_SLEEP;
	t->has_deadline = 1;
	t->deadline = S->now + ns;
	sched();
	t->has_deadline = 0;
}

/* ---------- time and randomness ---------- */
#define MONO_BASE 1000000ULL
#define REAL_BASE 1700000000ULL
static u64 clk(int real)
{
	S->clock_reads++;
	S->now += 50;
	u64 v = S->now + (real ? REAL_BASE : MONO_BASE) * 1000000000ULL;
	if (real) v += S->real_skew;
	return v;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts)
{
	if (!on()) return RAW(SYS_clock_gettime, id, ts, 0, 0, 0, 0) < 0 ? -1 : 0;
	u64 v = clk(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI);
	ts->tv_sec = v / 1000000000ULL;
	ts->tv_nsec = v % 1000000000ULL;
	return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;
	if (!on()) return RAW(SYS_gettimeofday, tv, 0, 0, 0, 0, 0) < 0 ? -1 : 0;
	u64 v = clk(1);
	tv->tv_sec = v / 1000000000ULL;
	tv->tv_usec = v % 1000000000ULL / 1000;
	return 0;
}
EXPORT time_t time(time_t *p)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (p) *p = ts.tv_sec;
	return ts.tv_sec;
}
static void fill(void *buf, size_t n)
{
	unsigned char *c = buf;
	while (n) { u64 x = mix(&rng_h); size_t k = n < 8 ? n : 8; memcpy(c, &x, k); c += k; n -= k; }
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl)
{
	if (!on()) { long r = RAW(SYS_getrandom, buf, n, fl, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
	fill(buf, n);
	return n;
}
EXPORT int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }
EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set)
{
	(void)pid;
	memset(set, 0, sz);
	for (int i = 0; i < 4; i++) CPU_SET_S(i, sz, set);
	return 0;
}

/* ---------- futex ---------- */
static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 *addr2, u32 val3)
{
	(void)addr2;
	int cmd = op & FUTEX_CMD_MASK;
	struct thr *t = &T[me];
	switch (cmd) {
	case FUTEX_WAIT:
	case FUTEX_WAIT_BITSET:
		if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
		S->futex_waits++;
		t->has_deadline = 0;
		if (ts) {
			u64 v = (u64)ts->tv_sec * 1000000000ULL + ts->tv_nsec;
			if ((u64)ts->tv_sec > 9000000000ULL) v = ~0ULL >> 1;
			t->has_deadline = 1;
			if (cmd == FUTEX_WAIT) t->deadline = S->now + v;
			else {
				u64 base = (op & FUTEX_CLOCK_REALTIME) ? REAL_BASE * 1000000000ULL + S->real_skew : MONO_BASE * 1000000000ULL;
				t->deadline = v > base ? v - base : 0;
			}
		}
		t->addr = addr;
		t->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u;
		t->woken = 0;
		t->fq = fq_next++;
		t->state = T_FUTEX;
		if (!t->is_poller) t->epoch++;
		sched();
		t->has_deadline = 0;
		if (!t->woken) { t->addr = 0; errno = ETIMEDOUT; return -1; }
		return 0;
	case FUTEX_WAKE:
	case FUTEX_WAKE_BITSET: {
		u32 bits = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
		u32 n = 0;
		S->futex_wakes++;
		while (n < val) {
			int best = -1;
			for (int i = 0; i < nthr; i++)
				if (T[i].state == T_FUTEX && !T[i].woken && T[i].addr == addr && (T[i].bitset & bits) && (best < 0 || T[i].fq < T[best].fq)) best = i;
			if (best < 0) break;
			T[best].woken = 1;
			T[best].addr = 0;
			n++;
		}
		point();
		return n;
	}
	default:
		die("swcsim: unsupported futex operation");
	}
	return -1;
}
EXPORT int sched_yield(void);
EXPORT long syscall(long n, ...)
{
	va_list ap;
	va_start(ap, n);
	long a[6];
	for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
	va_end(ap);
	if (on()) {
		if (n == SYS_futex) return sim_futex((u32 *)a[0], (int)a[1], (u32)a[2], (void *)a[3], (u32 *)a[4], (u32)a[5]);
		if (n == SYS_getrandom) return getrandom((void *)a[0], a[1], a[2]);
		if (n == SYS_sched_yield) return sched_yield();
	}
	long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (r < 0 && r > -4096) { errno = -r; return -1; }
	return r;
}
EXPORT int sched_yield(void)
{
	if (on()) {
		/* a yield must let somebody else run, otherwise spin loops never end */
		yielding = 1;
		point();
		S->now += 1000;
		return 0;
	}
	return RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b)
{
	if (!on()) return RAW(SYS_nanosleep, a, b, 0, 0, 0, 0) < 0 ? -1 : 0;
	sleep_ns((u64)a->tv_sec * 1000000000ULL + a->tv_nsec);
	return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b)
{
	(void)b;
	if (!on()) return -RAW(SYS_clock_nanosleep, id, fl, a, b, 0, 0);
	u64 v = (u64)a->tv_sec * 1000000000ULL + a->tv_nsec;
	if (fl & TIMER_ABSTIME) {
		u64 base = id == CLOCK_REALTIME ? REAL_BASE * 1000000000ULL + S->real_skew : MONO_BASE * 1000000000ULL;
		v = v > base + S->now ? v - base - S->now : 0;
	}
	sleep_ns(v);
	return 0;
}
EXPORT int usleep(useconds_t us)
{
	struct timespec ts = { us / 1000000, us % 1000000 * 1000 };
	return nanosleep(&ts, 0);
}

/* ---------- threads ---------- */
static void thread_gone(void *v)
{
	(void)v;
	if (me < 0) return;
	if (++exit_rounds < 4) { pthread_setspecific(exit_key, (void *)1); return; }
	struct thr *t = &T[me];
	t->state = T_EXITED;
	int tid = t->tid;
	int c = pick();
	me = -1;
	dying_tid = tid;
	hand_over(c);
}
static void *tramp(void *p)
{
	struct thr *t = p;
	__atomic_store_n(&t->tid, (int)RAW(SYS_gettid, 0, 0, 0, 0, 0, 0), __ATOMIC_SEQ_CST);
	await_token(t);
	me = t - T;
	pthread_setspecific(exit_key, (void *)1);
	return t->fn(t->arg);
}
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
	g_pthread_create();
	if (!on()) return r_pthread_create(pt, at, fn, arg);
	if (nthr == MAXT) die("swcsim: too many threads");
	struct thr *t = &T[nthr];
	memset(t, 0, sizeof *t);
	t->fn = fn;
	t->arg = arg;
	t->state = T_RUN;
	int r = r_pthread_create(&t->pt, at, tramp, t);
	if (r) return r;
	while (!__atomic_load_n(&t->tid, __ATOMIC_SEQ_CST)) RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
	nthr++;
	S->threads++;
	*pt = t->pt;
	point();
	return 0;
}
REAL(int, pthread_join, pthread_t, void **)
EXPORT int pthread_join(pthread_t pt, void **ret)
{
	g_pthread_join();
	if (on())
		for (int i = nthr - 1; i >= 0; i--)
			if (T[i].state != T_FREE && T[i].tid && i != me && pthread_equal(T[i].pt, pt)) {
				if (T[i].state != T_EXITED) {
					T[me].state = T_JOIN;
					T[me].join_target = i;
					sched();
				}
				memset(&T[i].pt, 0, sizeof T[i].pt);
				break;
			}
	return r_pthread_join(pt, ret);
}

/* ---------- epoll / poll ---------- */
static int sim_epoll(int epfd, struct epoll_event *ev, int max, u64 ns, int forever)
{
	struct thr *t = &T[me];
	t->is_poller = 1;
	struct pollfd p = { epfd, POLLIN, 0 };
	if (ns || forever) {
		if (!fd_ready(&p, 1)) {
			S->epoll_blocks++;
			t->epoch++;
			t->state = T_EPOLL;
			t->epfd = epfd;
			t->has_deadline = !forever;
			t->deadline = S->now + ns;
			sched();
			t->has_deadline = 0;
		} else point();
	}
	long r = RAW(SYS_epoll_wait, epfd, ev, max, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	return r;
}
EXPORT int epoll_wait(int epfd, struct epoll_event *ev, int max, int ms)
{
	if (!on()) { long r = RAW(SYS_epoll_wait, epfd, ev, max, ms, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
	return sim_epoll(epfd, ev, max, ms > 0 ? (u64)ms * 1000000ULL : 0, ms < 0);
}
EXPORT int epoll_pwait(int epfd, struct epoll_event *ev, int max, int ms, const sigset_t *s) { (void)s; return epoll_wait(epfd, ev, max, ms); }
EXPORT int poll(struct pollfd *p, nfds_t n, int ms)
{
	struct timespec z = { 0, 0 };
	if (on() && ms != 0 && !fd_ready(p, n)) {
		struct thr *t = &T[me];
		t->state = T_POLL;
		t->pfds = p;
		t->npfds = n;
		t->has_deadline = ms > 0;
		t->deadline = S->now + (u64)(ms > 0 ? ms : 0) * 1000000ULL;
		sched();
		t->has_deadline = 0;
	} else if (!on()) {
		struct timespec ts = { ms / 1000, ms % 1000 * 1000000 };
		long r = RAW(SYS_ppoll, p, n, ms < 0 ? 0 : &ts, 0, 8, 0);
		if (r < 0) { errno = -r; return -1; }
		return r;
	}
	long r = RAW(SYS_ppoll, p, n, &z, 0, 8, 0);
	if (r < 0) { errno = -r; return -1; }
	return r;
}

/* ---------- sockets: TCP becomes unix stream sockets ---------- */
#define MAXFD 4096
static unsigned char is_tcp[MAXFD], is_out[MAXFD];
static unsigned short port_of[MAXFD];
static u32 conn_of[MAXFD];
static u32 n_conn;
static unsigned short next_peer = 20000;
REAL(int, socket, int, int, int)
EXPORT int socket(int d, int ty, int pr)
{
	g_socket();
	if (on() && (d == AF_INET || d == AF_INET6) && (ty & 0xf) == SOCK_STREAM) {
		int fd = r_socket(AF_UNIX, ty, 0);
		if (fd >= 0 && fd < MAXFD) is_tcp[fd] = 1;
		return fd;
	}
	int fd = r_socket(d, ty, pr);
	if (fd >= 0 && fd < MAXFD) is_tcp[fd] = 0;
	return fd;
}
REAL(int, bind, int, const struct sockaddr *, socklen_t)
EXPORT int bind(int fd, const struct sockaddr *a, socklen_t l)
{
	g_bind();
	if (on() && fd >= 0 && fd < MAXFD && is_tcp[fd]) {
		int port = 0;
		if (a->sa_family == AF_INET) port = ntohs(((struct sockaddr_in *)a)->sin_port);
		else if (a->sa_family == AF_INET6) port = ntohs(((struct sockaddr_in6 *)a)->sin6_port);
		struct sockaddr_un un = { .sun_family = AF_UNIX };
		/* The usual address has no name, so that paths stay short. */
		char at[INET6_ADDRSTRLEN + 1] = ".";
		if (a->sa_family == AF_INET && ((struct sockaddr_in *)a)->sin_addr.s_addr != htonl(INADDR_LOOPBACK)) inet_ntop(AF_INET, &((struct sockaddr_in *)a)->sin_addr, at + 1, sizeof at - 1);
		else if (a->sa_family == AF_INET6) inet_ntop(AF_INET6, &((struct sockaddr_in6 *)a)->sin6_addr, at + 1, sizeof at - 1);
		if (snprintf(un.sun_path, sizeof un.sun_path, "%.80s/tcp.%d%s", S->sockdir, port, at[1] ? at : "") >= (int)sizeof un.sun_path) die("swcsim: socket path");
		port_of[fd] = port;
		return r_bind(fd, (void *)&un, sizeof un);
	}
	return r_bind(fd, a, l);
}
REAL(int, listen, int, int)
EXPORT int listen(int fd, int n)
{
	g_listen();
	int r = r_listen(fd, n);
	if (on() && r == 0 && fd >= 0 && fd < MAXFD && is_tcp[fd]) S->listening++;
	return r;
}
static void fake_addr(struct sockaddr *a, socklen_t *l, int port)
{
	struct sockaddr_in in = { .sin_family = AF_INET, .sin_port = htons(port) };
	in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (a && l) { memcpy(a, &in, *l < sizeof in ? *l : sizeof in); *l = sizeof in; }
}
EXPORT int getsockname(int fd, struct sockaddr *a, socklen_t *l)
{
	if (on() && fd >= 0 && fd < MAXFD && is_tcp[fd]) { fake_addr(a, l, port_of[fd]); return 0; }
	long r = RAW(SYS_getsockname, fd, a, l, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	return 0;
}
EXPORT int getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
	if (on() && fd >= 0 && fd < MAXFD && is_tcp[fd]) { fake_addr(a, l, port_of[fd]); return 0; }
	long r = RAW(SYS_getpeername, fd, a, l, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	return 0;
}
EXPORT int setsockopt(int fd, int lvl, int opt, const void *v, socklen_t n)
{
	if (on() && fd >= 0 && fd < MAXFD && is_tcp[fd]) return 0;
	long r = RAW(SYS_setsockopt, fd, lvl, opt, v, n, 0);
	if (r < 0) { errno = -r; return -1; }
	return 0;
}
EXPORT int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl)
{
	int tcp = on() && fd >= 0 && fd < MAXFD && is_tcp[fd];
	long r = tcp ? RAW(SYS_accept4, fd, 0, 0, fl, 0, 0) : RAW(SYS_accept4, fd, a, l, fl, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	if (tcp && r < MAXFD) {
		is_tcp[r] = 1;
		conn_of[r] = ++n_conn;
		port_of[r] = next_peer++;
		fake_addr(a, l, port_of[r]);
	}
	return r;
}
static void served(int fd, long n)
{
	if (n > 0 && on() && fd >= 0 && fd < MAXFD && is_tcp[fd] && conn_of[fd]) T[me].conn = conn_of[fd];
}
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl)
{
	long r = RAW(SYS_recvfrom, fd, b, n, fl, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	served(fd, r);
	return r;
}
EXPORT ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
	long r = RAW(SYS_recvfrom, fd, b, n, fl, a, l);
	if (r < 0) { errno = -r; return -1; }
	served(fd, r);
	return r;
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c)
{
	long r = RAW(SYS_readv, fd, v, c, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	served(fd, r);
	return r;
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }

/* ---------- files ---------- */
struct fio { unsigned char on; unsigned char eintr_due; u64 chunk, fail_at, off, nread; int err; u32 eintr; };
static struct fio F[MAXFD];
/* Removes empty and "." components. */
static void tidy(char *s)
{
	char *o = s;
	const char *i = s;
	while (*i) {
		const char *e;
		while (*i == '/') i++;
		if (!*i) break;
		for (e = i; *e && *e != '/'; e++);
		size_t l = e - i;
		if (l == 1 && i[0] == '.') { i = e; continue; }
		*o++ = '/';
		memmove(o, i, l);
		o += l;
		i = e;
	}
	if (o == s) *o++ = '/';
	*o = 0;
}
static void absolute(char *out, size_t n, int dfd, const char *p)
{
	if (p[0] == '/') { snprintf(out, n, "%s", p); tidy(out); return; }
	char c[2048];
	if (dfd == AT_FDCWD) { if (!getcwd(c, sizeof c)) c[0] = 0; }
	else {
		char l[64];
		snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
		ssize_t k = readlink(l, c, sizeof c - 1);
		c[k > 0 ? k : 0] = 0;
	}
	snprintf(out, n, "%s/%s", c, p);
	tidy(out);
}
static int watched(const char *abs)
{
	size_t l = strlen(S->watch);
	return l && !strncmp(abs, S->watch, l) && (abs[l] == '/' || !abs[l]);
}
static int do_open(int dfd, const char *path, int flags, mode_t mode)
{
	struct reply r = { 0 };
	int w = 0;
	if (on()) {
		char abs[4096];
		absolute(abs, sizeof abs, dfd, path);
		w = watched(abs);
		if (w) point();
		r = rpc(M_OPEN, flags, w, abs, strlen(abs));
		if (r.code > 0) { errno = r.code; return -1; }
	}
	long fd = RAW(SYS_openat, dfd, path, flags, mode, 0, 0);
	if (fd < 0) { errno = -fd; return -1; }
	if (fd < MAXFD) {
		is_tcp[fd] = 0;
		is_out[fd] = !strcmp(path, "/dev/stdout") || !strcmp(path, "/dev/fd/1") || !strcmp(path, "/proc/self/fd/1");
		memset(&F[fd], 0, sizeof F[fd]);
		if (w) {
			F[fd].on = 1;
			F[fd].chunk = r.a;
			F[fd].fail_at = r.b;
			F[fd].err = r.c;
			F[fd].eintr = r.d;
		}
	}
	return fd;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
EXPORT int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
EXPORT int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
EXPORT int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl | O_LARGEFILE, m); }
EXPORT ssize_t read(int fd, void *buf, size_t n)
{
	if (on() && fd >= 0 && fd < MAXFD && F[fd].on) {
		struct fio *f = &F[fd];
		f->nread++;
		if (f->eintr && f->nread % f->eintr == 0 && !f->eintr_due) { f->eintr_due = 1; errno = EINTR; return -1; }
		f->eintr_due = 0;
		if (f->fail_at && f->off + 1 >= f->fail_at) { errno = f->err; return -1; }
		if (f->chunk && n > f->chunk) n = f->chunk;
		if (f->fail_at && n > f->fail_at - 1 - f->off) n = f->fail_at - 1 - f->off;
		long r = RAW(SYS_read, fd, buf, n, 0, 0, 0);
		if (r < 0) { errno = -r; return -1; }
		f->off += r;
		return r;
	}
	long r = RAW(SYS_read, fd, buf, n, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	served(fd, r);
	return r;
}
EXPORT int close(int fd)
{
	int w = fd >= 0 && fd < MAXFD && F[fd].on;
	if (fd >= 0 && fd < MAXFD) { is_tcp[fd] = 0; is_out[fd] = 0; conn_of[fd] = 0; F[fd].on = 0; }
	long r = RAW(SYS_close, fd, 0, 0, 0, 0, 0);
	if (w && on()) rpc(M_READEND, fd, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	return 0;
}
static long fcntl_(int fd, int cmd, unsigned long arg)
{
	long r = RAW(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	/* a copy of standard output is standard output */
	if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r < MAXFD && fd > 0 && fd < MAXFD) { is_tcp[r] = 0; F[r].on = 0; is_out[r] = fd == 1 || is_out[fd]; }
	return r;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list l; va_start(l, cmd); unsigned long a = va_arg(l, unsigned long); va_end(l); return fcntl_(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list l; va_start(l, cmd); unsigned long a = va_arg(l, unsigned long); va_end(l); return fcntl_(fd, cmd, a); }
EXPORT int dup(int fd) { return fcntl_(fd, F_DUPFD, 0); }
static ssize_t stdout_write(const void *buf, size_t n)
{
	struct reply r = rpc(M_WRITE, n, 0, 0, 0);
	if (r.code > 0) { errno = r.code; return -1; }
	if (r.a < n) n = r.a;
	size_t done = 0;
	while (done < n) {
		long k = RAW(SYS_write, 1, (char *)buf + done, n - done, 0, 0, 0);
		if (k <= 0) die("swcsim: stdout");
		done += k;
	}
	return n;
}
EXPORT ssize_t write(int fd, const void *buf, size_t n)
{
	if ((fd == 1 || (fd > 0 && fd < MAXFD && is_out[fd])) && on() && S->watch_stdout) return stdout_write(buf, n);
	long r = RAW(SYS_write, fd, buf, n, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	return r;
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c)
{
	if ((fd == 1 || (fd > 0 && fd < MAXFD && is_out[fd])) && on() && S->watch_stdout) {
		for (int i = 0; i < c; i++) if (v[i].iov_len) return stdout_write(v[i].iov_base, v[i].iov_len);
		return 0;
	}
	long r = RAW(SYS_writev, fd, v, c, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	return r;
}

/* directories: read completely at opendir, then served in the order the orchestrator chose */
#define MAXDIR 64
struct sdir { DIR *d; struct dirent64 *e; int n, i, fail; int err; };
static struct sdir D[MAXDIR];
REAL(DIR *, opendir, const char *)
REAL(int, closedir, DIR *)
REAL(struct dirent64 *, readdir64, DIR *)
EXPORT DIR *opendir(const char *p)
{
	g_opendir(); g_readdir64();
	char abs[4096];
	if (!on()) return r_opendir(p);
	absolute(abs, sizeof abs, AT_FDCWD, p);
	int w = watched(abs);
	if (w) point();
	struct reply r = rpc(M_OPENDIR, w, 0, abs, strlen(abs));
	if (r.code > 0) { errno = r.code; return 0; }
	active = 0;
	DIR *d = r_opendir(p);
	int e = errno;
	if (d && w) {
		int k;
		for (k = 0; k < MAXDIR && D[k].d; k++);
		if (k == MAXDIR) die("swcsim: too many directories");
		struct sdir *s = &D[k];
		int cap = 16;
		s->d = d; s->n = s->i = 0;
		s->e = malloc(cap * sizeof *s->e);
		struct dirent64 *x;
		while ((x = r_readdir64(d))) {
			if (s->n == cap) s->e = realloc(s->e, (cap *= 2) * sizeof *s->e);
			memset(&s->e[s->n], 0, sizeof *s->e);
			memcpy(&s->e[s->n], x, offsetof(struct dirent64, d_name));
			snprintf(s->e[s->n].d_name, sizeof s->e->d_name, "%s", x->d_name);
			s->n++;
		}
		/* a fixed order first: the kernel's order is not ours to decide */
		for (int i = 1; i < s->n; i++)
			for (int j = i; j > 0 && strcmp(s->e[j].d_name, s->e[j - 1].d_name) < 0; j--) { struct dirent64 t = s->e[j]; s->e[j] = s->e[j - 1]; s->e[j - 1] = t; }
		if (r.a) {
			u64 seed = r.a;
			for (int i = s->n - 1; i > 0; i--) { int j = mix(&seed) % (i + 1); struct dirent64 t = s->e[j]; s->e[j] = s->e[i]; s->e[i] = t; }
		}
		s->fail = r.b ? (int)((r.b - 1) % (s->n + 1)) : -1;
		s->err = r.c;
	}
	active = 1;
	errno = e;
	return d;
}
static struct sdir *sd(DIR *d) { for (int k = 0; k < MAXDIR; k++) if (D[k].d == d) return &D[k]; return 0; }
EXPORT struct dirent64 *readdir64(DIR *d)
{
	g_readdir64();
	struct sdir *s = sd(d);
	if (!s) return r_readdir64(d);
	if (s->fail >= 0 && s->i == s->fail) { s->fail = -1; s->i = s->n; errno = s->err; return 0; }
	if (s->i == s->n) return 0;
	return &s->e[s->i++];
}
EXPORT int closedir(DIR *d)
{
	g_closedir();
	struct sdir *s = sd(d);
	if (s) { free(s->e); memset(s, 0, sizeof *s); }
	int a = active;
	active = 0;
	int r = r_closedir(d);
	active = a;
	if (s && on()) rpc(M_READEND, 0, 1, 0, 0);
	return r;
}

/* ---------- time stamps of files ---------- */
/* Files carry the real time of their last change. What the program sees is the simulated time of the
   step that changed them. */
#define MAXTT 65536
static struct { u64 real, sim; } TT[MAXTT];
static int n_tt;
static u64 last_tick;
static u64 tick(void)
{
	struct timespec ts = { 0, 0 };
	RAW(SYS_clock_gettime, CLOCK_REALTIME_COARSE, &ts, 0, 0, 0, 0);
	return ts.tv_sec * 1000000000ULL + ts.tv_nsec;
}
static void stamp(void)
{
	u64 t;
	/* Stamps of the last step must be older than those of the next one. */
	while ((t = tick()) <= last_tick) { struct timespec ts = { 0, 300000 }; RAW(SYS_nanosleep, &ts, 0, 0, 0, 0, 0); }
	if (n_tt == MAXTT) return;
	TT[n_tt].real = t;
	TT[n_tt].sim = S->now + REAL_BASE * 1000000000ULL + S->real_skew;
	n_tt++;
}
static u64 sim_stamp(u64 t)
{
	int lo = 0, hi = n_tt;
	while (lo < hi) { int m = (lo + hi) / 2; if (TT[m].real <= t) lo = m + 1; else hi = m; }
	return lo ? TT[lo - 1].sim : (n_tt ? TT[0].sim : REAL_BASE * 1000000000ULL) - 3600 * 1000000000ULL;
}
#define CONV(sec, nsec) do { u64 v_ = sim_stamp((u64)(sec) * 1000000000ULL + (nsec)); (sec) = v_ / 1000000000ULL; (nsec) = v_ % 1000000000ULL; } while (0)
#define CONVST(b) do { CONV((b)->st_mtim.tv_sec, (b)->st_mtim.tv_nsec); CONV((b)->st_atim.tv_sec, (b)->st_atim.tv_nsec); CONV((b)->st_ctim.tv_sec, (b)->st_ctim.tv_nsec); } while (0)
/* Looking at a path may fail, like opening it. */
static int no_stat(int dfd, const char *p)
{
	if (!p || !*p || !on() || !S->watch_stat) return 0;
	char abs[4096];
	absolute(abs, sizeof abs, dfd, p);
	if (!watched(abs)) return 0;
	struct reply r = rpc(M_STAT, 0, 0, abs, strlen(abs));
	if (r.code > 0) errno = r.code;
	return r.code > 0;
}
#define STAT(name, type, params, args, dfd, path) \
	EXPORT int name params \
	{ \
		g_##name(); \
		if (no_stat(dfd, path)) return -1; \
		int r = r_##name args; \
		if (r == 0 && on()) CONVST(st); \
		return r; \
	}
REAL(int, stat, const char *, struct stat *)
REAL(int, lstat, const char *, struct stat *)
REAL(int, fstat, int, struct stat *)
REAL(int, fstatat, int, const char *, struct stat *, int)
REAL(int, stat64, const char *, struct stat64 *)
REAL(int, lstat64, const char *, struct stat64 *)
REAL(int, fstat64, int, struct stat64 *)
REAL(int, fstatat64, int, const char *, struct stat64 *, int)
REAL(int, statx, int, const char *, int, unsigned, struct statx *)
STAT(stat, struct stat, (const char *restrict p, struct stat *restrict st), (p, st), AT_FDCWD, p)
STAT(lstat, struct stat, (const char *restrict p, struct stat *restrict st), (p, st), AT_FDCWD, p)
STAT(fstat, struct stat, (int fd, struct stat *st), (fd, st), 0, 0)
STAT(fstatat, struct stat, (int fd, const char *restrict p, struct stat *restrict st, int fl), (fd, p, st, fl), fd, p)
STAT(stat64, struct stat64, (const char *restrict p, struct stat64 *restrict st), (p, st), AT_FDCWD, p)
STAT(lstat64, struct stat64, (const char *restrict p, struct stat64 *restrict st), (p, st), AT_FDCWD, p)
STAT(fstat64, struct stat64, (int fd, struct stat64 *st), (fd, st), 0, 0)
STAT(fstatat64, struct stat64, (int fd, const char *restrict p, struct stat64 *restrict st, int fl), (fd, p, st, fl), fd, p)
EXPORT int statx(int fd, const char *restrict p, int fl, unsigned mask, struct statx *restrict st)
{
	g_statx();
	if (no_stat(fd, p)) return -1;
	int r = r_statx(fd, p, fl, mask, st);
	if (r == 0 && on()) {
		CONV(st->stx_mtime.tv_sec, st->stx_mtime.tv_nsec);
		CONV(st->stx_atime.tv_sec, st->stx_atime.tv_nsec);
		CONV(st->stx_ctime.tv_sec, st->stx_ctime.tv_nsec);
		CONV(st->stx_btime.tv_sec, st->stx_btime.tv_nsec);
	}
	return r;
}

/* ---------- processes ---------- */
#define MAXFA 32
static struct { const posix_spawn_file_actions_t *fa; char cwd[2048]; } FA[MAXFA];
REAL(int, posix_spawn_file_actions_addchdir_np, posix_spawn_file_actions_t *, const char *)
EXPORT int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *fa, const char *p)
{
	g_posix_spawn_file_actions_addchdir_np();
	int k, f = -1;
	for (k = 0; k < MAXFA; k++) { if (FA[k].fa == fa) { f = k; break; } if (f < 0 && !FA[k].fa) f = k; }
	if (f >= 0) { FA[f].fa = fa; absolute(FA[f].cwd, sizeof FA[f].cwd, AT_FDCWD, p); }
	return r_posix_spawn_file_actions_addchdir_np(fa, p);
}
REAL(int, posix_spawn_file_actions_destroy, posix_spawn_file_actions_t *)
EXPORT int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *fa)
{
	g_posix_spawn_file_actions_destroy();
	for (int k = 0; k < MAXFA; k++) if (FA[k].fa == fa) FA[k].fa = 0;
	return r_posix_spawn_file_actions_destroy(fa);
}
REAL(int, posix_spawnp, pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const *, char *const *)
REAL(int, posix_spawn, pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const *, char *const *)
struct pp { int fd; ino_t ino; };
static struct pp newp[4];
static int n_newp;
static struct { pid_t pid; struct pp p[4]; int n; } CH[64];
static int n_ch;
static void wait_drained(pid_t pid)
{
	for (int k = 0; k < 64; k++) {
		if (CH[k].pid != pid || !pid) continue;
		for (;;) {
			int full = 0;
			for (int i = 0; i < CH[k].n; i++) {
				struct stat st;
				int n = 0;
				if (fstat(CH[k].p[i].fd, &st) == 0 && st.st_ino == CH[k].p[i].ino && ioctl(CH[k].p[i].fd, FIONREAD, &n) == 0 && n > 65536) full = 1;
			}
			if (!full) { CH[k].pid = 0; return; }
			sleep_ns(1000000000ULL);
		}
	}
}
REAL(pid_t, waitpid, pid_t, int *, int)
EXPORT pid_t waitpid(pid_t p, int *st, int fl)
{
	g_waitpid();
	if (on() && p > 0 && !(fl & WNOHANG)) wait_drained(p);
	return r_waitpid(p, st, fl);
}
REAL(int, waitid, idtype_t, id_t, siginfo_t *, int)
EXPORT int waitid(idtype_t t, id_t id, siginfo_t *si, int fl)
{
	g_waitid();
	if (on() && t == P_PID && !(fl & WNOHANG)) wait_drained((pid_t)id);
	return r_waitid(t, id, si, fl);
}
static int spawn_any(int p, pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const *argv, char *const *envp)
{
	g_posix_spawnp(); g_posix_spawn();
	if (!on()) return p ? r_posix_spawnp(pid, file, fa, at, argv, envp) : r_posix_spawn(pid, file, fa, at, argv, envp);
	static char pl[1 << 15];
	char cwd[2048] = "";
	for (int k = 0; k < MAXFA; k++) if (fa && FA[k].fa == fa) snprintf(cwd, sizeof cwd, "%s", FA[k].cwd);
	if (!cwd[0] && !getcwd(cwd, sizeof cwd)) cwd[0] = 0;
	/* The pipes made since the last spawn are those of this child. */
	struct pp mine[4];
	int mine_n = n_newp;
	memcpy(mine, newp, sizeof mine);
	n_newp = 0;
	point();
	size_t o = 0;
	o += snprintf(pl + o, sizeof pl - o, "%s", cwd) + 1;
	o += snprintf(pl + o, sizeof pl - o, "%s", file) + 1;
	for (char *const *a = argv; *a && o < sizeof pl; a++) o += snprintf(pl + o, sizeof pl - o, "%s", *a) + 1;
	if (o >= sizeof pl) die("swcsim: argv too long");
	struct reply r = rpc(M_SPAWN_BEGIN, 0, 0, pl, o);
	u64 id = r.a;
	if (r.b) sleep_ns(r.b); else point();
	r = rpc(M_SPAWN_EXEC, id, 0, 0, 0);
	int res = 0;
	u64 status = 0;
	u64 after = r.a;
	if (r.code > 0) res = r.code;
	else {
		static char keep[1 << 16];
		char *nargv[64], *nenv[512];
		char *const *use_argv = argv;
		char *const *use_env = envp;
		int ne = 0;
		const char *use_file = file;
		if (r.len >= 8) {
			memcpy(keep, rbuf, r.len);
			u32 n_env, n_argv;
			memcpy(&n_env, keep, 4);
			memcpy(&n_argv, keep + 4, 4);
			char *q = keep + 8;
			for (u32 i = 0; i < n_env && ne < 400; i++) { nenv[ne++] = q; q += strlen(q) + 1; }
			for (char *const *e = envp; *e && ne < 511; e++) nenv[ne++] = *e;
			nenv[ne] = 0;
			use_env = nenv;
			if (n_argv) {
				u32 i;
				for (i = 0; i < n_argv && i < 63; i++) { nargv[i] = q; q += strlen(q) + 1; }
				nargv[i] = 0;
				use_argv = nargv;
				use_file = nargv[0];
			}
		}
		stamp();
		active = 0;
		pid_t child = 0;
		res = p ? r_posix_spawnp(&child, use_file, fa, at, use_argv, use_env) : r_posix_spawn(&child, use_file, fa, at, use_argv, use_env);
		if (res == 0) {
			siginfo_t si;
			long w;
			do w = RAW(SYS_waitid, P_PID, child, &si, WEXITED | WNOWAIT, 0, 0); while (w == -EINTR);
			last_tick = tick();
			status = ((u64)(u32)si.si_code << 32) | (u32)si.si_status;
			*pid = child;
			n_ch = (n_ch + 1) % 64;
			CH[n_ch].pid = child;
			CH[n_ch].n = mine_n;
			memcpy(CH[n_ch].p, mine, sizeof mine);
		}
		active = 1;
	}
	rpc(M_SPAWN_DONE, id, status, &res, sizeof res);
	if (after) sleep_ns(after); else point();
	rpc(M_SPAWN_RET, id, 0, 0, 0);
	return res;
}
EXPORT int posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const *argv, char *const *envp)
{ return spawn_any(1, pid, f, fa, at, argv, envp); }
EXPORT int posix_spawn(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const *argv, char *const *envp)
{ return spawn_any(0, pid, f, fa, at, argv, envp); }
/* Pipes to children are drained only after the child ended, so they get room. Whoever waits for the
   child before it has read the pipes still waits forever once they exceed what a pipe really holds. */
REAL(int, pipe2, int *, int)
EXPORT int pipe2(int fds[2], int fl)
{
	g_pipe2();
	int r = r_pipe2(fds, fl);
	struct stat st;
	if (r == 0 && on() && fstat(fds[0], &st) == 0) {
		if (n_newp == 4) { memmove(newp, newp + 1, 3 * sizeof *newp); n_newp = 3; }
		newp[n_newp++] = (struct pp){fds[0], st.st_ino};
	}
	if (r == 0 && on()) { RAW(SYS_fcntl, fds[1], F_SETPIPE_SZ, 1 << 20, 0, 0, 0); for (int i = 0; i < 2; i++) if (fds[i] < MAXFD) { is_tcp[fds[i]] = 0; F[fds[i]].on = 0; } }
	return r;
}
REAL(pid_t, fork, void)
EXPORT pid_t fork(void)
{
	g_fork();
	if (on()) {
		rpc(M_EXEC_OTHER, 0, 0, "fork", 4);
		pid_t p = r_fork();
		if (p == 0) active = 0;
		return p;
	}
	return r_fork();
}

__attribute__((constructor)) static void init(void)
{
	const char *c = getenv("SWCSIM_CTL"), *s = getenv("SWCSIM_SHM");
	if (!c || !s) return;
	ctl = atoi(c);
	long fd = RAW(SYS_openat, AT_FDCWD, s, O_RDWR | O_CLOEXEC, 0, 0, 0);
	if (fd < 0) die("swcsim: shm");
	S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	RAW(SYS_close, fd, 0, 0, 0, 0, 0);
	if (S == MAP_FAILED || S->magic != SWC_MAGIC) die("swcsim: shm map");
	fcntl(ctl, F_SETFD, FD_CLOEXEC);
	unsetenv("LD_PRELOAD");
	unsetenv("SWCSIM_CTL");
	unsetenv("SWCSIM_SHM");
	rng_s = S->sched_seed;
	rng_h = S->hash_seed;
	S->now = S->start_now;
	me = 0;
	nthr = 1;
	cur = 0;
	T[0].state = T_RUN;
	T[0].tid = RAW(SYS_gettid, 0, 0, 0, 0, 0, 0);
	T[0].pt = pthread_self();
	pthread_key_create(&exit_key, thread_gone);
	S->threads = 1;
	active = 1;
	stamp();
	rpc(M_HELLO, 0, 0, 0, 0);
}
