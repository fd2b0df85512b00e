/* Runs the hardware back ends against stand-ins of the device, of the system calls and of the
 * allocation functions they use, and records what they do with them.
 *
 * Job:  H <id> <seed> <mask> <present> <action>...
 *   t:<f>:<n>:<in>:<is>:<out>:<os>:<il,il..>:<ol,ol..>:<fail>:<errno>:<wait>   f of c d C D i a
 *   x:<t>:<fail>:<errno>                                                        thread t ends
 * One JSON record per job: {"t":"H","id":..,"aix":0|1,"fault":..,"ev":[..]}
 * Compiled with -DVP_AIX for the AIX back end.  Linked with --wrap for everything below.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <threads.h>
#include <unistd.h>
#include <crypto/cryptodev.h>
#ifdef VP_AIX
#include <lib842/aix.h>
#define SETUP get_aix842_implementation
#define COMP aix842_compress
#define DECOMP aix842_decompress
#define COMPC aix842_compress_chunked
#define DECOMPC aix842_decompress_chunked
#else
#include <lib842/hw.h>
#define SETUP get_hw842_implementation
#define COMP hw842_compress
#define DECOMP hw842_decompress
#define COMPC hw842_compress_chunked
#define DECOMPC hw842_decompress_chunked
#endif

#define MAXN 32
static uint8_t *region;          /* inaccessible memory the buffers are said to be in */
#define REGION (16u << 20)
static char *ev;                 /* the record, shared with the parent */
static size_t *evlen;
#define EVMAX (8u << 20)
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int mask, present;
static uint64_t seed;
static int nextid = 1;

static __thread int me, inlib;
static __thread char failing[16];
static __thread int failerr;
static __thread struct { int n, i; } acc;
static __thread uint64_t rnd;
struct cmd;
static __thread const struct cmd *cur;

struct cmd {
	int t, n, wait, err, exit;
	char f, fail[16];
	uint64_t in, out, is, os, il[MAXN], ol[MAXN];
};

static uint64_t rand64(void)
{
	rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
	return rnd >> 20;
}

static void say(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (*evlen < EVMAX - 4096)
		*evlen += vsnprintf(ev + *evlen, EVMAX - *evlen, fmt, ap);
	va_end(ap);
}
static void begin(const char *k) { pthread_mutex_lock(&lock); say("%s{\"k\":\"%s\",\"t\":%d", *evlen ? "," : "", k, me); }
static void end(void) { say("}"); pthread_mutex_unlock(&lock); }
static void num(const char *k, uint64_t v)
{
	say("%s%s%s[%d,%d,%d,%d]", k ? ",\"" : "", k ? k : "", k ? "\":" : "", (int)(v >> 48), (int)(v >> 32 & 65535), (int)(v >> 16 & 65535), (int)(v & 65535));
}
static void nums(const char *k, const uint64_t *v, int n)
{
	say(",\"%s\":[", k);
	for (int i = 0; i < n; i++) { if (i) say(","); num(NULL, v[i]); }
	say("]");
}
static void ints(const char *k, const int *v, int n)
{
	say(",\"%s\":[", k);
	for (int i = 0; i < n; i++) say("%s%d", i ? "," : "", v[i]);
	say("]");
}
static void ints64(const char *k, int v) { say(",\"%s\":%d", k, v); }

/* whether this step is to fail now */
static int fails(const char *what)
{
	if (strcmp(failing, what))
		return 0;
	failing[0] = 0;
	begin("fail"); say(",\"what\":\"%s\",\"e\":%d", what, failerr); end();
	errno = failerr;
	return 1;
}

/* ---- what the code under test calls ---- */
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
static pthread_mutex_t heldlock = PTHREAD_MUTEX_INITIALIZER;
static void *held[4096];
static void *noted(void *p)
{
	pthread_mutex_lock(&heldlock);
	for (int i = 0; i < 4096; i++) if (!held[i]) { held[i] = p; break; }
	pthread_mutex_unlock(&heldlock);
	begin("alloc"); end();
	return p;
}
void *__wrap_malloc(size_t n)
{
	if (!inlib) return __real_malloc(n);
	failerr = strcmp(failing, "alloc") ? failerr : ENOMEM;
	if (fails("alloc")) return NULL;
	void *p = __real_malloc(n);
	memset(p, 0xa5, n);
	return noted(p);
}
void *__wrap_calloc(size_t a, size_t b)
{
	if (!inlib) return __real_calloc(a, b);
	failerr = strcmp(failing, "alloc") ? failerr : ENOMEM;
	if (fails("alloc")) return NULL;
	return noted(__real_calloc(a, b));
}
void __wrap_free(void *p)
{
	int mine = 0;
	if (p) {
		pthread_mutex_lock(&heldlock);
		for (int i = 0; i < 4096; i++) if (held[i] == p) { held[i] = NULL; mine = 1; break; }
		pthread_mutex_unlock(&heldlock);
	}
	if (mine) { begin("free"); end(); memset(p, 0x5a, 8); }
	__real_free(p);
}

/* Messages: nobody may be there to take them, which printing reports in errno like any other failure */
static int unheard(void) { errno = EPIPE; return -1; }
int __real_puts(const char *); int __real_fputs(const char *, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __wrap_fprintf(FILE *f, const char *fmt, ...)
{
	if (inlib) return unheard();
	va_list ap;
	va_start(ap, fmt);
	int r = vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}
int __wrap___fprintf_chk(FILE *f, int flag, const char *fmt, ...)
{
	if (inlib) return unheard();
	va_list ap;
	va_start(ap, fmt);
	int r = vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}
int __wrap_printf(const char *fmt, ...)
{
	if (inlib) return unheard();
	va_list ap;
	va_start(ap, fmt);
	int r = vprintf(fmt, ap);
	va_end(ap);
	return r;
}
int __wrap___printf_chk(int flag, const char *fmt, ...)
{
	if (inlib) return unheard();
	va_list ap;
	va_start(ap, fmt);
	int r = vprintf(fmt, ap);
	va_end(ap);
	return r;
}
int __wrap_fputs(const char *s, FILE *f) { return inlib ? unheard() : __real_fputs(s, f); }
int __wrap_puts(const char *s) { return inlib ? unheard() : __real_puts(s); }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { return inlib ? (unheard(), 0) : __real_fwrite(p, a, b, f); }
void __wrap_perror(const char *s) { (void)s; unheard(); }

static int nextdev = 1000;
static int vopen(const char *path)
{
	if (strcmp(path, "/dev/crypto")) { errno = ENOENT; begin("wild"); end(); return -1; }
	if (fails("open")) return -1;
	int fd = __atomic_add_fetch(&nextdev, 1, __ATOMIC_SEQ_CST);
	begin("open"); say(",\"fd\":%d", fd); end();
	return fd;
}
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...) { return inlib ? vopen(p) : __real_open(p, fl, 0600); }
int __wrap_open64(const char *p, int fl, ...) { return inlib ? vopen(p) : __real_open(p, fl, 0600); }
int __wrap_openat(int d, const char *p, int fl, ...) { return vopen(p); }
static int vfcntl(int fd)
{
	if (fails("setfd")) return -1;
	begin("setfd"); say(",\"fd\":%d", fd); end();
	return 0;
}
int __wrap_fcntl(int fd, int c, ...) { return vfcntl(fd); }
int __wrap_fcntl64(int fd, int c, ...) { return vfcntl(fd); }
int __real_close(int);
int __wrap_close(int fd)
{
	if (!inlib) return __real_close(fd);
	if (fails("close")) return -1;
	begin("close"); say(",\"fd\":%d", fd); end();
	return 0;
}
int __wrap_access(const char *p, int m)
{
	if (strcmp(p, "/dev/crypto") == 0 && present) return 0;
	errno = ENOENT;
	return -1;
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (req == CIOCGSESSION) {
		struct session_op *s = arg;
		if (fails("sess")) return -1;
		s->ses = (uint32_t)__atomic_add_fetch(&nextdev, 1, __ATOMIC_SEQ_CST);
		begin("sess"); say(",\"fd\":%d,\"ses\":%d,\"alg\":%d", fd, (int)s->ses,
				   s->compr == CRYPTO_842 && !s->cipher && !s->mac && !s->keylen && !s->mackeylen); end();
		return 0;
	}
	if (req == CIOCFSESSION) {
		if (fails("fses")) return -1;
		begin("fses"); say(",\"fd\":%d,\"ses\":%d", fd, (int)*(uint32_t *)arg); end();
		return 0;
	}
#ifdef CIOCGSESSINFO
	if (req == CIOCGSESSINFO) {
		struct session_info_op *s = arg;
		if (fails("info")) return -1;
		s->alignmask = (uint16_t)mask;
		s->flags = rand64() & 1;
		begin("info"); say(",\"fd\":%d,\"ses\":%d,\"mask\":%d", fd, (int)s->ses, mask); end();
		return 0;
	}
#endif
	if (req == CIOCCRYPT) {
		struct crypt_op *c = arg;
		uint64_t a[MAXN], b[MAXN], r64[MAXN];
		int n = c->numchunks < MAXN ? (int)c->numchunks : MAXN, rets[MAXN], e = 0;
		for (int i = 0; i < n; i++) { a[i] = c->chunklens[i]; b[i] = c->chunkdlens[i]; }
		if (strcmp(failing, "crypt") == 0) { e = failerr; failing[0] = 0; }
		for (int i = 0; i < n; i++) {
			if (c->chunklens[i] != UINT32_MAX && !(e && rand64() % 2)) {
				static const int outcomes[] = { 0, 0, 0, -ENOSPC, -EINVAL, -EIO };
				c->chunkrets[i] = outcomes[rand64() % 6];
				c->chunkdlens[i] = c->chunkrets[i] || !c->chunkdlens[i] ? 0 : (uint32_t)(rand64() % c->chunkdlens[i]);
			}
			rets[i] = c->chunkrets[i];
			r64[i] = c->chunkdlens[i];
		}
		begin("crypt");
		say(",\"fd\":%d,\"ses\":%d,\"op\":\"%s\",\"n\":%u,\"e\":%d", fd, (int)c->ses,
		    c->op == COP_ENCRYPT ? "enc" : c->op == COP_DECRYPT ? "dec" : "?", c->numchunks, e);
		num("len", c->len); num("dlen", c->dlen); num("src", (uint64_t)c->src); num("dst", (uint64_t)c->dst);
		nums("lens", a, n); nums("dlens", b, n); ints("rets", rets, n); nums("ols", r64, n);
		end();
		errno = e;
		return e ? -1 : 0;
	}
	begin("wild"); end();
	errno = EINVAL;
	return -1;
}
int __real_tss_create(tss_t *, tss_dtor_t); int __real_tss_set(tss_t, void *);
int __real_pthread_key_create(pthread_key_t *, void (*)(void *)); int __real_pthread_setspecific(pthread_key_t, const void *);
static int nokey(void) { failerr = strcmp(failing, "key") ? failerr : ENOMEM; return fails("key"); }
static int nokeep(void)
{
	failerr = strcmp(failing, "keep") ? failerr : ENOMEM;
	if (fails("keep")) return 1;
	begin("keep"); end();
	return 0;
}
int __wrap_tss_create(tss_t *k, tss_dtor_t d) { return inlib && nokey() ? thrd_error : __real_tss_create(k, d); }
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { return inlib && nokey() ? EAGAIN : __real_pthread_key_create(k, d); }
int __wrap_tss_set(tss_t k, void *v) { return inlib && v && nokeep() ? thrd_error : __real_tss_set(k, v); }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { return inlib && v && nokeep() ? ENOMEM : __real_pthread_setspecific(k, v); }

static int vaccel(const char *op, uint8_t *s, size_t sl, uint8_t *d, size_t *dl, int fl)
{
	static const int outcomes[] = { 0, 0, 0, -ENOSPC, -EINVAL, 7 };
	int ret = outcomes[rand64() % 6];
	size_t was = *dl;
	*dl = ret ? 0 : was ? rand64() % was : 0;
	begin("acc"); say(",\"op\":\"%s\"", op);
	num("in", (uint64_t)s); num("il", sl); num("out", (uint64_t)d); num("ol", was); num("res", *dl);
	say(",\"flags\":%d,\"ret\":%d", fl, ret);
	end();
	return ret;
}
int accel_compress(uint8_t *s, size_t sl, uint8_t *d, size_t *dl, int fl) { return vaccel("enc", s, sl, d, dl, fl); }
int accel_decompress(uint8_t *s, size_t sl, uint8_t *d, size_t *dl, int fl) { return vaccel("dec", s, sl, d, dl, fl); }

/* ---- the caller ---- */
static void perform(const struct cmd *c)
{
	strcpy(failing, c->fail);
	failerr = c->err;
	if (c->f == 'a') {
#ifndef VP_AIX
		inlib = 1;
		int r = hw842_available();
		inlib = 0;
		begin("avail"); say(",\"ret\":%d,\"is\":%d", r, present); end();
#endif
		return;
	}
	/* what the caller passes lies at the very end of accessible memory */
	uint8_t *page = mmap(NULL, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(page + 8192, 4096, PROT_NONE);
	size_t *ol = (size_t *)(page + 8192) - c->n, *il = (size_t *)(page + 4096) - c->n;
	int *rets = (int *)(page + 4096 + 1024);
	uint8_t *in = region + c->in, *out = region + c->out;
	uint64_t fin[MAXN];
	for (int i = 0; i < c->n; i++) { ol[i] = c->ol[i]; il[i] = c->il[i]; rets[i] = 1000 + i; }
	begin("call");
	say(",\"f\":\"%c\",\"n\":%d", c->f, c->n);
	num("in", (uint64_t)in); num("out", (uint64_t)out); num("is", c->is); num("os", c->os);
	nums("il", c->il, c->n); nums("ol", c->ol, c->n); ints("rets", rets, c->n);
	end();
	int ret = 0;
	const struct lib842_implementation *impl = NULL;
	inlib = 1;
	switch (c->f) {
	case 'c': ret = COMP(in, il[0], out, ol); break;
	case 'd': ret = DECOMP(in, il[0], out, ol); break;
	case 'C': ret = COMPC(c->n, rets, in, c->is, il, out, c->os, ol); break;
	case 'D': ret = DECOMPC(c->n, rets, in, c->is, il, out, c->os, ol); break;
	default: impl = SETUP(); break;
	}
	inlib = 0;
	if (impl) {
		int fns = impl->compress == COMP && impl->decompress == DECOMP && impl->compress_chunked == COMPC && impl->decompress_chunked == DECOMPC;
		begin("impl"); say(",\"req\":%d,\"pref\":%d,\"fns\":%d", (int)impl->required_alignment, (int)impl->preferred_alignment, fns); end();
	} else {
		for (int i = 0; i < c->n; i++) fin[i] = ol[i];
		begin("ret"); say(",\"ret\":%d", ret); ints("rets", rets, c->n); nums("ols", fin, c->n); end();
		for (int i = 0; i < c->n; i++) if (il[i] != c->il[i]) { begin("wild"); end(); }
	}
	munmap(page, 3 * 4096);
}

static pthread_key_t other;      /* that of another part of the program */
struct worker { pthread_t th; int id, live, has; struct cmd cmd; pthread_mutex_t mu; pthread_cond_t cv; };
static struct worker workers[8];
static void *work(void *p)
{
	struct worker *w = p;
	me = w->id;
	__real_pthread_setspecific(other, region);
	rnd = seed * 1000003 + me;
	for (;;) {
		pthread_mutex_lock(&w->mu);
		while (!w->has) pthread_cond_wait(&w->cv, &w->mu);
		struct cmd c = w->cmd;
		pthread_mutex_unlock(&w->mu);
		if (c.exit) {
			strcpy(failing, c.fail);
			failerr = c.err;
			inlib = 1;
			return NULL;
		}
		perform(&c);
		pthread_mutex_lock(&w->mu);
		w->has = 0;
		pthread_cond_broadcast(&w->cv);
		pthread_mutex_unlock(&w->mu);
	}
}
static void idle(struct worker *w)
{
	pthread_mutex_lock(&w->mu);
	while (w->has) pthread_cond_wait(&w->cv, &w->mu);
	pthread_mutex_unlock(&w->mu);
}
static void give(struct worker *w, const struct cmd *c)
{
	if (!w->live) {
		if (c->exit || nextid > 16) return;
		w->id = nextid++;
		w->live = 1;
		w->has = 0;
		pthread_mutex_init(&w->mu, NULL);
		pthread_cond_init(&w->cv, NULL);
		pthread_create(&w->th, NULL, work, w);
	}
	idle(w);
	pthread_mutex_lock(&w->mu);
	w->cmd = *c;
	w->has = 1;
	pthread_cond_broadcast(&w->cv);
	pthread_mutex_unlock(&w->mu);
	if (c->exit) {
		pthread_join(w->th, NULL);
		me = w->id;
		begin("exit"); end();
		w->live = 0;
	} else if (c->wait)
		for (int i = 0; i < 8; i++) if (workers[i].live) idle(&workers[i]);
}

static void numbers(uint64_t *v, char *s)
{
	for (int i = 0; *s && i < MAXN; i++) { v[i] = strtoull(s, &s, 10); if (*s == ',') s++; }
}
static void script(char *s)
{
	char *save;
	for (char *a = strtok_r(s, " \n", &save); a; a = strtok_r(NULL, " \n", &save)) {
		struct cmd c;
		memset(&c, 0, sizeof(c));
		char *f[16] = { 0 };
		int k = 0;
		for (char *q = a; q && k < 16; k++) { f[k] = q; q = strchr(q, ':'); if (q) *q++ = 0; }
		if (f[0][0] == 'x') {
			c.exit = 1; c.t = atoi(f[1]); strcpy(c.fail, f[2]); c.err = atoi(f[3]);
		} else {
			c.t = atoi(f[0]); c.f = f[1][0]; c.n = atoi(f[2]);
			c.in = strtoull(f[3], NULL, 10); c.is = strtoull(f[4], NULL, 10); c.out = strtoull(f[5], NULL, 10); c.os = strtoull(f[6], NULL, 10);
			numbers(c.il, f[7]); numbers(c.ol, f[8]);
			strcpy(c.fail, f[9]); c.err = atoi(f[10]); c.wait = atoi(f[11]);
		}
		give(&workers[c.t % 8], &c);
	}
	for (int i = 0; i < 8; i++) {
		struct cmd c;
		memset(&c, 0, sizeof(c));
		c.exit = 1;
		if (workers[i].live) give(&workers[i], &c);
	}
}

int main(int argc, char **argv)
{
	FILE *rec = fopen(argv[1], "a");
	int limit = argc > 2 ? atoi(argv[2]) : 60;
	static char line[1 << 20];
	region = mmap((void *)0x600000000000ull, REGION, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	ev = mmap(NULL, EVMAX + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	evlen = (size_t *)(ev + EVMAX);
	if (region == MAP_FAILED || ev == MAP_FAILED) return 3;
	while (fgets(line, sizeof(line), stdin)) {
		char id[64];
		int used = 0, st = 0;
		unsigned long long sd;
		if (sscanf(line, "H %63s %llu %d %d %n", id, &sd, &mask, &present, &used) < 4) continue;
		*evlen = 0;
		ev[0] = 0;
		fflush(rec);
		pid_t p = fork();
		if (p == 0) {
			alarm(limit < 20 ? limit : 20);
			seed = sd;
			__real_pthread_key_create(&other, NULL);
			script(line + used);
			_exit(0);
		}
		waitpid(p, &st, 0);
		/* a job that died in the middle of an event */
		int fault = st != 0;
		if (fault) { size_t n = *evlen; while (n && ev[n - 1] != '}') n--; ev[n] = 0; *evlen = n; }
		fprintf(rec, "{\"t\":\"H\",\"id\":\"%s\",\"aix\":%d,\"fault\":%d,\"ev\":[%s]}\n", id,
#ifdef VP_AIX
			1,
#else
			0,
#endif
			fault ? (WIFSIGNALED(st) ? WTERMSIG(st) : 1) : 0, ev);
		fflush(rec);
	}
	return 0;
}
