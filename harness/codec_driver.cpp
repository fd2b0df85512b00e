// Executes compression / decompression calls of the real library and records them as
// newline-delimited JSON, to be validated against spec/CodecTrace.tla.
//
// Every call gets its buffers flush against inaccessible pages and surrounded by canaries.
// A crash, abort or hang ends the process after the record of the current job has been
// written with a non-zero fault code; the orchestrator restarts it with the remaining jobs.
//
// Jobs (one per line on stdin):
//   D <id> <seed> <flags> <hex>         decompress a stream with every decoder
//   C <id> <seed> <flags> <hex>         compress data with every compressor
//   B <id> <seed> <op> <impl> <istride> <ostride> <n> {<cap>:<hex> | skip}*   batch call
//   T <id> <seed> <iters> <n> {C|D <hex>}*   the same calls from concurrent threads
// hex "-" is empty.  "@file" reads the bytes from a file.
#include <lib842/sw.h>
#include <lib842/cl.h>
#include <lib842/config.h>

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <malloc.h>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define HAVE_ASAN 1
#else
#define HAVE_ASAN 0
#endif

#include "redirect.h"

using bytes = std::vector<uint8_t>;
enum { SW = 1, OPTSW = 2, CL = 3 };
enum { F_SIGNAL = 1, F_HANG = 2, F_CANARY = 3, F_INPUT = 4, F_SIZE = 5, F_ASAN = 6 };

static FILE *report;          // where the records go
static thread_local bool asan_fault;
#if HAVE_ASAN
extern "C" void __asan_on_error() { asan_fault = true; }
#endif

// ---------------------------------------------------------------- arenas with guard pages
struct Arena {
	uint8_t *base = nullptr, *end = nullptr;
	size_t size = 0;
	void ensure(size_t n)
	{
		n = (n + 256 + 4095) & ~(size_t)4095;
		if (n <= size)
			return;
		if (base != nullptr)
			munmap(base - 4096, size + 8192);
		size = n;
		auto *m = (uint8_t *)mmap(nullptr, size + 8192, PROT_NONE,
					  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
		base = m + 4096;
		end = base + size;
		mprotect(base, size, PROT_READ | PROT_WRITE);
	}
};

// What surrounds a buffer differs from call to call: no result may depend on it
static thread_local uint32_t canary_salt = 1;
static inline uint8_t canary_at(const uint8_t *p, uint32_t salt) { return (uint8_t)((((uintptr_t)p * 37) ^ 0xA5) + salt); }
static const bytes no_tail;

// A buffer of exactly n bytes with address = a (mod 8), flush with the guard page after
// (or before) it as far as the alignment permits
struct Buf {
	Arena &ar;
	uint8_t *p;
	size_t n;
	uint8_t *lo, *hi; // canary zone around the buffer
	const bytes &tail; // what lies behind the buffer, as far as that is accessible
	uint32_t salt;
	uint8_t canary(const uint8_t *q) const
	{
		return q >= p + n && (size_t)(q - (p + n)) < tail.size() ? tail[q - (p + n)] : canary_at(q, salt);
	}
	Buf(Arena &ar, size_t n, unsigned a, bool right, const bytes &tail = no_tail) : ar(ar), n(n), tail(tail)
	{
		salt = (canary_salt = canary_salt * 1664525 + 1013904223) >> 16;
		ar.ensure(n + 64);
		if (right) {
			p = ar.end - n;
			p -= ((uintptr_t)p - a) & 7;
		} else {
			p = ar.base + (a & 7);
		}
		lo = p - ar.base > 64 ? p - 64 : ar.base;
		hi = ar.end - (p + n) > 64 ? p + n + 64 : ar.end;
		for (auto *q = lo; q < p; q++) *q = canary(q);
		for (auto *q = p + n; q < hi; q++) *q = canary(q);
#if HAVE_ASAN
		ASAN_POISON_MEMORY_REGION(ar.base, ar.size);
		ASAN_UNPOISON_MEMORY_REGION(p, n);
#endif
	}
	bool intact() const
	{
#if HAVE_ASAN
		ASAN_UNPOISON_MEMORY_REGION(ar.base, ar.size);
#endif
		for (auto *q = lo; q < p; q++) if (*q != canary(q)) return false;
		for (auto *q = p + n; q < hi; q++) if (*q != canary(q)) return false;
		return true;
	}
};
struct Arenas { Arena in, out; };

// ---------------------------------------------------------------- the calls
typedef int (*fn_t)(const uint8_t *, size_t, uint8_t *, size_t *);
static fn_t decoder(int impl)
{
	return impl == SW ? sw842_decompress : impl == OPTSW ? optsw842_decompress : cl842_decompress;
}
static fn_t encoder(int impl) { return impl == SW ? sw842_compress : optsw842_compress; }

struct Call { int impl; size_t cap; int ret; size_t olen; int idx; int fault; unsigned ia, oa; int amp; };

struct Record {
	std::string t, id;
	bytes in, tail;            // tail: behind the input, not part of it
	std::vector<bytes> outs;   // distinct outputs of successful calls
	std::vector<Call> calls;   // of kind t
	std::vector<Call> dec;     // for C records: decompressions of outs[]; impl, amp = which stream
	std::vector<bytes> decouts;
	int cost = 0;
	std::string raw;           // for B records
};
static Record *current;
static Call *current_call;
static std::string current_extra;

static void put_bytes(std::string &o, const bytes &b)
{
	o += '[';
	char tmp[8];
	for (size_t i = 0; i < b.size(); i++) {
		snprintf(tmp, sizeof tmp, i ? ",%u" : "%u", b[i]);
		o += tmp;
	}
	o += ']';
}
static long clip(size_t v) { return v > 2000000000 ? 2000000000 : (long)v; }
static void put_calls(std::string &o, const std::vector<Call> &cs)
{
	o += '[';
	bool first = true;
	for (auto &c : cs) {
		char tmp[200];
		snprintf(tmp, sizeof tmp, "%s{\"impl\":%d,\"cap\":%ld,\"ret\":%d,\"olen\":%ld,\"idx\":%d,\"fault\":%d,\"ia\":%u,\"oa\":%u,\"amp\":%d}",
			 first ? "" : ",", c.impl, clip(c.cap), c.ret, clip(c.olen), c.idx, c.fault, c.ia, c.oa, c.amp);
		o += tmp;
		first = false;
	}
	o += ']';
}
static void put_list(std::string &o, const std::vector<bytes> &l)
{
	o += '[';
	for (size_t i = 0; i < l.size(); i++) {
		if (i) o += ',';
		put_bytes(o, l[i]);
	}
	o += ']';
}
static void emit(const Record &r)
{
	std::string o = "{\"t\":\"" + r.t + "\",\"id\":\"" + r.id + "\"";
	if (r.t == "B") {
		o += r.raw;
	} else {
		o += ",\"cost\":" + std::to_string(r.cost) + ",\"in\":";
		put_bytes(o, r.in);
		o += ",\"outs\":";
		put_list(o, r.outs);
		o += ",\"calls\":";
		put_calls(o, r.calls);
		o += ",\"dec\":";
		put_calls(o, r.dec);
		o += ",\"decouts\":";
		put_list(o, r.decouts);
	}
	o += "}\n";
	fwrite(o.data(), 1, o.size(), report);
	fflush(report);
}

static std::atomic<bool> dying{false};
// Reporting may not come to an end (the heap can be locked or damaged)
static void die_soon()
{
	signal(SIGALRM, SIG_DFL);
	sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM);
	for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaddset(&m, s);
	pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
	alarm(20);
}
static void on_signal(int sig)
{
	// Not async-signal-safe, but this is a best-effort report of a process about to die
	static thread_local bool mine = false;
	if (mine) _exit(78); // a second fault while reporting the first
	if (!dying.exchange(true)) {
		mine = true;
		die_soon();
		if (current != nullptr) {
			int f = sig == SIGALRM ? F_HANG : F_SIGNAL;
			if (current->t == "B") {
				current->raw = current_extra + ",\"fault\":" + std::to_string(f);
			} else {
				Call c{1, 0, 0, 0, 0, f, 0, 0, 0};
				if (current_call != nullptr) { c = *current_call; c.fault = f; c.idx = 0; }
				current->calls.push_back(c);
			}
			emit(*current);
		}
		_exit(77);
	}
	for (;;) pause();
}

static int intern(std::vector<bytes> &l, const uint8_t *p, size_t n)
{
	for (size_t i = 0; i < l.size(); i++)
		if (l[i].size() == n && (n == 0 || memcmp(l[i].data(), p, n) == 0))
			return (int)i + 1;
	l.emplace_back(p, p + n);
	return (int)l.size();
}

// One call; the output bytes of a success are appended to outs
static Call do_call(Arenas &ar, int kind, int impl, const bytes &in, size_t cap, unsigned ia, unsigned oa,
		    bool rin, bool rout, uint8_t fill, std::vector<bytes> &outs, bool track = true, const bytes &tail = no_tail)
{
	Call c{impl, cap, 0, 0, 0, 0, ia, oa, 0};
	Buf bi(ar.in, in.size(), ia, rin, tail), bo(ar.out, cap, oa, rout);
	if (!in.empty()) memcpy(bi.p, in.data(), in.size());
	size_t nfill = cap < 65536 ? cap : 65536;
	if (nfill) memset(bo.p, fill, nfill);
	if (cap > nfill) memset(bo.p + cap - 64, fill, 64);
	size_t olen = cap;
	asan_fault = false;
	if (track) current_call = &c;
	c.ret = (kind == 'D' ? decoder(impl) : encoder(impl))(bi.p, in.size(), bo.p, &olen);
	if (track) current_call = nullptr;
	c.olen = olen;
	bool ok_in = bi.intact(), ok_out = bo.intact();
	if (asan_fault) c.fault = F_ASAN;
	else if (!ok_in || !ok_out) c.fault = F_CANARY;
	else if (!in.empty() && memcmp(bi.p, in.data(), in.size()) != 0) c.fault = F_INPUT;
	else if (c.ret == 0 && olen > cap) c.fault = F_SIZE;
	if (c.ret == 0 && !c.fault) c.idx = intern(outs, bo.p, olen);
	return c;
}

static size_t decomp_ample(size_t ilen)
{
	size_t n = ilen * 400 + 1024;
	return n < ((size_t)64 << 20) ? n : ((size_t)64 << 20);
}

// flags: 1 = include OpenCL, 2 = few calls, 4 = every capacity near the size, 8 = all alignments, 16 = many capacities,
//        32 = capacities beyond 4 GiB
static void job_D(Arenas &ar, Record &r, uint32_t seed, unsigned flags)
{
	std::mt19937 g(seed);
	auto rnd = [&](size_t n) { return n ? g() % n : 0; };
	auto add = [&](int impl, size_t cap, unsigned ia, unsigned oa) {
		uint8_t fill = flags & 256 && g() & 1 ? 0 : (uint8_t)g();
		r.calls.push_back(do_call(ar, 'D', impl, r.in, cap, ia, oa, g() & 1, g() & 1, fill, r.outs, true, r.tail));
		return r.calls.back();
	};
	size_t ample = decomp_ample(r.in.size());
	Call c0 = add(SW, ample, 0, 0);
	bool ok = c0.ret == 0 && !c0.fault;
	size_t L = ok ? c0.olen : 0;
	std::vector<size_t> caps;
	if (ok) {
		caps = {L, L + 8};
		if (L > 0) { caps.push_back(L - 1); caps.push_back(rnd(L)); }
		if (!(flags & 2)) {
			caps.push_back(L + 1 + rnd(7)); caps.push_back(L + 64); caps.push_back(0);
			if (L > 8) { caps.push_back(L - 8); caps.push_back(L - 1 - rnd(8)); caps.push_back(rnd(L)); caps.push_back(rnd(L) & ~7u); }
		}
		if (flags & 4)
			for (size_t d = 1; d <= 17 && d <= L; d++) caps.push_back(L - d);
		if (flags & 16)
			for (size_t c = 0; c < L && c < 200; c++) caps.push_back(c);
	} else {
		caps = {4096 + rnd(4096), 65536};
		if (!(flags & 2)) { caps.push_back(0); caps.push_back(rnd(64)); caps.push_back(rnd(1024)); caps.push_back(8 * rnd(64)); }
	}
	for (int impl : {SW, OPTSW}) {
		add(impl, ok ? L + rnd(2) * 8 : ample, 0, 0);
		for (size_t cap : caps) {
			add(impl, cap, 0, 0);
			if (!(flags & 2) || rnd(3) == 0) add(impl, cap, rnd(8), rnd(8));
		}
		if (flags & 8)
			for (unsigned a = 0; a < 64; a++) add(impl, L, a & 7, a >> 3);
	}
	if ((flags & 32) && ok && !HAVE_ASAN) {
		// capacities beyond 4 GiB (only the first pages are ever touched)
		static Arenas big;
		for (int impl : {SW, OPTSW})
			for (size_t cap : {((size_t)1 << 32) + 8 * rnd(2), ((size_t)1 << 32) - 8, ((size_t)1 << 31) + 8})
				r.calls.push_back(do_call(big, 'D', impl, r.in, cap, 0, 0, true, false, 0, r.outs));
	}
	if (flags & 1) {
		add(CL, ok ? L : 65536, 0, 0);
		if (!(flags & 2)) {
			add(CL, ok ? L + rnd(20) : 4096 + rnd(5000), rnd(8), rnd(8));
			if (L > 0) { add(CL, L - 1, 0, 0); add(CL, rnd(L), 0, 0); }
			else add(CL, rnd(1000), 0, 0);
		}
	}
}

// flags: 1 = round trip includes OpenCL, 2 = few calls, 4 = every capacity near the size, 8 = all alignments,
//        32 = cost accounting, 64 = no round trip, 128 = capacities beyond 4 GiB
static void job_C(Arenas &ar, Record &r, uint32_t seed, unsigned flags)
{
	std::mt19937 g(seed);
	auto rnd = [&](size_t n) { return n ? g() % n : 0; };
	if (flags & 32) r.cost = 1;
	size_t n = r.in.size(), worst = (n / 8 * 69 + 5 + 3 + 56 + 5 + 32 + 63) / 64 * 8;
	std::vector<std::pair<unsigned, unsigned>> groups = {{0, 0}};
	if (flags & 8) {
		for (unsigned a = 1; a < 64; a++) groups.push_back({a & 7, a >> 3});
	} else {
		groups.push_back({rnd(8), rnd(8)});
		if (!(flags & 2)) groups.push_back({rnd(8), 0});
	}
	for (int impl : {SW, OPTSW}) {
		for (auto [ia, oa] : groups) {
			auto add = [&](size_t cap, int amp) {
				Call c = do_call(ar, 'C', impl, r.in, cap, ia, oa, g() & 1, g() & 1, (uint8_t)g(), r.outs);
				c.amp = amp < 0 ? c.idx : amp;
				r.calls.push_back(c);
				return c;
			};
			Call c0 = add(n * 2 + 1024, -1);
			if (c0.ret != 0 || c0.fault) { add(worst, 0); add(rnd(64), 0); continue; }
			size_t S = c0.olen;
			std::vector<size_t> caps = {S, S - 1, S + 1 + rnd(8)};
			if (!(flags & 2) || (ia | oa) == 0) {
				caps.push_back(rnd(S)); caps.push_back(rnd(S)); caps.push_back(S - 8 + rnd(8)); caps.push_back(worst);
			}
			if ((flags & 4) && (ia | oa) == 0) {
				for (size_t d = 1; d <= 24 && d <= S; d++) caps.push_back(S - d);
				caps.push_back(0);
			}
			if ((flags & 16) && (ia | oa) == 0)
				for (size_t c = 0; c < S && c < 200; c++) caps.push_back(c);
			for (size_t cap : caps) add(cap, c0.idx);
			add(n * 2 + 1024, c0.idx);
			if ((flags & 128) && (ia | oa) == 0 && !HAVE_ASAN) {
				static Arenas big;
				for (size_t cap : {((size_t)1 << 32) + 8 * rnd(2), ((size_t)1 << 32) - 8, ((size_t)1 << 31) + 8}) {
					Call c = do_call(big, 'C', impl, r.in, cap, 0, 0, true, false, 0, r.outs);
					c.amp = c0.idx;
					r.calls.push_back(c);
				}
			}
		}
	}
	if (flags & 64) return;
	r.decouts.push_back(r.in);
	for (size_t s = 0; s < r.outs.size(); s++) {
		for (int impl : {SW, OPTSW, CL}) {
			if (impl == CL && !(flags & 1)) continue;
			for (int k = 0; k < (impl == CL ? 1 : 2); k++) {
				Call c = do_call(ar, 'D', impl, r.outs[s], n, k ? rnd(8) : 0, k ? rnd(8) : 0, g() & 1, g() & 1,
						 (uint8_t)g(), r.decouts);
				c.amp = (int)s + 1;
				r.dec.push_back(c);
			}
		}
	}
}

static bytes unhex(const std::string &s)
{
	if (s == "-") return {};
	if (s[0] == '@') {
		std::ifstream f(s.substr(1), std::ios::binary);
		return bytes((std::istreambuf_iterator<char>(f)), {});
	}
	bytes b(s.size() / 2);
	auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
	for (size_t i = 0; i < b.size(); i++) b[i] = v(s[2 * i]) * 16 + v(s[2 * i + 1]);
	return b;
}

// ---------------------------------------------------------------- batch calls
// One call of the multi-chunk function, and one single call per chunk with equally aligned
// buffers and the same capacity.  Only the chunks' own areas are accessible when the
// strides are large; otherwise everything else holds canaries.
static void job_B(Record &r, std::istringstream &ls)
{
	std::string op; int impl; size_t istride, ostride, n;
	uint32_t seed; ls >> seed >> op >> impl >> istride >> ostride >> n;
	std::mt19937 g(seed);
	struct Ch { bool skip; size_t cap; bytes in; };
	std::vector<Ch> ch(n);
	size_t imax = 8, omax = 8;
	for (auto &c : ch) {
		std::string s; ls >> s;
		c.skip = s == "skip";
		if (c.skip) { c.cap = ostride < 4096 ? ostride : 4096; continue; }
		auto k = s.find(':');
		c.cap = strtoull(s.c_str(), nullptr, 10);
		c.in = unhex(s.substr(k + 1));
		imax = std::max(imax, c.in.size()); omax = std::max(omax, c.cap);
	}
	auto *I = op == "C" ? (impl == SW ? get_sw842_implementation() : get_optsw842_implementation())
			    : (impl == SW ? get_sw842_implementation() : get_optsw842_implementation());
	size_t ilen = n ? istride * (n - 1) + imax : imax, olen = n ? ostride * (n - 1) + omax : omax;
	auto map = [](size_t len) {
		len = (len + 4095) & ~(size_t)4095;
		auto *m = (uint8_t *)mmap(nullptr, len + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
		return m + 4096;
	};
	auto unprot = [](uint8_t *p, size_t len) {
		auto a = (uintptr_t)p & ~(uintptr_t)4095, b = ((uintptr_t)p + len + 4095) & ~(uintptr_t)4095;
		if (b > a) mprotect((void *)a, b - a, PROT_READ | PROT_WRITE);
	};
	uint8_t *in = map(ilen), *out = map(olen);
	std::vector<size_t> ilens(n), olens(n), olens0(n);
	std::vector<int> rets(n, 12345);
	for (size_t i = 0; i < n; i++) { unprot(in + i * istride, ch[i].in.size() + 1); unprot(out + i * ostride, ch[i].cap + 1); }
	// Shadow copy of all accessible output pages
	std::map<uint8_t *, bytes> shadow;
	for (size_t i = 0; i < n; i++) {
		auto a = (uintptr_t)(out + i * ostride) & ~(uintptr_t)4095;
		auto b = ((uintptr_t)(out + i * ostride) + ch[i].cap + 1 + 4095) & ~(uintptr_t)4095;
		for (; a < b; a += 4096)
			if (!shadow.count((uint8_t *)a)) {
				for (size_t k = 0; k < 4096; k++) ((uint8_t *)a)[k] = canary_at((uint8_t *)a + k, 0);
				shadow[(uint8_t *)a] = bytes((uint8_t *)a, (uint8_t *)a + 4096);
			}
	}
	for (size_t i = 0; i < n; i++) {
		if (!ch[i].in.empty()) memcpy(in + i * istride, ch[i].in.data(), ch[i].in.size());
		ilens[i] = ch[i].skip ? SIZE_MAX : ch[i].in.size();
		olens[i] = olens0[i] = ch[i].skip ? 777 + i : ch[i].cap;
	}
	char hdr[300];
	snprintf(hdr, sizeof hdr, ",\"op\":\"%s\",\"impl\":%d,\"n\":%zu,\"istride\":\"%zu\",\"ostride\":\"%zu\"", op.c_str(), impl, n, istride, ostride);
	current_extra = hdr; current_extra += ",\"ret\":0,\"wild\":0,\"chunks\":[]";
	int ret = op == "C" ? I->compress_chunked(n, rets.data(), in, istride, ilens.data(), out, ostride, olens.data())
			    : I->decompress_chunked(n, rets.data(), in, istride, ilens.data(), out, ostride, olens.data());
	// bytes changed outside of every chunk's area
	for (size_t i = 0; i < n; i++) {
		if (ch[i].skip) continue;
		for (size_t k = 0; k < ch[i].cap; k++) {
			uint8_t *p = out + i * ostride + k;
			auto it = shadow.find((uint8_t *)((uintptr_t)p & ~(uintptr_t)4095));
			it->second[(uintptr_t)p & 4095] = *p;
		}
	}
	long wild = 0;
	for (auto &s : shadow)
		for (size_t k = 0; k < 4096; k++) wild += s.first[k] != s.second[k];
	long wildin = 0;
	std::vector<bytes> res;
	std::string cs = "[";
	for (size_t i = 0; i < n; i++) {
		if (!ch[i].skip && !ch[i].in.empty()) wildin += memcmp(in + i * istride, ch[i].in.data(), ch[i].in.size()) != 0;
		int sret = 0, sidx = 0, bidx = 0; size_t solen = 0;
		if (!ch[i].skip) {
			// the same call on its own, in buffers of equal alignment
			Arenas ar;
			std::vector<bytes> souts;
			Call c = do_call(ar, op == "C" ? 'C' : 'D', impl, ch[i].in, ch[i].cap, (uintptr_t)(in + i * istride) & 7,
					 (uintptr_t)(out + i * ostride) & 7, true, true, 0x5a, souts, false);
			sret = c.ret; solen = c.olen;
			if (c.ret == 0 && !souts.empty()) sidx = intern(res, souts[0].data(), souts[0].size());
			if (rets[i] == 0) bidx = intern(res, out + i * ostride, std::min(olens[i], ch[i].cap));
			munmap(ar.in.base - 4096, ar.in.size + 8192); munmap(ar.out.base - 4096, ar.out.size + 8192);
		}
		char tmp[300];
		snprintf(tmp, sizeof tmp, "%s{\"skip\":%d,\"cap\":%ld,\"ret\":%d,\"olen\":%ld,\"olen0\":%ld,\"idx\":%d,\"sret\":%d,\"solen\":%ld,\"sidx\":%d}",
			 i ? "," : "", ch[i].skip, clip(ch[i].cap), rets[i], clip(olens[i]), clip(olens0[i]), bidx, sret, clip(solen), sidx);
		cs += tmp;
	}
	cs += "]";
	r.raw = std::string(hdr) + ",\"ret\":" + std::to_string(ret) + ",\"wild\":" + std::to_string(wild + wildin) + ",\"fault\":0,\"chunks\":" + cs;
	munmap(in - 4096, ((ilen + 4095) & ~(size_t)4095) + 8192);
	munmap(out - 4096, ((olen + 4095) & ~(size_t)4095) + 8192);
}

// ---------------------------------------------------------------- concurrent calls
static void job_T(std::istringstream &ls, const std::string &id)
{
	uint32_t seed; int iters; size_t n;
	ls >> seed >> iters >> n;
	std::vector<Record> rs(n);
	static std::vector<Arenas> ars(64);
	for (size_t i = 0; i < n; i++) {
		std::string k, h; ls >> k >> h;
		rs[i].t = k; rs[i].in = unhex(h); rs[i].id = id + "." + std::to_string(i);
	}
	auto one = [&](size_t i, int impl, uint8_t fill, bool track) {
		Record &r = rs[i];
		size_t cap = r.t == "C" ? r.in.size() * 2 + 1024 : std::min<size_t>(decomp_ample(r.in.size()), 1 << 20);
		if (r.t == "D" && impl == CL) cap = 65536;
		Call c = do_call(ars[i], r.t[0], impl, r.in, cap, 0, 0, true, true, fill, r.outs, track);
		c.amp = c.idx;
		for (auto &o : r.calls)
			if (o.impl == c.impl && o.cap == c.cap && o.ret == c.ret && o.olen == c.olen && o.idx == c.idx && o.fault == c.fault)
				return; // same result again
		r.calls.push_back(c);
	};
	auto impls = [&](size_t i) { return rs[i].t == "C" ? std::vector<int>{SW, OPTSW} : std::vector<int>{SW, OPTSW, CL}; };
	for (size_t i = 0; i < n; i++) {
		current = &rs[i];
		for (int impl : impls(i)) if (!(HAVE_ASAN && impl == CL)) one(i, impl, 0, true);
	}
	current = &rs[0];
	std::atomic<size_t> ready{0};
	std::vector<std::thread> th;
	for (size_t i = 0; i < n; i++)
		th.emplace_back([&, i] {
			ready++;
			while (ready < n) {}
			for (int k = 0; k < iters; k++)
				for (int impl : impls(i))
					if (impl != CL || (k < 30 && !HAVE_ASAN)) one(i, impl, (uint8_t)(k * 17 + i), false);
		});
	for (auto &t : th) t.join();
	current = nullptr;
	for (auto &r : rs) emit(r);
}

int main(int argc, char **argv)
{
	// argv[1]: report file (appended).  Everything the library prints goes to stdout/stderr.
	report = fopen(argv[1], "a");
	unsigned timeout = argc > 2 ? atoi(argv[2]) : 60;
	static uint8_t altstack[1 << 16];
	stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
	sigaltstack(&ss, nullptr);
	struct sigaction sa{};
	sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
	std::set_terminate([] { abort(); });
	Arenas ar;
	std::string line;
	uint32_t nth = 0;
	while (std::getline(std::cin, line)) {
		std::istringstream ls(line);
		std::string t, id;
		ls >> t >> id;
#if !HAVE_ASAN
		mallopt(M_PERTURB, (int)(++nth * 53 % 255) + 1); // heap contents differ from call to call
#endif
		alarm(timeout);
		Record r;
		r.t = t; r.id = id;
		if (t == "D" || t == "C") {
			uint32_t seed; unsigned flags; std::string h;
			ls >> seed >> flags >> h;
			auto plus = h.find('+'); // the input + what lies behind it
			r.in = unhex(h.substr(0, plus));
			if (plus != std::string::npos) r.tail = unhex(h.substr(plus + 1));
			if (HAVE_ASAN) flags &= ~1u;
			current = &r;
			if (t == "D") job_D(ar, r, seed, flags); else job_C(ar, r, seed, flags);
			current = nullptr;
			emit(r);
		} else if (t == "B") {
			current = &r;
			job_B(r, ls);
			current = nullptr;
			emit(r);
		} else if (t == "T") {
			job_T(ls, id);
		}
		alarm(0);
	}
	_exit(0);
}
