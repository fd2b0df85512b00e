// Repeats the same calls, operations and lives of objects over and over, and records after every round what is
// held then: blocks and bytes of memory, file descriptors, threads and OpenCL objects (to be judged by Ledger.tla).
//
// Jobs (one per line on stdin); rounds are all alike
//   K <id> <rounds> <calls>          calls of the codec, separated by blanks: <impl><what><where><cap>:<hex>
//                                    cap ~n: n less than it takes; impl 1 reference, 2 optimized; what c/d compress, decompress, C/D chunked (three chunks,
//                                    the last one cut short); where -: this thread, t: a thread of its own
//   C <id> <rounds> <threads>[s] <ops> a compression stream:   n plain, e empty, i incompressible, f one block fails, c cancelled at
//   D <id> <rounds> <threads> <ops>  a decompression stream  once, k cancelled in the middle, K: blocks are kept by the user for a
//                                    while, q destroyed in the middle of the operation, Q destroyed before finalize, x construction
//                                    refused (alignment), t0..t9 a thread cannot be created. Ops after | are done in every round by
//                                    a stream that lives as long as the job
//   U <id> <rounds> <ops>            blocks of a stream, which their user allocates, moves and releases
//   O <id> <rounds> <chunk> <ops>    OpenCL: h<fmt> the host decompressor, n<fmt> a numbers of chunks beyond the buffer, b<fmt> with
//                                    bad chunks, N<fmt> with an output beyond what the device has, p<fmt> with pointers that are
//                                    refused, d<fmt> the device interface, D<fmt> with buffers that are refused, o one-shot function, O one-shot with garbage; the cache of programs: u gone, v cut short, w no program, y not readable,
//                                    Y not writable, z no space for it; x the next build of a program fails, X two
#include <lib842/sw.h>
#include <lib842/cl.h>
#include <lib842/common.h>
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <malloc.h>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "redirect.h"
#include "watchdog.h"
using namespace lib842;
using namespace lib842::stream;
using std::string;
using std::vector;

// ---------------------------------------------------------------- memory
// Every allocation is counted; with `own`, only those made by the program itself and the library that is part of it.
extern "C" char __executable_start, etext;
static std::atomic<long> blocks, bytes;
static bool own;
static const size_t SLOTS = 1 << 16;
static std::atomic<void *> slots[SLOTS];
static size_t slot_of(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 48; }
static void took(void *p, void *from)
{
	if (p == nullptr) return;
	if (own) {
		if ((char *)from < &__executable_start || (char *)from >= &etext) return;
		size_t i = slot_of(p);
		for (size_t n = 0;; n++, i = (i + 1) % SLOTS) {
			void *e = nullptr;
			if (n == SLOTS) return;
			if (slots[i].compare_exchange_strong(e, p)) break;
			e = (void *)1;
			if (slots[i].compare_exchange_strong(e, p)) break;
		}
	}
	blocks++;
	bytes += malloc_usable_size(p);
}
static void gave(void *p)
{
	if (p == nullptr) return;
	if (own) {
		size_t i = slot_of(p);
		for (size_t n = 0;; n++, i = (i + 1) % SLOTS) {
			void *e = slots[i];
			if (n == SLOTS || e == nullptr) return;
			if (e == p) { slots[i] = (void *)1; break; }
		}
	}
	blocks--;
	bytes -= malloc_usable_size(p);
}
#define FROM __builtin_return_address(0)
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); took(p, FROM); return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); took(p, FROM); return p; }
void *realloc(void *o, size_t n)
{
	gave(o);
	void *p = __libc_realloc(o, n);
	if (p == nullptr && n != 0) { took(o, FROM); return p; }
	took(p, FROM);
	return p;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); took(p, FROM); return p; }
void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); took(p, FROM); return p; }
int posix_memalign(void **r, size_t a, size_t n) { void *p = __libc_memalign(a, n); took(p, FROM); if (!p) return ENOMEM; *r = p; return 0; }
void free(void *p) { gave(p); __libc_free(p); }
}
static void *newed(size_t n, void *from) { void *p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); took(p, from); return p; }
void *operator new(size_t n) { return newed(n, FROM); }
void *operator new[](size_t n) { return newed(n, FROM); }
void *operator new(size_t n, std::align_val_t a) { void *p = __libc_memalign((size_t)a, n); if (!p) throw std::bad_alloc(); took(p, FROM); return p; }
void operator delete(void *p) noexcept { gave(p); __libc_free(p); }
void operator delete[](void *p) noexcept { gave(p); __libc_free(p); }
void operator delete(void *p, size_t) noexcept { gave(p); __libc_free(p); }
void operator delete[](void *p, size_t) noexcept { gave(p); __libc_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { gave(p); __libc_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { gave(p); __libc_free(p); }

// ---------------------------------------------------------------- threads
static int refuse_thread = -1; // how many more may be created
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
	static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
	if (refuse_thread == 0) return EAGAIN;
	if (refuse_thread > 0) refuse_thread--;
	return real(t, a, f, x);
}

// ---------------------------------------------------------------- OpenCL objects
static std::atomic<long> objects;
template <class F> static F real(F, const char *name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(n) static auto r = real(&n, #n)
extern "C" {
cl_context clCreateContext(const cl_context_properties *a, cl_uint b, const cl_device_id *c, void (CL_CALLBACK *d)(const char *, const void *, size_t, void *), void *e, cl_int *f)
{ REAL(clCreateContext); auto x = r(a, b, c, d, e, f); objects += x != nullptr; return x; }
cl_context clCreateContextFromType(const cl_context_properties *a, cl_device_type b, void (CL_CALLBACK *d)(const char *, const void *, size_t, void *), void *e, cl_int *f)
{ REAL(clCreateContextFromType); auto x = r(a, b, d, e, f); objects += x != nullptr; return x; }
cl_command_queue clCreateCommandQueue(cl_context a, cl_device_id b, cl_command_queue_properties c, cl_int *d)
{ REAL(clCreateCommandQueue); auto x = r(a, b, c, d); objects += x != nullptr; return x; }
cl_mem clCreateBuffer(cl_context a, cl_mem_flags b, size_t c, void *d, cl_int *e)
{ REAL(clCreateBuffer); auto x = r(a, b, c, d, e); objects += x != nullptr; return x; }
cl_mem clCreateSubBuffer(cl_mem a, cl_mem_flags b, cl_buffer_create_type c, const void *d, cl_int *e)
{ REAL(clCreateSubBuffer); auto x = r(a, b, c, d, e); objects += x != nullptr; return x; }
cl_program clCreateProgramWithSource(cl_context a, cl_uint b, const char **c, const size_t *d, cl_int *e)
{ REAL(clCreateProgramWithSource); auto x = r(a, b, c, d, e); objects += x != nullptr; return x; }
cl_program clCreateProgramWithBinary(cl_context a, cl_uint b, const cl_device_id *c, const size_t *d, const unsigned char **e, cl_int *f, cl_int *g)
{ REAL(clCreateProgramWithBinary); auto x = r(a, b, c, d, e, f, g); objects += x != nullptr; return x; }
cl_kernel clCreateKernel(cl_program a, const char *b, cl_int *c)
{ REAL(clCreateKernel); auto x = r(a, b, c); objects += x != nullptr; return x; }
cl_int clEnqueueNDRangeKernel(cl_command_queue a, cl_kernel b, cl_uint c, const size_t *d, const size_t *e, const size_t *f, cl_uint g, const cl_event *h, cl_event *i)
{ REAL(clEnqueueNDRangeKernel); auto x = r(a, b, c, d, e, f, g, h, i); objects += x == CL_SUCCESS && i != nullptr; return x; }
void *clEnqueueMapBuffer(cl_command_queue a, cl_mem b, cl_bool c, cl_map_flags d, size_t e, size_t f, cl_uint g, const cl_event *h, cl_event *i, cl_int *j)
{ REAL(clEnqueueMapBuffer); auto x = r(a, b, c, d, e, f, g, h, i, j); objects += x != nullptr && i != nullptr; objects += x != nullptr; return x; }
cl_int clEnqueueUnmapMemObject(cl_command_queue a, cl_mem b, void *c, cl_uint d, const cl_event *e, cl_event *f)
{ REAL(clEnqueueUnmapMemObject); auto x = r(a, b, c, d, e, f); objects += x == CL_SUCCESS && f != nullptr; objects -= x == CL_SUCCESS; return x; }
cl_int clEnqueueReadBuffer(cl_command_queue a, cl_mem b, cl_bool c, size_t d, size_t e, void *f, cl_uint g, const cl_event *h, cl_event *i)
{ REAL(clEnqueueReadBuffer); auto x = r(a, b, c, d, e, f, g, h, i); objects += x == CL_SUCCESS && i != nullptr; return x; }
cl_int clEnqueueWriteBuffer(cl_command_queue a, cl_mem b, cl_bool c, size_t d, size_t e, const void *f, cl_uint g, const cl_event *h, cl_event *i)
{ REAL(clEnqueueWriteBuffer); auto x = r(a, b, c, d, e, f, g, h, i); objects += x == CL_SUCCESS && i != nullptr; return x; }
cl_int clEnqueueFillBuffer(cl_command_queue a, cl_mem b, const void *c, size_t d, size_t e, size_t f, cl_uint g, const cl_event *h, cl_event *i)
{ REAL(clEnqueueFillBuffer); auto x = r(a, b, c, d, e, f, g, h, i); objects += x == CL_SUCCESS && i != nullptr; return x; }
cl_int clEnqueueCopyBuffer(cl_command_queue a, cl_mem b, cl_mem c, size_t d, size_t e, size_t f, cl_uint g, const cl_event *h, cl_event *i)
{ REAL(clEnqueueCopyBuffer); auto x = r(a, b, c, d, e, f, g, h, i); objects += x == CL_SUCCESS && i != nullptr; return x; }
static int refuse_build; // how many builds fail
cl_int clBuildProgram(cl_program a, cl_uint b, const cl_device_id *c, const char *d, void (CL_CALLBACK *e)(cl_program, void *), void *f)
{ REAL(clBuildProgram); if (refuse_build > 0) { refuse_build--; return CL_BUILD_PROGRAM_FAILURE; } return r(a, b, c, d, e, f); }
#define COUNTED(what, type) \
cl_int clRetain##what(type x) { REAL(clRetain##what); cl_int e = r(x); objects += e == CL_SUCCESS; return e; } \
cl_int clRelease##what(type x) { REAL(clRelease##what); cl_int e = r(x); objects -= e == CL_SUCCESS; return e; }
COUNTED(Context, cl_context)
COUNTED(CommandQueue, cl_command_queue)
COUNTED(MemObject, cl_mem)
COUNTED(Program, cl_program)
COUNTED(Kernel, cl_kernel)
COUNTED(Event, cl_event)
}

// ---------------------------------------------------------------- what is held
static long entries(const char *dir)
{
	// without allocating anything
	alignas(8) char buf[8192];
	int fd = open(dir, O_RDONLY | O_DIRECTORY);
	long n = 0, k;
	struct Entry { uint64_t ino; int64_t off; unsigned short len; char type; char name[]; };
	while ((k = getdents64(fd, buf, sizeof buf)) > 0)
		for (long i = 0; i < k; i += ((Entry *)(buf + i))->len) n += ((Entry *)(buf + i))->name[0] != '.';
	close(fd);
	return n;
}
static const int MAXROUNDS = 256;
struct Held { long v[5]; };
static Held held[MAXROUNDS + 1];
static int rounds, at;
static Held now() { return {{blocks, bytes, entries("/proc/self/fd"), entries("/proc/self/task"), objects}}; }
static void measure()
{
	Held h = now();
	// other threads may not be through with what they were doing
	auto more = [&] { for (int k = 0; k < 5; k++) if (h.v[k] > held[0].v[k]) return true; return false; };
	for (int i = 0; at > 0 && i < 50 && more(); i++) { usleep(1000); h = now(); }
	held[at++] = h;
}

// ---------------------------------------------------------------- the codec
struct Call { int impl; char what, where; size_t cap; vector<uint8_t> data; };
static string unhex(const string &s) { string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16); return r; }
static uint8_t *aligned(size_t n) { return (uint8_t *)__libc_memalign(64, n + 64); }
static void codec(std::istringstream &is)
{
	vector<Call> calls;
	for (string s; is >> s;) {
		size_t c = s.find(':');
		string d = unhex(s.substr(c + 1));
		calls.push_back({s[0] - '0', s[1], s[2], 0, vector<uint8_t>(d.begin(), d.end())});
		Call &k = calls.back();
		if (s[3] == '~') {
			size_t n = d.size(), m = 2 * n + 64, less = std::stoull(s.substr(4, c - 4));
			uint8_t *in = aligned(n), *out = aligned(m);
			memcpy(in, k.data.data(), n);
			(k.impl == 1 ? sw842_compress : optsw842_compress)(in, n, out, &m);
			__libc_free(in), __libc_free(out);
			k.cap = m < less ? 0 : m - less;
		} else {
			k.cap = std::stoull(s.substr(3, c - 3));
		}
	}
	auto one = [](const Call &c) {
		size_t n = c.data.size();
		if (c.what == 'c' || c.what == 'd') {
			uint8_t *in = aligned(n), *out = aligned(c.cap);
			memcpy(in, c.data.data(), n);
			size_t olen = c.cap;
			(c.what == 'c' ? c.impl == 1 ? sw842_compress : optsw842_compress : c.impl == 1 ? sw842_decompress : optsw842_decompress)(in, n, out, &olen);
			__libc_free(in), __libc_free(out);
			return;
		}
		uint8_t *in = aligned(3 * n), *out = aligned(3 * c.cap);
		for (int i = 0; i < 3; i++) memcpy(in + i * n, c.data.data(), n);
		size_t ilens[3] = {n, n, n / 16 * 8}, olens[3] = {c.cap, c.cap, c.cap};
		int rets[3];
		(c.what == 'C' ? c.impl == 1 ? sw842_compress_chunked : optsw842_compress_chunked : c.impl == 1 ? sw842_decompress_chunked : optsw842_decompress_chunked)
			(3, rets, in, n, ilens, out, c.cap, olens);
		__libc_free(in), __libc_free(out);
	};
	for (int k = 0; k < rounds; k++) {
		for (auto &c : calls)
			if (c.where == 't') std::thread([&] { one(c); }).join();
			else one(c);
		measure();
	}
}

// ---------------------------------------------------------------- streams
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
static NullBuf nullbuf;
static std::ostream nolog(&nullbuf);
static std::ostream &logger() { return nolog; }
static int fakecomp(size_t n, int *rets, const uint8_t *in, size_t istride, const size_t *, uint8_t *out, size_t ostride, size_t *olens)
{
	if (in[0] == 0xEE) return -EIO;
	for (size_t i = 0; i < n; i++) {
		uint8_t k = in[i * istride];
		rets[i] = k == 0xDD ? -ENOSPC : 0;
		olens[i] = k == 0xDD ? 0 : k == 0xDC ? olens[i] : 64;
		memset(out + i * ostride, k, 64);
	}
	return 0;
}
static int fakedecomp(size_t n, int *rets, const uint8_t *in, size_t istride, const size_t *ilens, uint8_t *out, size_t ostride, size_t *olens)
{
	for (size_t i = 0; i < n; i++) {
		if (ilens[i] == SIZE_MAX) continue;
		if (in[i * istride] == 0xED) return -EIO;
		rets[i] = in[i * istride] == 0xEE ? -EINVAL : 0;
		olens[i] = CHUNK_SIZE;
		memset(out + i * ostride, in[i * istride], 8);
	}
	return 0;
}
static lib842_implementation fake = {nullptr, nullptr, fakecomp, fakedecomp, 8, 64};
static lib842_implementation misaligned = {nullptr, nullptr, fakecomp, fakedecomp, 3 * CHUNK_SIZE, 64};
static const int NB = 6;
static uint8_t *area; // NB blocks
static std::mutex mtx;
static std::condition_variable cv;

static void operate(DataCompressionStream &s, char op)
{
	memset(area, 0, NB * BLOCK_SIZE);
	for (int b = 0; b < NB; b++)
		for (unsigned i = 0; i < NUM_CHUNKS_PER_BLOCK; i++)
			area[b * BLOCK_SIZE + i * CHUNK_SIZE] = op == 'i' ? 0xDD : b == 3 && i % 2 ? 0xDC : b == 4 ? 0xDD : 1 + i;
	if (op == 'f') area[2 * BLOCK_SIZE] = 0xEE;
	vector<Block> kept;
	int seen = 0;
	bool done = false;
	s.start(area, op == 'e' ? 100 : NB * BLOCK_SIZE - (op == 'n' ? 8 : 0), [&](Block &&b) {
		std::lock_guard<std::mutex> l(mtx);
		seen++;
		cv.notify_all();
		Block mine = std::move(b);
		if (op == 'K') kept.push_back(std::move(mine));
	});
	if (op == 'k') {
		std::unique_lock<std::mutex> l(mtx);
		cv.wait(l, [&] { return seen > 1; });
	}
	auto end = std::make_shared<int>(0); // part of what the stream holds
	s.finalize(op == 'c' || op == 'k', [&, end](bool) { std::lock_guard<std::mutex> l(mtx); done = true; cv.notify_all(); });
	std::unique_lock<std::mutex> l(mtx);
	cv.wait(l, [&] { return done; });
}
static Block block(int b, char op, vector<uint8_t> &raw)
{
	Block x;
	x.offset = b * BLOCK_SIZE;
	x.source = raw.data();
	x.chunk_padding = 64;
	uint8_t *p = x.allocate_buffer(64, 64);
	memset(p, 5, 64 * NUM_CHUNKS_PER_BLOCK);
	for (unsigned i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) x.sizes[i] = op == 'i' ? CHUNK_SIZE : b == 3 && i % 3 == 0 ? 0 : b == 4 && i % 2 ? CHUNK_SIZE : 64;
	if (op == 'f' && b == 2) p[64] = 0xEE;
	if (op == 'F' && b == 2) p[64] = 0xED;
	return x;
}
static void operate(DataDecompressionStream &s, char op)
{
	static vector<uint8_t> raw(BLOCK_SIZE, 7);
	bool done = false;
	s.start(area);
	for (int b = 0; b < NB * (op == 'c' || op == 'k' ? 3 : 1); b++)
		if (op != 'e') s.push_block(block(b % NB, op, raw));
	auto end = std::make_shared<int>(0);
	s.finalize(op == 'c' || op == 'k', [&, end](bool) { std::lock_guard<std::mutex> l(mtx); done = true; cv.notify_all(); });
	std::unique_lock<std::mutex> l(mtx);
	cv.wait(l, [&] { return done; });
}
// destroyed in the middle: callbacks must not refer to the frame that is gone
static void leave(DataCompressionStream &s, char op)
{
	struct State { int seen = 0; };
	auto st = std::make_shared<State>();
	memset(area, 0, NB * BLOCK_SIZE);
	s.start(area, NB * BLOCK_SIZE, [st](Block &&b) {
		Block mine = std::move(b);
		std::lock_guard<std::mutex> l(mtx);
		st->seen++;
		cv.notify_all();
	});
	{
		std::unique_lock<std::mutex> l(mtx);
		cv.wait(l, [&] { return st->seen > 0; });
	}
	if (op == 'q') s.finalize(false, [st](bool) {});
}
static void leave(DataDecompressionStream &s, char op)
{
	static vector<uint8_t> raw(BLOCK_SIZE, 7);
	s.start(area);
	for (int b = 0; b < NB * 3; b++) s.push_block(block(b % NB, b % 4 ? 'n' : 'i', raw));
	if (op == 'q') { auto st = std::make_shared<int>(0); s.finalize(false, [st](bool) {}); }
}
template <class S> static void streams(std::istringstream &is)
{
	unsigned n; string ops, first, all;
	is >> n;
	thread_policy policy = thread_policy::use_defaults;
	if (is.peek() == 's') { is.get(); policy = thread_policy::spread_threads_among_numa_nodes; }
	is >> all;
	size_t bar = all.find('|');
	first = all.substr(0, bar);
	string lasting = bar == string::npos ? "" : all.substr(bar + 1);
	area = (uint8_t *)__libc_memalign(4096, NB * BLOCK_SIZE);
	std::unique_ptr<S> long_lived;
	if (!lasting.empty()) long_lived.reset(new S(fake, n, policy, logger, logger));
	for (int k = 0; k < rounds; k++) {
		if (!first.empty() && (first[0] == 'x' || first[0] == 't')) {
			if (first[0] == 't') refuse_thread = first[1] - '0';
			try {
				S s(first[0] == 'x' ? misaligned : fake, n, policy, logger, logger);
			} catch (const std::exception &) {
			}
			refuse_thread = -1;
		} else if (!first.empty()) {
			S s(fake, n, policy, logger, logger);
			s.wait_until_ready();
			for (char op : first) {
				if (op == 'q' || op == 'Q') { leave(s, op); break; }
				operate(s, op);
			}
		}
		for (char op : lasting) operate(*long_lived, op);
		measure();
	}
}

// ---------------------------------------------------------------- blocks, in the hands of a user
static void blocklife(std::istringstream &is)
{
	string ops;
	is >> ops;
	for (int k = 0; k < rounds; k++) {
		{
			vector<Block> v;
			Block a, b;
			for (size_t i = 0; i < ops.size(); i++) {
				switch (ops[i]) {
				case 'a': if (a.get_chunk_buffer() == nullptr) memset(a.allocate_buffer(64, 64 + 64 * (i % 5)), 1, 64); break;
				case 'b': if (b.get_chunk_buffer() == nullptr) memset(b.allocate_buffer(8, 8 + 8 * (i % 5)), 1, 8); break;
				case 'r': a.release_buffer(); break;
				case 'm': a = std::move(b); break;
				case 'M': b = std::move(a); break;
				case 'c': { Block c(std::move(a)); b = std::move(c); break; }
				case 'd': { Block c(std::move(a)); break; }
				case 's': std::swap(a, b); break;
				case 'p': v.push_back(std::move(a)); break;
				case 'e': if (!v.empty()) v.erase(v.begin()); break;
				}
			}
		}
		measure();
	}
}

// ---------------------------------------------------------------- OpenCL
static void opencl(std::istringstream &is)
{
	size_t chunk; string ops;
	is >> chunk >> ops;
	typedef CLDecompressorInputFormat F;
	vector<uint8_t> d(chunk);
	for (size_t i = 0; i < chunk; i++) d[i] = i % 24;
	vector<uint8_t> c(2 * chunk + 64);
	size_t cl = c.size();
	{
		uint8_t *in = aligned(chunk), *out = aligned(cl);
		memcpy(in, d.data(), chunk);
		optsw842_compress(in, chunk, out, &cl);
		memcpy(c.data(), out, cl);
		__libc_free(in), __libc_free(out);
	}
	own = true;
	blocks = 0, bytes = 0, objects = 0;
	string cache = redirect::scratch_path("/tmp/cl842_cache.bin");
	auto round = [&] {
		redirect::deny_read = redirect::deny_write = false;
		redirect::write_budget = -1;
		refuse_build = 0;
		for (size_t o = 0; o < ops.size(); o++) {
			char op = ops[o];
			// the cache of programs: no longer there, cut short, with a binary that is none, not readable, not writable, no space
			if (strchr("uvwyYzxX", op)) {
				struct stat st;
				int fd = open(cache.c_str(), O_RDWR);
				if (op == 'u') unlink(cache.c_str());
				if (fd >= 0 && fstat(fd, &st) == 0) {
					if (op == 'v' && ftruncate(fd, st.st_size - 9)) {}
					if (op == 'w') {
						char head[512];
						ssize_t n = pread(fd, head, sizeof head, 0);
						void *m = n > 0 ? memmem(head, n, "poclbin", 7) : nullptr;
						if (m != nullptr && pwrite(fd, "???????", 7, (char *)m - head) < 0) {}
					}
				}
				if (fd >= 0) close(fd);
				redirect::deny_read |= op == 'y';
				redirect::deny_write |= op == 'Y';
				if (op == 'x' || op == 'X') refuse_build = op == 'x' ? 1 : 2;
				if (op == 'z') redirect::write_budget = 300;
				continue;
			}
			if (op == 'o' || op == 'O') {
				vector<uint8_t> out(65536), in(c.begin(), c.begin() + cl);
				if (op == 'O') in[0] ^= 0xff, in[9] ^= 0x55;
				size_t olen = out.size();
				cl842_decompress(in.data(), in.size(), out.data(), &olen);
				continue;
			}
			F fmt = (F)(ops[++o] - '0');
			size_t stride = fmt == F::ALWAYS_COMPRESSED_CHUNKS ? 2 * chunk : chunk, n = 5;
			vector<uint8_t> in(n * stride), out(n * chunk);
			vector<size_t> il(n, cl), ol(n, chunk);
			vector<int> rets(n);
			for (size_t i = 0; i < n; i++) {
				uint8_t *p = &in[i * stride];
				if (fmt == F::ALWAYS_COMPRESSED_CHUNKS) memcpy(p, c.data(), cl);
				else if (i % 2 == 0) {
					memcpy(p, LIB842_COMPRESSED_CHUNK_MARKER, sizeof LIB842_COMPRESSED_CHUNK_MARKER);
					uint64_t z = cl;
					memcpy(p + sizeof LIB842_COMPRESSED_CHUNK_MARKER, &z, 8);
					memcpy(p + chunk - cl, c.data(), cl);
				}
				if (op == 'b' && i % 2 == 0) p[fmt == F::ALWAYS_COMPRESSED_CHUNKS ? 1 : chunk - cl + 1] ^= 0xff;
			}
			bool inplace = fmt == F::INPLACE_COMPRESSED_CHUNKS;
			uint8_t *to = inplace ? in.data() : out.data();
			size_t in_size = in.size(), to_size = inplace ? in.size() : out.size();
			long long time;
			if (op == 'n') in_size = to_size = (size_t)1 << 60;
			if (op == 'N') to_size = (size_t)1 << 41; // beyond what the device has
			if (op == 'p') to = inplace ? out.data() : in.data();
			try {
				if (op == 'd' || op == 'D') {
					cl::vector<cl::Device> devs{cl::Device::getDefault()};
					cl::Context ctx(devs);
					cl::CommandQueue q(ctx, devs[0]);
					CLDeviceDecompressor dec(ctx, devs, chunk, stride, fmt, logger, logger);
					cl::Buffer ib(ctx, CL_MEM_READ_WRITE, in_size + 64), ob = inplace && op == 'd' ? ib : cl::Buffer(ctx, CL_MEM_READ_WRITE, to_size),
						rb(ctx, CL_MEM_READ_WRITE, n * sizeof(cl_int));
					cl::Buffer isb, osb, sb;
					q.enqueueWriteBuffer(ib, true, 0, in_size, in.data());
					cl::vector<cl::Event> before(1);
					q.enqueueWriteBuffer(ob, false, 0, 1, in.data(), nullptr, &before[0]);
					cl::Event done;
					dec.decompress(q, n, ib, 0, isb, ob, op == 'D' && inplace ? 64 : 0, osb, sb, rb, &before, &done);
					done.wait();
					continue;
				}
				CLHostDecompressor dec(chunk, stride, fmt, op == 'h', op == 'h');
				for (int k = 0; k < 2; k++)
					dec.decompress(in.data(), in_size, il.data(), to, to_size, ol.data(), nullptr, rets.data(), k ? &time : nullptr);
			} catch (const std::exception &) {
			}
		}
	};
	for (int k = 0; k < rounds; k++) {
		round();
		measure();
	}
}

// ---------------------------------------------------------------- jobs
static string recfile, jobid, job;
static char type;
static void emit(int fault)
{
	string s = string("{\"t\":\"") + type + "\",\"id\":\"" + jobid + "\",\"fault\":" + std::to_string(fault) + ",\"live\":[";
	for (int i = 0; i < at; i++) {
		s += i ? ",[" : "[";
		for (int j = 0; j < 5; j++) {
			// relative to the first round, so that they are small numbers
			long v = held[i].v[j] - held[0].v[j];
			s += (j ? "," : "") + std::to_string(v > 1000000000 ? 1000000000 : v < -1000000000 ? -1000000000 : v);
		}
		s += "]";
	}
	s += "],\"job\":\"" + job.substr(0, 3000) + "\"}\n";
	int fd = open(recfile.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (write(fd, s.data(), s.size()) < 0) {}
	close(fd);
}
int main(int argc, char **argv)
{
	recfile = argv[1];
	int timeout = argc > 2 ? atoi(argv[2]) : 300;
	signal(SIGPIPE, SIG_IGN);
	while (getline(std::cin, job)) {
		if (job.empty()) continue;
		std::istringstream is(job);
		is >> type >> jobid >> rounds;
		fflush(nullptr);
		pid_t p = fork();
		if (p == 0) {
			alarm(timeout);
			watchdog([](int) { _exit(81); });
			if (!getenv("VP_VERBOSE")) { int null = open("/dev/null", O_WRONLY); dup2(null, 1); dup2(null, 2); close(null); }
			if (rounds > MAXROUNDS) _exit(3);
			if (getenv("VP_SCRATCH")) { // a cache of its own
				setenv("VP_SUBDIR", jobid.c_str(), 1);
				mkdir((string(getenv("VP_SCRATCH")) + "/" + jobid).c_str(), 0700);
			}
			if (type == 'K') codec(is);
			else if (type == 'C') streams<DataCompressionStream>(is);
			else if (type == 'D') streams<DataDecompressionStream>(is);
			else if (type == 'U') blocklife(is);
			else opencl(is);
			emit(0);
			_exit(0);
		}
		int st;
		waitpid(p, &st, 0);
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { at = 0; emit(WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : 99); }
	}
	return 0;
}
