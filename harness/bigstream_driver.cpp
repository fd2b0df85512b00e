// Operations of the real streams on data of 4 GiB and more, and with many threads: real threads, real time.
// What is recorded does not depend on how the threads are scheduled, except for the order of the callbacks.
// Job lines:
//   C id threads epoch(blocks) ops...      op: <blocks>.<tail>.<failing block or ->.<cancel: blocks before it, or -; !: the stream is destroyed then>
//   B id threads rounds    a barrier         L id waiters count downs    a latch
//   D id threads ops...                    op: <cancel 0|1, 2 destroyed>:<from>-<to><kind>,...   (kind: c compressed, u not, m both and absent, x one fails)
#include <lib842/detail/barrier.h>
#include <lib842/detail/latch.h>
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "watchdog.h"
using namespace lib842::stream;
using std::string;
using std::vector;

static string recfile, jobid, job;
static char type;
static int nthreads;
static long epoch;
static vector<string> opsout;
static std::mutex mtx;                      // everything recorded
static std::condition_variable cv;
static bool written;
static const size_t SPAN = 16384;           // blocks: 16 GiB of addresses

static string S(long v) { return std::to_string(v); }
static void emit(int fault) {
	if (written) return;
	written = true;
	string s = string("{\"t\":\"") + type + "\",\"id\":\"" + jobid + "\",\"n\":" + S(nthreads) + ",\"ep\":" + S(epoch) + ",\"fault\":" + S(fault) + ",\"ops\":[";
	for (size_t i = 0; i < opsout.size(); i++) s += (i ? "," : "") + opsout[i];
	s += "],\"job\":\"" + job + "\"}\n";
	int fd = open(recfile.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (write(fd, s.data(), s.size()) < 0) {}
	close(fd);
}
static void on_signal(int sig) {
	if (written) _exit(79);
	emit(sig);
	_exit(81);
}

static uint8_t *mem(size_t blocks) {
	uint8_t *p = (uint8_t *)mmap(nullptr, blocks * BLOCK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) _exit(3);
	madvise(p, blocks * BLOCK_SIZE, MADV_NOHUGEPAGE);
	return p;
}

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
static NullBuf nullbuf;
static std::ostream nolog(&nullbuf);
static std::ostream &logger() { return nolog; }

// ---------------------------------------------------------------- the implementation of 842
// a chunk of the source is known by its address; its compressed form says which one it is
struct Put { uint64_t magic, tag, size, what; };
static const uint64_t MAGIC = 0x842842842842ULL, MUL = 0x9E3779B97F4A7C15ULL;
static uint8_t *src, *dst;
static long failing;
static vector<string> elog;                 // order of events: b<block> a call, c<block> a callback returned
static bool strays;
static std::atomic<int> calls;

static long size_of(uint64_t tag) { static const long z[] = {64, 65536 - 24, 65536 - 16, 0, 4096}; return z[(tag * 7 + tag / 16) % 5]; }
static int comp(size_t n, int *rets, const uint8_t *in, size_t istride, const size_t *ilens, uint8_t *out, size_t ostride, size_t *olens) {
	calls++;
	bool good = n == NUM_CHUNKS_PER_BLOCK && istride == CHUNK_SIZE && in >= src && in < src + SPAN * BLOCK_SIZE && (in - src) % BLOCK_SIZE == 0;
	for (size_t i = 0; good && i < n; i++) good = ilens[i] == CHUNK_SIZE;
	long b = good ? (in - src) / BLOCK_SIZE : -1;
	// the last block of an epoch takes its time
	if (epoch && b % epoch == epoch - 1) usleep(std::min(20000L, 200 * epoch));
	int ret = 0;
	if (!good) { std::lock_guard<std::mutex> l(mtx); strays = true; ret = -22; }
	else if (b == failing) ret = -5;
	else
		for (size_t i = 0; i < n; i++) {
			uint64_t tag = b * 16 + i;
			size_t z = size_of(tag);
			if (z == 0 || z > olens[i]) { rets[i] = -28; olens[i] = 0; continue; }
			Put p = {MAGIC, tag, z, 'c'};
			memcpy(out + i * ostride, &p, sizeof p);
			rets[i] = 0;
			olens[i] = z;
		}
	calls--;
	return ret;
}
static void fill(uint8_t *p, uint64_t tag) {
	uint64_t *w = (uint64_t *)p;
	for (size_t i = 0; i < CHUNK_SIZE / 8; i++) w[i] = (tag + 1) * MUL + i;
}
// the chunk found at p: its tag, -2 untouched, -1 anything else
static long chunk_at(const uint8_t *p) {
	unsigned char vec[16];
	mincore((void *)p, CHUNK_SIZE, vec);
	bool in = false;
	for (unsigned char v : vec) in |= v & 1;
	if (!in) return -2;
	const uint64_t *w = (const uint64_t *)p;
	bool zero = true;
	for (size_t i = 0; i < CHUNK_SIZE / 8; i++) zero &= w[i] == 0;
	if (zero) return -2;
	static const uint64_t INV = [] { uint64_t x = 1; for (int i = 0; i < 7; i++) x *= 2 - MUL * x; return x; }();
	uint64_t tag = w[0] * INV - 1;
	if (tag >= 1u << 30) return -1;
	for (size_t i = 0; i < CHUNK_SIZE / 8; i++)
		if (w[i] != (tag + 1) * MUL + i) return -1;
	return (long)tag;
}
static int dec(size_t n, int *rets, const uint8_t *in, size_t istride, const size_t *ilens, uint8_t *out, size_t ostride, size_t *olens) {
	calls++;
	bool good = n == NUM_CHUNKS_PER_BLOCK && ostride == CHUNK_SIZE && out >= dst && out < dst + SPAN * BLOCK_SIZE && (out - dst) % BLOCK_SIZE == 0;
	if (!good) {
		std::lock_guard<std::mutex> l(mtx);
		strays = true;
		calls--;
		return -22;
	}
	for (size_t i = 0; i < n; i++) {
		if (ilens[i] == SIZE_MAX) continue;
		Put p;
		memcpy(&p, in + i * istride, sizeof p);
		if (p.magic != MAGIC || p.size != ilens[i] || p.what != 'c' || olens[i] != CHUNK_SIZE) { rets[i] = -22; olens[i] = 0; continue; }
		fill(out + i * ostride, p.tag);
		rets[i] = 0;
	}
	calls--;
	return 0;
}

// ---------------------------------------------------------------- operations
static vector<string> split(const string &s, char c) {
	vector<string> v;
	std::stringstream ss(s);
	string x;
	while (getline(ss, x, c)) v.push_back(x);
	return v;
}
static string join(const vector<string> &v) { string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return s; }

// what a block says its chunks are, against the source: the number of its first chunk if all is well
static long first_chunk(const Block &b) {
	long first = -1;
	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
		const uint8_t *p = b.get_chunk(i);
		long c = -1;
		if (b.sizes[i] == CHUNK_SIZE) {
			if (p >= src && p < src + SPAN * BLOCK_SIZE && (p - src) % CHUNK_SIZE == 0) c = (p - src) / CHUNK_SIZE;
			if (c >= 0 && size_of(c) != 0 && size_of(c) <= (long)COMPRESSIBLE_THRESHOLD) return -1;
		} else {
			Put q;
			if (!p || b.sizes[i] < sizeof q) return -1;
			memcpy(&q, p, sizeof q);
			if (q.magic != MAGIC || q.size != b.sizes[i] || (long)q.size != size_of(q.tag)) return -1;
			c = q.tag;
		}
		if (i == 0) first = c;
		else if (c != first + (long)i) return -1;
	}
	return first;
}

static std::unique_ptr<DataCompressionStream> csp;
static std::unique_ptr<DataDecompressionStream> dsp;
static void comp_ops(const vector<string> &ops) {
	DataCompressionStream &cs = *csp;
	for (auto &o : ops) {
		auto v = split(o, '.');
		size_t nb = atol(v[0].c_str()), tail = atol(v[1].c_str());
		failing = v[2] == "-" ? -1 : atol(v[2].c_str());
		bool destroy = v[3][0] == '!';
		long cancel = v[3] == "-" ? -1 : atol(v[3].c_str() + destroy);
		vector<string> given;                   // [offset in blocks, first chunk], [-1, -1] the failed one
		long back = 0;
		int done = 0, ok = 0, early = 0;
		strays = false;
		cs.start(src, nb * BLOCK_SIZE + tail, [&](Block &&b) {
			long off = b.offset == SIZE_MAX ? -1 : b.offset % BLOCK_SIZE == 0 && b.offset / BLOCK_SIZE < SPAN ? (long)(b.offset / BLOCK_SIZE) : -2;
			long f = off >= 0 ? first_chunk(b) : -1;
			std::lock_guard<std::mutex> l(mtx);
			given.push_back("[" + S(off) + "," + S(f) + "]");
			back++;
			if (done) strays = true;
			cv.notify_all();
		});
		if (cancel >= 0) {
			std::unique_lock<std::mutex> l(mtx);
			cv.wait(l, [&] { return back >= cancel; });
		}
		if (destroy) csp.reset();
		if (destroy) done = 1, early = calls != 0;
		else cs.finalize(cancel >= 0, [&](bool r) {
			std::lock_guard<std::mutex> l(mtx);
			done++;
			ok = r;
			early = calls != 0;
			cv.notify_all();
		});
		std::unique_lock<std::mutex> l(mtx);
		cv.wait(l, [&] { return done > 0; });
		if (destroy) {                          // nothing may happen any more
			l.unlock();
			std::this_thread::sleep_for(std::chrono::milliseconds(50));
			l.lock();
		}
		opsout.push_back("{\"nb\":" + S(nb) + ",\"failing\":" + S(failing) + ",\"cancel\":" + S(destroy ? 2 : cancel >= 0) + ",\"given\":[" + join(given) + "],\"done\":" + S(done) +
				 ",\"ok\":" + S(ok) + ",\"early\":" + S(early) + ",\"strays\":" + S(strays) + "}");
	}
}

static void decomp_ops(const vector<string> &ops) {
	DataDecompressionStream &ds = *dsp;
	uint8_t *srcu = mem(256);
	size_t serial = 1;
	for (auto &o : ops) {
		bool cancel = o[0] == '1', destroy = o[0] == '2';
		dst = mem(SPAN);
		strays = false;
		int done = 0, ok = 0, early = 0;
		vector<string> pushed, found;           // [block, chunks...]
		bool refused = false, fails = false;
		size_t nu = 0;
		ds.start(dst);
		for (auto &r : split(o.substr(2), ',')) {
			long a = atol(r.c_str()), z = atol(r.c_str() + r.find('-') + 1);
			char kind = r.back();
			for (long off = a; off <= z; off++, serial++) {
				Block b;
				b.offset = (size_t)off * BLOCK_SIZE;
				b.chunk_padding = 64;
				b.source = srcu + (nu % 256) * BLOCK_SIZE;
				uint8_t *buf = kind != 'u' ? b.allocate_buffer(64, 64) : nullptr;
				string s;
				for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
					uint64_t tag = serial * 16 + i;
					char k = kind == 'm' ? "cu0cc"[(serial + i) % 5] : kind == 'x' ? 'c' : kind;
					if (kind == 'x' && i == serial % 16) k = 'x';
					if (k == 'u' && nu >= 256) k = buf ? 'c' : '0';
					if (k == '0') b.sizes[i] = 0;
					else if (k == 'u') { b.sizes[i] = CHUNK_SIZE; fill(srcu + nu * BLOCK_SIZE + i * CHUNK_SIZE, tag); }
					else {
						b.sizes[i] = 64 - 8 * (i % 3);
						Put p = {MAGIC, tag, b.sizes[i], (uint64_t)k};
						memcpy(buf + i * 64, &p, sizeof p);
						fails |= k == 'x';
					}
					s += "," + S(k == '0' ? -2 : k == 'x' ? -1 : (long)tag);
				}
				if (kind == 'u' || kind == 'm') nu++;
				pushed.push_back("[" + S(off) + s + "]");
				if (!ds.push_block(std::move(b))) refused = true;
			}
		}
		if (destroy) {
			dsp.reset();
			done = 1;
			early = calls != 0;
			std::this_thread::sleep_for(std::chrono::milliseconds(50));
		} else ds.finalize(cancel, [&](bool r) {
			std::lock_guard<std::mutex> l(mtx);
			done++;
			ok = r;
			early = calls != 0;
			cv.notify_all();
		});
		{
			std::unique_lock<std::mutex> l(mtx);
			cv.wait(l, [&] { return done > 0; });
		}
		for (size_t b = 0; b < SPAN; b++) {
			string s;
			bool any = false;
			for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
				long c = chunk_at(dst + b * BLOCK_SIZE + i * CHUNK_SIZE);
				any |= c != -2;
				s += "," + S(c);
			}
			if (any) found.push_back("[" + S(b) + s + "]");
		}
		munmap(dst, SPAN * BLOCK_SIZE);
		opsout.push_back("{\"pushed\":[" + join(pushed) + "],\"found\":[" + join(found) + "],\"cancel\":" + S(destroy ? 2 : cancel) + ",\"fails\":" + S(fails) + ",\"refused\":" + S(refused) +
				 ",\"done\":" + S(done) + ",\"ok\":" + S(ok) + ",\"early\":" + S(early) + ",\"strays\":" + S(strays) + "}");
	}
}

// every round: how many threads had arrived, at least and at most, when one left; how many left
static void barrier_rounds(int rounds) {
	lib842::detail::barrier b(nthreads);
	vector<std::atomic<int>> arrived(rounds), left(rounds), least(rounds), most(rounds);
	for (int r = 0; r < rounds; r++) arrived[r] = 0, left[r] = 0, least[r] = 1 << 30, most[r] = 0;
	vector<std::thread> v;
	for (int t = 0; t < nthreads; t++)
		v.emplace_back([&] {
			for (int r = 0; r < rounds; r++) {
				arrived[r]++;
				b.arrive_and_wait();
				int a = arrived[r], x = least[r];
				while (a < x && !least[r].compare_exchange_weak(x, a)) {}
				x = most[r];
				while (a > x && !most[r].compare_exchange_weak(x, a)) {}
				left[r]++;
			}
		});
	for (auto &t : v) t.join();
	for (int r = 0; r < rounds; r++) opsout.push_back("[" + S(least[r]) + "," + S(most[r]) + "," + S(left[r]) + "]");
}
// how many got through before the last count_down began, and in the end
static void latch_waiters(long count, long downs) {
	lib842::detail::latch l(count);
	std::atomic<long> downed(0);
	std::atomic<int> through(0), early(0);
	vector<std::thread> v;
	for (int t = 0; t < nthreads; t++)
		v.emplace_back([&] {
			l.wait();
			if (downed < count) early++;
			through++;
		});
	auto half = [&](long n) { for (long i = 0; i < n; i++) { downed++; l.count_down(); } };
	std::thread other([&] { half(downs / 2); });
	half(downs - downs / 2);
	other.join();
	if (downs >= count)
		for (auto &t : v) t.join();
	else
		std::this_thread::sleep_for(std::chrono::milliseconds(200));
	opsout.push_back("[" + S(count) + "," + S(downs) + "," + S(early) + "," + S(through) + "]");
	emit(0);
	_exit(0);
}

static void child(const string &line, int timeout) {
	std::stringstream ss(line);
	string ty, t;
	ss >> ty >> jobid >> nthreads;
	type = ty[0];
	job = line;
	if (type == 'C') ss >> epoch;
	vector<string> ops;
	while (ss >> t) ops.push_back(t);
	for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(s, on_signal);
	alarm(timeout);
	watchdog(on_signal);
	lib842_implementation im;
	im.compress_chunked = comp;
	im.decompress_chunked = dec;
	im.required_alignment = 1;
	im.preferred_alignment = 64;
	if (type == 'B') {
		barrier_rounds(atoi(ops[0].c_str()));
		emit(0);
		_exit(0);
	}
	if (type == 'L') latch_waiters(atol(ops[0].c_str()), atol(ops[1].c_str()));
	src = mem(SPAN);
	if (type == 'C') {
		csp.reset(new DataCompressionStream(im, nthreads, thread_policy::use_defaults, logger, logger));
		if (epoch) csp->set_offset_sync_epoch_multiple(epoch * BLOCK_SIZE);
		comp_ops(ops);
		csp.reset();
	} else {
		dsp.reset(new DataDecompressionStream(im, nthreads, thread_policy::use_defaults, logger, logger));
		decomp_ops(ops);
		dsp.reset();
	}
	emit(0);
	_exit(0);
}

int main(int argc, char **argv) {
	recfile = argv[1];
	int timeout = argc > 2 ? atoi(argv[2]) : 300;
	string line;
	while (getline(std::cin, line)) {
		if (line.empty()) continue;
		pid_t p = fork();
		if (p == 0) child(line, timeout);
		int st;
		waitpid(p, &st, 0);
		if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 81)) continue;
		// it could not even write a record
		std::stringstream ss(line);
		string ty;
		ss >> ty >> jobid;
		type = ty[0];
		job = line;
		opsout.clear();
		written = false;
		emit(WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : 99);
	}
	return 0;
}
