// Runs scenarios on the real streams, barrier and latch under the controlled scheduler and records what can be
// observed: calls, callbacks, calls into the implementation of 842, and memory.
// Job lines:  C|D|P|B|L id seed policy threads epoch script...     ("%" starts a plan)
#include "fake842.h"
#include "sync_users.h"
#include "vpsched.h"
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <lib842/sw.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace lib842::stream;
using std::string;
using std::vector;

static string recfile;
static int timeout_s = 60;
static char type;
static string jobid;
static vector<string> ev, blocks, dests, opsinfo;
static int nthreads, epoch;
static bool written;
static vector<string> tok;

static const int FAULT = 81, STUCK = 82;   // exit codes of jobs which wrote their record, but did not get to the end

static string S(long v) { return std::to_string(v); }
static void event(const char *k, long a = 0, long b = 0, long c = 0) {
	ev.push_back(string("[\"") + k + "\"," + S(sched::self()) + "," + S(a) + "," + S(b) + "," + S(c) + "]");
}
static string join(const vector<string> &v) {
	string s;
	for (auto &x : v) s += (s.empty() ? "" : ",") + x;
	return s;
}
static string script_text;
static void emit(int fault) {
	if (written) return;
	written = true;
	string s = string("{\"t\":\"") + type + "\",\"id\":\"" + jobid + "\",\"n\":" + S(nthreads) + ",\"ep\":" + S(epoch) +
		   ",\"fault\":" + S(fault) + ",\"ev\":[" + join(ev) + "],\"blocks\":[" + join(blocks) + "],\"dests\":[" + join(dests) +
		   "],\"ops\":[" + join(opsinfo) + "],\"plan\":" + S(sched::plan_done()) + ",\"steps\":" + S(sched::steps()) + ",\"job\":\"" + script_text + "\"}\n";
	int fd = open(recfile.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (write(fd, s.data(), s.size()) < 0) {}
	close(fd);
}
static void on_signal(int sig) {
	if (written) _exit(79);                         // a second fault while reporting the first
	alarm(20);
	sched::end();
	emit(sig);
	_exit(FAULT);
}
static void on_stuck(const char *) {
	event("stuck");
	emit(0);
	_exit(STUCK);
}

// ---------------------------------------------------------------- source and destination memory
static const size_t NB = 12;               // blocks of source data
static uint8_t *src;
struct Op {
	int nb = 0, tail = 0, kinds = 0;
	vector<int> fails;
	int bcbs = 0;                       // block callbacks which returned
	uint8_t *dest = nullptr;            // decompression
};
static vector<Op> ops;
static Op &op() { return ops.back(); }
struct Kept { Block b; size_t off; int op; size_t bi; };
static vector<std::unique_ptr<Kept>> kept;

static int kinds_of_op;
static char kind_of(uint64_t tag) {
	if (sched::self() < 0) return 's';      // another stream than the one observed
	if (kinds_of_op == 0) return 's';
	if (kinds_of_op == 1) return "stTCe"[(tag * 7 + tag / 16) % 5];
	if (kinds_of_op == 2) return 'e';
	return "sT"[tag % 2];
}
static long expect_size(uint64_t tag) {
	char k = kind_of(tag);
	return k == 's' ? 64 : k == 't' ? 65536 - 24 : 65536;
}

static string contents(const Block &b, size_t off) {
	string s = "[" + S(off) + ",[", z = "],[", x = "],[";
	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
		long c = -1;
		uint64_t tag;
		char what;
		const uint8_t *p = b.get_chunk(i);
		if (p && b.sizes[i] == CHUNK_SIZE) {
			if (p >= src && p < src + NB * BLOCK_SIZE) { memcpy(&tag, p, 8); c = tag - 1; }
		} else if (p && b.get_chunk_buffer() && b.sizes[i] <= b.chunk_padding && fake::get(p, b.sizes[i], &tag, &what))
			c = tag;
		s += (i ? "," : "") + S(c);
		z += (i ? "," : "") + S(b.sizes[i]);
		x += (i ? "," : "") + S(expect_size(off * 16 + i));
	}
	return s + z + x + "]," + S(b.source == src + off * BLOCK_SIZE) + "]";
}

// ---------------------------------------------------------------- hooks of the implementation
static bool strange(size_t n, size_t stride, const size_t *lens, bool skips) {
	if (n != NUM_CHUNKS_PER_BLOCK || stride != CHUNK_SIZE) return true;
	for (size_t i = 0; i < n; i++)
		if (lens[i] != CHUNK_SIZE && !(skips && lens[i] == SIZE_MAX)) return true;
	return false;
}
static std::atomic<bool> other_fails;
static int h_comp_begin(const uint8_t *in, size_t n, size_t istride, size_t ostride, const size_t *ilens, const size_t *olens) {
	if (sched::self() < 0) return other_fails ? -5 : 0;
	long off = in >= src && in < src + NB * BLOCK_SIZE && (in - src) % BLOCK_SIZE == 0 ? (in - src) / BLOCK_SIZE : -1;
	if (strange(n, istride, ilens, false)) off = -1;
	sched::event_point("beg:" + S(off));
	event("beg", off);
	for (int f : op().fails)
		if (f == off) return -5;
	return 0;
}
static void h_comp_end(const uint8_t *in, int ret) {
	if (sched::self() < 0) return;
	long off = (in - src) / BLOCK_SIZE;
	sched::event_point("end:" + S(off));
	event("end", off, ret == 0);
}
static long dec_block(const uint8_t *out) {
	for (size_t k = 0; k < ops.size(); k++)
		if (ops[k].dest && out >= ops[k].dest && out < ops[k].dest + NB * BLOCK_SIZE)
			return (out - ops[k].dest) % BLOCK_SIZE == 0 && k + 1 == ops.size() ? (out - ops[k].dest) / BLOCK_SIZE : -1;
	return -1;
}
static std::map<long, int> callfails;     // block -> the whole call fails
static int h_dec_begin(const uint8_t *out, size_t n, size_t, size_t ostride, const size_t *, const size_t *olens) {
	if (sched::self() < 0) return other_fails ? -5 : 0;
	long b = dec_block(out);
	if (strange(n, ostride, olens, true)) b = -1;
	sched::event_point("beg:" + S(b));
	event("beg", b);
	return callfails.count(b) ? -5 : 0;
}
static void h_dec_end(const uint8_t *out, int ok) {
	if (sched::self() < 0) return;
	long b = dec_block(out);
	sched::event_point("end:" + S(b));
	event("end", b, ok);
}
static void h_pause() { sched::point(1); }

struct NullBuf : std::streambuf {
	int overflow(int c) override { return c; }
};
static NullBuf nullbuf;
static std::ostream logstream(&nullbuf);
static std::ostream &error_logger() { event("log"); return logstream; }
static std::ostream &debug_logger() { return logstream; }
static void exit_event(int th) { event("exit"); }

// ---------------------------------------------------------------- scripts
static DataCompressionStream *cs;
static DataDecompressionStream *ds;
static int fins, dones;
static std::map<size_t, size_t> match;     // '(' -> ')'

static void run(size_t from, size_t to);
static void other_op(char what);

static vector<long> nums(const string &s) {
	vector<long> v;
	std::stringstream ss(s);
	string x;
	while (getline(ss, x, '.')) v.push_back(x == "-" || x.empty() ? -1 : atol(x.c_str()));
	return v;
}
static vector<int> faillist(const string &s) {
	vector<int> v;
	std::stringstream ss(s);
	string x;
	while (getline(ss, x, '_')) if (x != "-") v.push_back(atoi(x.c_str()));
	return v;
}

// the memory of an operation of the decompression stream
struct DestOp { vector<int> pushed; };
static string dest_contents(int o) {
	string s;
	uint8_t *d = ops[o].dest;
	for (size_t b = 0; b < NB; b++) {
		uint8_t *p = d + b * BLOCK_SIZE;
		s += (b ? ",[" : "[");
		bool blank = fake::zero(p, BLOCK_SIZE);
		for (size_t i = 0; i < 16; i++) {
			long c;
			uint8_t *q = p + i * CHUNK_SIZE;
			if (blank) c = -2;
			else {
				uint64_t tag;
				memcpy(&tag, q, 8);
				c = tag != 0 && fake::is(q, CHUNK_SIZE, tag - 1) ? (long)tag - 1 : fake::zero(q, CHUNK_SIZE) ? -2 : -1;
			}
			s += (i ? "," : "") + S(c);
		}
		s += "]";
	}
	return "[" + s + "]";
}
static size_t dmapped;
static uint8_t *new_dest() {
	uint8_t *p = (uint8_t *)mmap(nullptr, NB * BLOCK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) _exit(3);
	return p;
}

static int curop;
static void done_common(bool ok, size_t a, size_t b) {
	sched::event_point("done:" + S(ok));
	if (type == 'D') {
		event("done", ok, dests.size() + 1, dones);
		dests.push_back(dest_contents(ops.size() - 1));
	} else
		event("done", ok, 0, dones);
	int d = ++dones;
	if (b > a) run(a, b);
	event("donee", d);
}
static int doneflag;     // completion callbacks which returned

static uint8_t *srcu;    // sources of uncompressed chunks
static void run(size_t from, size_t to) {
	for (size_t i = from; i < to; i++) {
		const string &t = tok[i];
		char k = t[0];
		string rest = t.substr(1);
		switch (k) {
		case 'R':
			if (cs) cs->wait_until_ready();
			if (ds) ds->wait_until_ready();
			event("ready");
			break;
		case 'E':     // ordering granularity, in blocks
			epoch = atoi(rest.c_str());
			cs->set_offset_sync_epoch_multiple(epoch * BLOCK_SIZE);
			break;
		case 'S': {
			ops.emplace_back();
			if (type == 'C') {
				auto v = nums(rest);
				op().nb = v[0];
				op().tail = v[1];
				op().kinds = kinds_of_op = v[2];
				op().fails = faillist(rest.substr(rest.rfind('.') + 1));
				sched::event_point("start");
				event("start", op().nb, epoch);
				int o = ops.size() - 1;
				cs->start(src, op().nb * BLOCK_SIZE + op().tail, [o](Block &&b) {
					long off = b.offset == SIZE_MAX ? -1 : (b.offset % BLOCK_SIZE == 0 && b.offset / BLOCK_SIZE < NB) ? (long)(b.offset / BLOCK_SIZE) : -2;
					sched::event_point("cb:" + S(off));
					size_t bi = 0;
					if (off >= 0) {
						bi = blocks.size() + 1;
						blocks.push_back(contents(b, off));
					}
					event("cb", off, off == -1, bi);
					if (off >= 0) {
						kept.emplace_back(new Kept());
						kept.back()->b = std::move(b);
						kept.back()->off = off;
						kept.back()->op = o;
						kept.back()->bi = bi;
					}
					sched::point(1);
					ops[o].bcbs++;
					sched::event_point("cbe:" + S(off));
					event("cbe", off);
				});
				event("starte");
			} else {
				op().dest = new_dest();
				sched::event_point("start");
				callfails.clear();
				event("start");
				ds->start(op().dest);
				event("starte");
			}
			break;
		}
		case 'P': {       // P<off>.<16 kinds>[E]
			long off = atol(rest.c_str());
			string ks = rest.substr(rest.find('.') + 1);
			Block b;
			b.offset = off * BLOCK_SIZE;
			b.chunk_padding = ks.size() > 17 ? 65536 : (off % 2 ? 4096 : 64);
			b.source = nullptr;
			bool anyc = false, anyu = false;
			for (int j = 0; j < 16; j++) anyc |= strchr("cxz", ks[j]) != nullptr, anyu |= ks[j] == 'u';
			uint8_t *buf = anyc ? b.allocate_buffer(64, b.chunk_padding) : nullptr;
			uint8_t *su = srcu + off * BLOCK_SIZE;
			if (anyu) b.source = su;
			for (int j = 0; j < 16; j++) {
				uint64_t tag = (ops.size() * 100 + off) * 16 + j;
				switch (ks[j]) {
				case '0': b.sizes[j] = 0; break;
				case 'u': b.sizes[j] = CHUNK_SIZE; fake::fill(su + j * CHUNK_SIZE, CHUNK_SIZE, tag); break;
				default:
					b.sizes[j] = b.chunk_padding == 65536 ? (j % 3 ? 65536 - 24 : 40) : 64 - 8 * (j % 4);
					fake::put(buf + j * b.chunk_padding, b.sizes[j], tag, ks[j]);
				}
			}
			if (ks.find('E') != string::npos) callfails[off] = 1;
			size_t bi = blocks.size() + 1;
			string s;
			for (int j = 0; j < 16; j++) {
				char c = ks[j];
				s += (j ? "," : "") + S(c == '0' ? -2 : c == 'u' || c == 'c' ? (long)((ops.size() * 100 + off) * 16 + j) : -1);
			}
			blocks.push_back("[" + S(off) + ",[" + s + "]]");
			sched::event_point("push:" + S(off));
			event("push", off, bi);
			bool ok = ds->push_block(std::move(b));
			event("pushe", off, ok);
			break;
		}
		case 'F': {
			bool cancel = rest == "1";
			size_t a = 0, b = 0;
			if (i + 1 < to && tok[i + 1] == "(") {
				a = i + 2;
				b = match[i + 1];
				i = b;
			}
			fins++;
			sched::event_point(string("fin:") + S(cancel));
			event("fin", cancel);
			auto cb = [a, b](bool ok) { done_common(ok, a, b); doneflag++; };
			if (cs) cs->finalize(cancel, cb);
			else ds->finalize(cancel, cb);
			event("fine", cancel);
			break;
		}
		case 'W': sched::wait_for([] { return doneflag >= fins; }); break;
		case 'A': {    // until this many operations are complete
			int n = atoi(rest.c_str());
			sched::wait_for([n] { return doneflag >= n; });
			break;
		}
		case 'L': sched::settle(); event("settled"); break;
		case 'B': {
			int n = atoi(rest.c_str());
			sched::until_or_settled([n] { return !ops.empty() && op().bcbs >= n; });
			break;
		}
		case 'Y': sched::point(1); break;
		case 'Q': {
			other_op(rest[0]);
			break;
		}
		case 'T': {    // another thread runs the following group
			size_t a = i + 2, b = match[i + 1];
			i = b;
			// detached from the script, joined at the end of it
			extern vector<std::thread> helpers;
			helpers.emplace_back([a, b] { run(a, b); });
			break;
		}
		case 'J': {
			extern vector<std::thread> helpers;
			for (auto &h : helpers) h.join();
			helpers.clear();
			break;
		}
		}
	}
}
vector<std::thread> helpers;

// ---------------------------------------------------------------- another stream in the same process
// X<C|D><threads>.<operations, "x" fails>.<1: it stays alive>: before the observed one exists;
// Q<"." or "x">: an operation of it while the observed one is at work.  Its threads are not under the scheduler's control.
static std::ostream &quiet_logger() { return logstream; }
struct Other {
	char ty;
	std::unique_ptr<DataCompressionStream> c;
	std::unique_ptr<DataDecompressionStream> d;
	uint8_t *mem;
	int req[2], rep[2];
	Other(char t, int n) : ty(t) {
		if (ty == 'C') c.reset(new DataCompressionStream(*fake::impl(), n, thread_policy::use_defaults, quiet_logger, quiet_logger));
		else d.reset(new DataDecompressionStream(*fake::impl(), n, thread_policy::use_defaults, quiet_logger, quiet_logger));
		mem = (uint8_t *)mmap(nullptr, 2 * BLOCK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	// whether the operation went as it has to
	bool run(bool fails) {
		other_fails = fails;
		std::mutex m;
		std::condition_variable cv;
		int done = 0, ok = 0;
		bool good = true;
		int seen = 0;
		auto fin = [&](bool r) { std::lock_guard<std::mutex> l(m); done++; ok = r; cv.notify_all(); };
		if (ty == 'C') {
			for (int i = 0; i < 32; i++) { uint64_t tag = 5001 + i; memcpy(mem + i * CHUNK_SIZE, &tag, 8); }
			c->start(mem, 2 * BLOCK_SIZE, [&](Block &&b) {
				std::lock_guard<std::mutex> l(m);
				if (b.offset == SIZE_MAX) return;
				for (int i = 0; i < 16; i++) {
					uint64_t tag;
					char what;
					good &= b.get_chunk(i) && fake::get(b.get_chunk(i), b.sizes[i], &tag, &what) && tag == 5000 + b.offset / CHUNK_SIZE + i;
				}
				seen |= 1 << (b.offset / BLOCK_SIZE);
			});
			c->finalize(false, fin);
		} else {
			memset(mem, 0, 2 * BLOCK_SIZE);
			d->start(mem);
			for (int o = 0; o < 2; o++) {
				Block b;
				b.offset = o * BLOCK_SIZE;
				b.chunk_padding = 64;
				b.source = nullptr;
				uint8_t *p = b.allocate_buffer(64, 64);
				for (int i = 0; i < 16; i++) { b.sizes[i] = 64; fake::put(p + i * 64, 64, 5000 + o * 16 + i, 'c'); }
				good &= d->push_block(std::move(b)) || fails;
			}
			d->finalize(false, fin);
		}
		std::unique_lock<std::mutex> l(m);
		cv.wait(l, [&] { return done > 0; });
		if (!fails && ty == 'C') good &= seen == 3;
		if (!fails && ty == 'D') for (int i = 0; i < 32; i++) good &= fake::is(mem + i * CHUNK_SIZE, CHUNK_SIZE, 5000 + i);
		return good && ok == !fails;
	}
};
static Other *other;
static int other_bad;
static void other_prelude(const string &t) {        // before the scheduler is in control
	string ops = t.substr(t.find('.') + 1);
	bool stays = ops.size() > 1 && ops.substr(ops.size() - 2) == ".1";
	ops = ops.substr(0, ops.find('.'));
	other = new Other(t[1], atoi(t.c_str() + 2));
	for (char c : ops) if (c == 'x' || c == 'o') other_bad += !other->run(c == 'x');
	if (!stays) { delete other; other = nullptr; return; }
	if (pipe(other->req) || pipe(other->rep)) _exit(3);
	std::thread([] {
		char c;
		while (read(other->req[0], &c, 1) == 1) {
			c = other->run(c == 'x');
			if (write(other->rep[1], &c, 1) != 1) break;
		}
	}).detach();
}
static void other_op(char what) {
	if (!other) return;
	char c = what;
	if (write(other->req[1], &c, 1) != 1 || read(other->rep[0], &c, 1) != 1) _exit(3);
	event("other", c);
}

alignas(64) static char cspace[sizeof(DataCompressionStream)], dspace[sizeof(DataDecompressionStream)];

static void stream_scenario(bool spread) {
	auto pol = spread ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults;
	event("ctor");
	if (other_bad) event("other", 0);
	if (type == 'C') {
		sched::watch(cspace, sizeof cspace);
		cs = new (cspace) DataCompressionStream(*fake::impl(), nthreads, pol, error_logger, debug_logger);
	} else {
		sched::watch(dspace, sizeof dspace);
		ds = new (dspace) DataDecompressionStream(*fake::impl(), nthreads, pol, error_logger, debug_logger);
	}
	run(0, tok.size());
	sched::event_point("dtor");
	event("dtor");
	if (cs) cs->~DataCompressionStream();
	if (ds) ds->~DataDecompressionStream();
	event("dtore");
	// whatever still runs would show now
	for (auto &h : helpers) h.join();
	sched::settle();
	event("over");
	// blocks which were handed over must still be what they were
	for (auto &k : kept) {
		kinds_of_op = ops[k->op].kinds;
		string c = contents(k->b, k->off);
		if (c != blocks[k->bi - 1]) event("changed", k->off, k->bi);
	}
	size_t di = 0;
	if (type == 'D') {
		for (size_t o = 0; o < ops.size(); o++)
			dests.push_back(dest_contents(o));
		event("final", dests.size() - ops.size());
	}
	sched::end();
	emit(0);
}

// ---------------------------------------------------------------- a thread of a stream cannot be created
// !<k>: the k-th; construction has to end with an exception, nothing stays behind, and other streams work
static void refused_scenario(int k, bool spread) {
	auto pol = spread ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults;
	sched::fail_create = k;
	int thrown = 0;
	try {
		if (type == 'C') {
			sched::watch(cspace, sizeof cspace);
			cs = new (cspace) DataCompressionStream(*fake::impl(), nthreads, pol, error_logger, debug_logger);
		} else {
			sched::watch(dspace, sizeof dspace);
			ds = new (dspace) DataDecompressionStream(*fake::impl(), nthreads, pol, error_logger, debug_logger);
		}
	} catch (std::exception &) {
		thrown = 1;
	}
	event("refused", thrown, k - 1);
	sched::fail_create = 0;
	sched::settle();
	sched::end();
	Other o(type, 2);
	event("other", o.run(false));
	event("over");
	emit(0);
}

// ---------------------------------------------------------------- barrier and latch
// B: every thread goes through the given number of rounds; "I" in the script: the main thread interrupts
static void barrier_scenario(int rounds) {
	void *b = BarrierUser::make(nthreads);
	sched::watch(b, BarrierUser::size());
	vector<std::thread> v;
	for (int t = 0; t < nthreads; t++)
		v.emplace_back([b, rounds] {
			for (int r = 1; r <= rounds; r++) {
				sched::event_point("arr:" + S(r));
				event("arr", r);
				BarrierUser::arrive(b);
				event("lv", r);
			}
		});
	for (auto &t : tok) {
		if (t[0] == 'I') {
			sched::event_point("int");
			event("int");
			BarrierUser::interrupt(b);
			event("inte");
		} else if (t[0] == 'Y') sched::point(1);
		else if (t[0] == 'L') sched::settle();
	}
	for (auto &t : v) t.join();
	event("over");
	sched::end();
	emit(0);
}
// L: "c" a thread that counts down, "w" one that waits, "n" one that does both, "W" the main thread waits
static void latch_scenario(int count) {
	void *l = LatchUser::make(count);
	sched::watch(l, LatchUser::size());
	vector<std::thread> v;
	for (auto &t : tok) {
		for (char c : t) {
			if (c == 'W') {
				event("wt");
				LatchUser::wait(l);
				event("wte");
			} else if (c == 'Y')
				sched::point(1);
			else
				v.emplace_back([l, c] {
					if (c == 'w' || c == 'b') { event("wt"); LatchUser::wait(l); event("wte"); }
					if (c == 'c' || c == 'n' || c == 'd') { event("cd"); LatchUser::down(l); event("cde"); }
					if (c == 'd') { event("cd"); LatchUser::down(l); event("cde"); }
					if (c == 'n') { event("wt"); LatchUser::wait(l); event("wte"); }
				});
		}
	}
	for (auto &t : v) t.join();
	event("over");
	sched::end();
	emit(0);
}

// ---------------------------------------------------------------- the two streams with the real implementations
// P: <blocks>.<tail>.<data seed>.<implementation>; the blocks of the first stream are pushed to the second as they come
static void pipe_scenario() {
	auto v = nums(tok[0]);
	size_t nb = v[0], tail = v[1], total = nb * BLOCK_SIZE + tail;
	uint64_t r = v[2] * 0x9E3779B97F4A7C15ULL + 1;
	auto rnd = [&r] { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r; };
	uint8_t *data = new_dest(), *dst = new_dest();
	for (size_t c = 0; c * CHUNK_SIZE < total; c++) {
		uint64_t *w = (uint64_t *)(data + c * CHUNK_SIZE);
		size_t n = CHUNK_SIZE / 8;
		switch (rnd() % 6) {
		case 0: break;                                                      // zeros
		case 1: for (size_t i = 0; i < n; i++) w[i] = rnd(); break;         // does not compress
		case 2: { uint64_t x = rnd(); for (size_t i = 0; i < n; i++) w[i] = x; break; }
		case 3: for (size_t i = 0; i < n; i++) w[i] = i % 37 == 0 ? rnd() : w[i - 1] + (i % 5 == 0); break;
		case 4: { uint64_t x[16]; for (auto &y : x) y = rnd(); for (size_t i = 0; i < n; i++) w[i] = x[rnd() % 16]; break; }
		default: { size_t k = rnd() % n; for (size_t i = 0; i < n; i++) w[i] = i < k ? rnd() : 0x4142434445464748ULL; }
		}
	}
	const lib842_implementation *im = v[3] ? get_optsw842_implementation() : get_sw842_implementation();
	sched::watch(cspace, sizeof cspace);
	cs = new (cspace) DataCompressionStream(*im, nthreads, thread_policy::use_defaults, error_logger, debug_logger);
	ds = new (dspace) DataDecompressionStream(*im, nthreads, thread_policy::use_defaults, error_logger, debug_logger);
	if (epoch) cs->set_offset_sync_epoch_multiple(epoch * BLOCK_SIZE);
	int cok = -1, dok = -1, refused = 0;
	event("start");
	ds->start(dst);
	cs->start(data, total, [&](Block &&b) { if (!ds->push_block(std::move(b))) refused++; });
	cs->finalize(false, [&](bool ok) {
		cok = ok;
		ds->finalize(false, [&](bool ok2) { dok = ok2; });
	});
	sched::wait_for([&] { return dok >= 0; });
	bool same = memcmp(data, dst, nb * BLOCK_SIZE) == 0;
	bool rest = fake::zero(dst + nb * BLOCK_SIZE, (NB - nb) * BLOCK_SIZE);
	event("pipe", cok == 1 && dok == 1 && refused == 0, same, rest);
	cs->~DataCompressionStream();
	ds->~DataDecompressionStream();
	event("over");
	sched::end();
	emit(0);
}

static void child(const string &line) {
	std::stringstream ss(line);
	string ty, seed, pol, n, e;
	ss >> ty >> jobid >> seed >> pol >> n >> e;
	type = ty[0];
	nthreads = atoi(n.c_str());
	epoch = atoi(e.c_str());
	script_text = line.substr(0, line.find('%'));
	string t;
	vector<string> plan;
	bool inplan = false;
	while (ss >> t) {
		if (t == "%") inplan = true;
		else (inplan ? plan : tok).push_back(t);
	}
	vector<size_t> st;
	for (size_t i = 0; i < tok.size(); i++) {
		if (tok[i] == "(") st.push_back(i);
		if (tok[i] == ")") { match[st.back()] = i; st.pop_back(); }
	}
	for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTERM}) signal(s, on_signal);
	alarm(timeout_s);
	fake::hooks = {kind_of, h_comp_begin, h_comp_end, h_dec_begin, h_dec_end, h_pause};
	uint64_t sd = strtoull(seed.c_str(), nullptr, 10);
	fake::preferred = sd % 3 == 0 ? 4096 : 64;
	cpu_set_t cs0;
	CPU_ZERO(&cs0);
	CPU_SET(sched_getcpu(), &cs0);
	sched_setaffinity(0, sizeof cs0, &cs0);
	sched::on_exit_thread = exit_event;
	ops.reserve(64);
	int p = atoi(pol.c_str());
	if (!tok.empty() && tok[0][0] == 'X') other_prelude(tok[0]);
	sched::begin(sd, p, type == 'B' || type == 'L' ? 60 : 400, on_stuck);
	if (!plan.empty()) sched::plan(plan.data(), plan.size());
	if (type == 'B') barrier_scenario(epoch);
	else if (type == 'L') latch_scenario(epoch);
	else if (type == 'P') pipe_scenario();
	else if (!tok.empty() && tok[0][0] == '!') refused_scenario(atoi(tok[0].c_str() + 1), sd % 7 == 0);
	else {
		int e0 = epoch;
		epoch = 0;
		if (type == 'C' && e0 > 0) { tok.insert(tok.begin(), "E" + S(e0)); std::map<size_t, size_t> m2; for (auto &x : match) m2[x.first + 1] = x.second + 1; match = m2; }
		stream_scenario(sd % 7 == 0);
	}
	_exit(0);
}

int main(int argc, char **argv) {
	recfile = argv[1];
	if (argc > 2) timeout_s = atoi(argv[2]);
	src = (uint8_t *)mmap(nullptr, (NB + 1) * BLOCK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	srcu = (uint8_t *)mmap(nullptr, NB * BLOCK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (size_t i = 0; i < NB * 16; i++) {
		uint64_t tag = i + 1;
		memcpy(src + i * CHUNK_SIZE, &tag, 8);
	}
	string line;
	double lost = 0;           // time spent on jobs which hang or crash
	while (getline(std::cin, line)) {
		if (line.empty()) continue;
		auto t0 = std::chrono::steady_clock::now();
		pid_t p = fork();
		if (p == 0) child(line);
		int st;
		waitpid(p, &st, 0);
		bool told = WIFEXITED(st) && (WEXITSTATUS(st) == FAULT || WEXITSTATUS(st) == STUCK);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		lost += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		if (!told) {      // it could not even write a record
			std::stringstream ss(line);
			string ty;
			ss >> ty >> jobid;
			type = ty[0];
			ev.clear();
			written = false;
			script_text = line.substr(0, line.find('%'));
			emit(99);
		}
		if (lost > 40) break;      // enough is enough: violations have been recorded
	}
	return 0;
}
