// Drives the OpenCL decompressors (host and device level) and records what they do, as
// newline-delimited JSON, to be validated against spec/CLBatch.tla and spec/ClCache.tla.
//
// Jobs (one per line on stdin)
//   F ... see job_F
//   K <id> <seed> <flags> <fmt> <chunk> <stride> <tail> <n> {<ilen>:<cap>:<declen>:<kind><hex>}*
//       a buffer of n chunks, decompressed by several calls (order, optional arguments,
//       offsets, host / device interface); one record per chunk.
//       fmt 0 always, 1 maybe, 2 in place; kind s: slot content as given, c: data to be
//       compressed into the slot, r: raw slot; declen -1: not known to be valid.
//       flags: 1 = buffers delimited by inaccessible pages (device interface only), 2 = the input
//       need not end with a whole word, 4 = the calls are made by several threads at a time
//   X <id> <seed> <n> {<action>}*
//       a history of the program cache (see run_history)
#include <lib842/sw.h>
#include <lib842/cl.h>
#include <lib842/common.h>

#include "redirect.h"

#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdint>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <random>
#include <sstream>
#include <sys/mman.h>
#include <vector>

using namespace lib842;
using bytes = std::vector<uint8_t>;
static FILE *report;
static std::string pending; // record to be completed by the signal handler

// ------------------------------------------------------------ observation of the OpenCL runtime
static bool fake_name;
static int prog_source, prog_binary; // programs created from source / binary since the last reset
static std::vector<bytes> binaries_given;
extern "C" {
extern const char *LIB842_CLDECOMPRESS_KERNEL_SOURCE;
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info p, size_t n, void *v, size_t *r)
{
	static auto real = redirect::real<cl_int (*)(cl_device_id, cl_device_info, size_t, void *, size_t *)>("clGetDeviceInfo");
	cl_int ret = real(d, p, n, v, r);
	// the same device under another name: the last character changed
	if (ret == CL_SUCCESS && fake_name && p == CL_DEVICE_NAME && v != nullptr) {
		auto *s = (char *)v;
		size_t l = strnlen(s, n);
		if (l > 0) s[l - 1] = s[l - 1] == 'X' ? 'Y' : 'X';
	}
	return ret;
}
cl_program clCreateProgramWithBinary(cl_context c, cl_uint n, const cl_device_id *d, const size_t *l, const unsigned char **b,
				     cl_int *st, cl_int *err)
{
	static auto real = redirect::real<cl_program (*)(cl_context, cl_uint, const cl_device_id *, const size_t *,
							 const unsigned char **, cl_int *, cl_int *)>("clCreateProgramWithBinary");
	prog_binary++;
	binaries_given.clear();
	for (cl_uint i = 0; i < n; i++) binaries_given.emplace_back(b[i], b[i] + l[i]);
	return real(c, n, d, l, b, st, err);
}
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *l, cl_int *err)
{
	static auto real = redirect::real<cl_program (*)(cl_context, cl_uint, const char **, const size_t *, cl_int *)>("clCreateProgramWithSource");
	prog_source++;
	return real(c, n, s, l, err);
}
}

// ------------------------------------------------------------ helpers
static bytes unhex(const std::string &s)
{
	if (s.empty() || s == "-") return {};
	bytes b(s.size() / 2);
	auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
	for (size_t i = 0; i < b.size(); i++) b[i] = v(s[2 * i]) * 16 + v(s[2 * i + 1]);
	return b;
}
static void put_bytes(std::string &o, const uint8_t *p, size_t n)
{
	o += '[';
	for (size_t i = 0; i < n; i++) {
		if (i) o += ',';
		o += std::to_string(p[i]);
	}
	o += ']';
}
static int intern(std::vector<bytes> &l, const uint8_t *p, size_t n)
{
	for (size_t i = 0; i < l.size(); i++)
		if (l[i].size() == n && memcmp(l[i].data(), p, n) == 0) return (int)i + 1;
	l.emplace_back(p, p + n);
	return (int)l.size();
}
static long clip(size_t v) { return v > 2000000000 ? 2000000000 : (long)v; }
static void emit(const std::string &s)
{
	fwrite(s.data(), 1, s.size(), report);
	fputc('\n', report);
	fflush(report);
}
static std::atomic<bool> dying{false};
static void on_signal(int sig)
{
	static thread_local bool mine = false;
	if (mine) _exit(78); // a second fault while reporting the first
	if (!dying.exchange(true)) {
		mine = true;
		signal(SIGALRM, SIG_DFL);
		sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM);
		for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaddset(&m, s);
		pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
		alarm(20); // reporting may not come to an end
		char tmp[40];
		snprintf(tmp, sizeof tmp, "\"fault\":%d}", sig == SIGALRM ? 2 : 1);
		if (!pending.empty()) emit(pending + tmp);
		_exit(77);
	}
	for (;;) pause();
}
static std::ostringstream sink;
static std::ostream &quiet() { sink.str(""); return sink; }

struct Guarded { // n bytes, flush with an inaccessible page at the end (right) or the start
	uint8_t *m, *p; size_t len;
	Guarded(size_t n, bool right)
	{
		len = ((n + 4095) & ~(size_t)4095) + 8192;
		m = (uint8_t *)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(m + 4096, len - 8192, PROT_READ | PROT_WRITE);
		memset(m + 4096, 0xE7, len - 8192);
		p = right ? m + len - 4096 - n : m + 4096;
	}
	~Guarded() { munmap(m, len); }
};

// ------------------------------------------------------------ decompressing buffers of chunks
struct Chunk { size_t ilen, cap; long declen; char kind; bytes slot, before; };
struct Run { int api, hasr, haso, hasi; std::vector<int> rets; std::vector<size_t> olens; std::vector<int> idx; int frame; };

typedef std::tuple<int, size_t, size_t> Key;
static CLHostDecompressor &host(Key k)
{
	static std::map<Key, std::unique_ptr<CLHostDecompressor>> m;
	auto &d = m[k];
	if (!d) d.reset(new CLHostDecompressor(std::get<1>(k), std::get<2>(k), (CLDecompressorInputFormat)std::get<0>(k), false, false));
	return *d;
}
struct Dev { std::vector<cl::Device> devs; cl::Context ctx; cl::CommandQueue q; };
static Dev &dev()
{
	static Dev *d;
	if (!d) {
		std::vector<cl::Platform> ps;
		cl::Platform::get(&ps);
		d = new Dev();
		for (auto &p : ps) {
			try { p.getDevices(CL_DEVICE_TYPE_ALL, &d->devs); } catch (cl::Error &) {}
			if (!d->devs.empty()) break;
		}
		d->devs.resize(1);
		d->ctx = cl::Context(d->devs);
		d->q = cl::CommandQueue(d->ctx, d->devs[0]);
	}
	return *d;
}
static CLDeviceDecompressor &device(Key k)
{
	static std::map<Key, std::unique_ptr<CLDeviceDecompressor>> m;
	auto &d = m[k];
	if (!d) {
		cl::vector<cl::Device> v(dev().devs.begin(), dev().devs.end());
		d.reset(new CLDeviceDecompressor(dev().ctx, v, std::get<1>(k), std::get<2>(k), (CLDecompressorInputFormat)std::get<0>(k), quiet, quiet));
	}
	return *d;
}

static void job_K(std::istringstream &ls, const std::string &id)
{
	uint32_t seed; unsigned flags; int fmt; size_t chunk, stride, tail, n;
	ls >> seed >> flags >> fmt >> chunk >> stride >> tail >> n;
	std::mt19937 g(seed);
	std::recursive_mutex one; // (several threads with flag 4)
	typedef std::lock_guard<std::recursive_mutex> Lock;
	auto rnd = [&](size_t k) { Lock l(one); return k ? g() % k : 0; };
	std::vector<Chunk> cs(n);
	bool safe = true, raws = false;
	size_t slotlen = fmt == 0 ? stride : chunk;
	for (auto &c : cs) {
		std::string s; ls >> s;
		auto a = s.find(':'), b = s.find(':', a + 1), e = s.find(':', b + 1);
		c.ilen = strtoull(s.c_str(), nullptr, 10); c.cap = strtoull(s.c_str() + a + 1, nullptr, 10);
		c.declen = atol(s.c_str() + b + 1); c.kind = s[e + 1];
		bytes in = unhex(s.substr(e + 2));
		if (c.kind == 'c') {
			// the layout that the library's own streams and tools use
			bytes out(in.size() * 2 + 1024);
			size_t olen = out.size();
			if (optsw842_compress(in.data(), in.size(), out.data(), &olen) != 0) olen = 0;
			out.resize(olen);
			if (fmt == 0) { c.ilen = olen; c.slot = out; }
			else if (olen <= chunk - 24) {
				c.slot.assign(chunk, 0);
				for (auto &x : c.slot) x = (uint8_t)g();
				memcpy(c.slot.data(), LIB842_COMPRESSED_CHUNK_MARKER, 16);
				uint64_t sz = olen;
				memcpy(c.slot.data() + 16, &sz, 8);
				memcpy(c.slot.data() + chunk - olen, out.data(), olen);
			} else { c.slot = in; c.slot.resize(chunk, 7); }
		} else c.slot = in;
		size_t k = c.slot.size();
		c.slot.resize(slotlen);
		for (; k < slotlen; k++) c.slot[k] = (uint8_t)g();
		c.before.resize(chunk);
		for (auto &x : c.before) x = (uint8_t)(g() | 1);
		if (fmt == 2) c.before = c.slot;
		if (c.declen < 0 || (size_t)c.declen > chunk) safe = false;
	}
	// (flag 2: even in the middle of a word)
	size_t last = n ? ((flags & 2) ? cs[n - 1].ilen : (cs[n - 1].ilen + 7) & ~(size_t)7) : 0;
	// the input may end right after the last chunk's data
	size_t isize = n == 0 ? 0 : fmt != 0 ? n * chunk : tail && last > 0 ? (n - 1) * stride + std::min(last, stride) : n * stride;
	size_t osize = n * chunk;
	bytes in(isize);
	for (size_t i = 0; i < n; i++)
		for (size_t k = 0; k < slotlen && i * (fmt ? chunk : stride) + k < isize; k++) in[i * (fmt ? chunk : stride) + k] = cs[i].slot[k];
	std::vector<bytes> outs0; // per chunk interned results
	std::vector<std::vector<bytes>> outs(n);
	std::vector<Run> runs;
	pending = "{\"t\":\"K\",\"id\":\"" + id + ".0\",\"fmt\":" + std::to_string(fmt) + ",\"chunk\":" + std::to_string(chunk) +
		  ",\"slot\":[],\"ilen\":0,\"cap\":0,\"before\":[],\"outs\":[],\"runs\":[],\"n\":" + std::to_string(n) + ",";

	auto judge = [&](Run &r, const uint8_t *out) {
		Lock l(one);
		for (size_t i = 0; i < n; i++) r.idx.push_back(intern(outs[i], out + i * chunk, chunk));
		runs.push_back(r);
	};
	auto perm = [&] {
		Lock l(one);
		std::vector<size_t> p(n);
		for (size_t i = 0; i < n; i++) p[i] = i;
		std::shuffle(p.begin(), p.end(), g);
		if (n > 2 && rnd(3) == 0) std::sort(p.begin(), p.end(), std::greater<size_t>());
		return p;
	};
	auto with_host = [&](bool hasr, bool haso, bool hasi, bool shuffle) {
		Run r{0, hasr, haso, hasi, std::vector<int>(n, 4242), std::vector<size_t>(n), {}, 0};
		bytes ib = in, ob(osize + 64, 0x3C);
		for (size_t i = 0; i < n; i++) memcpy(ob.data() + i * chunk, cs[i].before.data(), chunk);
		std::vector<size_t> ilens(n);
		for (size_t i = 0; i < n; i++) { ilens[i] = fmt ? chunk : cs[i].ilen; r.olens[i] = cs[i].cap; }
		auto sh = perm();
		uint8_t *o = fmt == 2 ? ib.data() : ob.data();
		host(Key(fmt, chunk, stride)).decompress(ib.data(), isize, hasi ? ilens.data() : nullptr, o, osize,
			haso ? r.olens.data() : nullptr, shuffle ? sh.data() : nullptr, hasr ? r.rets.data() : nullptr, nullptr);
		for (size_t i = 0; i < 64; i++) r.frame += ob[osize + i] != 0x3C;
		if (fmt != 2) r.frame += ib != in;
		judge(r, o);
	};
	auto with_device = [&](bool hasr, bool haso, bool hasi, bool shuffle, bool guard) {
		Run r{1, hasr, haso, hasi, std::vector<int>(n, 4242), std::vector<size_t>(n), {}, 0};
		size_t ioff = 8 * rnd(20), ooff = fmt == 2 ? ioff : 8 * rnd(20), slack = guard ? 0 : 64 + 8 * rnd(8);
		if (guard) slack = 0;
		size_t ilenb = ioff + isize + slack, olenb = ooff + osize + (guard ? 0 : 64);
		if (fmt == 2) { ilenb = olenb = ioff + isize + (guard ? 0 : 64 + slack); }
		bool right = rnd(4) != 0;
		if (flags & 2) right = true;
		if (guard && !right) { ioff = 0; if (fmt == 2) ooff = 0; ilenb = isize; if (fmt == 2) olenb = ilenb; }
		Guarded gi(ilenb, right), go(olenb, right);
		uint8_t *ib = gi.p, *ob = fmt == 2 ? gi.p : go.p;
		bytes orig;
		memset(ib, 0x99, ilenb);
		if (fmt != 2) memset(ob, 0x3C, olenb);
		memcpy(ib + ioff, in.data(), isize);
		if (fmt != 2) for (size_t i = 0; i < n; i++) memcpy(ob + ooff + i * chunk, cs[i].before.data(), chunk);
		orig.assign(ib, ib + ilenb);
		auto &D = dev();
		std::vector<cl_ulong> il(n), ol(n), sh(n);
		std::vector<cl_int> rt(n, 4242);
		auto pm = perm();
		for (size_t i = 0; i < n; i++) { il[i] = fmt ? chunk : cs[i].ilen; ol[i] = cs[i].cap; sh[i] = pm[i]; }
		cl::Buffer bi(D.ctx, CL_MEM_READ_WRITE | CL_MEM_USE_HOST_PTR, ilenb, ib), bo = bi;
		if (fmt != 2) bo = cl::Buffer(D.ctx, CL_MEM_READ_WRITE | CL_MEM_USE_HOST_PTR, olenb, ob);
		cl::Buffer bil, bol, bsh, brt;
		auto mk = [&](void *p, size_t k) { return cl::Buffer(D.ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, k, p); };
		if (hasi) bil = mk(il.data(), n * 8);
		if (haso) bol = mk(ol.data(), n * 8);
		if (shuffle) bsh = mk(sh.data(), n * 8);
		if (hasr) brt = mk(rt.data(), n * 4);
		cl::Event ev;
		// the input may only arrive later, by a queue of its own, and what is done later may only wait for the event
		bool late = !guard && isize > 0 && rnd(3) == 0;
		cl::CommandQueue q = D.q;
		if (late) {
			memset(ib + ioff, 0xEE, isize);
			q = cl::CommandQueue(D.ctx, D.devs[0]);
			cl::UserEvent go_on(D.ctx);
			cl::vector<cl::Event> first{go_on}, before(1);
			q.enqueueWriteBuffer(bi, CL_FALSE, ioff, isize, in.data(), &first, &before[0]);
			q.flush();
			device(Key(fmt, chunk, stride)).decompress(D.q, n, bi, ioff, bil, bo, ooff, bol, bsh, brt, &before, &ev);
			D.q.flush();
			usleep(rnd(3) * 1000);
			go_on.setStatus(CL_COMPLETE);
		} else {
			device(Key(fmt, chunk, stride)).decompress(D.q, n, bi, ioff, bil, bo, ooff, bol, bsh, brt, nullptr, &ev);
		}
		ev.wait();
		if (haso) q.enqueueReadBuffer(bol, CL_TRUE, 0, n * 8, ol.data());
		if (hasr) q.enqueueReadBuffer(brt, CL_TRUE, 0, n * 4, rt.data());
		// make the content of the buffers visible at the host pointers
		void *mp = q.enqueueMapBuffer(bo, CL_TRUE, CL_MAP_READ, 0, fmt == 2 ? ilenb : olenb);
		void *mi = fmt == 2 ? nullptr : q.enqueueMapBuffer(bi, CL_TRUE, CL_MAP_READ, 0, ilenb);
		for (size_t i = 0; i < n; i++) { r.olens[i] = ol[i]; r.rets[i] = rt[i]; }
		if (fmt != 2) {
			r.frame += memcmp(ib, orig.data(), ilenb) != 0;
			for (size_t i = 0; i < olenb; i++) if (i < ooff || i >= ooff + osize) r.frame += ob[i] != 0x3C;
		} else {
			for (size_t i = 0; i < ilenb; i++) if (i < ioff || i >= ioff + isize) r.frame += ib[i] != orig[i];
		}
		judge(r, ob + ooff);
		q.enqueueUnmapMemObject(bo, mp);
		if (mi) q.enqueueUnmapMemObject(bi, mi);
		q.finish();
	};
	int fault = 0;
	try {
		// sizes of the input can be left out if the streams are valid and what follows them is accessible
		bool noi = fmt != 0 || (safe && !tail && n > 0 && cs[n - 1].ilen + 64 <= stride);
		if (flags & 4) {
			host(Key(fmt, chunk, stride)), device(Key(fmt, chunk, stride));
			std::vector<std::thread> th;
			std::atomic<int> ready{0};
			for (int t = 0; t < 4; t++)
				th.emplace_back([&, t] {
					try {
						ready++;
						while (ready < 4) {}
						for (int k = 0; k < 5; k++) {
							if ((k + t) % 2) with_host(true, true, true, rnd(2));
							else with_device(true, true, true, rnd(2), false);
						}
					} catch (const cl::Error &e) {
						Lock l(one);
						fault = 7;
						fprintf(stderr, "%s: cl::Error %d %s\n", id.c_str(), e.err(), e.what());
					}
				});
			for (auto &t : th) t.join();
		} else if (flags & 1) {
			for (int k = 0; k < 3; k++) with_device(true, true, true, k & 1, true);
		} else {
			with_host(true, true, true, false);
			with_host(true, true, true, true);
			with_host(false, true, true, rnd(2));
			if (safe) with_host(true, false, true, rnd(2));
			if (noi) with_host(true, true, false, rnd(2));
			with_device(true, true, true, false, false);
			with_device(rnd(2), !safe || rnd(2), !noi || rnd(2), rnd(2), false);
			with_device(true, !safe || rnd(2), !noi || rnd(2), true, false);
		}
	} catch (const cl::Error &e) {
		fault = 7;
		fprintf(stderr, "%s: cl::Error %d %s\n", id.c_str(), e.err(), e.what());
	}
	pending.clear();
	for (size_t i = 0; i < n; i++) {
		auto &c = cs[i];
		size_t from = i * (fmt ? chunk : stride), have = from < isize ? std::min(slotlen, isize - from) : 0;
		std::string o = "{\"t\":\"K\",\"id\":\"" + id + "." + std::to_string(i) + "\",\"fmt\":" + std::to_string(fmt) +
				",\"chunk\":" + std::to_string(chunk) + ",\"slot\":";
		put_bytes(o, c.slot.data(), have);
		o += ",\"ilen\":" + std::to_string(clip(c.ilen)) + ",\"cap\":" + std::to_string(clip(c.cap)) + ",\"before\":";
		put_bytes(o, c.before.data(), chunk);
		o += ",\"outs\":[";
		for (size_t k = 0; k < outs[i].size(); k++) { if (k) o += ','; put_bytes(o, outs[i][k].data(), chunk); }
		o += "],\"runs\":[";
		bool first = true;
		std::vector<std::string> seen;
		for (auto &r : runs) {
			char tmp[200];
			snprintf(tmp, sizeof tmp, "{\"api\":%d,\"hasr\":%d,\"haso\":%d,\"hasi\":%d,\"ret\":%d,\"olen\":%ld,\"idx\":%d,\"frame\":%d}",
				 r.api, r.hasr, r.haso, r.hasi, r.rets[i], clip(r.olens[i]), r.idx[i], r.frame);
			if (std::find(seen.begin(), seen.end(), tmp) != seen.end()) continue;
			seen.push_back(tmp);
			if (!first) o += ',';
			o += tmp;
			first = false;
		}
		o += "],\"n\":" + std::to_string(n) + ",\"fault\":" + std::to_string(fault) + "}";
		emit(o);
	}
	if (n == 0 || fault) {
		// nothing to see in the chunks: one record for the call itself
		emit("{\"t\":\"K\",\"id\":\"" + id + ".call\",\"fmt\":" + std::to_string(fmt) + ",\"chunk\":" + std::to_string(chunk) +
		     ",\"slot\":[],\"ilen\":0,\"cap\":0,\"before\":[],\"outs\":[],\"runs\":[],\"n\":" + std::to_string(n) + ",\"fault\":" + std::to_string(fault) + "}");
	}
}

// ------------------------------------------------------------ very many chunks, and buffers beyond 4 GiB
// F <id> <seed> <fmt> <chunk> <stride> <n> <input offset> <output offset> <api> <m> {<item as above>}*: chunk i is item i mod m.
// Of the groups of m chunks the first, the last and some that differ from the first are recorded, as batches.
static uint8_t *sparse(size_t n)
{
	void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) _exit(76);
	madvise(p, n, MADV_NOHUGEPAGE);
	return (uint8_t *)p;
}
static void job_F(std::istringstream &ls, const std::string &id)
{
	uint32_t seed; int fmt, api; size_t chunk, stride, n, ioff, ooff, m;
	ls >> seed >> fmt >> chunk >> stride >> n >> ioff >> ooff >> api >> m;
	std::mt19937 g(seed);
	size_t window = std::min<size_t>(chunk, 4096), slotlen = std::min<size_t>(fmt ? chunk : stride, 4096);
	std::vector<Chunk> cs(m);
	for (auto &c : cs) {
		std::string s; ls >> s;
		auto a = s.find(':'), b = s.find(':', a + 1), e = s.find(':', b + 1);
		c.ilen = strtoull(s.c_str(), nullptr, 10); c.cap = std::min<size_t>(window, strtoull(s.c_str() + a + 1, nullptr, 10));
		c.slot = unhex(s.substr(e + 2));
		size_t k = c.slot.size();
		c.slot.resize(slotlen);
		for (; k < slotlen; k++) c.slot[k] = (uint8_t)g();
		c.before.resize(window);
		for (auto &x : c.before) x = (uint8_t)(g() | 1);
		if (fmt == 2) c.before = c.slot;
	}
	std::string head = "{\"t\":\"K\",\"id\":\"" + id;
	pending = head + ".0\",\"fmt\":" + std::to_string(fmt) + ",\"chunk\":" + std::to_string(window) +
		  ",\"slot\":[],\"ilen\":0,\"cap\":0,\"before\":[],\"outs\":[],\"runs\":[],\"n\":" + std::to_string(n) + ",";
	size_t istep = fmt ? chunk : stride, ilenb = ioff + n * istep + 64, olenb = ooff + n * chunk + 64;
	// (a device which does not offer as much)
	if (api == 1 && dev().devs[0].getInfo<CL_DEVICE_MAX_MEM_ALLOC_SIZE>() < std::max(ilenb, olenb)) { pending.clear(); return; }
	uint8_t *ib = sparse(ilenb), *ob = fmt == 2 ? ib : sparse(olenb);
	for (size_t i = 0; i < n; i++) {
		memcpy(ib + ioff + i * istep, cs[i % m].slot.data(), slotlen);
		if (fmt != 2) memcpy(ob + ooff + i * chunk, cs[i % m].before.data(), window);
	}
	std::vector<cl_ulong> il(n), ol(n), sh(n);
	std::vector<cl_int> rt(n, 4242);
	for (size_t i = 0; i < n; i++) { il[i] = fmt ? chunk : cs[i % m].ilen; ol[i] = cs[i % m].cap; sh[i] = i; }
	bool shuffle = g() % 2;
	if (shuffle) std::shuffle(sh.begin(), sh.end(), g);
	int fault = 0;
	try {
		if (api == 0) {
			std::vector<size_t> ils(il.begin(), il.end()), ols(ol.begin(), ol.end()), shs(sh.begin(), sh.end());
			std::vector<int> rets(n, 4242);
			host(Key(fmt, chunk, stride)).decompress(ib, n * istep, ils.data(), ob, n * chunk, ols.data(), shuffle ? shs.data() : nullptr, rets.data(), nullptr);
			std::copy(ols.begin(), ols.end(), ol.begin());
			std::copy(rets.begin(), rets.end(), rt.begin());
		} else {
			auto &D = dev();
			cl::Buffer bi(D.ctx, CL_MEM_READ_WRITE | CL_MEM_USE_HOST_PTR, ilenb, ib), bo = bi;
			if (fmt != 2) bo = cl::Buffer(D.ctx, CL_MEM_READ_WRITE | CL_MEM_USE_HOST_PTR, olenb, ob);
			auto mk = [&](void *p, size_t k) { return cl::Buffer(D.ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, k, p); };
			cl::Buffer bil = mk(il.data(), n * 8), bol = mk(ol.data(), n * 8), bsh, brt = mk(rt.data(), n * 4);
			if (shuffle) bsh = mk(sh.data(), n * 8);
			cl::Event ev;
			device(Key(fmt, chunk, stride)).decompress(D.q, n, bi, ioff, bil, bo, ooff, bol, bsh, brt, nullptr, &ev);
			ev.wait();
			D.q.enqueueReadBuffer(bol, CL_TRUE, 0, n * 8, ol.data());
			D.q.enqueueReadBuffer(brt, CL_TRUE, 0, n * 4, rt.data());
			// (pocl's CPU device works on the memory itself)
			D.q.finish();
		}
	} catch (const cl::Error &e) {
		fault = 7;
		fprintf(stderr, "%s: cl::Error %d %s\n", id.c_str(), e.err(), e.what());
	}
	pending.clear();
	auto at = [&](size_t i) { return ob + ooff + i * chunk; };
	auto group = [&](size_t base) {
		for (size_t k = 0; k < m && base + k < n; k++) {
			size_t i = base + k;
			auto &c = cs[k];
			std::string o = head + "." + std::to_string(i) + "\",\"fmt\":" + std::to_string(fmt) + ",\"chunk\":" + std::to_string(window) + ",\"slot\":";
			put_bytes(o, c.slot.data(), slotlen);
			o += ",\"ilen\":" + std::to_string(clip(c.ilen)) + ",\"cap\":" + std::to_string(clip(c.cap)) + ",\"before\":";
			put_bytes(o, c.before.data(), window);
			o += ",\"outs\":[";
			put_bytes(o, at(i), window);
			bool kept = fmt == 2 || memcmp(ib + ioff + i * istep, c.slot.data(), slotlen) == 0;
			char tmp[200];
			snprintf(tmp, sizeof tmp, "],\"runs\":[{\"api\":%d,\"hasr\":1,\"haso\":1,\"hasi\":1,\"ret\":%d,\"olen\":%ld,\"idx\":1,\"frame\":%d}],\"n\":%zu,\"fault\":%d}",
				 api, rt[i], clip(ol[i]), !kept, n, fault);
			emit(o + tmp);
		}
	};
	size_t more = 3;
	for (size_t base = 0; base < n; base += m) {
		bool rec = base == 0 || base + m >= n;
		for (size_t k = 0; !rec && more && k < m; k++)
			rec = rt[base + k] != rt[k] || ol[base + k] != ol[k] || memcmp(at(base + k), at(k), window) != 0;
		if (rec && base != 0 && base + m < n) more--;
		if (rec) group(base);
	}
	munmap(ib, ilenb);
	if (fmt != 2) munmap(ob, olenb);
}

// ------------------------------------------------------------ histories of the program cache
// Configurations are <chunk>/<stride>/<fmt>/<name>/<src>; actions:
//   C:<cfg>:<w>   construct a decompressor and use it; w: how writing the cache ends
//                 (-1 completes, -2 cannot be opened, k: fails after k permille of its bytes), followed by r if it
//                 cannot be opened for reading
//   D             the cache file is deleted
//   T:<permille>  it is truncated
//   Z:<field>:<v> a field of its metadata is overwritten (see below)
//   B:<k>         its binary is replaced by garbage of the same size (k = 0), or loses its identification (1)
//   J:<n>         it consists of n arbitrary bytes
struct Cfg {
	size_t chunk, stride; int fmt, name, src;
	bool operator<(const Cfg &o) const { return std::tie(chunk, stride, fmt, name, src) < std::tie(o.chunk, o.stride, o.fmt, o.name, o.src); }
};
static std::string source_variant(int v)
{
	static const std::string orig = LIB842_CLDECOMPRESS_KERNEL_SOURCE;
	if (v == 0) return orig;
	// another version of the kernel, which behaves differently: other error codes
	return "#undef EINVAL\n#undef ENOSPC\n#define EINVAL " + std::to_string(500 + v) + "\n#define ENOSPC " + std::to_string(600 + v) + "\n" + orig;
}
// what a configuration computes: decoding of a fixed buffer
static bytes use(const CLHostDecompressor &d, const Cfg &c)
{
	std::mt19937 g(99);
	const size_t n = 6;
	size_t step = c.fmt ? c.chunk : c.stride;
	bytes in(n * c.stride, 0);
	bytes data(c.chunk), comp(c.chunk * 2 + 64);
	for (size_t i = 0; i < n; i++) {
		for (size_t k = 0; k < c.chunk; k++) data[k] = (uint8_t)(k % 24 == 0 ? g() : k / 64 + i);
		size_t olen = comp.size();
		optsw842_compress(data.data(), i == 3 ? c.chunk / 2 : c.chunk, comp.data(), &olen);
		uint8_t *s = in.data() + i * step;
		if (c.fmt == 0) memcpy(s, comp.data(), std::min(olen, step));
		else if (i == 4) for (size_t k = 0; k < c.chunk; k++) s[k] = (uint8_t)g();
		else {
			memcpy(s, LIB842_COMPRESSED_CHUNK_MARKER, 16);
			uint64_t sz = i == 5 ? 0 : olen;
			memcpy(s + 16, &sz, 8);
			if (i != 5) memcpy(s + c.chunk - olen, comp.data(), olen);
		}
		if (i == 1) s[c.fmt ? c.chunk - olen + 2 : 2] ^= 0x55; // a chunk which is malformed or differs
	}
	size_t used = c.fmt ? n * c.chunk : n * c.stride;
	bytes out(n * c.chunk, 0x11);
	if (c.fmt == 2) out.assign(in.begin(), in.begin() + n * c.chunk);
	std::vector<size_t> il(n, step), ol(n, c.chunk);
	ol[2] = c.fmt ? c.chunk : 16; // does not fit
	std::vector<int> rt(n, 77);
	if (c.fmt == 2) d.decompress(out.data(), n * c.chunk, il.data(), out.data(), out.size(), ol.data(), nullptr, rt.data(), nullptr);
	else d.decompress(in.data(), used, il.data(), out.data(), out.size(), ol.data(), nullptr, rt.data(), nullptr);
	bytes sig;
	for (size_t i = 0; i < n; i++) {
		sig.push_back((uint8_t)rt[i]); sig.push_back((uint8_t)(rt[i] >> 8));
		sig.push_back((uint8_t)ol[i]); sig.push_back((uint8_t)(ol[i] >> 8));
		size_t valid = rt[i] == 0 ? std::min(ol[i], c.chunk) : 0; // what lies beyond is not defined
		memset(out.data() + i * c.chunk + valid, 0, c.chunk - valid);
	}
	sig.insert(sig.end(), out.begin(), out.end());
	return sig;
}
static std::string cache_file() { return redirect::scratch_path("/tmp/cl842_cache.bin"); }
static bytes slurp(const std::string &p)
{
	bytes b;
	if (FILE *f = fopen(p.c_str(), "rb")) {
		uint8_t t[4096]; size_t k;
		while ((k = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + k);
		fclose(f);
	}
	return b;
}
static void spill(const std::string &p, const bytes &b)
{
	if (FILE *f = fopen(p.c_str(), "wb")) { fwrite(b.data(), 1, b.size(), f); fclose(f); }
}

struct Known { int result; bytes binary; };
static std::map<Cfg, Known> known;       // what each configuration does without a cache
static std::vector<bytes> results;
static std::unique_ptr<CLHostDecompressor> construct(const Cfg &c, std::string &src)
{
	fake_name = c.name != 0;
	src = source_variant(c.src);
	LIB842_CLDECOMPRESS_KERNEL_SOURCE = src.c_str();
	prog_source = prog_binary = 0;
	binaries_given.clear();
	return std::unique_ptr<CLHostDecompressor>(new CLHostDecompressor(c.chunk, c.stride, (CLDecompressorInputFormat)c.fmt, false, false));
}
static Known &baseline(const Cfg &c)
{
	auto it = known.find(c);
	if (it != known.end()) return it->second;
	bytes saved = slurp(cache_file());
	bool had = access(cache_file().c_str(), F_OK) == 0;
	unlink(cache_file().c_str());
	Known k{0, {}};
	try {
		std::string src;
		auto d = construct(c, src);
		bytes r = use(*d, c);
		k.result = intern(results, r.data(), r.size());
	} catch (const std::exception &e) {
		fprintf(stderr, "without a cache: %s\n", e.what());
	}
	unlink(cache_file().c_str());
	if (had) spill(cache_file(), saved);
	return known[c] = k;
}

struct Writers {
	std::map<bytes, int> binary_of; // binaries written to the cache -> which configuration did (its number in cfgs)
	std::vector<Cfg> cfgs;
};
struct Made { // one construction
	Cfg c; long w, at; bool rd;
	int base, ok = 0, bin = 0, src = 0;
	bool tried = false;
	std::string rec, text;
	bytes given;
	std::unique_ptr<CLHostDecompressor> d;
	void prepare(const Cfg &cfg, long written, bool unreadable)
	{
		c = cfg; w = written; rd = unreadable;
		base = baseline(c).result;
		char tmp[400];
		snprintf(tmp, sizeof tmp, "{\"act\":\"C\",\"cfg\":[%zu,%zu,%d,%d,%d],\"w\":%ld,\"r\":%d,\"arg\":0,\"base\":%d,", c.chunk, c.stride, c.fmt, c.name, c.src, w, rd, base);
		rec = tmp;
	}
	void make(const std::string &id, size_t full)
	{
		tried = true;
		redirect::deny_read = rd;
		redirect::deny_write = w == -2;
		redirect::write_budget = w >= 0 ? (long)(full * w / 1000) : -1;
		try {
			d = construct(c, text);
			ok = 1;
		} catch (const std::exception &e) {
			fprintf(stderr, "%s: %s\n", id.c_str(), e.what());
		}
		bin = prog_binary; src = prog_source;
		if (bin > 0 && !binaries_given.empty()) given = binaries_given[0];
		redirect::deny_read = redirect::deny_write = false;
		redirect::write_budget = -1;
	}
	void note(Writers &h, size_t &full) // what has been written by it
	{
		bytes f = slurp(cache_file());
		if (ok && w == -1 && src > 0 && f.size() > 1000) full = f.size();
		// a complete file ends with its binary: remember who wrote it
		if (src == 0 || f.size() <= 64) return;
		auto rd8 = [&](size_t off) { uint64_t v = 0; if (off + 8 <= f.size()) memcpy(&v, f.data() + off, 8); return (size_t)v; };
		size_t off = 8 + 8 + 4 + 4 + 8;
		size_t nl = rd8(off);
		if (nl >= 1000 || off + 8 + nl + 8 > f.size()) return;
		size_t bs = rd8(off + 8 + nl);
		if (off + 8 + nl + 8 + bs != f.size()) return;
		int me = -1;
		for (size_t i = 0; i < h.cfgs.size(); i++) if (!(h.cfgs[i] < c) && !(c < h.cfgs[i])) me = (int)i;
		if (me < 0) { h.cfgs.push_back(c); me = (int)h.cfgs.size() - 1; }
		bytes b(f.end() - bs, f.end());
		// (the same binary may legitimately come out for several configurations)
		if (!h.binary_of.count(b)) h.binary_of[b] = me;
		else if (h.binary_of[b] != me) h.binary_of[b] = -2;
	}
	std::string judge(const std::string &id, Writers &h)
	{
		int res = 0, own = -3;
		if (bin > 0 && !given.empty()) {
			auto it = h.binary_of.find(given);
			own = it == h.binary_of.end() ? -1 : it->second;
		}
		if (ok)
			try {
				bytes r = use(*d, c);
				res = intern(results, r.data(), r.size());
			} catch (const std::exception &e) {
				fprintf(stderr, "%s: %s\n", id.c_str(), e.what());
			}
		int self = 0;
		if (own >= 0) self = !(h.cfgs[own] < c) && !(c < h.cfgs[own]) ? 1 : 2; // its own, another's
		else if (own == -2) self = 1;
		else if (own == -1) self = 3; // no binary anyone wrote
		char tmp[200];
		snprintf(tmp, sizeof tmp, "\"ok\":%d,\"res\":%d,\"bin\":%d,\"src\":%d,\"own\":%d}", ok, res, bin, src, self);
		return rec + tmp;
	}
};
// Constructs the i-th; when it is about to do its at-th operation on the cache file, the next one
// is constructed as if by another process.
struct Nested { std::vector<Made> *ms; size_t i; long left; std::string id; size_t &full; Writers &h; };
static Nested *nested;
static void nest(std::vector<Made> &ms, size_t i, const std::string &id, size_t &full, Writers &h)
{
	Nested n{&ms, i, ms[i].at, id, full, h}, *outer = nested;
	auto outer_step = redirect::step;
	nested = &n;
	redirect::step = [](const char *op) {
		Nested *n = nested;
		if (getenv("VP_TRACE")) fprintf(stderr, "%zu: %s\n", n->i, op);
		if (n->left-- != 0 || n->i + 1 >= n->ms->size()) return;
		int e = errno, cf = redirect::cache_fd, rf = redirect::read_fd, ps = prog_source, pb = prog_binary;
		auto given = binaries_given;
		auto name = fake_name;
		auto text = LIB842_CLDECOMPRESS_KERNEL_SOURCE;
		redirect::cache_fd = redirect::read_fd = -1;
		nest(*n->ms, n->i + 1, n->id, n->full, n->h);
		redirect::cache_fd = cf; redirect::read_fd = rf; prog_source = ps; prog_binary = pb;
		binaries_given = given; fake_name = name; LIB842_CLDECOMPRESS_KERNEL_SOURCE = text;
		errno = e;
	};
	ms[i].make(id, full);
	redirect::step = nullptr;
	ms[i].note(h, full);
	nested = outer;
	redirect::step = outer_step;
}

static void run_history(std::istringstream &ls, const std::string &id)
{
	uint32_t seed; size_t n;
	ls >> seed >> n;
	std::mt19937 g(seed);
	unlink(cache_file().c_str());
	std::string o = "{\"t\":\"X\",\"id\":\"" + id + "\",\"steps\":[";
	Writers h;
	bool first = true;
	size_t full = 1;
	for (size_t k = 0; k < n; k++) {
		std::string a; ls >> a;
		std::string rec;
		char tmp[400];
		if (a[0] == 'C') {
			Cfg c; long w; char rd = 0;
			sscanf(a.c_str(), "C:%zu/%zu/%d/%d/%d:%ld%c", &c.chunk, &c.stride, &c.fmt, &c.name, &c.src, &w, &rd);
			Made m;
			m.prepare(c, w, rd == 'r');
			pending = o + (first ? "" : ",") + m.rec + "\"ok\":0,\"res\":0,\"bin\":0,\"src\":0,\"own\":0}],";
			m.make(id, full);
			m.note(h, full);
			rec = m.judge(id, h);
		} else if (a[0] == 'N') { // one is constructed, others (each within the one before) during its file operations
			std::vector<Made> ms;
			for (size_t p = 1; p < a.size();) {
				Cfg c; long at = 0; int used = 0;
				if (sscanf(a.c_str() + p, ":%zu/%zu/%d/%d/%d@%ld%n", &c.chunk, &c.stride, &c.fmt, &c.name, &c.src, &at, &used) < 6) break;
				p += used;
				ms.emplace_back();
				ms.back().prepare(c, -1, false);
				ms.back().at = at;
			}
			pending = o + (first ? "" : ",") + ms[0].rec + "\"ok\":0,\"res\":0,\"bin\":0,\"src\":0,\"own\":0}],";
			nest(ms, 0, id, full, h);
			for (size_t i = 0; i < ms.size() && ms[i].tried; i++) rec += (i ? "," : "") + ms[i].judge(id, h);
		} else {
			bytes f = slurp(cache_file());
			int arg = 0;
			if (a[0] == 'D') unlink(cache_file().c_str());
			else if (a[0] == 'T') {
				long pm = atol(a.c_str() + 2);
				// short files are mostly metadata: small values count bytes
				f.resize(pm < 160 ? std::min<size_t>(f.size(), pm) : f.size() * (pm - 160) / 840);
				spill(cache_file(), f);
			} else if (a[0] == 'Z') {
				int field; long v; sscanf(a.c_str(), "Z:%d:%ld", &field, &v);
				static const size_t off[] = {0, 8, 16, 20, 24, 32}; // chunk, stride, format, hash, devices, name length
				static const size_t len[] = {8, 8, 4, 4, 8, 8};
				uint64_t val = v == 0 ? 0 : v == 1 ? ~0ull : v == 2 ? 1ull << 62 : v == 3 ? 0x123456789ull : v == 4 ? 1ull << 32 : 7;
				size_t at, l = 8;
				if (field < 6) { at = off[field]; l = len[field]; }
				else {
					uint64_t nl = 0;
					if (f.size() >= 40) memcpy(&nl, f.data() + 32, 8);
					at = field == 6 ? 40 : 40 + nl; // name, size of the binary
					if (field == 6) l = 4;
				}
				if (at + l <= f.size()) memcpy(f.data() + at, &val, l);
				spill(cache_file(), f);
			} else if (a[0] == 'B') {
				uint64_t nl = 0;
				if (f.size() >= 40) memcpy(&nl, f.data() + 32, 8);
				size_t at = 48 + nl;
				if (at < f.size()) {
					if (a[2] == '0') for (size_t i = at; i < f.size(); i++) f[i] = (uint8_t)g();
					else for (size_t i = at; i < f.size() && i < at + 16; i++) f[i] = 0;
				}
				spill(cache_file(), f);
			} else if (a[0] == 'J') {
				f.resize(atol(a.c_str() + 2));
				for (auto &x : f) x = (uint8_t)g();
				spill(cache_file(), f);
			}
			snprintf(tmp, sizeof tmp, "{\"act\":\"%c\",\"cfg\":[0,0,0,0,0],\"w\":0,\"r\":0,\"arg\":%d,\"base\":0,\"ok\":1,\"res\":0,\"bin\":0,\"src\":0,\"own\":0}", a[0], arg);
			rec = tmp;
		}
		o += (first ? "" : ",") + rec;
		first = false;
	}
	pending.clear();
	emit(o + "],\"fault\":0}");
}

int main(int argc, char **argv)
{
	report = fopen(argv[1], "a");
	unsigned timeout = argc > 2 ? atoi(argv[2]) : 60;
	static uint8_t altstack[1 << 16];
	stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
	sigaltstack(&ss, nullptr);
	struct sigaction sa{};
	sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
	std::set_terminate([] { abort(); });
	std::string sub = "drv" + std::to_string(getpid());
	std::string dir = std::string(getenv("VP_SCRATCH")) + "/" + sub;
	mkdir(dir.c_str(), 0755);
	setenv("VP_SUBDIR", sub.c_str(), 1);
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream ls(line);
		std::string t, id;
		ls >> t >> id;
		alarm(timeout);
		if (t == "K") job_K(ls, id);
		else if (t == "F") job_F(ls, id);
		else if (t == "X") run_history(ls, id);
		alarm(0);
	}
	_exit(0);
}
