// Calls with inputs, outputs or capacities of 4 GiB and more, recorded in runs for spec/LongTrace.tla.
//
// Jobs (one per line on stdin), each executed in a process of its own:
//   E <id> <impl> <blocks> <decoders> <capacity> <rest hex|-> {<block>:<hex of 8 bytes>}*
//        compress <blocks> blocks, zero but for those given, and `rest`; then decode
//   G <id> <capacity> <decoders> <extra> {<op>:<arg>,<arg>..*<n>}*
//        decode a stream made of runs of operations, followed by `extra` bytes that count as input
//        arguments: dHEX (data), iN (index, or count of a repeat), sHEX (short data), cHEX (checksum)
// decoders: a string of impl digits, or "-"; capacities and sizes in bytes
#include <lib842/sw.h>

#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

static uint8_t *reserve(size_t n)
{
	// flush with an inaccessible page at the end
	size_t size = (n + 4095) / 4096 * 4096 + 4096;
	auto *m = (uint8_t *)mmap(nullptr, size + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	// 77: no such amount of address space here, which says nothing about the library
	if (m == MAP_FAILED) { perror("mmap"); _exit(77); }
	if (mprotect(m, size, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(77); }
	return (uint8_t *)((uintptr_t)(m + size - n) & ~(uintptr_t)7);
}
static std::string unhex(const std::string &s)
{
	std::string r;
	if (s != "-")
		for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
	return r;
}
static std::string list(const uint8_t *p, size_t n)
{
	std::string r = "[";
	for (size_t i = 0; i < n; i++) r += (i ? "," : "") + std::to_string(p[i]);
	return r + "]";
}
// (TLC's integers hold no more blocks than this, and nothing that is produced here comes near)
static const uint64_t MOST = ((uint64_t)1 << 31) - 1;
static std::string pair(uint64_t n) { n = n / 8 > MOST ? 8 * MOST : n; return "[" + std::to_string(n / 8) + "," + std::to_string(n % 8) + "]"; }
// What the specification has to see of data: runs of equal blocks (no more than a thousand: then something is wrong anyway)
static std::string runs(const uint8_t *p, size_t n)
{
	std::string r = "[";
	size_t blocks = n / 8, count = 0;
	for (size_t i = 0; i < blocks && count < 1000; count++) {
		uint64_t v, w;
		memcpy(&v, p + 8 * i, 8);
		size_t j = i + 1;
		while (j < blocks && (memcpy(&w, p + 8 * j, 8), w == v)) j++;
		r += (i ? ",{\"n\":" : "{\"n\":") + std::to_string(j - i) + ",\"v\":" + list(p + 8 * i, 8) + "}";
		i = j;
	}
	return r + "],\"rest\":" + list(p + 8 * blocks, n % 8);
}

// ---------------------------------------------------------------- bits
static const char *const templates[26] = {"D8", "D4D2I2", "D4I2D2", "D4I2I2", "D4I4", "D2I2D4", "D2I2D2I2", "D2I2I2D2", "D2I2I2I2", "D2I2I4",
	"I2D2D4", "I2D4I2", "I2D2I2D2", "I2D2I2I2", "I2D2I4", "I2I2D4", "I2I2D2I2", "I2I2I2D2", "I2I2I2I2", "I2I2I4", "I4D4", "I4D2I2", "I4I2D2", "I4I2I2", "I4I4", "I8"};
struct Reader {
	const uint8_t *p;
	size_t bits, pos = 0;
	bool over = false;
	uint64_t get(unsigned n)
	{
		uint64_t r = 0;
		if (pos + n > bits) { over = true; pos = bits; return 0; }
		for (; n > 0;) {
			unsigned left = 8 - pos % 8, k = n < left ? n : left;
			r = r << k | ((p[pos / 8] >> (left - k)) & ((1u << k) - 1));
			pos += k, n -= k;
		}
		return r;
	}
	std::string data(unsigned n)
	{
		std::string r = "[";
		for (unsigned i = 0; i < n; i++) r += (i ? "," : "") + std::to_string(get(8));
		return r + "]";
	}
};
// The stream in runs of equal operations
static std::string parse(const uint8_t *p, size_t n)
{
	Reader b{p, 8 * n};
	std::string r = "[", last;
	size_t count = 0, ops = 0;
	uint64_t lastkey = ~(uint64_t)0, lastargs = 0;
	unsigned lastop = 99;
	auto flush = [&] { if (count) r += (r.size() > 1 ? ",{" : "{") + last + ",\"n\":" + std::to_string(count) + "}", ops++; };
	for (bool end = false; !end && !b.over && ops < 3000;) {
		unsigned op = b.get(5);
		if (b.over) break;
		uint64_t key = ~(uint64_t)0, newargs = 0;
		unsigned newop = 99;
		std::string s;
		if (op == 27) {                // by far the most frequent
			unsigned k = b.get(6);
			if (lastkey == (key = 1000 + k)) { count++; continue; }
			s = "[[" + std::to_string(k) + "]]";
		} else if (op == 28) {
			if (lastkey == (key = 2000)) { count++; continue; }
			s = "[]";
		} else if (op < 26) {
			unsigned width = 0;
			for (const char *t = templates[op]; *t; t += 2) width += *t == 'D' ? 8 * (t[1] - '0') : t[1] == '4' ? 9 : 8;
			size_t from = b.pos;
			uint64_t args = b.get(width);
			if (count && lastop == op && lastargs == args && !b.over) { count++; continue; }
			b.pos = from, newop = op, newargs = args;
			s = "[";
			for (const char *t = templates[op]; *t; t += 2) {
				if (s.size() > 1) s += ",";
				s += *t == 'D' ? b.data(t[1] - '0') : "[" + std::to_string(b.get(t[1] == '4' ? 9 : 8)) + "]";
			}
			s += "]";
		} else if (op == 29) {
			unsigned k = b.get(3);
			s = "[" + b.data(k) + "]";
		} else if (op == 30) {
			unsigned hi = b.get(16), lo = b.get(16);
			s = "[[" + std::to_string(hi) + "," + std::to_string(lo) + "]]";
			end = true;
		} else {
			s = "[]", end = true;
		}
		s = "\"op\":" + std::to_string(op) + ",\"a\":" + s;
		flush();
		last = s, count = 1, lastkey = key, lastop = newop, lastargs = newargs;
	}
	flush();
	return r + "]";
}
struct Writer {
	uint8_t *p;
	size_t pos = 0;
	void put(uint64_t v, unsigned n)
	{
		for (; n > 0;) {
			unsigned left = 8 - pos % 8, k = n < left ? n : left;
			p[pos / 8] |= ((v >> (n - k)) & ((1u << k) - 1)) << (left - k);
			pos += k, n -= k;
		}
	}
};
struct Arg { uint64_t v; unsigned n; };

struct Dec { int impl; size_t cap; int ret; size_t olen; std::string out; };
static std::string decode(const uint8_t *in, size_t ilen, size_t cap, const std::string &impls)
{
	std::string r = "[";
	if (impls == "-") return "[]";
	for (char c : impls) {
		uint8_t *out = reserve(cap);
		size_t olen = cap;
		int ret = c == '1' ? sw842_decompress(in, ilen, out, &olen) : optsw842_decompress(in, ilen, out, &olen);
		bool good = ret == 0 && olen <= cap;
		r += (r.size() > 1 ? ",{" : "{") + ("\"impl\":" + std::string(1, c)) + ",\"cap\":" + pair(cap) + ",\"ret\":" + std::to_string(ret) +
		     ",\"olen\":" + pair(olen) + ",\"runs\":" + runs(out, good ? olen : 0) + "}";
		munmap((void *)((uintptr_t)out & ~(uintptr_t)4095), cap / 4096 * 4096);
	}
	return r + "]";
}

static std::string job(std::istringstream &is, const std::string &type)
{
	if (type == "E") {
		int impl; size_t blocks, cap; std::string decs, resthex, spec;
		is >> impl >> blocks >> decs >> cap >> resthex;
		std::string rest = unhex(resthex);
		size_t n = 8 * blocks + rest.size();
		uint8_t *in = reserve(n), *out = reserve(cap);
		memcpy(in + 8 * blocks, rest.data(), rest.size());
		while (is >> spec) {
			size_t c = spec.find(':');
			memcpy(in + 8 * std::stoull(spec.substr(0, c)), unhex(spec.substr(c + 1)).data(), 8);
		}
		std::string before = runs(in, n);
		size_t olen = cap;
		int ret = impl == 1 ? sw842_compress(in, n, out, &olen) : optsw842_compress(in, n, out, &olen);
		bool good = ret == 0 && olen <= cap;
		std::string r = "\"enc\":[{\"impl\":" + std::to_string(impl) + ",\"cap\":" + pair(cap) + ",\"ret\":" + std::to_string(ret) + ",\"olen\":" + pair(olen) + ",\"runs\":" + before + "}]";
		munmap((void *)((uintptr_t)in & ~(uintptr_t)4095), n / 4096 * 4096);
		r += ",\"ops\":" + (good ? parse(out, olen) : "[]");
		r += ",\"dec\":" + (good ? decode(out, olen, n, decs) : "[]");
		return r;
	}
	size_t cap, extra; std::string decs, spec;
	is >> cap >> decs >> extra;
	struct Run { unsigned op; std::vector<Arg> a; uint64_t n; unsigned bits; };
	std::vector<Run> rs;
	size_t total = 0;
	while (is >> spec) {
		size_t c = spec.find(':'), x = spec.find('*');
		Run r{(unsigned)std::stoul(spec.substr(0, c)), {}, std::stoull(spec.substr(x + 1)), 5};
		std::istringstream as(spec.substr(c + 1, x - c - 1));
		const char *t = r.op < 26 ? templates[r.op] : "";
		for (std::string a; std::getline(as, a, ',');) {
			if (a[0] == 'i') {
				unsigned w = r.op == 27 ? 6 : t[1] == '4' ? 9 : 8;
				r.a.push_back({std::stoull(a.substr(1)), w});
			} else {
				std::string b = unhex(a.substr(1));
				if (a[0] == 's') r.a.push_back({b.size(), 3});
				for (char ch : b) r.a.push_back({(uint8_t)ch, 8});
			}
			if (*t) t += 2;
		}
		for (auto &a : r.a) r.bits += a.n;
		total += r.bits * r.n;
		rs.push_back(r);
	}
	size_t len = (total + 63) / 64 * 8;
	uint8_t *in = reserve(len + extra);
	Writer w{in};
	for (auto &r : rs) {
		auto one = [&] { w.put(r.op, 5); for (auto &a : r.a) w.put(a.v, a.n); };
		uint64_t k = 0;
		if (r.n > 64) {
			// eight operations are a whole number of bytes, so the stream repeats itself
			size_t first = w.pos, unit = r.bits, end = first + r.n * r.bits;
			for (; k < 16; k++) one();
			size_t b = w.pos / 8, step = unit;
			while (b < end / 8) {
				size_t m = std::min(step, end / 8 - b);
				memcpy(in + b, in + b - step, m);
				b += m;
				if (m == step && step < (1u << 20)) step *= 2;
				if (b - step < (first + 7) / 8) step = unit;
			}
			if (end % 8) in[b] = in[b - unit] & (uint8_t)(0xff00 >> (end % 8));
			w.pos = end;
			k = r.n;
		}
		for (; k < r.n; k++) one();
	}
	// what has been written is what the specification is told: read it again
	return "\"enc\":[],\"ops\":" + parse(in, len) + ",\"dec\":" + decode(in, len + extra, cap, decs);
}

int main(int argc, char **argv)
{
	FILE *report = fopen(argv[1], "w");
	unsigned timeout = argc > 2 ? atoi(argv[2]) : 300;
	for (std::string line; std::getline(std::cin, line);) {
		std::istringstream is(line);
		std::string type, id;
		is >> type >> id;
		int fd[2];
		if (pipe(fd)) return 3;
		pid_t pid = fork();
		if (pid == 0) {
			close(fd[0]);
			alarm(timeout);
			std::string r = job(is, type);
			size_t at = 0;
			while (at < r.size()) { ssize_t k = write(fd[1], r.data() + at, r.size() - at); if (k <= 0) _exit(4); at += k; }
			_exit(0);
		}
		close(fd[1]);
		std::string r;
		char buf[65536];
		for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) r.append(buf, k);
		close(fd[0]);
		int st = 0;
		waitpid(pid, &st, 0);
		bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
		if (!ok) r = "\"enc\":[],\"ops\":[],\"dec\":[]";
		fprintf(report, "{\"t\":\"%s\",\"id\":\"%s\",\"fault\":%d,%s}\n", type.c_str(), id.c_str(), ok ? 0 : WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st), r.c_str());
		fflush(report);
	}
	fclose(report);
}
