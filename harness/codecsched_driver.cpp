// Calls of the codecs from several threads under the controlled scheduler: a switch is possible at every access of the
// library to static data, and at every synchronisation.  Afterwards the same calls are made one after another.
// Job lines:  T id seed policy n {C|D}{1|2} hex ...      (n threads, one call each; 1: reference, 2: optimized)
#include "vpsched.h"
#include <lib842/sw.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
using std::string;
using std::vector;
typedef vector<uint8_t> bytes;
extern "C" char __data_start, _end;

static string recfile, jobid;
static int timeout_s = 60;
struct Call { int ret = 0; size_t olen = 0, cap = 0; int fault = 0; uint8_t *buf = nullptr; };
struct Item { char t; int impl; bytes in; uint8_t *inbuf; Call c[3]; };
static vector<Item> items;
static bool written;

static string list(const uint8_t *p, size_t n) {
	string s = "[";
	for (size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(p[i]);
	return s + "]";
}
static void emit(int fault) {
	if (written) return;
	written = true;
	string all;
	for (size_t k = 0; k < items.size(); k++) {
		Item &x = items[k];
		string calls, outs;
		vector<string> seen;
		for (auto &c : x.c) {
			int idx = 0, f = c.fault ? c.fault : fault;
			if (!f && c.ret == 0 && c.olen > c.cap) f = 5;
			if (!f && c.ret == 0) {
				string o = list(c.buf, c.olen);
				size_t j = 0;
				while (j < seen.size() && seen[j] != o) j++;
				if (j == seen.size()) seen.push_back(o);
				idx = j + 1;
			}
			calls += (calls.empty() ? "" : ",") + string("{\"impl\":") + std::to_string(x.impl) + ",\"cap\":" + std::to_string(c.cap) + ",\"ret\":" + std::to_string(f ? -5 : c.ret) +
				 ",\"olen\":" + std::to_string(f ? 0 : c.olen) + ",\"idx\":" + std::to_string(idx) + ",\"fault\":" + std::to_string(f) + ",\"ia\":0,\"oa\":0,\"amp\":" + std::to_string(idx) + "}";
			if (f) break;
		}
		for (auto &o : seen) outs += (outs.empty() ? "" : ",") + o;
		all += string("{\"t\":\"") + x.t + "\",\"id\":\"" + jobid + "." + std::to_string(k) + "\",\"in\":" + list(x.in.data(), x.in.size()) + ",\"calls\":[" + calls + "],\"outs\":[" + outs +
		       "],\"cost\":0,\"dec\":[],\"decouts\":[]}\n";
	}
	int fd = open(recfile.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (write(fd, all.data(), all.size()) < 0) {}
	close(fd);
}
static void on_signal(int s) {
	if (written) _exit(79);
	sched::end();
	emit(s == SIGALRM ? 2 : 1);
	_exit(81);
}
static void on_stuck(const char *) { emit(2); _exit(82); }

static void call(Item &x, int n) {
	Call &c = x.c[n];
	size_t l = c.cap;
	auto f = x.t == 'C' ? (x.impl == 1 ? sw842_compress : optsw842_compress) : (x.impl == 1 ? sw842_decompress : optsw842_decompress);
	c.ret = f(x.inbuf, x.in.size(), c.buf, &l);
	c.olen = l;
}
static uint8_t *aligned(size_t n) {
	uint8_t *p = (uint8_t *)aligned_alloc(64, (n + 127) / 64 * 64);
	memset(p, 0x5a, (n + 127) / 64 * 64);
	return p;
}
static void child(const string &line) {
	std::istringstream ss(line);
	string t, seed, pol;
	size_t n;
	ss >> t >> jobid >> seed >> pol >> n;
	items.resize(n);
	for (auto &x : items) {
		string k, h;
		ss >> k >> h;
		x.t = k[0];
		x.impl = k[1] - '0';
		if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) x.in.push_back(strtoul(h.substr(i, 2).c_str(), nullptr, 16));
		x.inbuf = aligned(x.in.size());
		if (!x.in.empty()) memcpy(x.inbuf, x.in.data(), x.in.size());
		for (auto &c : x.c) { c.cap = x.t == 'C' ? x.in.size() * 2 + 64 : 32768; c.buf = aligned(c.cap); }
	}
	for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(s, on_signal);
	alarm(timeout_s);
	cpu_set_t one;
	CPU_ZERO(&one);
	CPU_SET(sched_getcpu(), &one);
	sched_setaffinity(0, sizeof one, &one);
	sched::watch(&__data_start, &_end - &__data_start);
	sched::begin(strtoull(seed.c_str(), nullptr, 10), atoi(pol.c_str()), 2000, on_stuck);
	{
		vector<std::thread> v;
		for (auto &x : items) v.emplace_back([&x] { call(x, 0); call(x, 1); });
		for (auto &th : v) th.join();
	}
	sched::end();
	for (auto &x : items) call(x, 2);
	emit(0);
	_exit(0);
}
int main(int argc, char **argv) {
	recfile = argv[1];
	if (argc > 2) timeout_s = atoi(argv[2]);
	if (!freopen("/dev/null", "w", stderr)) {}
	string line;
	int lost = 0;
	while (getline(std::cin, line)) {
		if (line.empty()) continue;
		pid_t p = fork();
		if (p == 0) child(line);
		int st;
		waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 81 || WEXITSTATUS(st) == 82))) {
			std::istringstream ss(line);
			string t;
			ss >> t >> jobid;
			items.assign(1, Item{'D', 1, {}, nullptr, {}});
			written = false;
			emit(1);
		}
		if (++lost > 5) break;
	}
	return 0;
}
