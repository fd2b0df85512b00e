// Streams with their threads spread among NUMA nodes, on made-up machines.
//   N <id> <available> <threads> <k: the k-th confinement fails, 0 none> <node>...
// node: <memory allowed>:<processor>.<processor>...  (no processors: "-")
// Every job runs in a process of its own: what the machine looks like may be remembered.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <condition_variable>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <numa.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <lib842/sw.h>

using namespace lib842::stream;

struct Node { int mem; std::vector<int> cpus; };
static std::vector<Node> nodes;
static int avail, nthreads, failAt, pinCalls;
static std::string ev;
static std::mutex evMutex;
static std::map<unsigned long, int> index_;
static bool counting;
static const int POSSIBLE = 512;

static void event(const char *fmt, ...)
{
	char b[8192];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	std::lock_guard<std::mutex> l(evMutex);
	ev += (ev.empty() ? "" : ",") + std::string(b);
}

extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
	static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
	int r = real(t, a, f, x);
	if (!r && counting) {
		std::lock_guard<std::mutex> l(evMutex);
		int k = (int)index_.size() + 1;
		index_[(unsigned long)*t] = k;
	}
	return r;
}

extern "C" {
int __wrap_numa_available(void) { return avail ? 0 : -1; }
int __wrap_numa_max_node(void) { return (int)nodes.size() - 1; }
int __wrap_numa_max_possible_node(void) { return 63; }
int __wrap_numa_num_possible_nodes(void) { return 64; }
int __wrap_numa_num_configured_nodes(void) { return (int)nodes.size(); }
int __wrap_numa_num_possible_cpus(void) { return POSSIBLE; }
static int highest() { int h = 0; for (auto &n : nodes) for (int c : n.cpus) if (c > h) h = c; return h; }
static int online() { int h = 0; for (auto &n : nodes) h += n.cpus.size(); return h; }
int __wrap_numa_num_configured_cpus(void) { return highest() + 1; }
int __wrap_get_nprocs(void) { return online(); }
int __wrap_get_nprocs_conf(void) { return highest() + 1; }
long __real_sysconf(int);
long __wrap_sysconf(int n) { return n == _SC_NPROCESSORS_ONLN ? online() : n == _SC_NPROCESSORS_CONF ? highest() + 1 : __real_sysconf(n); }
struct bitmask *__wrap_numa_allocate_cpumask(void) { return numa_bitmask_alloc(POSSIBLE); }
struct bitmask *__wrap_numa_allocate_nodemask(void) { return numa_bitmask_alloc(64); }
struct bitmask *__wrap_numa_get_mems_allowed(void)
{
	struct bitmask *b = numa_bitmask_alloc(64);
	for (size_t k = 0; k < nodes.size(); k++)
		if (nodes[k].mem) numa_bitmask_setbit(b, k);
	return b;
}
int __wrap_numa_node_to_cpus(int n, struct bitmask *b)
{
	if (n < 0 || n >= (int)nodes.size()) { errno = ENOENT; return -1; }
	if (b->size < (unsigned)POSSIBLE) { errno = ERANGE; return -1; }
	numa_bitmask_clearall(b);
	for (int c : nodes[n].cpus) numa_bitmask_setbit(b, c);
	return 0;
}
int __wrap_numa_node_of_cpu(int c)
{
	for (size_t k = 0; k < nodes.size(); k++)
		for (int d : nodes[k].cpus)
			if (c == d) return k;
	errno = EINVAL;
	return -1;
}
int __wrap_pthread_setaffinity_np(pthread_t t, size_t size, const cpu_set_t *set)
{
	std::string cpus;
	int any = 0, th;
	{
		std::lock_guard<std::mutex> l(evMutex);
		th = index_.count((unsigned long)t) ? index_[(unsigned long)t] : 0;
	}
	for (int c = 0; c < (int)(8 * size) && c < 4096; c++)
		if (CPU_ISSET_S(c, size, set)) {
			cpus += (cpus.empty() ? "" : ",") + std::to_string(c);
			for (auto &n : nodes)
				for (int d : n.cpus) any |= c == d;
		}
	int rc = ++pinCalls == failAt ? EPERM : any ? 0 : EINVAL;
	event("{\"k\":\"pin\",\"th\":%d,\"cpus\":[%s],\"rc\":%d,\"ok\":0}", th, cpus.c_str(), rc);
	return rc;
}
}

static std::ofstream nowhere("/dev/null");
static std::ostream &quiet() { return nowhere; }

static void machine()
{
	const size_t size = 2 * BLOCK_SIZE;
	std::vector<uint8_t> in(size), out(size, 0xaa);
	for (size_t k = 0; k < size; k++) in[k] = (k / CHUNK_SIZE) % 3 ? (uint8_t)(k >> 9) : (uint8_t)((k * 2654435761u) >> 13);
	std::vector<Block> blocks;
	for (int round = 0; round < 2; round++) {
		blocks.clear();
		index_.clear();
		event("{\"k\":\"new\",\"th\":0,\"cpus\":[],\"rc\":0,\"ok\":0}");
		counting = true;
		DataCompressionStream c(*get_sw842_implementation(), nthreads, thread_policy::spread_threads_among_numa_nodes, quiet, quiet);
		counting = false;
		event("{\"k\":\"made\",\"th\":0,\"cpus\":[],\"rc\":0,\"ok\":0}");
		c.wait_until_ready();
		std::mutex m;
		std::condition_variable cv;
		int done = 0;
		bool ok = false;
		c.start(in.data(), in.size(), [&](Block &&b) { std::lock_guard<std::mutex> l(m); blocks.push_back(std::move(b)); });
		c.finalize(false, [&](bool r) { std::lock_guard<std::mutex> l(m); ok = r; done = 1; cv.notify_all(); });
		std::unique_lock<std::mutex> l(m);
		cv.wait(l, [&] { return done; });
		event("{\"k\":\"used\",\"th\":0,\"cpus\":[],\"rc\":0,\"ok\":%d}", ok && blocks.size() >= size / BLOCK_SIZE);
	}
	index_.clear();
	event("{\"k\":\"new\",\"th\":0,\"cpus\":[],\"rc\":0,\"ok\":0}");
	counting = true;
	DataDecompressionStream d(*get_sw842_implementation(), nthreads, thread_policy::spread_threads_among_numa_nodes, quiet, quiet);
	counting = false;
	event("{\"k\":\"made\",\"th\":0,\"cpus\":[],\"rc\":0,\"ok\":0}");
	d.wait_until_ready();
	std::mutex m;
	std::condition_variable cv;
	int done = 0;
	bool ok = true;
	d.start(out.data());
	for (auto &b : blocks)
		ok &= d.push_block(std::move(b));
	d.finalize(false, [&](bool r) { std::lock_guard<std::mutex> l(m); ok &= r; done = 1; cv.notify_all(); });
	std::unique_lock<std::mutex> l(m);
	cv.wait(l, [&] { return done; });
	event("{\"k\":\"used\",\"th\":0,\"cpus\":[],\"rc\":0,\"ok\":%d}", ok && in == out);
}

int main(int argc, char **argv)
{
	FILE *rep = fopen(argv[1], "w");
	int limit = argc > 2 ? atoi(argv[2]) : 20;
	std::string line;
	char buf[65536];
	while (fgets(buf, sizeof buf, stdin)) {
		std::istringstream s(buf);
		std::string t, id, node;
		if (!(s >> t >> id >> avail >> nthreads >> failAt) || t != "N") continue;
		nodes.clear();
		std::string js;
		while (s >> node) {
			Node n;
			n.mem = node[0] == '1';
			std::istringstream c(node.substr(2));
			std::string x;
			while (std::getline(c, x, '.'))
				if (x != "-") n.cpus.push_back(atoi(x.c_str()));
			nodes.push_back(n);
			js += (js.empty() ? "" : ",") + std::string("{\"mem\":") + (n.mem ? "1" : "0") + ",\"cpus\":[";
			for (size_t k = 0; k < n.cpus.size(); k++) js += (k ? "," : "") + std::to_string(n.cpus[k]);
			js += "]}";
		}
		char head[65536];
		snprintf(head, sizeof head, "{\"t\":\"N\",\"id\":\"%s\",\"nodes\":[%s],\"avail\":%d,\"n\":%d,\"fail\":%d", id.c_str(), js.c_str(), avail, nthreads, failAt);
		int p[2];
		if (pipe(p)) return 1;
		fflush(rep);
		pid_t child = fork();
		if (!child) {
			close(p[0]);
			alarm(limit);
			int dn = open("/dev/null", 1);
			dup2(dn, 2);
			machine();
			std::string r = ev + "\n";
			for (size_t k = 0; k < r.size();) {
				ssize_t w = write(p[1], r.data() + k, r.size() - k);
				if (w <= 0) break;
				k += w;
			}
			_exit(0);
		}
		close(p[1]);
		std::string got;
		ssize_t r;
		while ((r = read(p[0], buf, sizeof buf)) > 0) got.append(buf, r);
		close(p[0]);
		int st = 0;
		waitpid(child, &st, 0);
		bool whole = st == 0 && !got.empty() && got.back() == '\n';
		if (whole) got.pop_back();
		fprintf(rep, "%s,\"ev\":[%s],\"fault\":%d}\n", head, whole ? got.c_str() : "", whole ? 0 : 1);
		fflush(rep);
	}
	return 0;
}
