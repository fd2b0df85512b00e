// The program cache of the OpenCL decompressor has a fixed path in /tmp: redirect everything
// that names it (and nothing else) into the scratch directory of the run, and let the harness
// make opening or writing it fail.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace redirect {
static bool deny_read, deny_write;   // opening the cache fails
static long write_budget = -1;       // bytes which can still be written to it, -1: any number
static int cache_fd = -1;            // where it is being written
static int read_fd = -1;             // where it is being read
static void (*step)(const char *op); // called before each operation on the cache
static void before(const char *op) { if (step != nullptr) step(op); }
static bool is_cache(const char *path) { return path != nullptr && strncmp(path, "/tmp/cl842", 10) == 0; }
static std::string scratch_path(const char *path)
{
	const char *dir = getenv("VP_SCRATCH");
	if (dir != nullptr && is_cache(path)) {
		const char *sub = getenv("VP_SUBDIR");
		return std::string(dir) + (sub ? std::string("/") + sub : "") + (path + 4);
	}
	return path;
}
static bool denied(const char *path, bool writing)
{
	if (!is_cache(path) || !(writing ? deny_write : deny_read)) return false;
	errno = EACCES;
	return true;
}
template <class F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
static FILE *do_fopen(const char *name, const char *path, const char *mode)
{
	bool w = mode[0] != 'r' || strchr(mode, '+') != nullptr;
	if (is_cache(path)) before(w ? "create" : "open");
	if (denied(path, w)) return nullptr;
	FILE *f = real<FILE *(*)(const char *, const char *)>(name)(scratch_path(path).c_str(), mode);
	if (f != nullptr && is_cache(path)) (w ? cache_fd : read_fd) = fileno(f);
	return f;
}
static int do_open(const char *name, const char *path, int flags, mode_t mode)
{
	bool w = (flags & O_ACCMODE) != O_RDONLY;
	if (is_cache(path)) before(w ? "create" : "open");
	if (denied(path, w)) return -1;
	int fd = real<int (*)(const char *, int, ...)>(name)(scratch_path(path).c_str(), flags, mode);
	if (fd >= 0 && is_cache(path)) (w ? cache_fd : read_fd) = fd;
	return fd;
}
} // namespace redirect

extern "C" {
FILE *fopen(const char *path, const char *mode) { return redirect::do_fopen("fopen", path, mode); }
FILE *fopen64(const char *path, const char *mode) { return redirect::do_fopen("fopen64", path, mode); }
int open(const char *path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
	return redirect::do_open("open", path, flags, m);
}
int open64(const char *path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
	return redirect::do_open("open64", path, flags, m);
}
int rename(const char *a, const char *b) noexcept
{
	if (redirect::is_cache(b)) redirect::before("rename");
	if (redirect::denied(b, true)) return -1;
	return redirect::real<int (*)(const char *, const char *)>("rename")(redirect::scratch_path(a).c_str(), redirect::scratch_path(b).c_str());
}
int unlink(const char *a) noexcept
{
	return redirect::real<int (*)(const char *)>("unlink")(redirect::scratch_path(a).c_str());
}
int remove(const char *a) noexcept
{
	return redirect::real<int (*)(const char *)>("remove")(redirect::scratch_path(a).c_str());
}
ssize_t read(int fd, void *buf, size_t n)
{
	static auto r = redirect::real<ssize_t (*)(int, void *, size_t)>("read");
	if (fd >= 0 && fd == redirect::read_fd) redirect::before("read");
	return r(fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n)
{
	static auto r = redirect::real<ssize_t (*)(int, const void *, size_t)>("write");
	if (fd >= 0 && fd == redirect::cache_fd) redirect::before("write");
	if (fd >= 0 && fd == redirect::cache_fd && redirect::write_budget >= 0) {
		if (redirect::write_budget == 0) { errno = ENOSPC; return -1; }
		if ((long)n > redirect::write_budget) n = redirect::write_budget;
		ssize_t k = r(fd, buf, n);
		if (k > 0) redirect::write_budget -= k;
		return k;
	}
	return r(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	static auto r = redirect::real<ssize_t (*)(int, const struct iovec *, int)>("writev");
	if (fd >= 0 && fd == redirect::cache_fd) redirect::before("write");
	if (fd >= 0 && fd == redirect::cache_fd && redirect::write_budget >= 0) {
		for (int i = 0; i < c; i++)
			if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
		return 0;
	}
	return r(fd, v, c);
}
int fclose(FILE *f)
{
	static auto r = redirect::real<int (*)(FILE *)>("fclose");
	int fd = fileno(f);
	if (fd == redirect::cache_fd) redirect::before("close");
	int k = r(f);
	if (fd == redirect::cache_fd) redirect::cache_fd = -1;
	if (fd == redirect::read_fd) redirect::read_fd = -1;
	return k;
}
int close(int fd)
{
	static auto r = redirect::real<int (*)(int)>("close");
	if (fd >= 0 && fd == redirect::cache_fd) redirect::before("close");
	if (fd == redirect::cache_fd) redirect::cache_fd = -1;
	if (fd == redirect::read_fd) redirect::read_fd = -1;
	return r(fd);
}
}
