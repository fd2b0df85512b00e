// A stand-in for the vendor's header of the same name: a queue.  Reading from an empty one would block the hardware for ever.
#ifndef VP_HLS_STREAM_H
#define VP_HLS_STREAM_H
#include <deque>
struct vp_hls_fault { int what; };
namespace hls {
template <class T> class stream {
	std::deque<T> q;
public:
	unsigned long reads = 0, writes = 0;
	stream() {}
	stream(const char *) {}
	stream(const stream &) = delete;
	stream &operator=(const stream &) = delete;
	T read() {
		if (q.empty()) throw vp_hls_fault{1};
		T x = q.front();
		q.pop_front();
		reads++;
		return x;
	}
	void read(T &x) { x = read(); }
	bool read_nb(T &x) { if (q.empty()) return false; x = read(); return true; }
	void write(const T &x) {
		if (++writes > 100000) throw vp_hls_fault{2};
		q.push_back(x);
	}
	bool write_nb(const T &x) { write(x); return true; }
	stream &operator>>(T &x) { x = read(); return *this; }
	stream &operator<<(const T &x) { write(x); return *this; }
	bool empty() const { return q.empty(); }
	bool full() const { return false; }
	unsigned size() const { return q.size(); }
};
}
#endif
