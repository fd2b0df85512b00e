// A stand-in for the vendor's header of the same name: unsigned integers of any width with bit ranges.
#ifndef VP_AP_INT_H
#define VP_AP_INT_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <type_traits>
#include <utility>

template <int W> struct ap_uint;

template <int W> struct ap_range {
	ap_uint<W> &v;
	int hi, lo;
	ap_range(ap_uint<W> &v, int hi, int lo) : v(v), hi(hi), lo(lo) {}
	ap_range(const ap_range &) = default;
	int length() const { return hi - lo + 1; }
	unsigned _BitInt(W) get() const;
	void set(unsigned _BitInt(W) x);
	ap_range &operator=(const ap_range &o) { set(o.get()); return *this; }
	template <int V> ap_range &operator=(const ap_range<V> &o) { set((unsigned _BitInt(W))o.get()); return *this; }
	template <int V> ap_range &operator=(const ap_uint<V> &o);
	template <class T, std::enable_if_t<std::is_integral<T>::value, int> = 0> ap_range &operator=(T o) { set((unsigned _BitInt(W))o); return *this; }
	operator unsigned long long() const { return (unsigned long long)get(); }
	uint64_t to_uint64() const { return (uint64_t)get(); }
	unsigned to_uint() const { return (unsigned)get(); }
	int to_int() const { return (int)get(); }
};

template <int W> struct ap_uint {
	typedef unsigned _BitInt(W) raw;
	typedef std::conditional_t<(W < 64), long long, unsigned long long> value_type;
	static const int width = W;
	raw v;

	ap_uint() : v(0) {}
	ap_uint(const ap_uint &) = default;
	ap_uint &operator=(const ap_uint &) = default;
	template <int V> ap_uint(const ap_uint<V> &o) : v((raw)o.v) {}
	template <int V> ap_uint(const ap_range<V> &o) : v((raw)o.get()) {}
	template <class T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value, int> = 0> ap_uint(T o) : v((raw)o) {}
	static ap_uint of(raw x) { ap_uint r; r.v = x; return r; }

	operator value_type() const { return (value_type)v; }

	ap_range<W> operator()(int hi, int lo) { return ap_range<W>(*this, hi, lo); }
	ap_range<W> range(int hi, int lo) { return ap_range<W>(*this, hi, lo); }
	ap_range<W> range() { return ap_range<W>(*this, W - 1, 0); }
	ap_uint<W> operator()(int hi, int lo) const { ap_uint c(*this); return ap_uint<W>(ap_range<W>(c, hi, lo)); }
	ap_uint<W> range(int hi, int lo) const { return (*this)(hi, lo); }
	ap_range<W> operator[](int b) { return ap_range<W>(*this, b, b); }
	bool operator[](int b) const { return test(b); }
	ap_range<W> bit(int b) { return ap_range<W>(*this, b, b); }
	bool test(int b) const { return b >= 0 && b < W && ((v >> b) & 1); }
	int length() const { return W; }

	static raw shl(raw x, long long n) { return n >= W ? (raw)0 : n < 0 ? shr(x, -n) : (raw)(x << (int)n); }
	static raw shr(raw x, long long n) { return n >= W ? (raw)0 : n < 0 ? shl(x, -n) : (raw)(x >> (int)n); }
	template <class T> ap_uint &operator<<=(const T &n) { v = shl(v, (long long)n); return *this; }
	template <class T> ap_uint &operator>>=(const T &n) { v = shr(v, (long long)n); return *this; }
#define VP_ASSIGN(op)                                                                                   \
	template <int V> ap_uint &operator op##=(const ap_uint<V> &o) { v = (raw)(v op (raw)o.v); return *this; }       \
	template <int V> ap_uint &operator op##=(const ap_range<V> &o) { v = (raw)(v op (raw)o.get()); return *this; }  \
	template <class T, std::enable_if_t<std::is_integral<T>::value, int> = 0> ap_uint &operator op##=(T o) { v = (raw)(v op (raw)o); return *this; }
	VP_ASSIGN(+) VP_ASSIGN(-) VP_ASSIGN(&) VP_ASSIGN(|) VP_ASSIGN(^)
#undef VP_ASSIGN
	ap_uint &operator++() { v = (raw)(v + (raw)1); return *this; }
	ap_uint &operator--() { v = (raw)(v - (raw)1); return *this; }
	ap_uint operator++(int) { ap_uint o(*this); ++*this; return o; }
	ap_uint operator--(int) { ap_uint o(*this); --*this; return o; }
	ap_uint operator~() const { return of((raw)~v); }
	bool operator!() const { return v == 0; }
	unsigned char to_uchar() const { return (unsigned char)v; }
	uint64_t to_uint64() const { return (uint64_t)v; }
	int64_t to_int64() const { return (int64_t)v; }
	unsigned to_uint() const { return (unsigned)v; }
	int to_int() const { return (int)v; }
	unsigned long to_ulong() const { return (unsigned long)v; }
	bool to_bool() const { return v != 0; }
};

template <int W> unsigned _BitInt(W) ap_range<W>::get() const
{
	typedef unsigned _BitInt(W) raw;
	if (hi < lo || hi >= W || lo < 0) { extern void vp_bad_range(); vp_bad_range(); return 0; }
	raw x = ap_uint<W>::shr(v.v, lo);
	if (hi - lo + 1 < W)
		x &= (raw)(ap_uint<W>::shl((raw)1, hi - lo + 1) - (raw)1);
	return x;
}
template <int W> void ap_range<W>::set(unsigned _BitInt(W) x)
{
	typedef unsigned _BitInt(W) raw;
	if (hi < lo || hi >= W || lo < 0) { extern void vp_bad_range(); vp_bad_range(); return; }
	raw m = hi - lo + 1 < W ? (raw)(ap_uint<W>::shl((raw)1, hi - lo + 1) - (raw)1) : (raw)~(raw)0;
	v.v = (raw)((v.v & (raw)~ap_uint<W>::shl(m, lo)) | ap_uint<W>::shl((raw)(x & m), lo));
}
template <int W> template <int V> ap_range<W> &ap_range<W>::operator=(const ap_uint<V> &o) { set((unsigned _BitInt(W))o.v); return *this; }

template <int W, class T> ap_uint<W> operator<<(const ap_uint<W> &a, const T &n) { return ap_uint<W>::of(ap_uint<W>::shl(a.v, (long long)n)); }
template <int W, class T> ap_uint<W> operator>>(const ap_uint<W> &a, const T &n) { return ap_uint<W>::of(ap_uint<W>::shr(a.v, (long long)n)); }
#define VP_BIN(op)                                                                        \
	template <int A, int B> ap_uint<(A > B ? A : B)> operator op(const ap_uint<A> &a, const ap_uint<B> &b) \
	{ typedef ap_uint<(A > B ? A : B)> R; return R::of((typename R::raw)((typename R::raw)a.v op (typename R::raw)b.v)); }
VP_BIN(&) VP_BIN(|) VP_BIN(^)
#undef VP_BIN
#define VP_CMP(op)                                                                        \
	template <int A, int B> bool operator op(const ap_uint<A> &a, const ap_uint<B> &b) \
	{ typedef unsigned _BitInt(A > B ? A : B) R; return (R)a.v op (R)b.v; }
VP_CMP(==) VP_CMP(!=) VP_CMP(<) VP_CMP(<=) VP_CMP(>) VP_CMP(>=)
#undef VP_CMP
template <int A, int B> ap_uint<A + B> operator,(const ap_uint<A> &a, const ap_uint<B> &b)
{ typedef ap_uint<A + B> R; return R::of((typename R::raw)(R::shl((typename R::raw)a.v, B) | (typename R::raw)b.v)); }
template <int A, int B> ap_uint<A + B> operator,(const ap_range<A> &a, const ap_range<B> &b)
{ typedef ap_uint<A + B> R; return R::of((typename R::raw)(R::shl((typename R::raw)a.get(), b.length()) | (typename R::raw)b.get())); }
template <int A, int B> ap_uint<A + B> operator,(const ap_uint<A> &a, const ap_range<B> &b)
{ typedef ap_uint<A + B> R; return R::of((typename R::raw)(R::shl((typename R::raw)a.v, b.length()) | (typename R::raw)b.get())); }
#endif
