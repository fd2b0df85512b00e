#include "fake842.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
namespace fake {
Hooks hooks;
size_t preferred = 64;
static const uint64_t M = 0x9E3779B97F4A7C15ULL;
void fill(uint8_t *p, size_t n, uint64_t tag) {
	uint64_t *w = (uint64_t *)p;
	for (size_t i = 0; i < n / 8; i++)
		w[i] = (tag + 1) * M + i;
	if (n >= 8) w[0] = tag + 1;
}
bool is(const uint8_t *p, size_t n, uint64_t tag) {
	const uint64_t *w = (const uint64_t *)p;
	if (n >= 8 && w[0] != tag + 1) return false;
	uint64_t bad = 0;
	for (size_t i = 1; i < n / 8; i++)
		bad |= w[i] ^ ((tag + 1) * M + i);
	return bad == 0;
}
bool zero(const uint8_t *p, size_t n) {
	const uint64_t *w = (const uint64_t *)p;
	uint64_t bad = 0;
	for (size_t i = 0; i < n / 8; i++)
		bad |= w[i];
	return bad == 0;
}
void put(uint8_t *p, size_t size, uint64_t tag, char what) {
	uint64_t r[4] = {0x842842842842ULL, tag, size, (uint64_t)what};
	memcpy(p, r, sizeof r);
	uint64_t e = tag ^ M;
	if (size >= 40) memcpy(p + size - 8, &e, 8);
}
bool get(const uint8_t *p, size_t size, uint64_t *tag, char *what) {
	uint64_t r[4];
	if (size < sizeof r) return false;
	memcpy(r, p, sizeof r);
	*tag = r[1];
	*what = (char)r[3];
	uint64_t e = r[1] ^ M;
	return r[0] == 0x842842842842ULL && r[2] == size && (size < 40 || memcmp(p + size - 8, &e, 8) == 0);
}
static int comp(size_t n, int *rets, const uint8_t *in, size_t istride, const size_t *ilens, uint8_t *out, size_t ostride, size_t *olens) {
	int fail = hooks.comp_begin(in, n, istride, ostride, ilens, olens);
	hooks.pause();
	if (fail) {
		hooks.comp_end(in, fail);
		return fail;
	}
	for (size_t i = 0; i < n; i++) {
		if (ilens[i] == SIZE_MAX) continue;
		uint64_t tag;
		memcpy(&tag, in + i * istride, 8);
		tag--;
		size_t size = 0;
		switch (hooks.kind(tag)) {
		case 's': size = 64; break;
		case 't': size = 65536 - 24; break;
		case 'T': size = 65536 - 16; break;
		case 'C': size = 65536; break;
		}
		if (size == 0 || size > olens[i] || ((uintptr_t)(out + i * ostride) % preferred) != 0) {
			rets[i] = -ENOSPC;
			olens[i] = 0;
			continue;
		}
		put(out + i * ostride, size, tag, 'c');
		rets[i] = 0;
		olens[i] = size;
		if (i % 5 == 2) hooks.pause();
	}
	hooks.comp_end(in, 0);
	return 0;
}
static int dec(size_t n, int *rets, const uint8_t *in, size_t istride, const size_t *ilens, uint8_t *out, size_t ostride, size_t *olens) {
	int fail = hooks.dec_begin(out, n, istride, ostride, ilens, olens);
	hooks.pause();
	if (fail) {
		hooks.dec_end(out, 0);
		return fail;
	}
	int ok = 1;
	for (size_t i = 0; i < n; i++) {
		if (ilens[i] == SIZE_MAX) continue;
		uint64_t tag;
		char what;
		bool known = get(in + i * istride, ilens[i], &tag, &what);
		if (!known || what == 'x' || olens[i] < 65536) {
			rets[i] = known && what != 'x' ? -ENOSPC : -EINVAL;
			olens[i] = 0;
			// a failure the caller brought about (a wrong capacity, wrong data) is none of the scenario
			if (known && what != 'c') ok = 0;
			continue;
		}
		size_t sz = what == 'z' ? 65536 - 8 : 65536;
		fill(out + i * ostride, sz, tag);
		ok &= what == 'c';
		rets[i] = 0;
		olens[i] = sz;
		if (i % 5 == 2) hooks.pause();
	}
	hooks.dec_end(out, ok);
	return 0;
}
const lib842_implementation *impl() {
	static lib842_implementation im;
	im.compress_chunked = comp;
	im.decompress_chunked = dec;
	im.required_alignment = 1;
	im.preferred_alignment = preferred;
	return &im;
}
}
