// A stand-in for an implementation of 842: cheap, controllable, and it says which data it was given.
#pragma once
#include <lib842/common.h>
#include <cstddef>
#include <cstdint>
#include <string>
namespace fake {
// sizes of "compressed" chunks, and what happens to them
struct Hooks {
	// compression: kind of the chunk with this tag; whether the call for this source block fails
	char (*kind)(uint64_t tag);
	int (*comp_begin)(const uint8_t *in, size_t numchunks, size_t istride, size_t ostride, const size_t *ilens, const size_t *olens);
	void (*comp_end)(const uint8_t *in, int ret);
	int (*dec_begin)(const uint8_t *out, size_t numchunks, size_t istride, size_t ostride, const size_t *ilens, const size_t *olens);
	void (*dec_end)(const uint8_t *out, int ok);
	void (*pause)();
};
extern Hooks hooks;
extern size_t preferred;
void fill(uint8_t *p, size_t n, uint64_t tag);
bool is(const uint8_t *p, size_t n, uint64_t tag);
bool zero(const uint8_t *p, size_t n);
// writes a compressed chunk of the given size into p; what: 'c' fine, 'x' fails, 'z' yields the wrong size
void put(uint8_t *p, size_t size, uint64_t tag, char what);
bool get(const uint8_t *p, size_t size, uint64_t *tag, char *what);
const lib842_implementation *impl();
}
