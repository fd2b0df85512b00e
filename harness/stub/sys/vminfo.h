/* Stand-in for the AIX header that declares the 842 accelerator service. */
#ifndef VP_STUB_VMINFO_H
#define VP_STUB_VMINFO_H
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
int accel_compress(uint8_t *src, size_t srclen, uint8_t *dst, size_t *dstlen, int flags);
int accel_decompress(uint8_t *src, size_t srclen, uint8_t *dst, size_t *dstlen, int flags);
#endif
