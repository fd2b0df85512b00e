/* What nvcc would provide, for clang -x cuda --cuda-device-only without a CUDA installation. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#define __global__ __attribute__((global))
#define __device__ __attribute__((device))
#define __constant__ __attribute__((constant))
#define __shared__ __attribute__((shared))
#define __host__ __attribute__((host))
#define __forceinline__ __inline__ __attribute__((always_inline))
#define LIB842_HAVE_CUDA
#define VP_REG(type, reg)                                                             \
	struct type {                                                                 \
		__device__ unsigned get() const { return __nvvm_read_ptx_sreg_##reg(); } \
		__declspec(property(get = get)) unsigned x;                           \
	}
VP_REG(vp_block_idx, ctaid_x);
VP_REG(vp_block_dim, ntid_x);
VP_REG(vp_thread_idx, tid_x);
extern const __device__ vp_block_idx blockIdx;
extern const __device__ vp_block_dim blockDim;
extern const __device__ vp_thread_idx threadIdx;
