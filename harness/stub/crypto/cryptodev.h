/* Stand-in for the header of the cryptodev kernel module with compression support:
 * the same names, fields and widths, so that src/cryptodev compiles unchanged. */
#ifndef VP_STUB_CRYPTODEV_H
#define VP_STUB_CRYPTODEV_H
#include <linux/types.h>
#include <sys/ioctl.h>

enum { CRYPTO_842 = 60, CRYPTO_ALGORITHM_ALL };
#define CRYPTODEV_MAX_ALG_NAME 64
#define CRYPTODEV_COMP_MAX_CHUNKS 16

struct session_op {
	__u32 cipher, mac, compr;
	__u32 keylen;
	__u8 *key;
	__u32 mackeylen;
	__u8 *mackey;
	__u32 ses;
};
struct session_info_op {
	__u32 ses;
	struct alg_info {
		char cra_name[CRYPTODEV_MAX_ALG_NAME];
		char cra_driver_name[CRYPTODEV_MAX_ALG_NAME];
	} cipher_info, hash_info, compr_info;
	__u16 alignmask;
	__u32 flags;
};
#define SIOP_FLAG_KERNEL_DRIVER_ONLY 1
enum { COP_ENCRYPT, COP_DECRYPT };
struct crypt_op {
	__u32 ses;
	__u16 op;
	__u16 flags;
	__u32 len;
	__u32 dlen;
	__u8 *src, *dst, *mac, *iv;
	__u32 numchunks;
	__u32 *chunklens, *chunkdlens;
	int *chunkrets;
};
#define CIOCGSESSION _IOWR('c', 102, struct session_op)
#define CIOCFSESSION _IOW('c', 103, __u32)
#define CIOCCRYPT _IOWR('c', 104, struct crypt_op)
#ifndef VP_NO_SESSINFO
#define CIOCGSESSINFO _IOWR('c', 107, struct session_info_op)
#endif
#endif
