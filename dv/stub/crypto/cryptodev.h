/* Stand-in for the header of the modified cryptodev kernel module, which is
 * not part of lib842 and not installed here: the names, fields and widths that
 * src/cryptodev/842_interface.c uses.  Its contract (what the device does with
 * a request) is an assumption, stated in dv/hw.py. */
#ifndef VERIF_CRYPTODEV_H
#define VERIF_CRYPTODEV_H
#include <linux/types.h>
#include <sys/ioctl.h>
#define CRYPTO_842 60
#define COP_ENCRYPT 0
#define COP_DECRYPT 1
#define CRYPTODEV_MAX_ALG_NAME 64
#ifndef CRYPTODEV_COMP_MAX_CHUNKS
#define CRYPTODEV_COMP_MAX_CHUNKS 16
#endif
struct session_op { __u32 cipher, mac, compr, keylen; __u8 *key; __u32 mackeylen; __u8 *mackey; __u32 ses; };
struct alg_info { char cra_name[CRYPTODEV_MAX_ALG_NAME], cra_driver_name[CRYPTODEV_MAX_ALG_NAME]; };
struct session_info_op { __u32 ses; struct alg_info cipher_info, hash_info, compr_info; __u16 alignmask; __u32 flags; };
#define SIOP_FLAG_KERNEL_DRIVER_ONLY 1
struct crypt_op { __u32 ses; __u16 op, flags; __u32 len, dlen; __u8 *src, *dst, *mac, *iv;
	__u32 numchunks; __u32 *chunklens, *chunkdlens; int *chunkrets; };
#define CIOCGSESSION _IOWR('c', 102, struct session_op)
#define CIOCFSESSION _IOW('c', 103, __u32)
#define CIOCCRYPT _IOWR('c', 104, struct crypt_op)
#ifndef VERIF_NO_SESSINFO
#define CIOCGSESSINFO _IOWR('c', 107, struct session_info_op)
#endif
#endif
