/* Contract-level stand-in for <uthash.h>: every macro becomes one call that the
 * verifier (dv/swenc.py) gives the documented meaning of the macro.  Only used
 * for verification; the macros' own code is an external dependency. */
#ifndef DV_UTHASH_H
#define DV_UTHASH_H
#include <string.h>
#include <stddef.h>
#include <stdlib.h>
typedef struct UT_hash_handle { void *dv_opaque[7]; } UT_hash_handle;
void *__dv_hash_find(void *head, const void *key, unsigned long len);
void __dv_hash_add(void *head, void *el, const void *field, unsigned long len);
void __dv_hash_del(void *head, void *el);
void *__dv_hash_first(void *head);
void *__dv_hash_next(void *head, void *el);
#define HASH_FIND(hh, head, keyptr, keylen, out) \
	do { (out) = (__typeof__(out))__dv_hash_find(&(head), (keyptr), (keylen)); } while (0)
#define HASH_ADD(hh, head, fieldname, keylen, add) \
	__dv_hash_add(&(head), (add), &((add)->fieldname), (keylen))
#define HASH_DELETE(hh, head, el) __dv_hash_del(&(head), (el))
#define HASH_DEL(head, el) HASH_DELETE(hh, head, el)
#define HASH_ITER(hh, head, el, tmp) \
	for ((el) = (__typeof__(el))__dv_hash_first(&(head)); \
	     (el) != NULL && (((tmp) = (__typeof__(el))__dv_hash_next(&(head), (el))), 1); (el) = (tmp))
#endif
