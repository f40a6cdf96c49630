/* Contract-level stand-in for <utlist.h>, see uthash.h here. */
#ifndef DV_UTLIST_H
#define DV_UTLIST_H
#include <stddef.h>
void *__dv_dl_search(void *head, unsigned long off, unsigned long size, long val);
void __dv_dl_delete(void *head, void *el);
unsigned __dv_dl_count(void *head);
void __dv_dl_append(void *head, void *el);
void __dv_dl_prepend(void *head, void *el);
void *__dv_dl_first(void *head);
void *__dv_dl_next(void *head, void *el);
#define DL_SEARCH_SCALAR(head, out, field, val) \
	do { (out) = (__typeof__(out))__dv_dl_search(&(head), offsetof(__typeof__(*(out)), field), sizeof((out)->field), (long)(val)); } while (0)
#define DL_DELETE(head, del) __dv_dl_delete(&(head), (del))
#define DL_COUNT(head, el, counter) \
	do { (counter) = __dv_dl_count(&(head)); (el) = NULL; } while (0)
#define DL_APPEND(head, add) __dv_dl_append(&(head), (add))
#define DL_PREPEND(head, add) __dv_dl_prepend(&(head), (add))
#define DL_FOREACH_SAFE(head, el, tmp) \
	for ((el) = (__typeof__(el))__dv_dl_first(&(head)); \
	     (el) != NULL && (((tmp) = (__typeof__(el))__dv_dl_next(&(head), (el))), 1); (el) = (tmp))
#define DL_FOREACH(head, el) \
	for ((el) = (__typeof__(el))__dv_dl_first(&(head)); (el) != NULL; \
	     (el) = (__typeof__(el))__dv_dl_next(&(head), (el)))
#endif
