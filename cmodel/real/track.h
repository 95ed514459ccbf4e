/* Real build: memory of the extension is tracked; released memory is
 * overwritten and not reused, operations can be made to fail. */
#ifndef TRACK_H
#define TRACK_H
#include <Python.h>
extern long track_live, track_count, track_fail_at, track_failed;
extern int track_reverse;
int track_fails(void);
void *track_malloc(size_t n);
void *track_calloc(size_t n, size_t k);
void track_free(void *p);
#undef PyMem_Malloc
#undef PyMem_Calloc
#undef PyMem_Free
#define PyMem_Malloc track_malloc
#define PyMem_Calloc track_calloc
#define PyMem_Free track_free
#endif
