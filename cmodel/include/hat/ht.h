/* Declarations of hash table of hat-util */
#ifndef MODEL_HT_H
#define MODEL_HT_H
#include <stddef.h>
#include <hat/py_allocator.h>
typedef struct hat_ht_t hat_ht_t;
typedef struct hat_ht_entry_t *hat_ht_iter_t;
hat_ht_t *hat_ht_create(hat_allocator_t *a);
void hat_ht_destroy(hat_ht_t *t);
int hat_ht_set(hat_ht_t *t, void *key, size_t key_size, void *value);
void *hat_ht_get(hat_ht_t *t, void *key, size_t key_size);
void *hat_ht_pop(hat_ht_t *t, void *key, size_t key_size);
void hat_ht_clear(hat_ht_t *t);
size_t hat_ht_count(hat_ht_t *t);
hat_ht_iter_t hat_ht_iter_next(hat_ht_t *t, hat_ht_iter_t prev);
void *hat_ht_iter_key(hat_ht_iter_t i);
size_t hat_ht_iter_key_size(hat_ht_iter_t i);
void *hat_ht_iter_value(hat_ht_iter_t i);
#endif
