#include <hat/ht.h>

long track_live, track_count, track_fail_at = -1, track_failed;
int track_reverse;
hat_allocator_t hat_py_allocator;

typedef struct { size_t size; unsigned long magic; } head_t;
#define ALIVE 0x5ca1ab1eul
#define DEAD 0xdeadul

int track_fails(void) {
    track_count += 1;
    if (track_count != track_fail_at)
        return 0;
    track_failed = 1;
    return 1;
}

static void *take(size_t n) {
    head_t *h = malloc(sizeof(head_t) + n);
    h->size = n;
    h->magic = ALIVE;
    memset(h + 1, 0xAA, n);
    track_live += 1;
    return h + 1;
}

void *track_malloc(size_t n) { return track_fails() ? NULL : take(n); }

void *track_calloc(size_t n, size_t k) {
    void *p = track_malloc(n * k);
    if (p)
        memset(p, 0, n * k);
    return p;
}

void track_free(void *p) {
    if (!p)
        return;
    head_t *h = (head_t *)p - 1;
    if (h->magic != ALIVE)
        abort();
    h->magic = DEAD;
    memset(p, 0xDD, h->size);
    track_live -= 1;
}

struct hat_ht_entry_t {
    struct hat_ht_entry_t *next, *prev;
    void *value;
    size_t size;
    char *key;
};

struct hat_ht_t {
    struct hat_ht_entry_t *first, *last;
    size_t n;
};

hat_ht_t *hat_ht_create(hat_allocator_t *a) {
    if (track_fails())
        return NULL;
    hat_ht_t *t = take(sizeof(hat_ht_t));
    memset(t, 0, sizeof(hat_ht_t));
    return t;
}

void hat_ht_clear(hat_ht_t *t) {
    struct hat_ht_entry_t *e = t->first;
    while (e) {
        struct hat_ht_entry_t *next = e->next;
        track_free(e->key);
        track_free(e);
        e = next;
    }
    memset(t, 0, sizeof(hat_ht_t));
}

void hat_ht_destroy(hat_ht_t *t) {
    hat_ht_clear(t);
    track_free(t);
}

static struct hat_ht_entry_t *find(hat_ht_t *t, void *key, size_t size) {
    for (struct hat_ht_entry_t *e = t->first; e; e = e->next)
        if (e->size == size && !memcmp(e->key, key, size))
            return e;
    return NULL;
}

int hat_ht_set(hat_ht_t *t, void *key, size_t size, void *value) {
    struct hat_ht_entry_t *e = find(t, key, size);
    if (!e) {
        if (track_fails())
            return 1;
        e = take(sizeof(*e));
        e->key = take(size + 1);
        memcpy(e->key, key, size);
        e->key[size] = 0;
        e->size = size;
        e->next = NULL;
        e->prev = t->last;
        if (t->last)
            t->last->next = e;
        else
            t->first = e;
        t->last = e;
        t->n += 1;
    }
    e->value = value;
    return 0;
}

void *hat_ht_get(hat_ht_t *t, void *key, size_t size) {
    struct hat_ht_entry_t *e = find(t, key, size);
    return e ? e->value : NULL;
}

void *hat_ht_pop(hat_ht_t *t, void *key, size_t size) {
    struct hat_ht_entry_t *e = find(t, key, size);
    if (!e)
        return NULL;
    void *value = e->value;
    if (e->prev)
        e->prev->next = e->next;
    else
        t->first = e->next;
    if (e->next)
        e->next->prev = e->prev;
    else
        t->last = e->prev;
    t->n -= 1;
    track_free(e->key);
    track_free(e);
    return value;
}

size_t hat_ht_count(hat_ht_t *t) { return t->n; }

hat_ht_iter_t hat_ht_iter_next(hat_ht_t *t, hat_ht_iter_t i) {
    if (track_reverse)
        return i ? i->prev : t->last;
    return i ? i->next : t->first;
}

void *hat_ht_iter_key(hat_ht_iter_t i) { return i->key; }
size_t hat_ht_iter_key_size(hat_ht_iter_t i) { return i->size; }
void *hat_ht_iter_value(hat_ht_iter_t i) { return i->value; }
