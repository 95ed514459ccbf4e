#ifndef MODEL_PY_ALLOCATOR_H
#define MODEL_PY_ALLOCATOR_H
typedef struct hat_allocator_t hat_allocator_t;
struct hat_allocator_t {
    void *ctx;
};
extern hat_allocator_t hat_py_allocator;
#endif
