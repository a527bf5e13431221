// Race flavour: the code under test is compiled with -fsanitize=thread (for
// the instrumentation calls only; libtsan is not linked).  Every memory
// access is handed to the vector-clock detector of sched.cpp, so a race is
// reported if two accesses are unordered in ANY explored schedule.
#include "mc.hpp"
#include "mc_int.hpp"
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <atomic>

extern "C" void __libc_free(void *);
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

#define RA __builtin_return_address(0)
#define ACC(n)                                                              \
    void __tsan_read##n(void *p) { mc::race_access(p, n, false, RA); }      \
    void __tsan_write##n(void *p) { mc::race_access(p, n, true, RA); }      \
    void __tsan_unaligned_read##n(void *p) { mc::race_access(p, n, false, RA); } \
    void __tsan_unaligned_write##n(void *p) { mc::race_access(p, n, true, RA); } \
    void __tsan_volatile_read##n(void *p) {}                                \
    void __tsan_volatile_write##n(void *p) {}                               \
    void __tsan_unaligned_volatile_read##n(void *p) {}                      \
    void __tsan_unaligned_volatile_write##n(void *p) {}                     \
    void __tsan_read_write##n(void *p) { mc::race_access(p, n, true, RA); }

extern "C" {
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() { mc::race_enabled = true; }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { mc::race_access(p, 8, true, RA); }
void __tsan_vptr_read(void **p) { mc::race_access(p, 8, false, RA); }
void __tsan_read_range(void *p, long n) { mc::race_access(p, (int) n, false, RA); }
void __tsan_write_range(void *p, long n) { mc::race_access(p, (int) n, true, RA); }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    mc::race_access(s, (int) n, false, RA);
    mc::race_access(d, (int) n, true, RA);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    mc::race_access(s, (int) n, false, RA);
    mc::race_access(d, (int) n, true, RA);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
    mc::race_access(d, (int) n, true, RA);
    return memset(d, c, n);
}

// atomics: executed sequentially consistent; ordered as their memory order says
static inline void apoint()
{
    if (!mc::sched_active())
        return;
    static int on = -1;
    if (on < 0)
        on = mc::param("atomicpoints", 0);
    if (on)
        mc::point("atomic");
}
static inline void sync_rmw(volatile void *a, int mo)
{
    apoint();
    if (mo == 1 || mo == 2 || mo >= 4)
        mc::hb_acquire((void *) a);
    if (mo >= 3)
        mc::hb_release((void *) a);
}
#define ATOM(bits, T)                                                       \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo)               \
    { apoint(); if (mo) mc::hb_acquire((void *) a);                         \
      return __atomic_load_n(a, 5); }                                       \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo)            \
    { apoint(); if (mo) mc::hb_release((void *) a);                         \
      __atomic_store_n(a, v, 5); }                                          \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo)  \
    { sync_rmw(a, mo); return __atomic_exchange_n(a, v, 5); }                                \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo)  \
    { sync_rmw(a, mo); return __atomic_fetch_add(a, v, 5); }                                \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo)  \
    { sync_rmw(a, mo); return __atomic_fetch_sub(a, v, 5); }                                \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo)  \
    { sync_rmw(a, mo); return __atomic_fetch_and(a, v, 5); }                                \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo)  \
    { sync_rmw(a, mo); return __atomic_fetch_or(a, v, 5); }                                \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo)  \
    { sync_rmw(a, mo); return __atomic_fetch_xor(a, v, 5); }                                \
    int __tsan_atomic##bits##_compare_exchange_strong(                        \
        volatile T *a, T *c, T v, int mo, int)                              \
    { sync_rmw(a, mo);                                                      \
      return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##bits##_compare_exchange_weak(                        \
        volatile T *a, T *c, T v, int mo, int)                              \
    { sync_rmw(a, mo);                                                      \
      return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned int)
ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// heap reuse must not look like a race
void free(void *p)
{
    if (p && mc::race_enabled)
        mc::race_free(p, malloc_usable_size(p));
    __libc_free(p);
}
void *malloc(size_t n)
{
    void *p = __libc_malloc(n);
    if (mc::race_enabled)
        mc::race_malloc(p, n);
    return p;
}
void *calloc(size_t a, size_t b)
{
    void *p = __libc_calloc(a, b);
    if (mc::race_enabled)
        mc::race_malloc(p, a * b);
    return p;
}
void *realloc(void *q, size_t n)
{
    if (q && mc::race_enabled)
        mc::race_free(q, malloc_usable_size(q));
    void *p = __libc_realloc(q, n);
    if (mc::race_enabled)
        mc::race_malloc(p, n);
    return p;
}
}

// The linking of list and tree nodes is done by libstdc++, which is not
// instrumented: report the accesses its functions make.
#include <dlfcn.h>
#include <bits/stl_list.h>
#include <bits/stl_tree.h>
namespace {
    inline void W(const void *p, int n) { if (p) mc::race_access(p, n, true, RA); }
    inline void R(const void *p, int n) { if (p) mc::race_access(p, n, false, RA); }
    template <class F> F real_fn(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
}
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept
{
    W(this, 16);
    W(&p->_M_prev, 8);
    W(&p->_M_prev->_M_next, 8);
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    R(this, 16);
    W(&_M_next->_M_prev, 8);
    W(&_M_prev->_M_next, 8);
    _M_next->_M_prev = _M_prev;
    _M_prev->_M_next = _M_next;
}
} 
#define LINKS(x) W(&(x)->_M_parent, 24)
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x,
                                   _Rb_tree_node_base *p,
                                   _Rb_tree_node_base &h) noexcept
{
    typedef void (*F)(bool, _Rb_tree_node_base *, _Rb_tree_node_base *,
                      _Rb_tree_node_base &);
    static F f = real_fn<F>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_"
                         "baseS0_RS_");
    LINKS(x);
    LINKS(p);
    LINKS(&h);
    if (p->_M_parent)
        LINKS(p->_M_parent);
    f(left, x, p, h);
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z,
                                                 _Rb_tree_node_base &h) noexcept
{
    typedef _Rb_tree_node_base *(*F)(_Rb_tree_node_base *, _Rb_tree_node_base &);
    static F f = real_fn<F>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_"
                         "baseRS_");
    LINKS(z);
    LINKS(&h);
    for (_Rb_tree_node_base *n : { z->_M_parent, z->_M_left, z->_M_right })
        if (n)
            LINKS(n);
    return f(z, h);
}
static const _Rb_tree_node_base *step(const _Rb_tree_node_base *x, bool fwd)
{
    R(&x->_M_parent, 24);
    typedef const _Rb_tree_node_base *(*F)(const _Rb_tree_node_base *);
    static F fi = real_fn<F>("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
    static F fd = real_fn<F>("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
    return fwd ? fi(x) : fd(x);
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept
{ return step(x, true); }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept
{ return const_cast<_Rb_tree_node_base *>(step(x, true)); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept
{ return step(x, false); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept
{ return const_cast<_Rb_tree_node_base *>(step(x, false)); }
}
