// Interface between harnesses, the runtime used under symbolic execution, the engine, and the native replay build.
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void vp_bytes(void *p, size_t n, const char *name);   // n fresh symbolic bytes
uint64_t vp_u64(const char *name);
uint32_t vp_u32(const char *name);
uint8_t vp_u8(const char *name);
uint8_t vp_hidden_u8(void);                            // engine only
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_fail(const char *msg);
void vp_crash(const char *msg);
void vp_error(const char *msg);                        // inconclusive
void vp_observe(uint64_t v);                           // compared between symbolic path and native run
void vp_observe_bytes(const void *p, size_t n);
void vp_reach(const char *label);
uint64_t vp_fork(uint64_t v);                          // split into one path per possible value
int vp_param(const char *name, int dflt);                // bound chosen by the runner
int vp_native(void);
int vp_unary(uint64_t v);                              // whether v depends on one input byte only
uint64_t vp_split(uint64_t v);                         // v, on one path per alternative when it is a choice between values
uint64_t vp_ite(uint64_t c, uint64_t a, uint64_t b);    // c ? a : b without splitting the path
int vp_is_symbolic(uint64_t v);
void vp_done(void);
void vp_print(const char *m, uint64_t v);
uint64_t vp_heap_live(void);
uint64_t vp_heap_size(void *p);
void *vp_calloc1(size_t n);
void vp_unwind(void *exc);
void vp_call_dtor(void *fn, void *obj);
int vp_host_fmt(char *buf, size_t size, const char *fmt, int prec, long double v);
void vp_host_strtold(const char *t, size_t n, long double *out, int kind);
void vp_stub(const char *name);
#ifdef __cplusplus
}
#endif
#endif
