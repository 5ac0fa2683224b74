/* Counting and fault-injecting stand-ins for the C allocator (linked with
   --wrap).  Only the library's own calls are counted, between vp_on/vp_off. */
#include <stdlib.h>
#include <errno.h>
#include <string.h>
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
static int on; static long live, calls, fail_at, failed;
void vp_on(long k) { on = 1; calls = 0; failed = 0; fail_at = k; }
void vp_off(void) { on = 0; }
long vp_live(void) { return live; }
void vp_reset(void) { live = 0; on = 0; fail_at = 0; }
long vp_calls(void) { return calls; }
long vp_failed(void) { return failed; }
static int inject(void) { if (!on) return 0; ++calls; if ((fail_at > 0 && calls == fail_at) || (fail_at < 0 && calls >= -fail_at)) { ++failed; errno = ENOMEM; return 1; } return 0; }
void* __wrap_malloc(size_t n) { void* p; if (inject()) return NULL; p = __real_malloc(n); if (on && p) ++live; return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p; if (inject()) return NULL; p = __real_calloc(a, b); if (on && p) ++live; return p; }
void* __wrap_realloc(void* q, size_t n) { void* p; if (inject()) return NULL; p = __real_realloc(q, n); if (on && p && !q) ++live; return p; }
void __wrap_free(void* p) { if (on && p) --live; __real_free(p); }
