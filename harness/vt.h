// Checking allocator and stand-ins that the library's object files are redirected to.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <setjmp.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vt_malloc(size_t n);
void *vt_calloc(size_t n, size_t m);
void *vt_realloc(void *p, size_t n);
void vt_free(void *p);
#ifdef __cplusplus
}
#endif
void vt_reset();                    // forget everything; called before and after each case
size_t vt_live_blocks();            // blocks the library (or the harness, through vt_*) holds
size_t vt_live_bytes();
size_t vt_peak_bytes();
void vt_reset_peak();
size_t vt_size(const void *p);      // size of a live block, (size_t)-1 if not one
void vt_check_all();                // verify the guard bytes of all live blocks
void vt_garbage(uint8_t byte);      // fill of fresh memory
void vt_allow(size_t n);            // the largest request that is granted (2 GiB)
void vt_huge_pages();                // blocks of gigabytes are going to be used from end to end
uint64_t vt_requests();             // number of allocation requests so far
uint64_t vt_traffic();              // bytes requested, and copied by realloc, so far
void vt_fail_at(uint64_t request);  // refuse this request (absolute number); 0: none
bool vt_refused();                  // a request has been refused
bool vt_refused_soft();             // only a request for less memory than it had; the library may go on
// abort() inside the library jumps here while armed
extern jmp_buf *vt_abort_env;
extern const bool vt_poisons;      // the sanitizer build: forbidden memory can be marked
void vt_poison(const void *p, size_t n);
void vt_unpoison(const void *p, size_t n);
extern uint64_t vt_handlers;          // functions the library registered for the end of the process or a fork
extern const char *const vt_variant;  // rel, asan or sim
