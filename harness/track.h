// Which memory allocated during library calls is still alive (sanitizer allocation hooks), and
// which descriptors are open.
#pragma once
#include "common.h"
#ifdef NOTRACK
#define __sanitizer_install_malloc_and_free_hooks(a, b) 0
#else
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif
struct TrackRec { const volatile void *p; size_t n; int op; };
enum { TRACKN = 1 << 16 };
static TrackRec track_tab[TRACKN]; static int track_in = 0, track_op = 0; static long track_live = 0, track_total = 0;
static size_t track_slot(const volatile void *p) { return (mix64((uint64_t)(uintptr_t)p)) & (TRACKN - 1); }
static void track_malloc(const volatile void *p, size_t n) {
    if(!track_in || !p) return;
    for(size_t k = 0, i = track_slot(p); k < 64; k++, i = (i + 1) & (TRACKN - 1)) if(!track_tab[i].p) { track_tab[i] = {p, n, track_op}; track_live++; track_total++; return; }
}
static void track_free(const volatile void *p) {
    if(!p || !track_live) return;
    for(size_t k = 0, i = track_slot(p); k < 64; k++, i = (i + 1) & (TRACKN - 1)) if(track_tab[i].p == p) { track_tab[i].p = NULL; track_live--; return; }
}
static void track_init() { static bool done = false; if(!done) { done = true; __sanitizer_install_malloc_and_free_hooks(track_malloc, track_free); } }
static void track_reset() { track_init(); memset(track_tab, 0, sizeof track_tab); track_live = 0; track_op = 0; }
#define LIB(expr) ({ track_in = 1; auto rt_ = (expr); track_in = 0; rt_; })
#define LIBV(expr) do { track_in = 1; expr; track_in = 0; } while(0)
