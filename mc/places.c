/* Not compiled with the race detector: what happens here orders nothing. */
#define _GNU_SOURCE
#include "places.h"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <string.h>
#include <stdint.h>

#define NOINST __attribute__((no_instrument_function))
enum { SEEN = 8192 };
static int turn, done[2], gave[2], overlapped, what;
static long count[2], places[2], at[2];
static struct { uintptr_t key; int n; } seen[2][SEEN];
static __thread int me = -1, once;

#define GET(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
#define SET(x, v) __atomic_store_n(&(x), v, __ATOMIC_SEQ_CST)

NOINST void sched_reset(long a, long b, int w)
{
    turn = 0; overlapped = 0; what = w;
    at[0] = a; at[1] = b;
    for (int i = 0; i < 2; i++) { done[i] = gave[i] = 0; count[i] = places[i] = 0; }
    if (what) memset(seen, 0, sizeof seen);
}
NOINST static void await(int id)
{
    long was = -1; int same = 0;
    while (GET(turn) != id) {
        struct timespec t = { 0, 100000000 };
        syscall(SYS_futex, &turn, FUTEX_WAIT, 1 - id, &t, 0, 0);
        if (GET(turn) == id) break;
        if (GET(done[1-id])) break;
        /* the other one waits for something that this one holds */
        long c = GET(count[1-id]);
        same = c == was ? same + 1 : 0;
        was = c;
        if (same >= 4) { SET(overlapped, 1); break; }
    }
}
NOINST static void to(int id) { SET(turn, id); syscall(SYS_futex, &turn, FUTEX_WAKE, 8, 0, 0, 0); }
NOINST void sched_begin(int id) { me = id; await(id); }
NOINST void sched_end(int id) { me = -1; SET(done[id], 1); to(1 - id); }
NOINST long sched_places(int id) { return places[id]; }
NOINST int sched_gave(int id) { return gave[id]; }
NOINST int sched_overlapped(void) { return GET(overlapped); }

NOINST static void place(void *fn, void *site, int start)
{
    int id = me;
    if (id < 0 || once) return;
    SET(count[id], count[id] + 1);
    if (what && start < 2) {
        uintptr_t key = (uintptr_t) fn, h;
        if (what < 0) { if (!start) return; }
        else key = (key * 31 + (uintptr_t) site) * 2 + start;
        h = (key >> 2) * 0x9E3779B97F4A7C15ull >> 51;
        while (seen[id][h].n && seen[id][h].key != key) h = (h + 1) % SEEN;
        seen[id][h].key = key;
        if (++seen[id][h].n > (what < 0 ? 1 : what)) return;
    }
    if (++places[id] != at[id] || GET(done[1-id])) return;
    gave[id] = 1;
    to(1 - id);
    await(id);
}
NOINST void __cyg_profile_func_enter(void *fn, void *site) { place(fn, site, 1); }
NOINST void __cyg_profile_func_exit(void *fn, void *site) { place(fn, site, 0); }
int __wrap_pthread_mutex_lock(void *), __wrap_pthread_mutex_unlock(void *);
/* and where a lock is taken or given up.  A thread that finds the lock taken
   gives way; while something is made once no thread gives way */
#include <errno.h>
#include <pthread.h>
extern int __real_pthread_mutex_lock(void *), __real_pthread_mutex_unlock(void *), __real_pthread_once(void *, void (*)(void)), __real___cxa_guard_acquire(void *);
extern void __real___cxa_guard_release(void *), __real___cxa_guard_abort(void *);
int __wrap_pthread_mutex_lock(void *), __wrap_pthread_mutex_unlock(void *);

NOINST int __wrap_pthread_mutex_lock(void *m)
{
    int id = me;
    place((void *) __wrap_pthread_mutex_lock, 0, 2);
    while (id >= 0 && !once && pthread_mutex_trylock(m) == EBUSY) {
        if (GET(done[1-id])) return __real_pthread_mutex_lock(m);
        to(1 - id);
        await(id);
    }
    return id >= 0 && !once ? 0 : __real_pthread_mutex_lock(m);
}
NOINST int __wrap_pthread_mutex_unlock(void *m)
{
    int r = __real_pthread_mutex_unlock(m);
    place((void *) __wrap_pthread_mutex_unlock, 0, 2);
    return r;
}
NOINST int __wrap_pthread_once(void *o, void (*f)(void)) { ++once; int r = __real_pthread_once(o, f); --once; return r; }
NOINST int __wrap___cxa_guard_acquire(void *g) { ++once; int r = __real___cxa_guard_acquire(g); if (!r) --once; return r; }
NOINST void __wrap___cxa_guard_release(void *g) { __real___cxa_guard_release(g); --once; }
NOINST void __wrap___cxa_guard_abort(void *g) { __real___cxa_guard_abort(g); --once; }
