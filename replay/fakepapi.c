// A stand-in for libpapi that records every call into memory shared with the harness.
#include "fakepapi.h"
#include <string.h>
struct papi_shm* papi_shm;
static unsigned long long rs = 88172645463325252ULL;
static unsigned long long nxt(void) { unsigned long long x = __atomic_load_n(&rs, __ATOMIC_RELAXED); x ^= x << 13; x ^= x >> 7; x ^= x << 17; __atomic_store_n(&rs, x, __ATOMIC_RELAXED); return x; }
static int log_(int op, int es, long long v, const char* name) {
    if (!papi_shm || papi_shm->quiet) return -1;
    int i = __atomic_fetch_add(&papi_shm->n, 1, __ATOMIC_RELAXED);
    if (i >= PAPI_LOG) return -1;
    papi_shm->ev[i].op = op; papi_shm->ev[i].es = es; papi_shm->ev[i].v = v;
    papi_shm->ev[i].name[0] = 0;
    if (name) { strncpy(papi_shm->ev[i].name, name, sizeof papi_shm->ev[i].name - 1); papi_shm->ev[i].name[sizeof papi_shm->ev[i].name - 1] = 0; }
    return i;
}
#define SETS 100000
static struct { signed char live, running; int nev; } sets[SETS];
static int nsets;
static int live(int es) { return es >= 0 && es < SETS && sets[es].live; }
int PAPI_library_init(int v) { log_(P_INIT, 0, v, 0); if (papi_shm && papi_shm->seed) rs ^= papi_shm->seed * 0x9E3779B97F4A7C15ULL; return papi_shm && papi_shm->init_fails ? v + 1 : v; }
int PAPI_create_eventset(int* es) { int i = __atomic_fetch_add(&nsets, 1, __ATOMIC_RELAXED); if (i >= SETS) return -2; sets[i].live = 1; sets[i].nev = 0; sets[i].running = 0; *es = i; log_(P_CREATE, i, 0, 0); return 0; }
int PAPI_add_named_event(int es, const char* n) { log_(P_ADD, es, 0, n); if (!live(es)) return -9; sets[es].nev++; return 0; }
int PAPI_start(int es) { log_(P_START, es, 0, 0); if (!live(es)) return -9; if (!sets[es].nev) return -1; sets[es].running = 1; return 0; }
int PAPI_stop(int es, long long* v) { log_(P_STOP, es, 0, 0); if (!live(es)) return -9; for (int i = 0; i < sets[es].nev; i++) v[i] = 0; if (!sets[es].running) return -9; sets[es].running = 0; return 0; }
int PAPI_reset(int es) { log_(P_RESET, es, 0, 0); return live(es) ? 0 : -9; }
int PAPI_read(int es, long long* v) {
    int n = live(es) ? sets[es].nev : 0;
    log_(P_READ, es, n, 0);
    if (!live(es)) return -9;
    for (int i = 0; i < n; i++) { v[i] = (long long) (nxt() >> (8 + nxt() % 40)); log_(P_VALUE, es, v[i], 0); }
    return 0;
}
int PAPI_cleanup_eventset(int es) { log_(P_CLEANUP, es, live(es) && sets[es].running, 0); if (!live(es)) return -9; sets[es].nev = 0; return 0; }
int PAPI_destroy_eventset(int* es) { log_(P_DESTROY, *es, 0, 0); if (!live(*es)) return -9; if (sets[*es].nev) return -1; sets[*es].live = 0; *es = -1; return 0; }
const char* PAPI_strerror(int e) { return "fake error"; }
static long long now = 1000000007LL;
long long PAPI_get_real_nsec(void) {
    unsigned long long r = nxt();
    long long d = r % 5 == 0 ? (long long) (r >> 40) : r % 5 == 1 ? 0 : (long long) (r % 9000);
    long long t = __atomic_add_fetch(&now, d, __ATOMIC_RELAXED);
    log_(P_CLOCK, 0, t, 0);
    return t;
}
