// Replays a schedule: real threads, exactly one of them runs at a time (the baton is passed by recorded choices).
#include <pthread.h>
namespace { enum { NTH = 32 }; struct Th { int stat = 0; const void *key = nullptr; void *(*fn)(void *); void *arg; pthread_t t; } ths[NTH]; int nth = 1, curT = 0; thread_local int meT = 0;
pthread_mutex_t bm = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t bc = PTHREAD_COND_INITIALIZER;
int enabledT(int *r) { int n = 0; for (int i = 0; i < nth; ++i) if (ths[i].stat == 0) r[n++] = i; return n; }
void waitTurn() { pthread_mutex_lock(&bm); while (curT != meT) pthread_cond_wait(&bc, &bm); pthread_mutex_unlock(&bm); }
void pass(int to) { pthread_mutex_lock(&bm); curT = to; pthread_cond_broadcast(&bc); pthread_mutex_unlock(&bm); }
void deadlocked() { fprintf(stdout, "VF-ASSERT-FAILED all threads are blocked\n"); fflush(stdout); _exit(42); }
void *startT(void *p) { meT = (int)(intptr_t)p; waitTurn(); ths[meT].fn(ths[meT].arg); ths[meT].stat = 2; for (int i = 0; i < nth; ++i) if (ths[i].stat == 1 && ths[i].key == (const void *)(intptr_t)(0x7000 + meT)) ths[i].stat = 0;
  int en[NTH], n = enabledT(en); if (!n) deadlocked(); int to = en[0]; if (n > 1) to = en[next("sched", 1).b[0]]; pass(to); return nullptr; } }
extern "C" {
uint64_t vf_thread_self(void) { return meT; }
int vf_thread_done(uint64_t t) { return (int)t < nth && ths[t].stat == 2; }
uint64_t vf_thread_create(void *(*fn)(void *), void *arg) { int i = nth++; ths[i].stat = 0; ths[i].fn = fn; ths[i].arg = arg; bool c = counting; counting = false; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); pthread_create(&ths[i].t, &a, startT, (void *)(intptr_t)i); counting = c; return i; }
void vf_sched(void) { if (nth < 2) return; int en[NTH], n = enabledT(en); if (n < 2 || preempts >= preemptBound) return; int v = next("sched", 1).b[0]; if (!v) return; int ord[NTH], k = 0; ord[k++] = meT; for (int i = 0; i < n; ++i) if (en[i] != meT) ord[k++] = en[i]; ++preempts; pass(ord[v]); waitTurn(); }
void vf_block(const void *key) { ths[meT].stat = 1; ths[meT].key = key; int en[NTH], n = enabledT(en); if (!n) deadlocked(); int to = en[0]; if (n > 1) to = en[next("sched", 1).b[0]]; if (to != meT) { pass(to); waitTurn(); } }
void vf_wake_all(const void *key) { for (int i = 0; i < nth; ++i) if (ths[i].stat == 1 && ths[i].key == key) ths[i].stat = 0; }
void vf_wake_one(const void *key) { int w[NTH], n = 0; for (int i = 0; i < nth; ++i) if (ths[i].stat == 1 && ths[i].key == key) w[n++] = i; if (!n) return; ths[n == 1 ? w[0] : w[next("wake", 1).b[0]]].stat = 0; }
void vf_run_main(void (*fn)()) { fn(); }
}
