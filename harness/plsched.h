/* A deterministic scheduler: one thread runs at a time; at every scheduling point the next one is taken from a list or chosen by a seed. */
#ifndef SCHED_H
#define SCHED_H
#define MAXT 17
enum { FREE, READY, ONMUTEX, ONCOND, ONJOIN, DEAD };
static struct { int st; void *on; sem_t go; pthread_t h; raw_p (*fn)(raw_p); raw_p arg; } th[MAXT];
static int nth, cur;
static __thread int me;
static void *owner_of[64]; static int owner[64]; static int nmx;
static unsigned long long rs;
static int permille, *sched, nsched, psched;
static long long steps, limit = 200000;
static FILE *out;
static int nest, spin;   /* the scheduler itself does not yield */

static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)((rs >> 11) % n); }
static void stuck(const char *why) { fprintf(out, "{\"k\":\"%s\",\"id\":0}\n", why); fflush(out); _exit(0); }
static int mx(void *m) { int i; for (i = 0; i < nmx; i++) if (owner_of[i] == m) return i; owner_of[nmx] = m; owner[nmx] = -1; return nmx++; }
static int can(int t) { return th[t].st == READY || (th[t].st == ONMUTEX && owner[mx(th[t].on)] < 0) || (th[t].st == ONJOIN && th[(long)th[t].on].st == DEAD); }
/* choose who goes on; the caller's state is set already */
static void resched(void) {
    int t, n = 0, c[MAXT];
    if (++steps > limit) stuck("hang");
    for (t = 0; t < nth; t++) if (can(t)) c[n++] = t;
    if (!n) stuck("hang");
    if (spin && n > 1) { spin = 0; do t = c[rnd(n)]; while (t == me); }
    else if (psched < nsched) {
        t = sched[psched++] % nth;
        if (!can(t)) t = c[t % n];
    } else if (can(me) && (int)rnd(1000) >= permille) t = me;
    else t = c[rnd(n)];
    if (th[t].st == ONMUTEX) owner[mx(th[t].on)] = t;
    th[t].st = READY;
    if (t == me) return;
    int mine = me;
    cur = t;
    sem_post(&th[t].go);
    if (th[mine].st == DEAD) return;
    while (sem_wait(&th[mine].go)) ;
}
void vh_yield(void) { if (!nest && nth > 1) resched(); }
nil_t vh_mutex_lock(mutex_t *m) { vh_yield(); int k = mx(m); if (owner[k] < 0) { owner[k] = me; return; } th[me].st = ONMUTEX; th[me].on = m; resched(); }
nil_t vh_mutex_unlock(mutex_t *m) { owner[mx(m)] = -1; vh_yield(); }
i32_t vh_cond_wait(cond_t *c, mutex_t *m) { owner[mx(m)] = -1; th[me].st = ONCOND; th[me].on = c; resched(); if (owner[mx(m)] != me) { int k = mx(m); if (owner[k] < 0) owner[k] = me; else { th[me].st = ONMUTEX; th[me].on = m; resched(); } } return 0; }
i32_t vh_cond_wait_timeout(cond_t *c, mutex_t *m, i64_t ms) { (void)c; (void)ms; vh_mutex_unlock(m); vh_mutex_lock(m); return 1; }
static int waiters(void *c, int *w) { int t, n = 0; for (t = 0; t < nth; t++) if (th[t].st == ONCOND && th[t].on == c) w[n++] = t; return n; }
i32_t vh_cond_signal(cond_t *c) { int w[MAXT], n; vh_yield(); n = waiters(c, w); if (n) th[w[rnd(n)]].st = READY; return 0; }
i32_t vh_cond_broadcast(cond_t *c) { int w[MAXT], n; vh_yield(); n = waiters(c, w); while (n) th[w[--n]].st = READY; return 0; }
i32_t vh_thread_pin(ray_thread_t t, i64_t c) { (void)t; (void)c; return 0; }
/* a thread that spins gives way */
nil_t vh_backoff_spin(i64_t *r) { (void)r; if (nth > 1) { spin = 1; resched(); spin = 0; } }
static void *tramp(void *a) {
    me = (int)(long)a;
    while (sem_wait(&th[me].go)) ;
    th[me].fn(th[me].arg);
    th[me].st = DEAD;
    resched();
    return NULL;
}
ray_thread_t vh_thread_create(raw_p (*fn)(raw_p), raw_p arg) {
    ray_thread_t r;
    int t = nth++;
    th[t].fn = fn; th[t].arg = arg; th[t].st = READY; sem_init(&th[t].go, 0, 0);
    pthread_create(&th[t].h, NULL, tramp, (void *)(long)t);
    r.handle = th[t].h;
    vh_yield();
    return r;
}
i32_t vh_thread_join(ray_thread_t h) {
    for (int t = 1; t < nth; t++) if (pthread_equal(th[t].h, h.handle)) { th[me].st = ONJOIN; th[me].on = (void *)(long)t; resched(); return 0; }
    return -1;
}
#endif
