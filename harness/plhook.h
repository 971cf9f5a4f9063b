/* The primitives core/pool.c builds on, under a deterministic scheduler: one thread runs at a time and may be
 * switched at every lock, wait, signal, atomic access and spin. Included before the engine's headers. */
#ifndef PLHOOK_H
#define PLHOOK_H
#define mutex_lock vh_mutex_lock
#define mutex_unlock vh_mutex_unlock
#define cond_wait vh_cond_wait
#define cond_wait_timeout vh_cond_wait_timeout
#define cond_signal vh_cond_signal
#define cond_broadcast vh_cond_broadcast
#define ray_thread_create vh_thread_create
#define thread_join vh_thread_join
#define thread_pin vh_thread_pin
#define backoff_spin vh_backoff_spin
#endif
