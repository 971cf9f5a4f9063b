/* core/symbols.c under the scheduler of plsched.h: besides every load and store (the compiler's coverage callbacks),
 * it may be switched at every atomic access and spin. Included before the engine's headers. */
#ifndef SYHOOK_H
#define SYHOOK_H
void vh_yield(void);
#define backoff_spin vh_backoff_spin
#define __atomic_load_n(...) (vh_yield(), __atomic_load_n(__VA_ARGS__))
#define __atomic_store_n(...) (vh_yield(), __atomic_store_n(__VA_ARGS__))
#define __atomic_compare_exchange_n(...) (vh_yield(), __atomic_compare_exchange_n(__VA_ARGS__))
#define __atomic_fetch_add(...) (vh_yield(), __atomic_fetch_add(__VA_ARGS__))
#define __atomic_add_fetch(...) (vh_yield(), __atomic_add_fetch(__VA_ARGS__))
#define __atomic_exchange_n(...) (vh_yield(), __atomic_exchange_n(__VA_ARGS__))
#endif
