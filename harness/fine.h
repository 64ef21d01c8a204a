/* Included into the code under test in the variant "fine": a scheduling point before every atomic
 * operation (there is one at every basic block, too). */
#pragma once
extern void __sanitizer_cov_trace_pc(void);
#define FINE_POINT __sanitizer_cov_trace_pc()
#define __atomic_load(...) (FINE_POINT, __atomic_load(__VA_ARGS__))
#define __atomic_store(...) (FINE_POINT, __atomic_store(__VA_ARGS__))
#define __atomic_exchange(...) (FINE_POINT, __atomic_exchange(__VA_ARGS__))
#define __atomic_compare_exchange(...) (FINE_POINT, __atomic_compare_exchange(__VA_ARGS__))
#define __atomic_fetch_add(...) (FINE_POINT, __atomic_fetch_add(__VA_ARGS__))
#define __atomic_fetch_sub(...) (FINE_POINT, __atomic_fetch_sub(__VA_ARGS__))
#define __atomic_fetch_or(...) (FINE_POINT, __atomic_fetch_or(__VA_ARGS__))
#define __atomic_fetch_and(...) (FINE_POINT, __atomic_fetch_and(__VA_ARGS__))
#define __atomic_fetch_xor(...) (FINE_POINT, __atomic_fetch_xor(__VA_ARGS__))
