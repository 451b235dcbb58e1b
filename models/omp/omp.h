// declarations only, so that sources which call the OpenMP runtime compile to IR without it being installed
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void); int omp_get_num_procs(void);
void omp_set_num_threads(int); int omp_in_parallel(void); int omp_get_dynamic(void); void omp_set_dynamic(int);
int omp_get_nested(void); void omp_set_nested(int); int omp_get_level(void); int omp_get_thread_limit(void); double omp_get_wtime(void);
typedef struct omp_lock_t { void* l; } omp_lock_t;
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
