/* Declarations of the OpenMP runtime entry points the analysed sources may
   name.  Only parsed, never linked. */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void *_lk; } omp_lock_t;
typedef struct { void *_lk; } omp_nest_lock_t;
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_dynamic(void);
int omp_get_nested(void);
int omp_get_level(void);
int omp_get_thread_limit(void);
double omp_get_wtime(void);
double omp_get_wtick(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
void omp_set_nested(int);
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
