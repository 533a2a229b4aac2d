// Minimal declarations of the OpenMP runtime API, so that clang can parse /repo
// (this sandbox has gcc's omp.h only, which clang cannot read).  Analysis only: nothing is linked.
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef void *omp_lock_t;
typedef void *omp_nest_lock_t;
int    omp_get_thread_num(void);
int    omp_get_num_threads(void);
int    omp_get_max_threads(void);
int    omp_get_num_procs(void);
void   omp_set_num_threads(int);
int    omp_in_parallel(void);
int    omp_get_level(void);
void   omp_set_dynamic(int);
int    omp_get_dynamic(void);
void   omp_set_nested(int);
int    omp_get_nested(void);
double omp_get_wtime(void);
double omp_get_wtick(void);
void   omp_init_lock(omp_lock_t *);
void   omp_destroy_lock(omp_lock_t *);
void   omp_set_lock(omp_lock_t *);
void   omp_unset_lock(omp_lock_t *);
int    omp_test_lock(omp_lock_t *);
int    omp_get_thread_limit(void);
void   omp_set_max_active_levels(int);
#ifdef __cplusplus
}
#endif
#endif
