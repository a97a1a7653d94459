/* prototypes of the OpenMP runtime calls used by the sources (the verifier's front end has no omp.h of its own) */
#ifndef DV_OMP_H
#define DV_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void); int omp_get_num_procs(void); void omp_set_num_threads(int); int omp_in_parallel(void);
typedef int omp_lock_t;
double omp_get_wtime(void); void omp_init_lock(omp_lock_t *); void omp_destroy_lock(omp_lock_t *); void omp_set_lock(omp_lock_t *); void omp_unset_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
#endif
