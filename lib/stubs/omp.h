/* declarations only; used when clang has no OpenMP headers */
#ifndef STUB_OMP_H
#define STUB_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int x; } omp_lock_t;
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void);
void omp_set_num_threads(int); double omp_get_wtime(void); int omp_get_num_procs(void);
void omp_set_dynamic(int); void omp_set_nested(int); int omp_in_parallel(void);
void omp_init_lock(omp_lock_t *); void omp_set_lock(omp_lock_t *); void omp_unset_lock(omp_lock_t *); void omp_destroy_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
#endif
