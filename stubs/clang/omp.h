// Minimal OpenMP API declarations for clang (its own omp.h is not installed).
#ifndef OMP_STUB_H_
#define OMP_STUB_H_
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_max_threads(void);
void omp_set_num_threads(int);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_dynamic(int);
int omp_get_dynamic(void);
void omp_set_nested(int);
double omp_get_wtime(void);
typedef struct { void *p; } omp_lock_t;
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
int omp_get_thread_limit(void);
int omp_get_level(void);
#ifdef __cplusplus
}
#endif
#endif
