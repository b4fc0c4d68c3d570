// declarations of the OpenMP runtime routines used by ieompp (extraction only;
// gcc's omp.h uses attributes clang rejects)
#ifndef VERIF_OMP_STUB
#define VERIF_OMP_STUB
extern "C" {
int omp_get_thread_num(void) noexcept;
int omp_get_num_threads(void) noexcept;
int omp_get_max_threads(void) noexcept;
int omp_get_num_procs(void) noexcept;
int omp_get_thread_limit(void) noexcept;
int omp_in_parallel(void) noexcept;
int omp_get_level(void) noexcept;
int omp_get_dynamic(void) noexcept;
int omp_get_max_active_levels(void) noexcept;
void omp_set_num_threads(int) noexcept;
void omp_set_dynamic(int) noexcept;
double omp_get_wtime(void) noexcept;
}
#endif
