/* work-item functions of the simulated device, linked into every program */
#include <stddef.h>
size_t clmock_gid[3], clmock_gsz[3]; unsigned clmock_dim;
size_t clm_gid(unsigned d) __asm__("_Z13get_global_idj");      size_t clm_gid(unsigned d) { return d < 3 ? clmock_gid[d] : 0; }
size_t clm_gsz(unsigned d) __asm__("_Z15get_global_sizej");    size_t clm_gsz(unsigned d) { return d < 3 ? clmock_gsz[d] : 1; }
size_t clm_off(unsigned d) __asm__("_Z17get_global_offsetj");  size_t clm_off(unsigned d) { (void)d; return 0; }
size_t clm_lid(unsigned d) __asm__("_Z12get_local_idj");       size_t clm_lid(unsigned d) { (void)d; return 0; }
size_t clm_lsz(unsigned d) __asm__("_Z14get_local_sizej");     size_t clm_lsz(unsigned d) { (void)d; return 1; }
size_t clm_grp(unsigned d) __asm__("_Z12get_group_idj");       size_t clm_grp(unsigned d) { return d < 3 ? clmock_gid[d] : 0; }
size_t clm_ngr(unsigned d) __asm__("_Z14get_num_groupsj");     size_t clm_ngr(unsigned d) { return d < 3 ? clmock_gsz[d] : 1; }
unsigned clm_dim(void) __asm__("_Z12get_work_dimv");           unsigned clm_dim(void) { return clmock_dim; }
