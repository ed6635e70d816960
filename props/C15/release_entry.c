#include "vf_proof.h"
struct sort_map_t; struct iterator_t; extern size_t vf_left; extern int vf_owed, vf_top, vf_it, vf_map_, vf_end; extern struct sort_map_t *vf_m; extern struct iterator_t *vf_i; void delete_configuration(struct sort_map_t *configuration, int is_top);
void u_release(void) { vf_left = nondet_size(); vf_owed = vf_it = vf_map_ = vf_end = 0; vf_top = nondet_u8() & 1; vf_m = malloc(64); vf_i = malloc(64); delete_configuration(vf_m, vf_top); VF_ENSURES(vf_map_ && vf_end && !vf_owed, "all the configuration is released"); VF_REACH("released"); }
