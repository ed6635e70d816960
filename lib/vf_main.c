#include "vf_driver.h"
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
unsigned long vf_count = 0, vf_nontrivial = 0;
int vf_is_thorough = 0;
static void report(void) { fprintf(stderr, "\nVF-COUNT %lu %lu\n", vf_count, vf_nontrivial); }
int LLVMFuzzerInitialize(int *argc, char ***argv) {
    const char *t = getenv("VF_THOROUGH"); vf_is_thorough = t && *t == '1';
    signal(SIGPIPE, SIG_IGN);
    atexit(report);
    if(!getenv("VF_NO_FIXED")) { vf_fixed(); fprintf(stderr, "VF-FIXED-OK\n"); }
    return 0;
}
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    vf_in in = { data, size, 0 };
    vf_count++;
    vf_scenario(&in);
    return 0;
}
