// Inert definitions of the MT_VERIF_HOOKS announcements, for harnesses that do not need them.
#include <stddef.h>
extern "C" {
__attribute__((weak)) void mt_verif_relax(void) {}
__attribute__((weak)) void mt_verif_alloc(void*, size_t, int) {}
__attribute__((weak)) void mt_verif_retire(void*, size_t, int) {}
__attribute__((weak)) void mt_verif_free(void*, size_t, int) {}
}
