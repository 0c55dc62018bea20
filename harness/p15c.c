/* P15: initialising the library when any one memory request fails */
#define H_NOBOOT
#include "harness.h"
void h_initoom(void)
{
	int r;

	sym_assert(ec_malloc_register(h_malloc, h_free, h_realloc) == 0, "handlers registered");
	h_base = h_live;
	h_arm(sym_u32("failing"));
	r = ec_init();
	h_disarm();
	sym_assert((r < 0) == h_failed, "running out of memory is reported by the initialisation");
	if (r < 0)
		sym_cover("failed");
	else
		sym_cover("done");
	ec_exit();
	h_end();
}
