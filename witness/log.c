/* Uses of the logging macros and of sc_min and sc_max, expanded from the
 * headers of /repo's current tree. */
#include "sc.h"
#include "sc_log.h"

#define USES(NAME)                                                             \
	int w_##NAME##_plain(void)                                             \
	{                                                                      \
		return sc_log_##NAME("plain\n");                               \
	}                                                                      \
	int w_##NAME##_args(int a, const char *s, void *p)                     \
	{                                                                      \
		return sc_log_##NAME("a %d s %s p %p\n", a, s, p);             \
	}

USES(debug)
USES(info)
USES(warn)
USES(error)

int64_t w_max_s(int64_t a, int64_t b)
{
	return sc_max(a, b);
}

int64_t w_min_s(int64_t a, int64_t b)
{
	return sc_min(a, b);
}

uint64_t w_max_u(uint64_t a, uint64_t b)
{
	return sc_max(a, b);
}

uint64_t w_min_u(uint64_t a, uint64_t b)
{
	return sc_min(a, b);
}
