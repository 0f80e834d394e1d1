/* The map and its iteration macros, from /repo's current tree. */
#include "sc_map.c"

void w_visit64(uint64_t k, uint64_t v);
bool w_choose(void);
void w_visitstr(const char *k, const char *v);

void w_foreach_64(struct sc_map_64 *m)
{
	uint64_t k, v;

	sc_map_foreach (m, k, v) {
		w_visit64(k, v);
	}
}

void w_foreach_key_64(struct sc_map_64 *m)
{
	uint64_t k;

	sc_map_foreach_key (m, k) {
		w_visit64(k, 0);
	}
}

void w_foreach_value_64(struct sc_map_64 *m)
{
	uint64_t v;

	sc_map_foreach_value (m, v) {
		w_visit64(0, v);
	}
}

void w_foreach_str(struct sc_map_str *m)
{
	const char *k, *v;

	sc_map_foreach (m, k, v) {
		w_visitstr(k, v);
	}
}

#define LEAVE(name, loop, ...)                                                 \
	void w_leave##name##_64(struct sc_map_64 *m)                           \
	{                                                                      \
		uint64_t k = 0, v = 0;                                         \
		(void) k, (void) v;                                            \
		loop {                                                         \
			if (w_choose()) {                                      \
				continue;                                      \
			}                                                      \
			w_visit64(k, v);                                       \
			if (w_choose()) {                                      \
				break;                                         \
			}                                                      \
		}                                                              \
	}

LEAVE(, sc_map_foreach (m, k, v))
LEAVE(_key, sc_map_foreach_key (m, k))
LEAVE(_value, sc_map_foreach_value (m, v))

bool w_found_64(struct sc_map_64 *m)
{
	return sc_map_found(m);
}

bool w_oom_64(struct sc_map_64 *m)
{
	return sc_map_oom(m);
}
