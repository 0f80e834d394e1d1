/* Uses of the list's iteration macros; linked textually with sc_list.c of
 * /repo's current tree (found through the include path). */
#include "sc_list.c"
#include <stdbool.h>

struct w_box {
	long tag;
	struct sc_list link;
};

void w_visit(struct sc_list *e);
bool w_choose(void);

void w_foreach(struct sc_list *l)
{
	struct sc_list *it;

	sc_list_foreach (l, it) {
		w_visit(it);
	}
}

void w_foreach_r(struct sc_list *l)
{
	struct sc_list *it;

	sc_list_foreach_r (l, it) {
		w_visit(it);
	}
}

void w_foreach_safe(struct sc_list *l)
{
	struct sc_list *it, *tmp;

	sc_list_foreach_safe (l, tmp, it) {
		w_visit(it);
		sc_list_del(l, it);
	}
}

void w_foreach_safe_r(struct sc_list *l)
{
	struct sc_list *it, *tmp;

	sc_list_foreach_safe_r (l, tmp, it) {
		w_visit(it);
		sc_list_del(l, it);
	}
}

#define LEAVE(name, loop, ...)                                                 \
	void w_leave##name(struct sc_list *l)                                  \
	{                                                                      \
		struct sc_list *it;                                            \
		__VA_ARGS__;                                                   \
		loop {                                                         \
			if (w_choose()) {                                      \
				continue;                                      \
			}                                                      \
			w_visit(it);                                           \
			if (w_choose()) {                                      \
				break;                                         \
			}                                                      \
		}                                                              \
	}

LEAVE(, sc_list_foreach (l, it))
LEAVE(_r, sc_list_foreach_r (l, it))
LEAVE(_safe, sc_list_foreach_safe (l, tmp, it), struct sc_list *tmp)
LEAVE(_safe_r, sc_list_foreach_safe_r (l, tmp, it), struct sc_list *tmp)

struct w_box *w_entry(struct sc_list *e)
{
	return sc_list_entry(e, struct w_box, link);
}
