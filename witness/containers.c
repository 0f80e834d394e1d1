/* Instantiations of the header-only containers, one function per operation,
 * so that their expansion in /repo's current tree can be analysed. */
#include "sc_array.h"
#include "sc_queue.h"

void w_visit(size_t pos, const void *p);
bool w_choose(void);

struct w_wide {
	uint64_t a, b, c;
};

struct sc_array_wide {
	bool oom;
	size_t cap;
	size_t size;
	struct w_wide *elems;
};

#define ARRAY(T, name)                                                         \
	void w_array_init_##name(struct sc_array_##name *a)                    \
	{                                                                      \
		sc_array_init(a);                                              \
	}                                                                      \
	void w_array_term_##name(struct sc_array_##name *a)                    \
	{                                                                      \
		sc_array_term(a);                                              \
	}                                                                      \
	void w_array_add_##name(struct sc_array_##name *a, T k)                \
	{                                                                      \
		sc_array_add(a, k);                                            \
	}                                                                      \
	void w_array_clear_##name(struct sc_array_##name *a)                   \
	{                                                                      \
		sc_array_clear(a);                                             \
	}                                                                      \
	bool w_array_oom_##name(struct sc_array_##name *a)                     \
	{                                                                      \
		return sc_array_oom(a);                                        \
	}                                                                      \
	T w_array_at_##name(struct sc_array_##name *a, size_t i)               \
	{                                                                      \
		return sc_array_at(a, i);                                      \
	}                                                                      \
	size_t w_array_size_##name(struct sc_array_##name *a)                  \
	{                                                                      \
		return sc_array_size(a);                                       \
	}                                                                      \
	void w_array_del_##name(struct sc_array_##name *a, size_t i)           \
	{                                                                      \
		sc_array_del(a, i);                                            \
	}                                                                      \
	void w_array_del_unordered_##name(struct sc_array_##name *a, size_t i) \
	{                                                                      \
		sc_array_del_unordered(a, i);                                  \
	}                                                                      \
	void w_array_del_last_##name(struct sc_array_##name *a)                \
	{                                                                      \
		sc_array_del_last(a);                                          \
	}                                                                      \
	T w_array_last_##name(struct sc_array_##name *a)                       \
	{                                                                      \
		return sc_array_last(a);                                       \
	}                                                                      \
	void w_array_foreach_##name(struct sc_array_##name *a)                 \
	{                                                                      \
		T e;                                                           \
		sc_array_foreach (a, e) {                                      \
			w_visit(0, &e);                                        \
		}                                                              \
	}                                                                      \
	void w_array_leave_##name(struct sc_array_##name *x)           \
	{                                                                      \
		T e;                                                           \
		sc_array_foreach (x, e) {                                      \
			if (w_choose()) {                                      \
				continue;                                      \
			}                                                      \
			w_visit(0, &e);                                        \
			if (w_choose()) {                                      \
				break;                                         \
			}                                                      \
		}                                                              \
	}

#define QUEUE(T, name)                                                         \
	void w_queue_init_##name(struct sc_queue_##name *q)                    \
	{                                                                      \
		sc_queue_init(q);                                              \
	}                                                                      \
	void w_queue_term_##name(struct sc_queue_##name *q)                    \
	{                                                                      \
		sc_queue_term(q);                                              \
	}                                                                      \
	bool w_queue_oom_##name(struct sc_queue_##name *q)                     \
	{                                                                      \
		return sc_queue_oom(q);                                        \
	}                                                                      \
	size_t w_queue_size_##name(struct sc_queue_##name *q)                  \
	{                                                                      \
		return sc_queue_size(q);                                       \
	}                                                                      \
	void w_queue_clear_##name(struct sc_queue_##name *q)                   \
	{                                                                      \
		sc_queue_clear(q);                                             \
	}                                                                      \
	bool w_queue_empty_##name(struct sc_queue_##name *q)                   \
	{                                                                      \
		return sc_queue_empty(q);                                      \
	}                                                                      \
	T w_queue_at_##name(struct sc_queue_##name *q, size_t i)               \
	{                                                                      \
		return sc_queue_at(q, i);                                      \
	}                                                                      \
	T w_queue_peek_first_##name(struct sc_queue_##name *q)                 \
	{                                                                      \
		return sc_queue_peek_first(q);                                 \
	}                                                                      \
	T w_queue_peek_last_##name(struct sc_queue_##name *q)                  \
	{                                                                      \
		return sc_queue_peek_last(q);                                  \
	}                                                                      \
	void w_queue_add_last_##name(struct sc_queue_##name *q, T e)           \
	{                                                                      \
		sc_queue_add_last(q, e);                                       \
	}                                                                      \
	void w_queue_add_first_##name(struct sc_queue_##name *q, T e)          \
	{                                                                      \
		sc_queue_add_first(q, e);                                      \
	}                                                                      \
	T w_queue_del_last_##name(struct sc_queue_##name *q)                   \
	{                                                                      \
		return sc_queue_del_last(q);                                   \
	}                                                                      \
	T w_queue_del_first_##name(struct sc_queue_##name *q)                  \
	{                                                                      \
		return sc_queue_del_first(q);                                  \
	}                                                                      \
	void w_queue_foreach_##name(struct sc_queue_##name *q)                 \
	{                                                                      \
		T e;                                                           \
		sc_queue_foreach (q, e) {                                      \
			w_visit(0, &e);                                        \
		}                                                              \
	}                                                                      \
	void w_queue_leave_##name(struct sc_queue_##name *x)           \
	{                                                                      \
		T e;                                                           \
		sc_queue_foreach (x, e) {                                      \
			if (w_choose()) {                                      \
				continue;                                      \
			}                                                      \
			w_visit(0, &e);                                        \
			if (w_choose()) {                                      \
				break;                                         \
			}                                                      \
		}                                                              \
	}

ARRAY(int, int)
ARRAY(uint64_t, 64)
ARRAY(void *, ptr)
QUEUE(int, int)
QUEUE(uint64_t, 64)
QUEUE(void *, ptr)

void w_array_add_wide(struct sc_array_wide *a, struct w_wide *k)
{
	sc_array_add(a, *k);
}

void w_array_del_wide(struct sc_array_wide *a, size_t i)
{
	sc_array_del(a, i);
}
