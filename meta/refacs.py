"""Behaviour-preserving rewrites; see refac.py."""
REFACS = []


def R(id, props, *edits):
    REFACS.append(dict(id=id, props=props, edits=list(edits)))


B = "buffer/sc_buf.c"
BP = "C01,C02,C03,C04"
R("buf-helper-check", BP, (B, "fn:sc_buf_peek_32_pos", '''
static bool sc_buf_check(struct sc_buf *b, uint64_t pos, uint64_t len, uint64_t end)
{
	if (b->err == 0 && sc_buf_in_range(pos, len, end)) {
		return true;
	}

	b->err |= SC_BUF_CORRUPT;
	return false;
}

static uint64_t sc_buf_peek_32_pos(struct sc_buf *b, uint64_t pos,
				   uint32_t *val)
{
	uint32_t v = 0;
	const unsigned char *p;

	*val = 0;

	if (!sc_buf_check(b, pos, sizeof(v), b->wpos)) {
		return 0;
	}

	p = b->mem + pos;
	for (size_t i = 0; i < sizeof(v); i++) {
		v |= (uint32_t) p[i] << (8 * i);
	}

	*val = v;

	return 4;
}
'''), (B, "fn:sc_buf_set_data", '''
uint64_t sc_buf_set_data(struct sc_buf *b, uint64_t offset, const void *src,
			 uint64_t len)
{
	if (!sc_buf_check(b, offset, len, b->cap)) {
		return 0;
	}

	if (len != 0) {
		memcpy(b->mem + offset, src, len);
	}

	return len;
}
'''))
R("buf-loop-64", BP, (B, "fn:sc_buf_set_64_pos", '''
static uint64_t sc_buf_set_64_pos(struct sc_buf *b, uint64_t pos,
				 const uint64_t *val)
{
	uint64_t v = *val;
	unsigned char *p, *end;

	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
		b->err |= SC_BUF_CORRUPT;
		return 0;
	}

	p = &b->mem[pos];
	end = p + sizeof(v);

	while (p < end) {
		*p++ = (unsigned char) (v & 0xff);
		v >>= 8;
	}

	return sizeof(v);
}
'''), (B, "fn:sc_buf_peek_64_pos", '''
static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
				   uint64_t *val)
{
	uint64_t v = 0;
	int i;

	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
		b->err |= SC_BUF_CORRUPT;
		*val = 0;
		return 0;
	}

	for (i = 7; i >= 0; i--) {
		v = (v << 8) | b->mem[pos + (uint64_t) i];
	}

	*val = v;

	return sizeof(*val);
}
'''))
R("buf-reserve-early", BP, (B, "fn:sc_buf_reserve", '''
static bool sc_buf_grow(struct sc_buf *b, uint64_t len)
{
	const uint64_t mask = 4095;
	uint64_t size;
	unsigned char *m;

	if (b->ref || len > UINT64_MAX - mask - b->cap) {
		return false;
	}

	size = (b->cap + len + mask) & ~mask;
	if (b->cap >= SC_BUF_MAX - 4096 || size > b->limit) {
		return false;
	}

	m = sc_buf_realloc(b->mem, size);
	if (m == NULL) {
		return false;
	}

	b->mem = m;
	b->cap = size;

	return true;
}

bool sc_buf_reserve(struct sc_buf *b, uint64_t len)
{
	if (sc_buf_in_range(b->wpos, len, b->cap)) {
		return true;
	}

	if (sc_buf_grow(b, len)) {
		return true;
	}

	b->err |= SC_BUF_OOM;
	return false;
}
'''))
R("buf-compact-early", BP, (B, "fn:sc_buf_compact", '''
void sc_buf_compact(struct sc_buf *b)
{
	const uint64_t left = sc_buf_size(b);

	if (b->rpos == 0) {
		if (left == 0) {
			b->wpos = 0;
		}
		return;
	}

	if (left > 0) {
		memmove(b->mem, sc_buf_rbuf(b), left);
	}

	b->wpos = left;
	b->rpos = 0;
}
'''), (B, "fn:sc_buf_move", '''
void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
{
	const uint64_t before = dest->wpos;
	uint64_t n = sc_buf_size(src);

	if (n > sc_buf_quota(dest)) {
		n = sc_buf_quota(dest);
	}

	sc_buf_put_raw(dest, sc_buf_rbuf(src), n);
	sc_buf_mark_read(src, dest->wpos - before);
}
'''))
R("buf-get-str-order", BP, (B, "fn:sc_buf_get_str", '''
const char *sc_buf_get_str(struct sc_buf *b)
{
	const uint64_t start = b->rpos;
	const uint64_t len = sc_buf_get_64(b);
	const char *str = NULL;

	if (!sc_buf_valid(b) || len == NULL_LEN) {
		goto out;
	}

	if (len < UINT64_MAX && sc_buf_in_range(b->rpos, len + 1, b->wpos)) {
		str = sc_buf_rbuf(b);
		sc_buf_mark_read(b, len + 1);
	} else {
		b->err |= SC_BUF_CORRUPT;
		b->rpos = start;
	}

out:
	return str;
}
'''), (B, "fn:sc_buf_get_blob", '''
void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
{
	uint64_t pos = b->rpos;

	if (len == 0) {
		return NULL;
	}

	if (sc_buf_valid(b) && sc_buf_in_range(pos, len, b->wpos)) {
		b->rpos = pos + len;
		return &b->mem[pos];
	}

	b->err |= SC_BUF_CORRUPT;
	return NULL;
}
'''))
R("buf-fmt-twopass", BP, (B, "fn:sc_buf_put_fmt", '''
void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
{
	const uint64_t head = sc_buf_64_len(0);
	const uint64_t pos = b->wpos;
	int rc;
	uint64_t wr;
	char *mem;
	va_list args;

	va_start(args, fmt);
	rc = vsnprintf(NULL, 0, fmt, args);
	va_end(args);

	if (rc < 0) {
		b->err |= SC_BUF_CORRUPT;
		return;
	}

	if (b->err != 0) {
		return;
	}

	wr = (uint64_t) rc;
	if (!sc_buf_reserve(b, wr + head + 1)) {
		return;
	}

	mem = (char *) sc_buf_wbuf(b) + head;

	va_start(args, fmt);
	rc = vsnprintf(mem, wr + 1, fmt, args);
	va_end(args);

	if (rc < 0 || (uint64_t) rc > wr) {
		b->err |= SC_BUF_OOM;
		return;
	}

	wr = (uint64_t) rc;
	sc_buf_set_64_at(b, pos, wr);
	sc_buf_mark_write(b, wr + head + 1);
}
'''))
R("buf-put-inline", BP, (B, "fn:sc_buf_put_raw", '''
void sc_buf_put_raw(struct sc_buf *b, const void *ptr, uint64_t len)
{
	uint64_t n;

	if (sc_buf_reserve(b, len)) {
		n = sc_buf_set_data(b, b->wpos, ptr, len);
		b->wpos = b->wpos + n;
	}
}
'''), (B, "fn:sc_buf_put_16", '''
void sc_buf_put_16(struct sc_buf *b, uint16_t val)
{
	unsigned char tmp[2] = {(unsigned char) val, (unsigned char) (val >> 8)};

	sc_buf_put_raw(b, tmp, sizeof(tmp));
}
'''), (B, "fn:sc_buf_get_16", '''
uint16_t sc_buf_get_16(struct sc_buf *b)
{
	unsigned char tmp[2];

	sc_buf_get_data(b, tmp, sizeof(tmp));

	return (uint16_t) (tmp[0] | (tmp[1] << 8));
}
'''))
R("buf-native-le", BP, (B, "	*val = (uint32_t) p[0] << 0 | (uint32_t) p[1] << 8 |\n	       (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24;\n", "	memcpy(val, p, sizeof(*val));\n"),
  (B, "	p[0] = (unsigned char) (*val >> 0);\n	p[1] = (unsigned char) (*val >> 8);\n	p[2] = (unsigned char) (*val >> 16);\n	p[3] = (unsigned char) (*val >> 24);\n\n", "	memcpy(p, val, sizeof(*val));\n\n"))

S = "string/sc_str.c"
SP = "C05,C06,C07"
R("str-create-helper", SP, (S, "fn:sc_str_create_len", '''
static struct sc_str *sc_str_alloc(size_t len)
{
	struct sc_str *m = sc_str_malloc(sc_str_bytes(len));

	if (m != NULL) {
		m->len = (uint32_t) len;
		m->buf[len] = '\\0';
	}

	return m;
}

char *sc_str_create_len(const char *str, uint32_t len)
{
	struct sc_str *c;

	if (str == NULL || (c = sc_str_alloc(len)) == NULL) {
		return NULL;
	}

	memcpy(c->buf, str, len);

	return c->buf;
}
'''), (S, "fn:sc_str_create", '''
char *sc_str_create(const char *str)
{
	size_t len = str != NULL ? strlen(str) : 0;

	return len > SC_STR_MAX ? NULL : sc_str_create_len(str, (uint32_t) len);
}
'''))
R("str-va-always-two", SP, (S, "fn:sc_str_create_va", '''
char *sc_str_create_va(const char *fmt, va_list va)
{
	int rc;
	struct sc_str *str;
	va_list args;

	va_copy(args, va);
	rc = vsnprintf(NULL, 0, fmt, args);
	va_end(args);

	if (rc < 0) {
		return NULL;
	}

	str = sc_str_malloc(sc_str_bytes((size_t) rc));
	if (str == NULL) {
		return NULL;
	}

	str->len = (uint32_t) rc;

	va_copy(args, va);
	rc = vsnprintf(str->buf, (size_t) str->len + 1, fmt, args);
	va_end(args);

	if (rc < 0 || (uint32_t) rc > str->len) {
		sc_str_free(str);
		return NULL;
	}

	return str->buf;
}
'''))
R("str-append-split", SP, (S, "fn:sc_str_append", '''
bool sc_str_append(char **str, const char *param)
{
	size_t len;
	uint32_t old;
	struct sc_str *m, *bigger;

	if (*str == NULL) {
		return (*str = sc_str_create(param)) != NULL;
	}

	m = sc_str_meta(*str);
	old = m->len;
	len = strlen(param);

	if (len > SC_STR_MAX - old) {
		return false;
	}

	bigger = sc_str_realloc(m, sc_str_bytes(old + len));
	if (bigger == NULL) {
		return false;
	}

	memcpy(bigger->buf + old, param, len + 1);
	bigger->len = (uint32_t) (old + len);
	*str = bigger->buf;

	return true;
}
'''))
R("str-trim-loop", SP, (S, "fn:sc_str_trim", '''
bool sc_str_trim(char **str, const char *list)
{
	size_t len, left, right;
	char *s = *str, *copy;

	if (s == NULL) {
		return true;
	}

	len = sc_str_meta(s)->len;
	left = strspn(s, list);
	right = len;

	while (right > left && strchr(list, s[right - 1]) != NULL) {
		right--;
	}

	if (left == 0 && right == len) {
		return true;
	}

	copy = sc_str_create_len(s + left, (uint32_t) (right - left));
	if (copy == NULL) {
		return false;
	}

	sc_str_destroy(str);
	*str = copy;

	return true;
}
'''))
R("str-swap-helper", SP, (S, "fn:sc_str_set", '''
static bool sc_str_take(char **str, char *val)
{
	if (val == NULL) {
		return false;
	}

	sc_str_destroy(str);
	*str = val;

	return true;
}

bool sc_str_set(char **str, const char *param)
{
	return sc_str_take(str, sc_str_create(param));
}
'''), (S, "fn:sc_str_set_fmt", '''
bool sc_str_set_fmt(char **str, const char *fmt, ...)
{
	char *ret;
	va_list args;

	va_start(args, fmt);
	ret = sc_str_create_va(fmt, args);
	va_end(args);

	return sc_str_take(str, ret);
}
'''), (S, "fn:sc_str_substring", '''
bool sc_str_substring(char **str, uint32_t start, uint32_t end)
{
	uint32_t len;

	if (*str == NULL) {
		return false;
	}

	len = (uint32_t) sc_str_len(*str);
	if (end > len || start > end) {
		return false;
	}

	return sc_str_take(str, sc_str_create_len(&(*str)[start], end - start));
}
'''))
R("str-cmp-early", SP, (S, "fn:sc_str_cmp", '''
bool sc_str_cmp(const char *str, const char *other)
{
	const int64_t len = sc_str_len(str);

	if (len != sc_str_len(other)) {
		return false;
	}

	return memcmp(str, other, (size_t) len) == 0;
}
'''), (S, "fn:sc_str_dup", '''
char *sc_str_dup(const char *str)
{
	return str == NULL ? NULL : sc_str_create_len(str, sc_str_meta(str)->len);
}
'''))
R("str-replace-for", SP, (S, "	while (count--) {\n		len_unmatch = strstr(orig, replace) - orig;\n		memcpy(tmp, orig, len_unmatch);\n		tmp += len_unmatch;\n\n		// Copy extra '\\0' byte just to silence sanitizer.\n		memcpy(tmp, with, with_len + 1);\n		tmp += with_len;\n		orig += len_unmatch + rep_len;\n	}\n\n	memcpy(tmp, orig, orig_end - orig + 1);\n",
  "	for (; count > 0; count--) {\n		char *hit = strstr(orig, replace);\n\n		len_unmatch = (size_t) (hit - orig);\n		memcpy(tmp, orig, len_unmatch);\n		memcpy(tmp + len_unmatch, with, with_len);\n		tmp += len_unmatch + with_len;\n		orig = hit + rep_len;\n	}\n\n	memcpy(tmp, orig, orig_end - orig);\n	dest->buf[size] = '\\0';\n"))
R("str-token-idx", SP, (S, "fn:sc_str_token_begin", '''
const char *sc_str_token_begin(char *str, char **save, const char *delim)
{
	char *it;

	if (str == NULL) {
		return NULL;
	}

	it = str;
	if (*save != NULL) {
		swap(str, *save);
		it = *save;
		if (*it == '\\0') {
			return NULL;
		}
		it = it + 1;
	}

	*save = &it[strcspn(it, delim)];
	swap(str, *save);

	return it;
}
'''))

L = "linked-list/sc_list.c"
R("list-link-helper", "C08", (L, "fn:sc_list_add_tail", '''
static void sc_list_link(struct sc_list *prev, struct sc_list *next,
			 struct sc_list *elem)
{
	elem->prev = prev;
	elem->next = next;
	next->prev = elem;
	prev->next = elem;
}

void sc_list_add_tail(struct sc_list *l, struct sc_list *elem)
{
	sc_list_del(l, elem);
	sc_list_link(l->prev, l, elem);
}
'''), (L, "fn:sc_list_add_head", '''
void sc_list_add_head(struct sc_list *l, struct sc_list *elem)
{
	sc_list_del(l, elem);
	sc_list_link(l, l->next, elem);
}
'''), (L, "fn:sc_list_add_after", '''
void sc_list_add_after(struct sc_list *l, struct sc_list *prev,
		       struct sc_list *elem)
{
	sc_list_del(l, elem);
	sc_list_link(prev, prev->next, elem);
}
'''), (L, "fn:sc_list_add_before", '''
void sc_list_add_before(struct sc_list *l, struct sc_list *next,
			struct sc_list *elem)
{
	sc_list_add_after(l, (sc_list_del(l, elem), next->prev), elem);
}
'''))
R("list-pop-head", "C08", (L, "fn:sc_list_pop_head", '''
struct sc_list *sc_list_pop_head(struct sc_list *l)
{
	struct sc_list *e = sc_list_head(l);

	if (e != NULL) {
		sc_list_del(l, e);
	}

	return e;
}
'''), (L, "fn:sc_list_clear", '''
void sc_list_clear(struct sc_list *l)
{
	while (sc_list_pop_head(l) != NULL) {
	}
}
'''), (L, "fn:sc_list_count", '''
size_t sc_list_count(struct sc_list *l)
{
	size_t n = 0;

	for (struct sc_list *e = l->prev; e != l; e = e->prev) {
		++n;
	}

	return n;
}
'''))

H = "heap/sc_heap.c"
R("heap-sift-helper", "C11", (H, "fn:sc_heap_add", '''
static bool sc_heap_grow(struct sc_heap *h)
{
	size_t cap = h->cap ? h->cap << 1 : 4;
	struct sc_heap_data *exp;

	if (h->cap >= SC_HEAP_MAX / 2) {
		return false;
	}

	exp = sc_heap_realloc(h->elems, cap * 2 * sizeof(*exp));
	if (exp == NULL) {
		return false;
	}

	h->elems = exp;
	h->cap = cap;

	return true;
}

bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
{
	size_t pos, up;

	if (h->size + 1 >= h->cap && !sc_heap_grow(h)) {
		return false;
	}

	h->size++;

	for (pos = h->size; pos > 1; pos = up) {
		up = pos >> 1;
		if (h->elems[up].key <= key) {
			break;
		}
		h->elems[pos] = h->elems[up];
	}

	h->elems[pos] = (struct sc_heap_data){.key = key, .data = data};

	return true;
}
'''))
R("heap-pop-for", "C11", (H, "fn:sc_heap_pop", '''
struct sc_heap_data *sc_heap_pop(struct sc_heap *h)
{
	struct sc_heap_data *e = h->elems;
	struct sc_heap_data last;
	size_t i, child;

	if (h->size == 0) {
		return NULL;
	}

	e[0] = e[1];
	last = e[h->size];
	h->size -= 1;

	for (i = 1; (child = i * 2) <= h->size; i = child) {
		if (child != h->size && e[child + 1].key < e[child].key) {
			child += 1;
		}

		if (e[child].key >= last.key) {
			break;
		}

		e[i] = e[child];
	}

	e[i] = last;

	return e;
}
'''))


# ------------------------------------------------------------------- array, queue, map
def mac(f, name, body, end=None):
    """replace a function-like macro: fn-style marker handled by old text 'mac:NAME'"""
    return (f, "mac:" + name, body)


A = "array/sc_array.h"
R("array-add-reserve", "C09", (A, "mac:sc_array_add", r'''
#define sc_array_grow(a)                                                       \
	do {                                                                   \
		const size_t _esz = sizeof((a)->elems[0]);                     \
		const size_t _lim = SC_ARRAY_MAX / _esz;                       \
		size_t _n = 8;                                                 \
		void *_mem;                                                    \
                                                                               \
		(a)->oom = false;                                              \
		if ((a)->size < (a)->cap) {                                    \
			break;                                                 \
		}                                                              \
		if ((a)->cap != 0) {                                           \
			_n = (a)->cap << 1;                                    \
		}                                                              \
		if ((a)->cap > _lim / 2 ||                                     \
		    (_mem = sc_array_realloc((a)->elems, _esz * _n)) == NULL) { \
			(a)->oom = true;                                       \
		} else {                                                       \
			(a)->elems = _mem;                                     \
			(a)->cap = _n;                                         \
		}                                                              \
	} while (0)

#define sc_array_add(a, k)                                                     \
	do {                                                                   \
		sc_array_grow(a);                                              \
		if (!(a)->oom) {                                               \
			(a)->elems[(a)->size] = k;                             \
			(a)->size += 1;                                        \
		}                                                              \
	} while (0)
'''))
R("array-del-loop", "C09", (A, "mac:sc_array_del", r'''
#define sc_array_del(a, i)                                                     \
	do {                                                                   \
		size_t _idx = (i);                                              \
		assert(_idx < (a)->size);                                       \
                                                                               \
		(a)->size -= 1;                                                \
		for (; _idx < (a)->size; _idx++) {                               \
			(a)->elems[_idx] = (a)->elems[_idx + 1];                 \
		}                                                              \
	} while (0)
'''), (A, "mac:sc_array_del_unordered", r'''
#define sc_array_del_unordered(a, i)                                           \
	do {                                                                   \
		size_t _idx = (i);                                              \
		size_t _last = (a)->size - 1;                                  \
		assert(_idx <= _last);                                          \
		if (_idx != _last) {                                            \
			(a)->elems[_idx] = (a)->elems[_last];                   \
		}                                                              \
		(a)->size = _last;                                             \
	} while (0)
'''))
R("array-malloc-copy", "C09", (A, "mac:sc_array_add", r'''
#define sc_array_add(a, k)                                                     \
	do {                                                                   \
		const size_t _max = SC_ARRAY_MAX / sizeof(*(a)->elems);        \
		if ((a)->cap == (a)->size) {                                   \
			size_t _cap = (a)->cap == 0 ? 8 : (a)->cap * 2;        \
			void *_p = NULL;                                       \
			if ((a)->cap <= _max / 2) {                            \
				_p = sc_array_realloc(NULL, _cap * sizeof(*((a)->elems))); \
			}                                                      \
			if (!_p) {                                             \
				(a)->oom = true;                               \
				break;                                         \
			}                                                      \
			if ((a)->size > 0) {                                   \
				memcpy(_p, (a)->elems,                         \
				       (a)->size * sizeof(*((a)->elems)));     \
			}                                                      \
			sc_array_free((a)->elems);                             \
			(a)->cap = _cap;                                       \
			(a)->elems = _p;                                       \
		}                                                              \
		(a)->oom = false;                                              \
		(a)->elems[(a)->size++] = k;                                   \
	} while (0)
'''))
Q = "queue/sc_queue.h"
R("queue-expand-full", "C10", (Q, "mac:sc_queue_expand", r'''
#define sc_queue_expand(q)                                                     \
	do {                                                                   \
		const size_t _esz = sizeof(*(q)->elems);                       \
		size_t _head;                                                  \
		char *_dst;                                                    \
                                                                               \
		(q)->oom = (q)->elems == NULL;                                 \
		if (sc_queue_size(q) != (q)->cap - 1) {                        \
			break;                                                 \
		}                                                              \
		_dst = (q)->cap > SC_QUEUE_MAX / 2ul ?                         \
			       NULL :                                          \
			       sc_queue_calloc((q)->cap * 2, _esz);            \
		(q)->oom = _dst == NULL;                                       \
		if ((q)->oom) {                                                \
			break;                                                 \
		}                                                              \
		_head = (q)->cap - (q)->first;                                 \
		memcpy(_dst, &(q)->elems[(q)->first], _head * _esz);           \
		if ((q)->first != 0) {                                         \
			memcpy(_dst + _head * _esz, &(q)->elems[0],            \
			       (q)->first * _esz);                             \
		}                                                              \
		sc_queue_free((q)->elems);                                     \
		(q)->elems = (void *) _dst;                                    \
		(q)->first = 0;                                                \
		(q)->last = (q)->cap - 1;                                      \
		(q)->cap *= 2;                                                 \
	} while (0)
'''))
R("queue-copy-loop", "C10", (Q, r'''			memcpy(_dst, _src, _len);                              \
			memcpy(((char *) _dst) + _len, (q)->elems, _off);      \
''', r'''			for (size_t _j = 0; _j < _len; _j++) {                 \
				((char *) _dst)[_j] = ((char *) _src)[_j];     \
			}                                                      \
			memmove(((char *) _dst) + _len, (q)->elems, _off);     \
'''))
R("queue-init-malloc", "C10", (Q, "mac:sc_queue_init", r'''
#define sc_queue_init(q)                                                       \
	do {                                                                   \
		memset((q), 0, sizeof(*(q)));                                  \
		(q)->cap = 8;                                                  \
		(q)->elems = sc_queue_calloc(8, sizeof(*(q)->elems));          \
		(q)->oom = ((q)->elems == NULL);                               \
	} while (0)
'''), (Q, "mac:sc_queue_add_last", r'''
#define sc_queue_add_last(q, elem)                                             \
	do {                                                                   \
		sc_queue_expand(q);                                            \
		if (!(q)->oom) {                                               \
			const size_t _at = (q)->last;                          \
			(q)->last = sc_queue_next(q, _at);                     \
			(q)->elems[_at] = elem;                                \
		}                                                              \
	} while (0)
'''), (Q, "mac:sc_queue_del_last", r'''
static inline size_t sc_queue_dec_last(size_t *last, size_t cap)
{
	*last = (*last == 0) ? cap - 1 : *last - 1;
	return *last;
}

#define sc_queue_del_last(q)                                                   \
	(q)->elems[sc_queue_dec_last(&(q)->last, (q)->cap)]
'''))
M = "map/sc_map.c"
R("map-find-helper", "C12,C13", (M, r'''	V sc_map_put_##name(struct sc_map_##name *m, K key, V value)           \
''', r'''	static struct sc_map_item_##name *sc_map_slot_##name(                  \
		struct sc_map_##name *m, K key, uint32_t h)                    \
	{                                                                      \
		const uint32_t mod = m->cap - 1;                               \
		uint32_t pos = h & mod;                                        \
                                                                               \
		while (m->mem[pos].key != 0 &&                                 \
		       !sc_map_cmp_##name(&m->mem[pos], key, h)) {             \
			pos = (pos + 1) & mod;                                 \
		}                                                              \
		return &m->mem[pos];                                           \
	}                                                                      \
                                                                               \
	V sc_map_put_##name(struct sc_map_##name *m, K key, V value)           \
'''), (M, r'''		mod = m->cap - 1;                                              \
		h = hash_fn(key);                                              \
		pos = h & (mod);                                               \
                                                                               \
		while (true) {                                                 \
			if (m->mem[pos].key == 0) {                            \
				m->size++;                                     \
			} else if (!sc_map_cmp_##name(&m->mem[pos], key, h)) { \
				pos = (pos + 1) & (mod);                       \
				continue;                                      \
			}                                                      \
                                                                               \
			m->found = m->mem[pos].key != 0;                       \
			ret = m->found ? m->mem[pos].value : 0;                \
			sc_map_assign_##name(&m->mem[pos], key, value, h);     \
                                                                               \
			return ret;                                            \
		}                                                              \
	}                                                                      \
''', r'''		(void) pos; (void) mod;                                        \
		h = hash_fn(key);                                              \
		struct sc_map_item_##name *slot = sc_map_slot_##name(m, key, h); \
                                                                               \
		m->found = slot->key != 0;                                     \
		ret = 0;                                                       \
		if (m->found) {                                                \
			ret = slot->value;                                     \
		} else {                                                       \
			m->size += 1;                                          \
		}                                                              \
		sc_map_assign_##name(slot, key, value, h);                     \
		return ret;                                                    \
	}                                                                      \
'''))
R("map-remap-for", "C12,C13", (M, r'''				while (true) {                                 \
					if (new[pos].key == 0) {               \
						new[pos] = m->mem[i];          \
						break;                         \
					}                                      \
                                                                               \
					pos = (pos + 1) & (mod);               \
				}                                              \
''', r'''				for (; new[pos].key != 0;                      \
				     pos = (pos + 1) & (mod)) {                \
				}                                              \
				memcpy(&new[pos], &m->mem[i], sizeof(*new));   \
'''), (M, r'''			for (uint32_t i = 0; i < m->cap; i++) {                \
				m->mem[i].key = 0;                             \
			}                                                      \
''', r'''			memset(m->mem, 0, sizeof(*m->mem) * m->cap);           \
'''))
R("map-del-order", "C12,C13", (M, r'''			m->found = true;                                       \
			ret = m->mem[pos].value;                               \
                                                                               \
			m->size--;                                             \
			m->mem[pos].key = 0;                                   \
			prev = pos;                                            \
			it = pos;                                              \
                                                                               \
			while (true) {                                         \
				it = (it + 1) & (mod);                         \
				if (m->mem[it].key == 0) {                     \
					break;                                 \
				}                                              \
                                                                               \
				p = sc_map_hashof_##name(&m->mem[it]) & (mod); \
                                                                               \
				if ((p > it && (p <= prev || it >= prev)) ||   \
				    (p <= prev && it >= prev)) {               \
                                                                               \
					m->mem[prev] = m->mem[it];             \
					m->mem[it].key = 0;                    \
					prev = it;                             \
				}                                              \
			}                                                      \
                                                                               \
			return ret;                                            \
''', r'''			ret = m->mem[pos].value;                               \
			prev = pos;                                            \
                                                                               \
			for (it = (pos + 1) & mod; m->mem[it].key != 0;        \
			     it = (it + 1) & mod) {                            \
				p = sc_map_hashof_##name(&m->mem[it]) & (mod); \
				/* distance from home vs. distance from hole */ \
				if (((it - p) & mod) >= ((it - prev) & mod)) { \
					m->mem[prev] = m->mem[it];             \
					prev = it;                             \
				}                                              \
			}                                                      \
                                                                               \
			m->mem[prev].key = 0;                                  \
			m->size--;                                             \
			m->found = true;                                       \
			return ret;                                            \
'''))
R("map-alloc-rename", "C12,C13", (M, r'''		uint32_t v = *cap;                                             \
		struct sc_map_item_##name *t;                                  \
                                                                               \
		if (*cap > SC_MAP_MAX / factor) {                              \
			return NULL;                                           \
		}                                                              \
                                                                               \
		/* Find next power of two */                                   \
		v = v < 8 ? 8 : (v * factor);                                  \
		v--;                                                           \
		for (uint32_t i = 1; i < sizeof(v) * 8; i *= 2) {              \
			v |= v >> i;                                           \
		}                                                              \
		v++;                                                           \
                                                                               \
		*cap = v;                                                      \
		t = sc_map_calloc(v + 1, sizeof(*t));                          \
		return t ? &t[1] : NULL;                                       \
''', r'''		const uint32_t want = *cap;                                    \
		struct sc_map_item_##name *t;                                  \
		uint32_t v = 8;                                                \
                                                                               \
		if (want > SC_MAP_MAX / factor) {                              \
			return NULL;                                           \
		}                                                              \
                                                                               \
		if (want >= 8) {                                               \
			v = want * factor - 1;                                 \
			v |= v >> 1;                                           \
			v |= v >> 2;                                           \
			v |= v >> 4;                                           \
			v |= v >> 8;                                           \
			v |= v >> 16;                                          \
			v += 1;                                                \
		}                                                              \
                                                                               \
		t = sc_map_calloc(v + 1, sizeof(*t));                          \
		if (t == NULL) {                                               \
			return NULL;                                           \
		}                                                              \
		*cap = v;                                                      \
		return t + 1;                                                  \
'''))
R("map-alloc-loop-pow2", "C12,C13", (M, r'''		v = v < 8 ? 8 : (v * factor);                                  \
		v--;                                                           \
		for (uint32_t i = 1; i < sizeof(v) * 8; i *= 2) {              \
			v |= v >> i;                                           \
		}                                                              \
		v++;                                                           \
''', r'''		uint32_t want = v < 8 ? 8 : (v * factor);                      \
		v = 8;                                                         \
		while (v < want) {                                             \
			v *= 2;                                                \
		}                                                              \
'''))

# ------------------------------------------------------------------- uri, ini, option
U = "uri/sc_uri.c"
R("uri-port-helper", "C14", (U, "struct sc_uri *sc_uri_create(const char *str)\n{", r'''
static bool sc_uri_port_len(const char *colon, size_t *len)
{
	char *end;
	unsigned long v;

	*len = 0;
	if (colon[0] != ':') {
		return true;
	}
	if (colon[1] == '\0') {
		return false;
	}

	errno = 0;
	v = strtoul(&colon[1], &end, 10);
	if (errno != 0 || v > 65535) {
		return false;
	}
	*len = (size_t) (end - colon);

	return true;
}

struct sc_uri *sc_uri_create(const char *str)
{'''), (U, r'''		ptr = pos;
		if (*ptr == ':') {
			if (*(ptr + 1) == '\0') {
				return NULL;
			}

			errno = 0;
			val = strtoul(ptr + 1, &parse_end, 10);
			if (errno != 0 || val > 65535) {
				return NULL;
			}

			port = ptr;
			port_len = parse_end - ptr;
			pos = port + port_len;
		}
''', r'''		if (!sc_uri_port_len(pos, &port_len)) {
			return NULL;
		}
		if (port_len != 0) {
			port = pos;
			pos += port_len;
		}
'''), (U, "	unsigned long val;\n", ""), (U, "char *ptr, *dest, *parse_end;", "char *ptr, *dest;"),
  (U, "#include <stdio.h>\n", "#include <stdio.h>\n#include <stdlib.h>\n#include <stdbool.h>\n"))
R("uri-strpbrk", "C14", (U, r'''	path = pos;
	path_len = strcspn(path, "?#");
	pos = path + path_len;

	if (*pos == '?') {
		query = pos;
		query_len = strcspn(query, "#");
		pos = query + query_len;
	}

	if (*pos == '#') {
		fragment = pos;
		fragment_len = strlen(pos);
	}
''', r'''	path = pos;
	pos = strpbrk(path, "?#");
	if (pos == NULL) {
		pos = path + strlen(path);
	}
	path_len = (size_t) (pos - path);

	if (*pos == '?') {
		query = pos;
		pos = strchr(query, '#');
		if (pos == NULL) {
			pos = query + strlen(query);
		}
		query_len = (size_t) (pos - query);
	}

	fragment_len = strlen(pos);
	if (fragment_len != 0) {
		fragment = pos;
	}
'''), (U, '(ptr = strstr(pos, ":")) == NULL', "(ptr = strchr(str, ':')) == NULL"))
R("uri-memcpy-parts", "C14", (U, r'''	ret = snprintf(dest, parts_len, s2, scheme_len, scheme, 0,
		       userinfo_len, userinfo, 0, host_len, host, 0, port_len,
		       port, 0, path_len, path, 0, query_len, query, 0,
		       fragment_len, fragment, 0);
	if (ret < 0 || (size_t) ret != parts_len - 1) {
		goto error;
	}

	uri->str = uri->buf;
	uri->scheme = dest;
	uri->userinfo = dest + scheme_len + 1;
	uri->host = uri->userinfo + userinfo_len + 1;
	uri->port = uri->host + host_len + 1;
	uri->path = uri->port + port_len + 1;
	uri->query = uri->path + path_len + 1;
	uri->fragment = uri->query + query_len + 1;
''', r'''	(void) s2;
	uri->str = uri->buf;
	uri->scheme = dest;
	memcpy(dest, scheme, scheme_len);
	dest += scheme_len;
	*dest++ = '\0';
	uri->userinfo = dest;
	memcpy(dest, userinfo, userinfo_len);
	dest += userinfo_len;
	*dest++ = '\0';
	uri->host = dest;
	memcpy(dest, host, host_len);
	dest += host_len;
	*dest++ = '\0';
	uri->port = dest;
	memcpy(dest, port, port_len);
	dest += port_len;
	*dest++ = '\0';
	uri->path = dest;
	memcpy(dest, path, path_len);
	dest += path_len;
	*dest++ = '\0';
	uri->query = dest;
	memcpy(dest, query, query_len);
	dest += query_len;
	*dest++ = '\0';
	uri->fragment = dest;
	memcpy(dest, fragment, fragment_len);
	dest += fragment_len;
	*dest++ = '\0';
'''))
R("uri-memcpy-str", "C14", (U, r'''	ret = snprintf(uri->buf, full_len, s1, scheme_len, scheme,
		       authority_len, authority, userinfo_len, userinfo,
		       host_len, host, port_len, port, path_len, path,
		       query_len, query, fragment_len, fragment);
	if (ret < 0 || (size_t) ret != full_len - 1) {
		goto error;
	}

	dest = uri->buf + strlen(uri->buf) + 1;
''', r'''	(void) s1;
	(void) authority;
	if (strlen(str) != full_len - 1) {
		goto error;
	}
	memcpy(uri->buf, str, full_len);
	dest = uri->buf + full_len;
'''))
N = "ini/sc_ini.c"
R("ini-trim-loops", "C15", (N, "fn:trim_space", r'''
static char *trim_space(char *str)
{
	size_t len;

	for (; isspace((unsigned char) str[0]); str++) {
	}

	len = strlen(str);
	while (len > 1 && isspace((unsigned char) str[len - 1])) {
		len--;
	}
	str[len] = '\0';

	return str;
}
'''), (N, "fn:trim_comment", r'''
static char *trim_comment(char *str)
{
	char prev = ' ';

	for (char *s = str; *s != '\0'; prev = *s, s++) {
		if (prev == ' ' && (*s == ';' || *s == '#')) {
			*s = '\0';
			break;
		}
	}

	return str;
}
'''))
R("ini-bom-memcmp", "C15", (N, "fn:trim_bom", r'''
static char *trim_bom(char *str)
{
	return strncmp(str, "\xEF\xBB\xBF", 3) == 0 ? str + 3 : str;
}
'''))
R("ini-handlers", "C15", (N, "fn:sc_ini_parse", r'''
static int parse_section(char *head, char *section, size_t size, char *key)
{
	char *end = strchr(head, ']');

	if (end == NULL) {
		return -1;
	}

	*end = '\0';
	key[0] = '\0';
	strncpy(section, head + 1, size - 1);
	return 0;
}

int sc_ini_parse(void *arg, sc_ini_on_item cb, void *arg1,
		 char *(*next_line)(void *, char *, size_t))
{
	int rc, line = 0;
	char section[256] = {0}, key[256] = {0};
	char buf[SC_INI_MAX_LINE_LEN];
	char *head, *end;

	for (;;) {
		head = next_line(arg1, buf, sizeof(buf) - 1);
		if (head == NULL) {
			break;
		}

		line++;
		if (line == 1) {
			head = trim_bom(head);
		}

		trim_comment(head);
		head = trim_space(head);
		if (strlen(head) == 0) {
			continue;
		}

		rc = 0;
		if (head != buf && key[0] != '\0') {
			rc = cb(arg, line, section, key, head);
		} else if (head[0] == '[') {
			rc = parse_section(head, section, sizeof(section), key);
		} else {
			end = head + strcspn(head, "=:");
			if (*end == '\0') {
				return line;
			}

			*end++ = '\0';
			trim_space(head);
			strncpy(key, head, sizeof(key) - 1);
			end = trim_space(end);
			rc = cb(arg, line, section, head, end);
		}

		if (rc != 0) {
			return line;
		}
	}

	return 0;
}
'''))
R("ini-string-line", "C15", (N, "fn:string_line", r'''
static char *string_line(void *p, char *buf, size_t size)
{
	char **cursor = p;
	const char *str = *cursor;
	size_t diff, len;

	if (str == NULL || str[0] == '\0') {
		return NULL;
	}

	diff = strcspn(str, "\n");
	len = diff;
	if (len > size) {
		len = size;
	}

	memcpy(buf, str, len);
	buf[len] = '\0';
	*cursor = str[diff] == '\n' ? (char *) &str[diff + 1] : NULL;

	return buf;
}
'''), (N, "fn:sc_ini_parse_file", r'''
int sc_ini_parse_file(void *arg, sc_ini_on_item cb, const char *filename)
{
	int rc = -1;
	FILE *file = fopen(filename, "rb");

	if (file != NULL) {
		rc = sc_ini_parse(arg, cb, file, file_line);
		if (rc == 0 && ferror(file)) {
			rc = -1;
		}
		fclose(file);
	}

	return rc;
}
'''))
R("ini-file-line-newline", "C15", (N, r'''	len = strlen(buf);
	if (len == size - 1 && buf[len - 1] != '\n') {
		// Line is too long, skip the rest of it.
		do {
			c = fgetc((FILE *) p);
		} while (c != '\n' && c != EOF);
	}
''', r'''	len = strlen(buf);
	if (len + 1 == size && buf[len - 1] != '\n') {
		while ((c = fgetc((FILE *) p)) != EOF) {
			if (c == '\n') {
				break;
			}
		}
	}
'''))
O = "option/sc_option.c"
R("opt-strncmp", "C16", (O, '''			if (len == strlen(name) &&
			    memcmp(name, curr, len) == 0) {
''', '''			if (strncmp(name, curr, len) == 0 && name[len] == '\\0') {
'''), (O, '''		while (*pos && *pos != '=') {
			pos++;
		}
''', '''		pos += strcspn(pos, "=");
'''))
R("opt-helper", "C16", (O, "fn:sc_option_at", r'''
static char *sc_option_value(char *pos)
{
	return *pos == '=' ? pos + 1 : pos;
}

static int sc_option_find(struct sc_option *opt, const char *name, size_t len)
{
	int i;

	for (i = 0; i < opt->count; i++) {
		const char *n = opt->options[i].name;
		if (n != NULL && strlen(n) == len && strncmp(n, name, len) == 0) {
			return i;
		}
	}
	return -1;
}

char sc_option_at(struct sc_option *opt, int index, char **value)
{
	char *arg = opt->argv[index];
	char *end;
	int i;

	*value = NULL;
	if (arg[0] != '-') {
		return '?';
	}

	if (arg[1] == '-') {
		end = strchr(arg + 1, '=');
		if (end == NULL) {
			end = arg + strlen(arg);
		}
		i = sc_option_find(opt, arg + 2, end - (arg + 2));
		if (i < 0) {
			return '?';
		}
		*value = sc_option_value(end);
		return opt->options[i].letter;
	}

	for (i = 0; i < opt->count; i++) {
		if (opt->options[i].letter != arg[1]) {
			continue;
		}
		if (arg[2] == '\0' || arg[2] == '=' || arg[2] == ' ') {
			*value = sc_option_value(arg + 2);
			return arg[1];
		}
	}

	return '?';
}
'''))
R("opt-byte-loop", "C16", (O, '''			if (len == strlen(name) &&
			    memcmp(name, curr, len) == 0) {
''', '''			size_t j = 0;
			while (j < len && name[j] != '\\0' && name[j] == curr[j]) {
				j++;
			}
			if (j == len && name[j] == '\\0') {
'''))
R("uri-char-loops", "C14", (U, r'''		ptr = pos + strcspn(pos, "@/?#");
''', r'''		ptr = pos;
		while (*ptr != '\0' && *ptr != '@' && *ptr != '/' && *ptr != '?' && *ptr != '#') {
			ptr++;
		}
'''))

# ------------------------------------------------------------------- mutex, cond, thread, time, timer
MX = "mutex/sc_mutex.c"
R("mutex-init-flat", "C17", (MX, r'''	int rc, rv;
	pthread_mutexattr_t attr;
	pthread_mutex_t mut = PTHREAD_MUTEX_INITIALIZER;

	mtx->mtx = mut;

	// May fail on OOM
	rc = pthread_mutexattr_init(&attr);
	if (rc != 0) {
		return -1;
	}

	// This won't fail as long as we pass correct params.
	rc = pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_NORMAL);
	assert(rc == 0);

	// May fail on OOM
	rc = pthread_mutex_init(&mtx->mtx, &attr);

	// This won't fail as long as we pass correct param.
	rv = pthread_mutexattr_destroy(&attr);
	assert(rv == 0);
	(void) rv;

	return rc != 0 ? -1 : 0;
''', r'''	pthread_mutexattr_t attr;
	int rc = -1;

	mtx->mtx = (pthread_mutex_t) PTHREAD_MUTEX_INITIALIZER;

	if (pthread_mutexattr_init(&attr) == 0) {
		(void) pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_NORMAL);
		if (pthread_mutex_init(&mtx->mtx, &attr) == 0) {
			rc = 0;
		}
		(void) pthread_mutexattr_destroy(&attr);
	}

	return rc;
'''))
R("mutex-init-helper", "C17", (MX, '''	rc = pthread_mutexattr_init(&attr);
	if (rc != 0) {
		return -1;
	}

	// This won't fail as long as we pass correct params.
	rc = pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_NORMAL);
	assert(rc == 0);
''', '''	if (!sc_mutex_attr(&attr)) {
		return -1;
	}
'''), (MX, '''#else

int sc_mutex_init(''', '''#else

static int sc_mutex_attr(pthread_mutexattr_t *attr)
{
	int rc = pthread_mutexattr_init(attr);
	if (rc == 0) {
		rc = pthread_mutexattr_settype(attr, PTHREAD_MUTEX_NORMAL);
		assert(rc == 0);
		return 1;
	}
	return 0;
}

int sc_mutex_init('''))
CO = "condition/sc_cond.c"
R("cond-init-nest", "C18", (CO, r'''	rc = pthread_mutexattr_init(&attr);
	if (rc != 0) {
		goto error;
	}

	// This won't fail as long as we pass correct params.
	rc = pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_NORMAL);
	assert(rc == 0);

	rc = pthread_mutex_init(&c->mtx, &attr);
	if (rc != 0) {
		goto cleanup_attr;
	}

	rc = pthread_cond_init(&c->cond, NULL);
	if (rc != 0) {
		goto cleanup_mutex;
	}

	pthread_mutexattr_destroy(&attr);
	c->init = true;

	return 0;

cleanup_mutex:
	pthread_mutex_destroy(&c->mtx);
cleanup_attr:
	pthread_mutexattr_destroy(&attr);
error:
	errno = rc;
	return -1;
''', r'''	rc = pthread_mutexattr_init(&attr);
	if (rc == 0) {
		pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_NORMAL);
		rc = pthread_mutex_init(&c->mtx, &attr);
		pthread_mutexattr_destroy(&attr);

		if (rc == 0) {
			rc = pthread_cond_init(&c->cond, NULL);
			if (rc != 0) {
				pthread_mutex_destroy(&c->mtx);
			}
		}
	}

	c->init = rc == 0;
	if (!c->init) {
		errno = rc;
		return -1;
	}

	return 0;
'''))
R("cond-wait-for", "C18", (CO, r'''	pthread_mutex_lock(&c->mtx);

	while (c->done == false) {
		// This won't fail as long as we pass correct params.
		rc = pthread_cond_wait(&c->cond, &c->mtx);
		assert(rc == 0);
		(void) rc;
	}

	data = c->data;
	c->data = NULL;
	c->done = false;

	pthread_mutex_unlock(&c->mtx);
''', r'''	rc = pthread_mutex_lock(&c->mtx);
	assert(rc == 0);

	for (;;) {
		if (c->done) {
			break;
		}
		rc = pthread_cond_wait(&c->cond, &c->mtx);
		assert(rc == 0);
		(void) rc;
	}

	c->done = false;
	data = c->data;
	c->data = NULL;

	pthread_mutex_unlock(&c->mtx);
'''), (CO, r'''	c->data = data;
	c->done = true;

	// This won't fail as long as we pass correct params.
	rc = pthread_cond_signal(&c->cond);
''', r'''	c->done = true;
	c->data = data;

	// This won't fail as long as we pass correct params.
	rc = pthread_cond_broadcast(&c->cond);
'''))
R("cond-signal-after-unlock", "C18", (CO, r'''	// This won't fail as long as we pass correct params.
	rc = pthread_cond_signal(&c->cond);
	assert(rc == 0);
	(void) rc;

	pthread_mutex_unlock(&c->mtx);
''', r'''	pthread_mutex_unlock(&c->mtx);

	// This won't fail as long as we pass correct params.
	rc = pthread_cond_signal(&c->cond);
	assert(rc == 0);
	(void) rc;
'''))
R("cond-helper-lock", "C18", (CO, '''#else

int sc_cond_init(''', '''#else

static void sc_cond_lock(struct sc_cond *c)
{
	pthread_mutex_lock(&c->mtx);
}

static void *sc_cond_take(struct sc_cond *c)
{
	void *d = c->data;

	c->data = NULL;
	c->done = false;
	return d;
}

int sc_cond_init('''), (CO, '''	pthread_mutex_lock(&c->mtx);

	while (''', '''	sc_cond_lock(c);

	while ('''), (CO, '''		(void) rc;
	}

	data = c->data;
	c->data = NULL;
	c->done = false;
''', '''		(void) rc;
	}

	data = sc_cond_take(c);
'''))
TH = "thread/sc_thread.c"
R("thread-helper-err", "C19", (TH, "int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)\n{\n	int rc;\n	pthread", r'''
static int sc_thread_fail(struct sc_thread *t, int rc)
{
	const char *s;

	if (rc == 0) {
		return 0;
	}
	s = strerror(rc);
	strncpy(t->err, s, sizeof(t->err) - 1);
	return -1;
}

int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
{
	int rc;
	pthread'''), (TH, r'''		// Content of the id is undefined on failure, don't try to join.
		t->id = 0;
		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
	}

	// This may only fail with EINVAL.
	pthread_attr_destroy(&attr);

	return rc != 0 ? -1 : 0;
''', r'''		t->id = 0;
	}

	pthread_attr_destroy(&attr);

	return sc_thread_fail(t, rc);
'''), (TH, r'''	rc = pthread_join(t->id, &val);
	if (rc != 0) {
		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
	}

	t->id = 0;
''', r'''	rc = sc_thread_fail(t, pthread_join(t->id, &val));
	t->id = 0;
'''))
R("thread-local-id", "C19", (TH, r'''	rc = pthread_create(&t->id, &attr, fn, arg);
	if (rc != 0) {
		// Content of the id is undefined on failure, don't try to join.
		t->id = 0;
		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
	}
''', r'''	pthread_t id = 0;

	rc = pthread_create(&id, &attr, fn, arg);
	if (rc == 0) {
		t->id = id;
	} else {
		t->id = 0;
		snprintf(t->err, sizeof(t->err), "%s", strerror(rc));
	}
'''), (TH, "#include <string.h>\n", "#include <string.h>\n#include <stdio.h>\n"), (TH, r'''	if (t->id == 0) {
		goto out;
	}

	rc = pthread_join(t->id, &val);
	if (rc != 0) {
		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
	}

	t->id = 0;

out:
	if (ret != NULL) {
		*ret = val;
	}
''', r'''	const pthread_t id = t->id;

	t->id = 0;
	if (id != 0) {
		rc = pthread_join(id, &val);
		if (rc != 0) {
			strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
		}
	}

	if (ret) {
		*ret = val;
	}
'''))
R("thread-default-attr", "C19", (TH, r'''	rc = pthread_create(&t->id, &attr, fn, arg);
''', r'''	// threads are joinable by default
	rc = pthread_create(&t->id, NULL, fn, arg);
'''))
TI = "time/sc_time.c"
R("time-helper", "C20", (TI, "uint64_t sc_time_ms(void)\n", r'''#if !defined(_WIN32) && !defined(_WIN64)
static struct timespec sc_time_get(clockid_t id)
{
	int rc;
	struct timespec ts;

	rc = clock_gettime(id, &ts);
	assert(rc == 0);
	(void) rc;
	return ts;
}
#endif

uint64_t sc_time_ms(void)
'''), (TI, r'''	int rc;
	struct timespec ts;

	rc = clock_gettime(CLOCK_REALTIME, &ts);
	assert(rc == 0);
	(void) rc;

	return ts.tv_sec * 1000 + (uint64_t) (ts.tv_nsec / 1000000);
''', r'''	const struct timespec ts = sc_time_get(CLOCK_REALTIME);
	uint64_t ms = (uint64_t) ts.tv_sec * 1000u;

	ms += (uint64_t) ts.tv_nsec / 1000000u;
	return ms;
'''), (TI, r'''	int rc;
	struct timespec ts;

	rc = clock_gettime(CLOCK_MONOTONIC, &ts);
	assert(rc == 0);
	(void) rc;

	return ((uint64_t) ts.tv_sec * 1000000000 + (uint64_t) ts.tv_nsec);
''', r'''	const struct timespec ts = sc_time_get(CLOCK_MONOTONIC);

	return (uint64_t) ts.tv_nsec + (uint64_t) ts.tv_sec * UINT64_C(1000000000);
'''))
R("time-ms-from-ns", "C20", (TI, r'''	return (uint64_t) ((uint64_t) ts.tv_sec * 1000 +
			   (uint64_t) ts.tv_nsec / 1000000);
''', r'''	return ((uint64_t) ts.tv_sec * 1000000000 + (uint64_t) ts.tv_nsec) / 1000000;
'''))
R("time-sleep-while", "C20", (TI, r'''	do {
		t = rem;
		rc = nanosleep(&t, &rem);
	} while (rc != 0 && errno == EINTR);

	return rc;
''', r'''	t = rem;
	while ((rc = nanosleep(&t, &t)) == -1) {
		if (errno != EINTR) {
			break;
		}
	}

	return rc;
'''))
R("time-sleep-clock", "C20", (TI, r'''	do {
		t = rem;
		rc = nanosleep(&t, &rem);
	} while (rc != 0 && errno == EINTR);

	return rc;
''', r'''	for (;;) {
		t = rem;
		rc = clock_nanosleep(CLOCK_REALTIME, 0, &t, &rem);
		if (rc != EINTR) {
			break;
		}
	}

	if (rc != 0) {
		errno = rc;
		return -1;
	}
	return 0;
'''))
TM = "timer/sc_timer.c"
R("timer-find-helper", "C21", (TM, "uint64_t sc_timer_add(", r'''
static bool find_slot(struct sc_timer *t, uint32_t pos, uint32_t *seq)
{
	uint32_t i = 0;

	while (i < t->wheel) {
		if (t->list[pos * t->wheel + i].timeout == SC_TIMER_INVALID) {
			*seq = i;
			return true;
		}
		i++;
	}
	*seq = i;
	return false;
}

uint64_t sc_timer_add('''), (TM, r'''	wheel_pos = (pos * t->wheel);
	for (seq = 0; seq < t->wheel; seq++) {
		index = wheel_pos + seq;
		if (t->list[index].timeout == SC_TIMER_INVALID) {
			goto out;
		}
	}

	if (!expand(t)) {
		return SC_TIMER_INVALID;
	}

	index = (pos * t->wheel) + (seq);
	assert(t->list[index].timeout == SC_TIMER_INVALID);

out:
''', r'''	(void) wheel_pos;
	if (!find_slot(t, pos, &seq) && !expand(t)) {
		return SC_TIMER_INVALID;
	}
	index = (pos * t->wheel) + seq;

'''))
R("timer-timeout-order", "C21", (TM, r'''			if (item->timeout <= t->timestamp) {
				timeout = item->timeout;
				item->timeout = SC_TIMER_INVALID;

				callback(arg, timeout, item->type, item->data);
''', r'''			if (!(item->timeout > timestamp)) {
				struct sc_timer_data copy = *item;

				item->timeout = SC_TIMER_INVALID;
				timeout = copy.timeout;
				callback(arg, timeout, copy.type, copy.data);
'''), (TM, r'''	while (wheels-- > 0) {
		wheel = t->wheel;
''', r'''	for (; wheels > 0; wheels--) {
		wheel = t->wheel;
'''))
R("timer-expand-memset", "C21", (TM, r'''	if (t->wheel != 0) {
		for (uint32_t i = 0; i < WHEEL_COUNT; i++) {
			void *dest = &alloc[(i * t->wheel * 2)];
			void *src = &t->list[(i * t->wheel)];
			size_t copy = sizeof(struct sc_timer_data) * t->wheel;

			memcpy(dest, src, copy);
		}
	}
''', r'''	for (uint32_t i = 0; i < WHEEL_COUNT; i++) {
		for (uint32_t j = 0; j < t->wheel; j++) {
			alloc[i * wheel + j] = t->list[i * t->wheel + j];
		}
	}
'''))
R("timer-expand-once", "C21", (TM, r'''	assert(size != 0);

	if (t->wheel >= SC_TIMER_MAX / 2) {
		return false;
	}

	alloc = sc_timer_malloc(size);
	if (alloc == NULL) {
		return false;
	}
''', r'''	if (t->wheel >= SC_TIMER_MAX / 2 ||
	    (alloc = sc_timer_malloc(size)) == NULL) {
		return false;
	}
'''), (TM, r'''	pos = (uint64_t) (((uint32_t) *id) * t->wheel) + (*id >> 32u);

	t->list[pos].timeout = SC_TIMER_INVALID;
	*id = SC_TIMER_INVALID;
''', r'''	const uint32_t slot = (uint32_t) (*id & UINT32_MAX);

	pos = (*id >> 32u);
	*id = SC_TIMER_INVALID;
	pos += slot * t->wheel;
	t->list[pos].timeout = SC_TIMER_INVALID;
'''))

# ------------------------------------------------------------------- logger, mmap
L = "logger/sc_log.c"
LP = "C22,C23"
R("log-header-helper", LP, (L, "fn:sc_log_print_header", r'''
static struct tm *sc_log_now(struct tm *result)
{
	time_t t;

	time(&t);
	return localtime_r(&t, result);
}

static int sc_log_print_header(FILE *fp, enum sc_log_level level)
{
	struct tm result, *tm = sc_log_now(&result);
	int rc = -1;

	if (tm != NULL) {
		rc = fprintf(fp, "[%d-%02d-%02d %02d:%02d:%02d][%-5s][%s] ",
			     tm->tm_year + 1900, tm->tm_mon + 1, tm->tm_mday,
			     tm->tm_hour, tm->tm_min, tm->tm_sec,
			     sc_log_levels[level].str, sc_name);
	}

	return rc < 0 ? -1 : rc;
}
'''))
R("log-rotate-helper", LP, (L, "fn:sc_log_file", r'''
static int sc_log_rotate(void)
{
	fclose(sc_log.fp);
	(void) rename(sc_log.current_file, sc_log.prev_file);

	sc_log.fp = fopen(sc_log.current_file, "w+");
	if (sc_log.fp != NULL) {
		sc_log.file_size = 0;
	}

	return sc_log.fp != NULL ? 0 : -1;
}

static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
{
	int n, total;

	total = sc_log_print_header(sc_log.fp, level);
	if (total < 0 || (n = vfprintf(sc_log.fp, fmt, va)) < 0) {
		return -1;
	}

	sc_log.file_size += (size_t) total;
	sc_log.file_size += (size_t) n;

	return sc_log.file_size <= SC_LOG_FILE_SIZE ? 0 : sc_log_rotate();
}
'''))
R("log-va-copy", LP, (L, r'''	if (sc_log.to_stdout) {
		va_start(va, fmt);
		rc |= sc_log_stdout(level, fmt, va);
		va_end(va);
	}

	if (sc_log.fp != NULL) {
		va_start(va, fmt);
		rc |= sc_log_file(level, fmt, va);
		va_end(va);
	}

	if (sc_log.cb) {
		va_start(va, fmt);
		rc |= sc_log.cb(sc_log.arg, level, fmt, va);
		va_end(va);
	}

	sc_log_mutex_unlock(&sc_log.mtx);

	return rc;
''', r'''	va_list cp;

	va_start(va, fmt);
	if (sc_log.to_stdout) {
		va_copy(cp, va);
		if (sc_log_stdout(level, fmt, cp) != 0) {
			rc = -1;
		}
		va_end(cp);
	}

	if (sc_log.fp) {
		va_copy(cp, va);
		rc |= sc_log_file(level, fmt, cp);
		va_end(cp);
	}

	if (sc_log.cb != NULL) {
		rc |= sc_log.cb(sc_log.arg, level, fmt, va);
	}
	va_end(va);

	sc_log_mutex_unlock(&sc_log.mtx);

	return rc;
'''))
R("log-setfile-nest", LP, (L, r'''	if (prev == NULL || current == NULL) {
		goto out;
	}

	if (strlen(prev) >= sizeof(sc_log.prev_file) - 1 ||
	    strlen(current) >= sizeof(sc_log.current_file) - 1) {
		errno = ENAMETOOLONG;
		goto error;
	}

	memcpy(sc_log.prev_file, prev, strlen(prev) + 1);
	memcpy(sc_log.current_file, current, strlen(current) + 1);

	fp = fopen(sc_log.current_file, "a+");
	if (fp == NULL) {
		goto error;
	}

	if (fprintf(fp, "\n") < 0) {
		goto error;
	}

	size = ftell(fp);
	if (size < 0) {
		goto error;
	}
''', r'''	if (!prev || !current) {
		goto out;
	}

	const size_t plen = strlen(prev);
	const size_t clen = strlen(current);

	if (plen + 1 >= sizeof(sc_log.prev_file) ||
	    clen + 1 >= sizeof(sc_log.current_file)) {
		errno = ENAMETOOLONG;
		goto error;
	}

	strcpy(sc_log.prev_file, prev);
	memmove(sc_log.current_file, current, clen);
	sc_log.current_file[clen] = '\0';

	fp = fopen(current, "a+");
	if (fp == NULL || fputc('\n', fp) == EOF || (size = ftell(fp)) < 0) {
		goto error;
	}
'''))
R("log-init-designated", LP, (L, r'''	sc_log = (struct sc_log){0};

	sc_atomic_store(&sc_log.level, SC_LOG_INFO);
	sc_log.to_stdout = true;

	rc = sc_log_mutex_init(&sc_log.mtx);
	if (rc != 0) {
		errno = rc;
		rc = -1;
	}

	sc_log.init = true;

	return rc;
''', r'''	memset(&sc_log, 0, sizeof(sc_log));
	sc_log.init = true;
	sc_log.to_stdout = true;
	sc_atomic_store(&sc_log.level, SC_LOG_INFO);

	rc = sc_log_mutex_init(&sc_log.mtx);
	if (rc == 0) {
		return 0;
	}

	errno = rc;
	return -1;
'''), (L, "fn:sc_strcasecmp", r'''
static int sc_strcasecmp(const char *a, const char *b)
{
	while (*a != '\0' && tolower(*a) == tolower(*b)) {
		a++;
		b++;
	}
	return tolower(*a) - tolower(*b);
}
'''))
R("log-lock-wrappers", LP, (L, "void sc_log_set_stdout(bool enable)\n{", r'''
static void sc_log_enter(void)
{
	sc_log_mutex_lock(&sc_log.mtx);
}

static void sc_log_leave(void)
{
	sc_log_mutex_unlock(&sc_log.mtx);
}

void sc_log_set_stdout(bool enable)
{'''), (L, '''	sc_log_mutex_lock(&sc_log.mtx);
	sc_log.arg = arg;
	sc_log.cb = cb;
	sc_log_mutex_unlock(&sc_log.mtx);
''', '''	struct sc_log *const l = &sc_log;

	sc_log_enter();
	l->cb = cb;
	l->arg = arg;
	sc_log_leave();
'''), (L, '''	sc_log_mutex_unlock(&sc_log.mtx);
	errno = saved_errno;

	return rc;
''', '''	sc_log_leave();
	errno = saved_errno;

	return rc;
'''))
P = "memory-map/sc_mmap.c"
R("mmap-err-helper", "C24", (P, "int sc_mmap_init(struct sc_mmap *m, const char *name, int file_flags, int prot,\n		 int map_flags, size_t offset, size_t len)\n{\n	const int mode = S_I", r'''static int sc_mmap_fail(struct sc_mmap *m, int err)
{
	strncpy(m->err, strerror(err), sizeof(m->err) - 1);
	return -1;
}

int sc_mmap_init(struct sc_mmap *m, const char *name, int file_flags, int prot,
		 int map_flags, size_t offset, size_t len)
{
	const int mode = S_I'''), (P, r'''cleanup_fd:
	saved_errno = errno;
	close(fd);
	errno = saved_errno;
error:
	strncpy(m->err, strerror(errno), sizeof(m->err) - 1);

	return -1;
}
''', r'''cleanup_fd:
	saved_errno = errno;
	close(fd);
	errno = saved_errno;
error:
	return sc_mmap_fail(m, errno);
}
'''), (P, '''	rc = msync(p, len + diff, MS_SYNC);
	if (rc != 0) {
		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
	}

	return rc;
''', '''	rc = msync(p, len + diff, MS_SYNC);
	return rc == 0 ? 0 : sc_mmap_fail(m, errno);
'''))
R("mmap-fstat", "C24", (P, "	rc = stat(name, &st);\n	if (rc != 0) {\n		goto cleanup_fd;\n	}\n\n	len = (len == 0) ? st.st_size - offset : len;\n\n	if (prot & PROT_WRITE) {\n#if", '''	if (fstat(fd, &st) != 0) {
		goto cleanup_fd;
	}

	if (len == 0) {
		len = (size_t) st.st_size - offset;
	}

	if ((prot & PROT_WRITE) != 0) {
#if'''), (P, '''		do {
			rc = posix_fallocate(fd, (off_t) offset, (off_t) len);
		} while (rc == EINTR);

		if (rc != 0) {
			errno = rc;
			goto cleanup_fd;
		}
''', '''		while ((rc = posix_fallocate(fd, (off_t) offset, (off_t) len)) != 0) {
			if (rc == EINTR) {
				continue;
			}
			errno = rc;
			goto cleanup_fd;
		}
'''))
R("mmap-term-order", "C24", (P, '''	close(m->fd);

	rc = munmap(m->ptr, m->len);
	if (rc != 0) {
		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
	}

	m->fd = -1;
	m->ptr = NULL;
	m->len = 0;

	return rc;
''', '''	rc = munmap(m->ptr, m->len);
	if (rc != 0) {
		snprintf(m->err, sizeof(m->err), "%s", strerror(errno));
	}

	(void) close(m->fd);
	m->len = 0;
	m->ptr = NULL;
	m->fd = -1;

	return rc;
'''), (P, '''	size_t diff = offset & (m->page_size - 1);
	char *p = (char *) m->ptr + (offset - diff);

	rc = msync(p, len + diff, MS_SYNC);
''', '''	size_t start = offset / m->page_size * m->page_size;
	char *p = (char *) m->ptr + start;

	rc = msync(p, len + (offset - start), MS_SYNC);
'''))
# ------------------------------------------------------------------- signal, sc
G = "signal/sc_signal.c"
R("sig-digits-helper", "C28,C29", (G, "int sc_signal_vsnprintf(", r'''
static size_t sc_signal_digits(char *end, uint64_t u, unsigned base)
{
	size_t n = 0;

	do {
		*--end = "0123456789abcdef"[u % base];
		n++;
		u /= base;
	} while (u != 0);

	return n;
}

int sc_signal_vsnprintf('''), (G, r'''					do {
						c = (char) ('0' + (u % 10));
						dst[31 - (len++)] = c;
					} while (u /= 10UL);

				} else if (*pos == 'd') {
''', r'''					len = sc_signal_digits(dst + 32, u, 10);
				} else if (*pos == 'd') {
'''), (G, r'''				do {
					dst[31 - (len++)] = arr[u % 16];
				} while (u /= 16UL);
''', r'''				len = sc_signal_digits(dst + 32, u, 16);
				(void) arr;
'''))
R("sig-lit-strcspn", "C28,C29", (G, '''			while (*pos != '\\0' && *pos != '%') {
				pos++;
			}
			str = orig;
''', '''			for (; *pos; pos++) {
				if (*pos == '%') {
					break;
				}
			}
			str = orig;
'''), (G, '''		len = len < out_cap ? len : out_cap;
		memcpy(out, str, len);

		out += len;
		out_cap -= len;
''', '''		if (len > out_cap) {
			len = out_cap;
		}
		for (size_t k = 0; k < len; k++) {
			*out++ = str[k];
		}
		out_cap -= len;
'''))
R("sig-name-helper", "C28,C29", (G, "static void sc_signal_on_fatal(", r'''
static char *sc_signal_name(int sig)
{
	switch (sig) {
	case SIGSEGV: return "SIGSEGV";
	case SIGABRT: return "SIGABRT";
	case SIGBUS: return "SIGBUS";
	case SIGFPE: return "SIGFPE";
	case SIGILL: return "SIGILL";
	default: return "unknown signal";
	}
}

static void sc_signal_on_fatal('''), (G, r'''	char buf[4096], *str = "unknown signal";
	struct sigaction act;

	if (sig == SIGSEGV) {
		str = "SIGSEGV";
	} else if (sig == SIGABRT) {
		str = "SIGABRT";
	} else if (sig == SIGBUS) {
		str = "SIGBUS";
	} else if (sig == SIGFPE) {
		str = "SIGFPE";
	} else if (sig == SIGILL) {
		str = "SIGILL";
	}

''', r'''	char buf[4096], *str = sc_signal_name(sig);
	struct sigaction act = {0};

'''), (G, '''	kill(getpid(), sig);
''', '''	raise(sig);
'''))
R("sig-init-loop", "C28,C29", (G, r'''	rc &= (sigaction(SIGABRT, &action, NULL) == 0);
	rc &= (sigaction(SIGSEGV, &action, NULL) == 0);
	rc &= (sigaction(SIGBUS, &action, NULL) == 0);
	rc &= (sigaction(SIGFPE, &action, NULL) == 0);
	rc &= (sigaction(SIGILL, &action, NULL) == 0);
''', r'''	const int fatal[] = {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL};

	for (size_t i = 0; i < sizeof(fatal) / sizeof(fatal[0]); i++) {
		if (sigaction(fatal[i], &action, NULL) != 0) {
			rc = false;
		}
	}
'''), (G, '''	sc_signal_will_shutdown = 1;

	if (sc_signal_shutdown_fd != -1) {
		sc_signal_log(fd, buf, sizeof(buf),
			      "Sending shutdown command. \\n");
		rc = (int) write(sc_signal_shutdown_fd, (void *) &(int){1}, 1);
''', '''	sc_signal_will_shutdown = 1;

	if (sc_signal_shutdown_fd != -1) {
		const char one = 1;

		sc_signal_log(fd, buf, sizeof(buf),
			      "Sending shutdown command. \\n");
		rc = (int) write(sc_signal_shutdown_fd, &one, sizeof(one));
'''))
S_ = "sc/sc.c"
R("util-pow2-loop", "C30", (S_, "fn:sc_to_pow2", r'''
uint64_t sc_to_pow2(uint64_t size)
{
	if (size <= 1) {
		return 1;
	}

	size -= 1;
	size |= size >> 1;
	size |= size >> 2;
	size |= size >> 4;
	size |= size >> 8;
	size |= size >> 16;
	size |= size >> 32;

	return size + 1;
}
'''), (S_, "fn:sc_is_pow2", r'''
bool sc_is_pow2(uint64_t num)
{
	if (num == 0) {
		return false;
	}
	return (num & (~num + 1)) == num;
}
'''))
R("util-pow2-clz", "C30", (S_, "fn:sc_to_pow2", r'''
uint64_t sc_to_pow2(uint64_t size)
{
	if (size <= 1) {
		return 1;
	}

	int bits = 64 - __builtin_clzll(size - 1);
	return bits == 64 ? 0 : UINT64_C(1) << bits;
}
'''))
R("util-pow2-double", "C30", (S_, "fn:sc_to_pow2", r'''
uint64_t sc_to_pow2(uint64_t size)
{
	uint64_t p = 1;

	while (p < size && p != 0) {
		p <<= 1;
	}

	return p;
}
'''))
R("util-size-table", "C30", (S_, r'''	switch (tolower((unsigned char) parse_end[0])) {
	case 'b':
		break;
	case 'k':
		val = (val > INT64_MAX / kb) ? -1 : val * kb;
		break;
	case 'm':
		val = (val > INT64_MAX / mb) ? -1 : val * mb;
		break;
	case 'g':
		val = (val > INT64_MAX / gb) ? -1 : val * gb;
		break;
	case 't':
		val = (val > INT64_MAX / tb) ? -1 : val * tb;
		break;
	case 'p':
		val = (val > INT64_MAX / pb) ? -1 : val * pb;
		break;
	case 'e':
		val = (val > INT64_MAX / eb) ? -1 : val * eb;
		break;
	default:
		return -1;
	}

	return val;
''', r'''	int64_t unit;

	switch (*parse_end) {
	case 'b': case 'B': unit = 1; break;
	case 'k': case 'K': unit = kb; break;
	case 'm': case 'M': unit = mb; break;
	case 'g': case 'G': unit = gb; break;
	case 't': case 'T': unit = tb; break;
	case 'p': case 'P': unit = pb; break;
	case 'e': case 'E': unit = eb; break;
	default:
		return -1;
	}

	if (val > INT64_MAX / unit) {
		return -1;
	}

	return unit * val;
'''))

# ------------------------------------------------------------------- socket
K_ = "socket/sc_sock.c"
KP = "C25,C26,C27"
R("sock-opts-helper", KP, (K_, "static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)\n{", r'''
static int sc_sock_opt_on(sc_sock_int fd, int level, int name)
{
	int on = 1;

	return setsockopt(fd, level, name, (void *) &on, sizeof(on));
}

static int sc_sock_tcp_opts(struct sc_sock *s)
{
	if (sc_sock_set_blocking(s, s->blocking) != 0 ||
	    sc_sock_opt_on(s->fdt.fd, SOL_SOCKET, SO_REUSEADDR) != 0 ||
	    sc_sock_opt_on(s->fdt.fd, IPPROTO_TCP, TCP_NODELAY) != 0) {
		return -1;
	}
	return 0;
}

static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)
{'''), (K_, r'''			rc = sc_sock_set_blocking(s, s->blocking);
			if (rc != 0) {
				goto error;
			}

			tmp = (void *) &(int){1};
			rc = setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, tmp, sizeof(int));
			if (rc != 0) {
				goto error;
			}

			rc = setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, tmp, sizeof(int));
			if (rc != 0) {
				goto error;
			}

			if (src_addr''', r'''			(void) tmp;
			rc = sc_sock_tcp_opts(s);
			if (rc != 0) {
				goto error;
			}

			if (src_addr'''), (K_, r'''		rc = sc_sock_set_blocking(s, s->blocking);
		if (rc != 0) {
			goto error;
		}

		tmp = (void *) &(int){1};
		rc = setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, tmp, sizeof(int));
		if (rc != 0) {
			goto error;
		}

		rc = setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, tmp, sizeof(int));
		if (rc != 0) {
			goto error;
		}

		rc = bind(''', r'''		(void) tmp;
		if (sc_sock_tcp_opts(s) == -1) {
			goto error;
		}

		rc = bind('''))
R("sock-two-pass-helper", KP, (K_, "fn:sc_sock_connect", r'''
static int sc_sock_try_connect(struct sc_sock *s, struct addrinfo *p,
			       const char *src_addr, const char *src_port)
{
	int on = 1;
	sc_sock_int fd = socket(p->ai_family, p->ai_socktype, p->ai_protocol);

	if (fd == SC_INVALID) {
		return 1;
	}

	s->fdt.fd = fd;
	s->family = p->ai_family;

	if (sc_sock_set_blocking(s, s->blocking) != 0 ||
	    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (void *) &on, sizeof(on)) != 0 ||
	    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, (void *) &on, sizeof(on)) != 0) {
		sc_sock_errstr(s, 0);
		sc_sock_close(s);
		return -1;
	}

	if (src_addr != NULL || src_port != NULL) {
		if (sc_sock_bind_src(s, src_addr, src_port) != 0) {
			sc_sock_close(s);
			return -1;
		}
	}

	if (connect(fd, p->ai_addr, (socklen_t) p->ai_addrlen) == 0) {
		return 0;
	}

	if (!s->blocking && (sc_sock_err() == SC_EINPROGRESS ||
			     sc_sock_err() == SC_EAGAIN)) {
		errno = EAGAIN;
		return -2;
	}

	sc_sock_close(s);
	return 1;
}

int sc_sock_connect(struct sc_sock *s, const char *dst_addr,
		    const char *dst_port, const char *src_addr,
		    const char *src_port)
{
	const int family = s->family;
	int rc;
	struct addrinfo *list = NULL, *p;
	struct addrinfo inf = {
		.ai_family = AF_UNSPEC,
		.ai_socktype = SOCK_STREAM,
	};

	if (family == AF_UNIX) {
		return sc_sock_connect_unix(s, dst_addr);
	}

	rc = getaddrinfo(dst_addr, dst_port, &inf, &list);
	if (rc != 0) {
		sc_sock_errstr(s, rc);
		return -1;
	}

	rc = 1;
	for (p = list; rc == 1 && p != NULL; p = p->ai_next) {
		if (p->ai_family == family) {
			rc = sc_sock_try_connect(s, p, src_addr, src_port);
		}
	}
	for (p = list; rc == 1 && p != NULL; p = p->ai_next) {
		if (p->ai_family != family) {
			rc = sc_sock_try_connect(s, p, src_addr, src_port);
		}
	}

	if (rc == 1) {
		sc_sock_errstr(s, 0);
	}

	freeaddrinfo(list);

	return rc == 0 ? 0 : -1;
}
'''))
R("sock-send-loop", KP, (K_, r'''retry:
	n = (int) send(s->fdt.fd, buf, (sc_send_recv_size_t) len, flags);
	if (n == SC_ERR) {
		err = sc_sock_err();
		if (err == SC_EINTR) {
			goto retry;
		}

''', r'''	do {
		n = (int) send(s->fdt.fd, buf, (sc_send_recv_size_t) len, flags);
		err = n == SC_ERR ? sc_sock_err() : 0;
	} while (n == SC_ERR && err == SC_EINTR);

	if (n == SC_ERR) {
'''), (K_, r'''	if (n == 0) {
		errno = EOF;
		return -1;
	} else if (n == SC_ERR) {
		err = sc_sock_err();
''', r'''	if (n > 0) {
		return n;
	}
	if (n == 0) {
		errno = EOF;
		return -1;
	}
	{
		err = errno;
'''))
R("poll-mask-helper", KP, (K_, '''int sc_sock_poll_init(struct sc_sock_poll *p)
{
	int fds;

	*p = (struct sc_sock_poll){0};

	p->events = sc_sock_malloc(sizeof(*p->events) * SC_SOCK_POLL_MAX_EVENTS);
	if (p->events == NULL) {
		errno = ENOMEM;
		goto error;
	}

	fds = epoll_create1(0);
	if (fds == -1) {
		goto error;
	}
	p->fds = fds;

	return 0;
error:
''', '''static int sc_sock_epoll(struct sc_sock_poll *p, struct sc_sock_fd *fdt,
			 enum sc_sock_ev mask, void *data)
{
	const enum sc_sock_ev old = fdt->op;
	struct epoll_event e = {0};
	int op = EPOLL_CTL_MOD;

	if (mask == SC_SOCK_EDGE) {
		mask = SC_SOCK_NONE;
	}

	if (mask == old) {
		return 0;
	}

	if (old == SC_SOCK_NONE) {
		op = EPOLL_CTL_ADD;
	} else if (mask == SC_SOCK_NONE) {
		op = EPOLL_CTL_DEL;
	}

	e.data.ptr = data;
	e.events = EPOLLERR | EPOLLHUP | EPOLLRDHUP;
	e.events |= (mask & SC_SOCK_READ) ? EPOLLIN : 0;
	e.events |= (mask & SC_SOCK_WRITE) ? EPOLLOUT : 0;
	e.events |= (mask & SC_SOCK_EDGE) ? EPOLLET : 0;

	fdt->op = mask;
	if (epoll_ctl(p->fds, op, fdt->fd, &e) == 0) {
		return 0;
	}

	fdt->op = old;
	sc_sock_poll_set_err(p, "epoll_ctl : %s ", strerror(errno));
	return -1;
}

int sc_sock_poll_init(struct sc_sock_poll *p)
{
	memset(p, 0, sizeof(*p));

	p->events = sc_sock_malloc(sizeof(*p->events) * SC_SOCK_POLL_MAX_EVENTS);
	if (p->events == NULL) {
		errno = ENOMEM;
		goto error;
	}

	p->fds = epoll_create1(0);
	if (p->fds != -1) {
		return 0;
	}
error:
'''), (K_, "polladd:", '''int sc_sock_poll_add(struct sc_sock_poll *p, struct sc_sock_fd *fdt,
		     enum sc_sock_ev events, void *data)
{
	return sc_sock_epoll(p, fdt, fdt->op | events, data);
}
'''), (K_, "polldel:", '''int sc_sock_poll_del(struct sc_sock_poll *p, struct sc_sock_fd *fdt,
		     enum sc_sock_ev events, void *data)
{
	return sc_sock_epoll(p, fdt, fdt->op & ~events, data);
}
'''))
R("poll-event-compute", KP, (K_, '''	uint32_t ev = 0;
	uint32_t epoll_ev = p->events[i].events;

	if (epoll_ev & EPOLLIN) {
		ev |= SC_SOCK_READ;
	}

	if (epoll_ev & EPOLLOUT) {
		ev |= SC_SOCK_WRITE;
	}

	epoll_ev &= EPOLLHUP | EPOLLRDHUP | EPOLLERR;
	if (epoll_ev != 0) {
		ev = (SC_SOCK_READ | SC_SOCK_WRITE);
	}

	return ev;
''', '''	const uint32_t e = p->events[i].events;
	const bool dead = (e & (EPOLLHUP | EPOLLRDHUP | EPOLLERR)) != 0;
	uint32_t ev = SC_SOCK_NONE;

	if (dead || (e & EPOLLIN)) {
		ev |= SC_SOCK_READ;
	}
	if (dead || (e & EPOLLOUT) != 0) {
		ev |= SC_SOCK_WRITE;
	}

	return ev;
'''), (K_, '''	do {
		n = epoll_wait(p->fds, events, SC_SOCK_POLL_MAX_EVENTS, timeout);
	} while (n < 0 && errno == EINTR);

	if (n == -1) {
		sc_sock_poll_set_err(p, "epoll_wait : %s ", strerror(errno));
	}

	return n;
''', '''	for (;;) {
		n = epoll_wait(p->fds, events, SC_SOCK_POLL_MAX_EVENTS, timeout);
		if (n >= 0) {
			return n;
		}
		if (errno != EINTR) {
			sc_sock_poll_set_err(p, "epoll_wait : %s ", strerror(errno));
			return -1;
		}
	}
'''))
R("sock-bind-unix-sn", KP, (K_, '''	strcpy(addr.sun_path, host);
	sc_unlink(host);
''', '''	snprintf(addr.sun_path, sizeof(addr.sun_path), "%s", host);
	sc_unlink(host);
'''), (K_, '''	strcpy(un.sun_path, addr);

	rc = connect''', '''	memcpy(un.sun_path, addr, len + 1);

	rc = connect'''), (K_, '''	if (strlen(host) >= sizeof(addr.sun_path)) {
''', '''	const size_t hl = strlen(host);
	if (hl + 1 > sizeof(addr.sun_path)) {
'''))
R("sock-accept-order", KP, (K_, '''	in->fdt.fd = fd;
	in->fdt.op = SC_SOCK_NONE;
	in->family = s->family;

	if (in->family != AF_UNIX) {
		rc = setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, tmp, sizeof(int));
		if (rc != 0) {
			goto error;
		}
	}

	rc = sc_sock_set_blocking(in, s->blocking);
	if (rc != 0) {
		goto error;
	}

	return 0;
''', '''	in->family = s->family;
	in->fdt.op = SC_SOCK_NONE;
	in->fdt.fd = fd;

	rc = sc_sock_set_blocking(in, s->blocking);
	if (rc == 0 && s->family != AF_UNIX) {
		rc = setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, tmp, sizeof(int));
	}
	if (rc != 0) {
		goto error;
	}

	return 0;
'''))
R("pipe-term-loop", KP, (K_, '''	rv = close(p->fds[0]);
	if (rv != 0) {
		rc = -1;
		sc_sock_pipe_set_err(p, "pipe close() : %s ", strerror(errno));
	}

	rv = close(p->fds[1]);
	if (rv != 0) {
		rc = -1;
		sc_sock_pipe_set_err(p, "pipe close() : %s ", strerror(errno));
	}

	p->fds[0] = SC_INVALID;
	p->fds[1] = SC_INVALID;

	return rc;
''', '''	for (int i = 0; i < 2; i++) {
		rv = close(p->fds[i]);
		p->fds[i] = SC_INVALID;
		if (rv == -1) {
			sc_sock_pipe_set_err(p, "pipe close() : %s ", strerror(errno));
			rc = -1;
		}
	}

	return rc;
'''), (K_, '''retry:
	n = read(p->fds[0], b, len);
	if (n == -1 && errno == EINTR) {
		goto retry;
	}
''', '''	while ((n = read(p->fds[0], b, len)) == -1) {
		if (errno != EINTR) {
			break;
		}
	}
'''))
R("sock-timeo-shared", KP, (K_, "fn:sc_sock_set_rcvtimeo", '''
static int sc_sock_set_timeo(struct sc_sock *s, int name, int ms)
{
	struct timeval tv;
	int rc;

	tv.tv_sec = ms / 1000;
	tv.tv_usec = (ms - (int) tv.tv_sec * 1000) * 1000;

	rc = setsockopt(s->fdt.fd, SOL_SOCKET, name, (const void *) &tv,
			sizeof(tv));
	if (rc != 0) {
		sc_sock_errstr(s, 0);
	}
	return rc;
}

int sc_sock_set_rcvtimeo(struct sc_sock *s, int ms)
{
	return sc_sock_set_timeo(s, SO_RCVTIMEO, ms);
}
'''), (K_, "fn:sc_sock_set_sndtimeo", '''
int sc_sock_set_sndtimeo(struct sc_sock *s, int ms)
{
	return sc_sock_set_timeo(s, SO_SNDTIMEO, ms);
}
'''))

# ------------------------------------------------------------------ crc32
_CRC = "crc32/sc_crc32.c"
R("crc-byte-helper", "C31",
  (_CRC, "fn:crc32_sw_le", '''static uint32_t crc32_one(uint32_t crc, unsigned char b)
{
	return (crc >> 8) ^ crc32c_table_le[0][(unsigned char) (crc ^ b)];
}

static uint32_t crc32_sw_le(uint32_t crc, const void *buf, size_t len)
{
	unsigned char const *next = buf;
	unsigned char const *const stop = next + len;

	crc ^= 0xffffffffu;
	for (; next < stop && (uintptr_t) next % 8 != 0; next++) {
		crc = crc32_one(crc, *next);
	}
	while ((size_t) (stop - next) >= 8) {
		uint64_t w = *(uint64_t const *) next;

		w ^= crc;
		crc = 0;
		for (int i = 7; i >= 0; i--) {
			crc ^= crc32c_table_le[i][w & 0xff];
			w >>= 8;
		}
		next += sizeof(w);
	}
	while (next != stop) {
		crc = crc32_one(crc, *next++);
	}
	return crc ^ 0xffffffffu;
}
'''))
R("crc-init-loop", "C31",
  (_CRC, "fn:crc32_init_sw_le", '''static void crc32_init_sw_le(void)
{
	for (unsigned n = 0; n < 256; n++) {
		uint32_t crc = n;

		for (int bit = 0; bit < 8; bit++) {
			crc = (crc >> 1) ^ (POLY & (0u - (crc & 1)));
		}
		crc32c_table_le[0][n] = crc;
	}
	for (unsigned k = 1; k < 8; k++) {
		for (unsigned n = 0; n < 256; n++) {
			uint32_t prev = crc32c_table_le[k - 1][n];

			crc32c_table_le[k][n] = crc32c_table_le[0][prev & 0xff] ^ (prev >> 8);
		}
	}
}
'''))
R("crc-hw-helper", "C31",
  (_CRC, "fn:crc32_hw", '''static uint64_t crc32_three(uint64_t crc0, const unsigned char *p, size_t block, uint32_t zeros[][256])
{
	uint64_t crc1 = 0, crc2 = 0;

	for (size_t i = 0; i < block; i += 8) {
		uint64_t a, b, c;

		memcpy(&a, p + i, sizeof(a));
		memcpy(&b, p + i + block, sizeof(b));
		memcpy(&c, p + i + block * 2, sizeof(c));
		crc0 = _mm_crc32_u64(crc0, a);
		crc1 = _mm_crc32_u64(crc1, b);
		crc2 = _mm_crc32_u64(crc2, c);
	}

	crc0 = crc32_shift(zeros, (uint32_t) crc0) ^ crc1;
	return crc32_shift(zeros, (uint32_t) crc0) ^ crc2;
}

uint32_t crc32_hw(uint32_t crc, const void *buf, size_t len)
{
	const unsigned char *next = buf;
	uint64_t crc0 = ~crc;

	for (; len != 0 && ((uintptr_t) next & 7) != 0; len--) {
		crc0 = _mm_crc32_u8(crc0, *next++);
	}
	for (; len >= CRC32_LONG * 3; len -= CRC32_LONG * 3) {
		crc0 = crc32_three(crc0, next, CRC32_LONG, crc32c_long);
		next += CRC32_LONG * 3;
	}
	for (; len >= CRC32_SHORT * 3; len -= CRC32_SHORT * 3) {
		crc0 = crc32_three(crc0, next, CRC32_SHORT, crc32c_short);
		next += CRC32_SHORT * 3;
	}
	while (len >= 8) {
		uint64_t a;

		memcpy(&a, next, 8);
		crc0 = _mm_crc32_u64(crc0, a);
		next += 8;
		len -= 8;
	}
	for (size_t i = 0; i < len; i++) {
		crc0 = _mm_crc32_u8(crc0, next[i]);
	}

	return ~(uint32_t) crc0;
}
'''))
R("crc-gf2-select", "C31",
  (_CRC, "fn:gf2_matrix_times", '''static inline uint32_t gf2_matrix_times(uint32_t *mat, uint32_t vec)
{
	uint32_t sum = 0;

	for (int i = 0; i < 32; i++) {
		sum ^= (vec >> i) & 1 ? mat[i] : 0;
	}

	return sum;
}
'''), (_CRC, "fn:crc32_shift", '''static inline uint32_t crc32_shift(uint32_t zeros[][256], uint32_t crc)
{
	uint32_t sum = 0;

	for (int i = 0; i < 4; i++) {
		sum ^= zeros[i][(uint8_t) (crc >> (8 * i))];
	}

	return sum;
}
'''))
R("crc-two-words", "C31",
  (_CRC, "fn:crc32_sw_le", '''static uint32_t crc32_sw_le(uint32_t crc, const void *buf, size_t len)
{
	const uint8_t *p = buf;

	crc = ~crc;
	while (len >= 8) {
		uint32_t lo = crc ^ ((uint32_t) p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24);
		uint32_t hi = (uint32_t) p[4] | (uint32_t) p[5] << 8 | (uint32_t) p[6] << 16 | (uint32_t) p[7] << 24;

		crc = crc32c_table_le[7][lo & 0xff] ^ crc32c_table_le[6][lo >> 8 & 0xff] ^
		      crc32c_table_le[5][lo >> 16 & 0xff] ^ crc32c_table_le[4][lo >> 24] ^
		      crc32c_table_le[3][hi & 0xff] ^ crc32c_table_le[2][hi >> 8 & 0xff] ^
		      crc32c_table_le[1][hi >> 16 & 0xff] ^ crc32c_table_le[0][hi >> 24];
		p += 8;
		len -= 8;
	}
	while (len--) {
		crc = crc32c_table_le[0][(crc ^ *p++) & 0xff] ^ (crc >> 8);
	}
	return ~crc;
}
'''))

_PF = "perf/sc_perf.c"
R("perf-open-helper", "C32",
  (_PF, "fn:sc_perf_set", '''static int sc_perf_open(const struct sc_perf_event *ev)
{
	struct perf_event_attr attr;

	memset(&attr, 0, sizeof(attr));
	attr.type = (uint32_t) ev->type;
	attr.size = sizeof(attr);
	attr.config = ev->config;
	attr.read_format = PERF_FORMAT_TOTAL_TIME_ENABLED |
			   PERF_FORMAT_TOTAL_TIME_RUNNING;
	attr.disabled = 1;
	attr.inherit = 1;

	return (int) syscall(SYS_perf_event_open, &attr, 0, -1, -1,
			     PERF_FLAG_FD_CLOEXEC);
}

static void sc_perf_set(struct sc_perf_item *items, size_t size)
{
	for (struct sc_perf_item *it = items; it != items + size; it++) {
		it->fd = sc_perf_open(&it->event);
		if (it->fd < 0) {
			fprintf(stderr, "Failed to set counter : %s\\n", it->event.name);
			abort();
		}
	}
}
'''))
R("perf-read-loop", "C32",
  (_PF, "fn:sc_read", '''static void sc_read(struct sc_perf_item *items, size_t size)
{
	uint64_t v[3];

	for (size_t i = 0; i < size; i++) {
		ssize_t rc = read(items[i].fd, v, sizeof(v));

		sc_perf_assert(rc == (ssize_t) sizeof(v));

		if (v[1] == 0 || v[2] == 0) {
			items[i].value += (double) v[0];
			continue;
		}

		items[i].active = (double) v[2] / (double) v[1];
		items[i].value += (double) v[0] * ((double) v[1] / (double) v[2]);
	}
}
'''))
R("perf-time-split", "C32",
  (_PF, "fn:sy_time_nano", '''static uint64_t sy_time_nano(void)
{
	struct timespec ts;

	if (clock_gettime(CLOCK_MONOTONIC_RAW, &ts) != 0) {
		abort();
	}

	return (uint64_t) ts.tv_sec * 1000000000u + (uint64_t) ts.tv_nsec;
}
'''), (_PF, "fn:sc_perf_pause", '''void sc_perf_pause(void)
{
	uint64_t now;

	sc_perf_assert(init);

	if (running) {
		now = sy_time_nano();
		sc_perf_assert(prctl(PR_TASK_PERF_EVENTS_DISABLE) == 0);
		running = 0;
		total = total + (now - start);
	}
}
'''))
R("perf-end-one-loop", "C32",
  (_PF, "fn:sc_perf_end", '''static void sc_perf_row(const char *name, double value, double share)
{
	printf("| %-25s | %-18.2f | (%.2f%%)  \\n", name, value, 100 * share);
}

void sc_perf_end(void)
{
	struct sc_perf_item *it;

	sc_perf_assert(init);

	sc_perf_pause();
	sc_read(sc_perf_items, ITEMS_SIZE);

	fprintf(stdout, "\\n| %-25s | %-18s | %s  \\n", "Event", "Value", "Measurement time");
	puts("---------------------------------------------------------------");
	printf("| %-25s | %-18.2f | %s  \\n", "time (seconds)", (double) total / 1000000000.0, "(100,00%)");

	for (size_t i = 0; i < ITEMS_SIZE; i++) {
		it = &sc_perf_items[i];
		sc_perf_row(it->event.name, it->value, it->active);
		close(it->fd);
	}

	sc_perf_clear();
}
'''))
R("perf-start-early", "C32",
  (_PF, "fn:sc_perf_start", '''void sc_perf_start(void)
{
	if (running) {
		return;
	}

	if (init == 0) {
		sc_perf_clear();
		sc_perf_set(sc_perf_items, ITEMS_SIZE);
	}

	init = 1;
	running = 1;
	start = sy_time_nano();
	sc_perf_assert(prctl(PR_TASK_PERF_EVENTS_ENABLE) == 0);
}
'''), (_PF, "fn:sc_perf_clear", '''static void sc_perf_clear(void)
{
	memset(sc_perf_items, 0, sizeof(sc_perf_items));

	for (size_t i = 0; i < ITEMS_SIZE; i++) {
		struct sc_perf_item *it = &sc_perf_items[i];

		it->event = sc_perf_hw[i];
		it->fd = -1;
	}

	start = total = 0;
	running = init = 0;
}
'''))

# ---- second helping
R("sock-notify-helper", "C25,C26", ("socket/sc_sock.c", "fn:sc_sock_notify_systemd", r'''
static int sc_sock_notify_addr(struct sockaddr_un *addr, socklen_t *len)
{
	size_t n;
	const char *s = getenv("NOTIFY_SOCKET");

	if (s == NULL) {
		return -1;
	}

	n = strlen(s);
	if (n < 2 || n >= sizeof(addr->sun_path) || (*s != '/' && *s != '@')) {
		return -1;
	}

	memset(addr, 0, sizeof(*addr));
	addr->sun_family = AF_UNIX;
	memcpy(addr->sun_path, s, n);
	if (*s == '@') {
		addr->sun_path[0] = 0;
	}
	*len = (socklen_t)(offsetof(struct sockaddr_un, sun_path) + n);

	return 0;
}

int sc_sock_notify_systemd(const char *msg)
{
	assert(msg != NULL);

	int fd;
	ssize_t n;
	socklen_t len;
	struct sockaddr_un addr;
	struct iovec iov;
	struct msghdr hdr;

	if (sc_sock_notify_addr(&addr, &len) != 0) {
		errno = EINVAL;
		return -1;
	}

	fd = socket(AF_UNIX, SOCK_DGRAM, 0);
	if (fd == -1) {
		return -1;
	}

	iov.iov_base = (void *) msg;
	iov.iov_len = strlen(msg);

	memset(&hdr, 0, sizeof(hdr));
	hdr.msg_name = &addr;
	hdr.msg_namelen = len;
	hdr.msg_iov = &iov;
	hdr.msg_iovlen = 1;

	n = sendmsg(fd, &hdr, MSG_NOSIGNAL);
	close(fd);

	if (n < 0) {
		return -1;
	}

	return 0;
}
'''))
R("sock-unix-early", "C25,C26", ("socket/sc_sock.c", "fn:sc_sock_connect_unix", r'''
static int sc_sock_connect_unix(struct sc_sock *s, const char *addr)
{
	struct sockaddr_un un;
	const size_t len = strlen(addr);

	memset(&un, 0, sizeof(un));
	un.sun_family = AF_UNIX;

	s->fdt.fd = socket(AF_UNIX, SOCK_STREAM, 0);
	if (s->fdt.fd == SC_INVALID) {
		goto err;
	}

	if (len > sizeof(un.sun_path) - 1) {
		errno = EINVAL;
		goto err;
	}
	memcpy(un.sun_path, addr, len + 1);

	if (sc_sock_set_blocking(s, s->blocking) == 0 &&
	    connect(s->fdt.fd, (struct sockaddr *) &un, sizeof(un)) == 0) {
		return 0;
	}

err:
	sc_sock_errstr(s, 0);
	sc_sock_close(s);

	return -1;
}
'''))
R("buf-shrink-nest", "C01,C02,C03,C04", (B, "fn:sc_buf_shrink", r'''
static uint64_t sc_buf_round(uint64_t n)
{
	return ((n + 4095) / 4096) * 4096;
}

bool sc_buf_shrink(struct sc_buf *b, uint64_t len)
{
	void *tmp;
	uint64_t size;

	sc_buf_compact(b);

	if (!b->ref && len <= b->cap && len > b->wpos) {
		size = sc_buf_round(len);
		if (size < b->cap) {
			tmp = sc_buf_realloc(b->mem, size);
			if (tmp == NULL) {
				b->err |= SC_BUF_OOM;
				return false;
			}

			b->mem = tmp;
			b->cap = size;
		}
	}

	return true;
}
'''), (B, "		size = ((b->cap + len + 4095) / 4096) * 4096;\n", "		size = (b->cap + len + 4095) & ~(uint64_t) 4095;\n"))
R("buf-move-min", "C01,C02,C03,C04", (B, "fn:sc_buf_move", r'''
void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
{
	uint64_t copy = sc_buf_size(src);
	uint64_t before;

	if (copy > sc_buf_quota(dest)) {
		copy = sc_buf_quota(dest);
	}

	before = sc_buf_wpos(dest);
	sc_buf_put_raw(dest, sc_buf_rbuf(src), copy);
	sc_buf_mark_read(src, sc_buf_wpos(dest) - before);
}
'''), (B, "fn:sc_buf_get_blob", r'''
void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
{
	unsigned char *blob = NULL;

	if (len > 0) {
		if (b->err == 0 && sc_buf_in_range(b->rpos, len, b->wpos)) {
			blob = &b->mem[b->rpos];
			b->rpos += len;
		} else {
			b->err |= SC_BUF_CORRUPT;
		}
	}

	return blob;
}
'''))
R("buf-put-text-helper", "C01,C02,C03,C04,C05", (B, "fn:sc_buf_put_text", r'''
static int sc_buf_print(char *dst, uint64_t size, const char *fmt, va_list va)
{
	return vsnprintf(dst, size, fmt, va);
}

void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
{
	const int off = sc_buf_size(b) != 0;
	int rc;
	va_list va;

	va_start(va, fmt);
	rc = sc_buf_print((char *) sc_buf_wbuf(b) - off, sc_buf_quota(b), fmt, va);
	va_end(va);

	if (rc < 0) {
		b->err |= SC_BUF_CORRUPT;
		goto clean_up;
	}

	if ((uint64_t) rc >= sc_buf_quota(b)) {
		if (!sc_buf_reserve(b, (uint64_t) rc + 1)) {
			goto clean_up;
		}

		va_start(va, fmt);
		rc = sc_buf_print((char *) sc_buf_wbuf(b) - off, sc_buf_quota(b), fmt, va);
		va_end(va);

		if (rc < 0 || (uint64_t) rc >= sc_buf_quota(b)) {
			b->err = SC_BUF_OOM;
			goto clean_up;
		}
	}

	b->wpos += (uint64_t) rc + 1 - off;
	return;

clean_up:
	b->rpos = 0;
	b->wpos = 0;
}
'''))
R("str-set-helper", "C05,C06,C07", ("string/sc_str.c", "fn:sc_str_set", r'''
static bool replace_with(char **str, char *c)
{
	if (c == NULL) {
		return false;
	}

	sc_str_destroy(str);
	*str = c;
	return true;
}

bool sc_str_set(char **str, const char *param)
{
	return replace_with(str, sc_str_create(param));
}
'''), ("string/sc_str.c", "fn:sc_str_set_fmt", r'''
bool sc_str_set_fmt(char **str, const char *fmt, ...)
{
	char *c;
	va_list va;

	va_start(va, fmt);
	c = sc_str_create_va(fmt, va);
	va_end(va);

	return replace_with(str, c);
}
'''), ("string/sc_str.c", "fn:sc_str_substring", r'''
bool sc_str_substring(char **str, uint32_t start, uint32_t end)
{
	if (*str == NULL || start > end || end > sc_str_meta(*str)->len) {
		return false;
	}

	return replace_with(str, sc_str_create_len(*str + start, end - start));
}
'''))
R("str-trim-index", "C05,C06,C07", ("string/sc_str.c", "fn:sc_str_trim", r'''
bool sc_str_trim(char **str, const char *list)
{
	size_t len, begin, end;
	char *c;

	if (*str == NULL) {
		return true;
	}

	len = sc_str_meta(*str)->len;
	begin = strspn(*str, list);

	for (end = len; end > begin; end--) {
		if (strchr(list, (*str)[end - 1]) == NULL) {
			break;
		}
	}

	if (begin == 0 && end == len) {
		return true;
	}

	c = sc_str_create_len(*str + begin, (uint32_t) (end - begin));
	if (c == NULL) {
		return false;
	}

	sc_str_destroy(str);
	*str = c;

	return true;
}
'''))
R("str-replace-count-helper", "C05,C06,C07", ("string/sc_str.c", r'''	tmp = orig;
	size = meta->len;
	for (count = 0; (tmp = strstr(tmp, replace)) != NULL; count++) {
		tmp += rep_len;
		// Check overflow.
		if ((int64_t) size > (int64_t) SC_STR_MAX - diff) {
			return false;
		}
		size += diff;
	}
''', r'''	count = 0;
	size = meta->len;
	tmp = strstr(orig, replace);
	while (tmp != NULL) {
		// Check overflow.
		if ((int64_t) size + diff > (int64_t) SC_STR_MAX) {
			return false;
		}

		size = (size_t) ((int64_t) size + diff);
		count++;
		tmp = strstr(tmp + rep_len, replace);
	}
'''))
R("uri-scan-helper", "C14", ("uri/sc_uri.c", r'''struct sc_uri *sc_uri_create(const char *str)
{
''', r'''static size_t part_len(const char *s, const char *stop)
{
	size_t n = 0;

	while (s[n] != '\0' && strchr(stop, s[n]) == NULL) {
		n++;
	}

	return n;
}

struct sc_uri *sc_uri_create(const char *str)
{
'''), ("uri/sc_uri.c", '''	path_len = strcspn(path, "?#");
''', '''	path_len = part_len(path, "?#");
'''), ("uri/sc_uri.c", '''		query_len = strcspn(query, "#");
''', '''		query_len = part_len(query, "#");
'''))
R("uri-sum-order", "C14", ("uri/sc_uri.c", r'''	parts_len = full_len - authority_len;
	parts_len += 7; // NULL characters for each part.
	parts_len -= (scheme_len != 0);
	parts_len -= (userinfo_len != 0);
	parts_len -= (port_len != 0);
	parts_len -= (query_len != 0);
	parts_len -= (fragment_len != 0);
''', r'''	parts_len = 8;
	parts_len += scheme_len > 0 ? scheme_len - 1 : 0;
	parts_len += userinfo_len > 0 ? userinfo_len - 1 : 0;
	parts_len += host_len;
	parts_len += port_len > 0 ? port_len - 1 : 0;
	parts_len += path_len;
	parts_len += query_len > 0 ? query_len - 1 : 0;
	parts_len += fragment_len > 0 ? fragment_len - 1 : 0;
'''))
R("ini-set-helper", "C15", ("ini/sc_ini.c", '''int sc_ini_parse(void *arg, sc_ini_on_item cb, void *arg1,
		 char *(*next_line)(void *, char *, size_t))
{
''', r'''static void set_name(char *dst, size_t size, const char *src)
{
	strncpy(dst, src, size - 1);
	dst[size - 1] = '\0';
}

int sc_ini_parse(void *arg, sc_ini_on_item cb, void *arg1,
		 char *(*next_line)(void *, char *, size_t))
{
'''), ("ini/sc_ini.c", '''			strncpy(section, head + 1, sizeof(section) - 1);
''', '''			set_name(section, sizeof(section), head + 1);
'''), ("ini/sc_ini.c", '''			strncpy(key, head, sizeof(key) - 1);
''', '''			set_name(key, sizeof(key), head);
'''))
R("ini-loop-flat", "C15", ("ini/sc_ini.c", '''	while ((head = next_line(arg1, buf, sizeof(buf) - 1)) != NULL) {
		if (++line == 1) {
			head = trim_bom(head);
		}

		head = trim_space(trim_comment(head));
		if (*head == '\\0') {
			continue;
		}
''', '''	for (line = 1;; line++) {
		head = next_line(arg1, buf, sizeof(buf) - 1);
		if (head == NULL) {
			break;
		}

		if (line == 1) {
			head = trim_bom(head);
		}

		head = trim_comment(head);
		head = trim_space(head);
		if (!*head) {
			continue;
		}
'''), ("ini/sc_ini.c", '''		if (rc != 0) {
			return line;
		}
	}

	return 0;
}

static char *file_line''', '''		if (rc != 0) {
			break;
		}
	}

	return rc != 0 ? line : 0;
}

static char *file_line'''))
R("heap-grow-helper", "C11", ("heap/sc_heap.c", '''bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
{
	size_t i, cap, m;
	void *exp;

	if (h->size + 1 >= h->cap) {
		cap = h->cap != 0 ? h->cap * 2 : 4;
		m = cap * 2 * sizeof(*h->elems);

		if (h->cap >= SC_HEAP_MAX / 2 ||
		    (exp = sc_heap_realloc(h->elems, m)) == NULL) {
			return false;
		}

		h->elems = exp;
		h->cap = cap;
	}
''', '''static bool grow(struct sc_heap *h)
{
	void *exp;
	size_t cap = 4;

	if (h->size + 1 < h->cap) {
		return true;
	}

	if (h->cap >= SC_HEAP_MAX / 2) {
		return false;
	}

	if (h->cap != 0) {
		cap = h->cap * 2;
	}

	exp = sc_heap_realloc(h->elems, cap * 2 * sizeof(*h->elems));
	if (exp == NULL) {
		return false;
	}

	h->elems = exp;
	h->cap = cap;

	return true;
}

bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
{
	size_t i;

	if (!grow(h)) {
		return false;
	}
'''))
R("heap-exact-cap", "C11", ("heap/sc_heap.c", "		m = cap * 2 * sizeof(*h->elems);\n", "		m = cap * sizeof(*h->elems);\n"))
R("heap-elem-copy", "C11", ("heap/sc_heap.c", '''	h->elems[i].key = key;
	h->elems[i].data = data;

	return true;
''', '''	h->elems[i] = (struct sc_heap_data){.key = key, .data = data};

	return true;
'''))
R("timer-slot-helper", "C21", ("timer/sc_timer.c", '''	wheel_pos = (pos * t->wheel);
	for (seq = 0; seq < t->wheel; seq++) {
		index = wheel_pos + seq;
		if (t->list[index].timeout == SC_TIMER_INVALID) {
			goto out;
		}
	}

	if (!expand(t)) {
		return SC_TIMER_INVALID;
	}

	index = (pos * t->wheel) + (seq);
	assert(t->list[index].timeout == SC_TIMER_INVALID);

out:
''', '''	wheel_pos = (pos * t->wheel);
	seq = 0;
	while (seq < t->wheel && t->list[wheel_pos + seq].timeout != SC_TIMER_INVALID) {
		seq++;
	}

	if (seq == t->wheel && !expand(t)) {
		return SC_TIMER_INVALID;
	}

	index = (pos * t->wheel) + (seq);
	assert(t->list[index].timeout == SC_TIMER_INVALID);

'''))
R("timer-reset-helper", "C21", ("timer/sc_timer.c", "fn:sc_timer_clear", '''
static void reset_items(struct sc_timer_data *list, uint32_t count)
{
	while (count-- > 0) {
		list->data = NULL;
		list->timeout = SC_TIMER_INVALID;
		list++;
	}
}

void sc_timer_clear(struct sc_timer *t)
{
	t->head = 0;
	reset_items(t->list, t->wheel * WHEEL_COUNT);
}
'''), ("timer/sc_timer.c", '''	for (uint32_t i = 0; i < cap; i++) {
		alloc[i].timeout = SC_TIMER_INVALID;
		alloc[i].data = NULL;
	}
''', '''	reset_items(alloc, cap);
'''))
R("timer-fire-copy", "C21", ("timer/sc_timer.c", '''			if (item->timeout <= t->timestamp) {
				timeout = item->timeout;
				item->timeout = SC_TIMER_INVALID;

				callback(arg, timeout, item->type, item->data);
''', '''			if (item->timeout <= timestamp) {
				const struct sc_timer_data fired = *item;

				item->timeout = SC_TIMER_INVALID;
				timeout = fired.timeout;
				callback(arg, timeout, fired.type, fired.data);
'''))
R("map-fill-bits", "C12,C13", ("map/sc_map.c", '''		for (uint32_t i = 1; i < sizeof(v) * 8; i *= 2) {              \\
			v |= v >> i;                                           \\
		}                                                              \\
''', '''		v |= v >> 1;                                                   \\
		v |= v >> 2;                                                   \\
		v |= v >> 4;                                                   \\
		v |= v >> 8;                                                   \\
		v |= v >> 16;                                                  \\
'''))
R("map-clear-memset", "C12,C13", ("map/sc_map.c", '''			for (uint32_t i = 0; i < m->cap; i++) {                \\
				m->mem[i].key = 0;                             \\
			}                                                      \\
''', '''			memset(m->mem, 0, sizeof(*m->mem) * m->cap);           \\
'''))
R("map-get-for", "C12,C13", ("map/sc_map.c", '''			if (m->mem[pos].key == 0) {                            \\
				m->found = false;                              \\
				return 0;                                      \\
			} else if (!sc_map_cmp_##name(&m->mem[pos], key, h)) { \\
				pos = (pos + 1) & (mod);                       \\
				continue;                                      \\
			}                                                      \\
                                                                               \\
			m->found = true;                                       \\
			return m->mem[pos].value;                              \\
		}                                                              \\
	}                                                                      \\
''', '''			struct sc_map_item_##name *it = &m->mem[pos];          \\
                                                                               \\
			if (it->key == 0) {                                    \\
				break;                                         \\
			}                                                      \\
                                                                               \\
			if (sc_map_cmp_##name(it, key, h)) {                   \\
				m->found = true;                               \\
				return it->value;                              \\
			}                                                      \\
                                                                               \\
			pos = (pos + 1) & mod;                                 \\
		}                                                              \\
                                                                               \\
		m->found = false;                                              \\
		return 0;                                                      \\
	}                                                                      \\
'''))
R("map-put-zero-order", "C12,C13", ("map/sc_map.c", '''			ret = (m->used) ? m->mem[-1].value : 0;                \\
			m->found = m->used;                                    \\
			m->size += !m->used;                                   \\
			m->used = true;                                        \\
			m->mem[-1].value = value;                              \\
                                                                               \\
			return ret;                                            \\
''', '''			ret = 0;                                               \\
			m->found = m->used;                                    \\
			if (m->used) {                                         \\
				ret = m->mem[-1].value;                        \\
			} else {                                               \\
				m->used = true;                                \\
				m->size++;                                     \\
			}                                                      \\
			m->mem[-1].value = value;                              \\
                                                                               \\
			return ret;                                            \\
'''))
R("queue-add-temp", "C10", ("queue/sc_queue.h", '''		(q)->oom = false;                                              \\
		(q)->elems[(q)->last] = elem;                                  \\
		(q)->last = ((q)->last + 1) & ((q)->cap - 1);                  \\
''', '''		(q)->elems[(q)->last++] = elem;                                \\
		(q)->last &= (q)->cap - 1;                                     \\
'''), ("queue/sc_queue.h", "	return tmp;\n", "	return (*first - 1) & (cap - 1);\n"), ("queue/sc_queue.h", "	size_t tmp = *first;\n\n", ""))
R("array-grow-macro", "C09", ("array/sc_array.h", '''		const size_t _max = SC_ARRAY_MAX / sizeof(*(a)->elems);        \\
		size_t _cap;                                                   \\
		void *_p;                                                      \\
''', '''		const size_t _sz = sizeof(*(a)->elems);                        \\
		size_t _cap = (a)->cap != 0 ? (a)->cap * 2 : 8;                \\
		void *_p;                                                      \\
'''), ("array/sc_array.h", '''			if ((a)->cap > _max / 2) {                             \\
				(a)->oom = true;                               \\
				break;                                         \\
			}                                                      \\
			_cap = (a)->cap == 0 ? 8 : (a)->cap * 2;               \\
			_p = sc_array_realloc((a)->elems,                      \\
					      _cap * sizeof(*((a)->elems)));   \\
			if (_p == NULL) {                                      \\
''', '''			_p = NULL;                                             \\
			if ((a)->cap <= SC_ARRAY_MAX / _sz / 2) {              \\
				_p = sc_array_realloc((a)->elems, _cap * _sz); \\
			}                                                      \\
			if (_p == NULL) {                                      \\
'''))
R("log-emit-helper", "C22,C23", ("logger/sc_log.c", "fn:sc_log_file", '''
static int sc_log_rotate(void)
{
	fclose(sc_log.fp);
	(void) rename(sc_log.current_file, sc_log.prev_file);

	sc_log.file_size = 0;
	sc_log.fp = fopen(sc_log.current_file, "w+");

	return sc_log.fp != NULL ? 0 : -1;
}

static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
{
	int n, total;

	total = sc_log_print_header(sc_log.fp, level);
	if (total < 0) {
		return -1;
	}

	n = vfprintf(sc_log.fp, fmt, va);
	if (n < 0) {
		return -1;
	}

	sc_log.file_size += (size_t) total;
	sc_log.file_size += (size_t) n;

	return sc_log.file_size > (size_t) SC_LOG_FILE_SIZE ? sc_log_rotate() : 0;
}
'''))
R("log-level-table", "C22,C23", ("logger/sc_log.c", "fn:sc_strcasecmp", '''
static int sc_strcasecmp(const char *a, const char *b)
{
	while (tolower(*a) == tolower(*b)) {
		if (*a == 0) {
			return 0;
		}

		a++;
		b++;
	}

	return tolower(*a) - tolower(*b);
}
'''))
R("sig-int-shared", "C28,C29", ("signal/sc_signal.c", '''				if (*pos == 'u') {
					u = get_uint(va, pos - orig);

					do {
						c = (char) ('0' + (u % 10));
						dst[31 - (len++)] = c;
					} while (u /= 10UL);

				} else if (*pos == 'd') {
					i = get_int(va, pos - orig);
					u = i < 0 ? 0 - (uint64_t) i : (uint64_t) i;

					do {
						c = (char) ('0' + (u % 10));
						dst[31 - (len++)] = c;
					} while (u /= 10UL);

					if (i < 0) {
						dst[31 - (len++)] = '-';
					}
				} else {
					return -1;
				}
''', '''				if (*pos != 'u' && *pos != 'd') {
					return -1;
				}

				i = 0;
				if (*pos == 'd') {
					i = get_int(va, pos - orig);
					u = (uint64_t) i;
					if (i < 0) {
						u = 0 - u;
					}
				} else {
					u = get_uint(va, pos - orig);
				}

				do {
					c = arr[u % 10];
					dst[31 - (len++)] = c;
					u /= 10;
				} while (u != 0);

				if (i < 0) {
					dst[31 - (len++)] = '-';
				}
'''))
R("time-assert-helper", "C20", ("time/sc_time.c", '''	return (uint64_t) ((uint64_t) ts.tv_sec * 1000 +
			   (uint64_t) ts.tv_nsec / 1000000);
''', '''	uint64_t ms = (uint64_t) ts.tv_sec;

	ms *= 1000;
	ms += (uint64_t) ts.tv_nsec / 1000000;

	return ms;
'''))
R("opt-names-first", "C16", ("option/sc_option.c", '''			if (name == NULL) {
				continue;
			}

			if (len == strlen(name) &&
			    memcmp(name, curr, len) == 0) {
				id = opt->options[i].letter;
				*value = pos + (*pos != '=' ? 0 : 1);
				break;
			}
''', '''			if (name != NULL && strlen(name) == len &&
			    strncmp(curr, name, len) == 0) {
				id = opt->options[i].letter;
				*value = *pos == '=' ? pos + 1 : pos;
				break;
			}
'''), ("option/sc_option.c", '''		while (*pos && *pos != '=') {
			pos++;
		}
''', '''		pos += strcspn(pos, "=");
'''))

# ---------------------------------------------------------------- a third helping
LI, MM, CO, TH, SO, TI, HE = ("linked-list/sc_list.c", "memory-map/sc_mmap.c", "condition/sc_cond.c", "thread/sc_thread.c",
                              "socket/sc_sock.c", "timer/sc_timer.c", "heap/sc_heap.c")
R("list-del-locals", "C08", (LI, "fn:sc_list_del", '''
void sc_list_del(struct sc_list *l, struct sc_list *elem)
{
	struct sc_list *p = elem->prev, *n = elem->next;

	(void) l;

	n->prev = p;
	p->next = n;
	sc_list_init(elem);
}
'''), (LI, "fn:sc_list_count", '''
size_t sc_list_count(struct sc_list *l)
{
	size_t n = 0;

	for (struct sc_list *e = l->prev; e != l; e = e->prev) {
		n++;
	}

	return n;
}
'''))
R("list-clear-pop", "C08", (LI, "fn:sc_list_clear", '''
void sc_list_clear(struct sc_list *l)
{
	while (!sc_list_is_empty(l)) {
		(void) sc_list_pop_head(l);
	}
}
'''), (LI, "fn:sc_list_is_empty", '''
bool sc_list_is_empty(struct sc_list *l)
{
	return sc_list_head(l) == NULL;
}
'''))
R("list-after-is-before", "C08", (LI, "fn:sc_list_add_head", '''
void sc_list_add_head(struct sc_list *l, struct sc_list *elem)
{
	sc_list_add_after(l, l, elem);
}
'''), (LI, "fn:sc_list_add_tail", '''
void sc_list_add_tail(struct sc_list *l, struct sc_list *elem)
{
	sc_list_add_before(l, l, elem);
}
'''))
R("mmap-err-snprintf", "C24", (MM, '''	rc = mlock(p, len);
	if (rc != 0) {
		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
	}

	return rc;
''', '''	rc = mlock(p, len);
	if (rc == 0) {
		return 0;
	}

	snprintf(m->err, sizeof(m->err), "%s", strerror(errno));
	return rc;
'''), (MM, "#include <string.h>", "#include <stdio.h>\n#include <string.h>"))
R("mmap-fallocate-for", "C24", (MM, '''		do {
			rc = posix_fallocate(fd, (off_t) offset, (off_t) len);
		} while (rc == EINTR);

		if (rc != 0) {
			errno = rc;
			goto cleanup_fd;
		}
''', '''		for (;;) {
			rc = posix_fallocate(fd, (off_t) offset, (off_t) len);
			if (rc == 0) {
				break;
			}

			if (rc != EINTR) {
				errno = rc;
				goto cleanup_fd;
			}
		}
'''))
R("mmap-msync-mask", "C24", (MM, '''	size_t diff = offset & (m->page_size - 1);
	char *p = (char *) m->ptr + (offset - diff);

	rc = msync(p, len + diff, MS_SYNC);
''', '''	const size_t begin = offset - (offset % m->page_size);
	const size_t end = offset + len;

	rc = msync((char *) m->ptr + begin, end - begin, MS_SYNC);
'''))
R("cond-term-two-codes", "C18", (CO, '''	int rc;

	errno = 0;

	if (!c->init) {
		return 0;
	}

	rc = pthread_mutex_destroy(&c->mtx);
	if (rc != 0) {
		errno = rc;
	}

	rc = pthread_cond_destroy(&c->cond);
	if (rc != 0 && errno == 0) {
		errno = rc;
	}

	c->init = false;

	return errno != 0 ? -1 : 0;
''', '''	int r1, r2;

	errno = 0;

	if (c->init) {
		c->init = false;

		r2 = pthread_cond_destroy(&c->cond);
		r1 = pthread_mutex_destroy(&c->mtx);

		errno = r1 != 0 ? r1 : r2;
		if (errno != 0) {
			return -1;
		}
	}

	return 0;
'''))
R("cond-take-helper", "C18", (CO, '''	while (c->done == false) {
		// This won't fail as long as we pass correct params.
		rc = pthread_cond_wait(&c->cond, &c->mtx);
		assert(rc == 0);
		(void) rc;
	}

	data = c->data;
	c->data = NULL;
	c->done = false;

	pthread_mutex_unlock(&c->mtx);
''', '''	do {
		if (c->done) {
			break;
		}

		rc = pthread_cond_wait(&c->cond, &c->mtx);
		assert(rc == 0);
		(void) rc;
	} while (true);

	c->done = false;
	data = c->data;
	c->data = NULL;

	pthread_mutex_unlock(&c->mtx);
'''))
R("thread-start-goto", "C19", (TH, '''	rc = pthread_attr_init(&attr);
	if (rc != 0) {
		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
		return -1;
	}

	// This may only fail with EINVAL.
	pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);

	rc = pthread_create(&t->id, &attr, fn, arg);
	if (rc != 0) {
		// Content of the id is undefined on failure, don't try to join.
		t->id = 0;
		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
	}

	// This may only fail with EINVAL.
	pthread_attr_destroy(&attr);

	return rc != 0 ? -1 : 0;
''', '''	pthread_t id;

	rc = pthread_attr_init(&attr);
	if (rc != 0) {
		goto err;
	}

	pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
	rc = pthread_create(&id, &attr, fn, arg);
	pthread_attr_destroy(&attr);

	if (rc != 0) {
		t->id = 0;
		goto err;
	}

	t->id = id;
	return 0;

err:
	strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
	return -1;
'''))
R("thread-join-nest", "C19", (TH, '''	if (t->id == 0) {
		goto out;
	}

	rc = pthread_join(t->id, &val);
	if (rc != 0) {
		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
	}

	t->id = 0;

out:
	if (ret != NULL) {
''', '''	if (t->id != 0) {
		rc = pthread_join(t->id, &val);
		t->id = 0;

		if (rc != 0) {
			strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
			rc = -1;
		}
	}

	if (ret != NULL) {
'''))
R("pipe-io-while", "C27", (SO, '''	ssize_t n;
	char *b = data;

retry:
	n = write(p->fds[1], b, len);
	if (n == -1 && errno == EINTR) {
		goto retry;
	}

	return (int) n;
''', '''	ssize_t n;

	do {
		n = write(p->fds[1], data, len);
	} while (n < 0 && errno == EINTR);

	return (int) n;
'''), (SO, '''	ssize_t n;
	char *b = data;

retry:
	n = read(p->fds[0], b, len);
	if (n == -1 && errno == EINTR) {
		goto retry;
	}

	return (int) n;
''', '''	while (true) {
		ssize_t n = read(p->fds[0], data, len);
		if (n != -1 || errno != EINTR) {
			return (int) n;
		}
	}
'''))
R("poll-init-order", "C27", (SO, '''	int fds;

	*p = (struct sc_sock_poll){0};

	p->events = sc_sock_malloc(sizeof(*p->events) * SC_SOCK_POLL_MAX_EVENTS);
	if (p->events == NULL) {
		errno = ENOMEM;
		goto error;
	}

	fds = epoll_create1(0);
	if (fds == -1) {
		goto error;
	}
	p->fds = fds;

	return 0;
error:
''', '''	const size_t bytes = sizeof(*p->events) * SC_SOCK_POLL_MAX_EVENTS;

	*p = (struct sc_sock_poll){.fds = -1};

	p->events = sc_sock_malloc(bytes);
	if (p->events != NULL) {
		p->fds = epoll_create1(0);
		if (p->fds != -1) {
			return 0;
		}
	} else {
		errno = ENOMEM;
	}

'''))
R("poll-wait-for", "C27", (SO, '''	do {
		n = epoll_wait(p->fds, events, SC_SOCK_POLL_MAX_EVENTS, timeout);
	} while (n < 0 && errno == EINTR);

	if (n == -1) {
		sc_sock_poll_set_err(p, "epoll_wait : %s ", strerror(errno));
	}

	return n;
''', '''	for (;;) {
		n = epoll_wait(p->fds, events, SC_SOCK_POLL_MAX_EVENTS, timeout);
		if (n >= 0) {
			return n;
		}

		if (errno == EINTR) {
			continue;
		}

		sc_sock_poll_set_err(p, "epoll_wait : %s ", strerror(errno));
		return -1;
	}
'''))
R("sock-recv-switch", "C25,C26", (SO, '''	if (n == 0) {
		errno = EOF;
		return -1;
	} else if (n == SC_ERR) {
		err = sc_sock_err();
		if (err == SC_EINTR) {
			goto retry;
		}

		if (err == SC_EAGAIN) {
''', '''	if (n > 0) {
		return n;
	}

	if (n == 0) {
		errno = EOF;
		return -1;
	} else {
		err = sc_sock_err();
		if (err == SC_EINTR) {
			goto retry;
		}

		if (err == SC_EAGAIN) {
'''))
R("sock-listen-nest", "C25,C26", (SO, '''	rc = sc_sock_bind(s, host, port);
	if (rc != 0) {
		return rc;
	}

	rc = listen(s->fdt.fd, 4096);
	if (rc != 0) {
		goto err;
	}

	return 0;
err:
	sc_sock_errstr(s, 0);
	sc_sock_close(s);
	return -1;
''', '''	rc = sc_sock_bind(s, host, port);
	if (rc == 0) {
		rc = listen(s->fdt.fd, 4096);
		if (rc != 0) {
			sc_sock_errstr(s, 0);
			sc_sock_close(s);
			rc = -1;
		}
	}

	return rc;
'''))
R("sock-errstr-snprintf", "C25", (SO, '''	str = gai_err ? gai_strerror(gai_err) : strerror(errno);
	strncpy(s->err, str, sizeof(s->err) - 1);
''', '''	if (gai_err != 0) {
		str = gai_strerror(gai_err);
	} else {
		str = strerror(errno);
	}

	snprintf(s->err, sizeof(s->err), "%s", str);
'''))
R("timer-modulo", "C21", (TI, "	const uint32_t pos = offset & (WHEEL_COUNT - 1);", "	const uint32_t pos = offset % WHEEL_COUNT;"),
  (TI, "	t->head = (t->head + wheels) & (WHEEL_COUNT - 1);", "	t->head = (t->head + wheels) % WHEEL_COUNT;"))
R("timer-fire-while", "C21", (TI, '''		for (uint32_t i = 0; i < wheel; i++) {
			item = &t->list[base + i];

			if (item->timeout <= t->timestamp) {
				timeout = item->timeout;
				item->timeout = SC_TIMER_INVALID;

				callback(arg, timeout, item->type, item->data);

				// Recalculates position each time because there
				// might be newly added timers in the callback,
				// and it might require expansion of the list.
				base = t->wheel * head;
			}
		}

		head = (head + 1) & (WHEEL_COUNT - 1);
''', '''		(void) base;
		for (uint32_t i = 0; i < wheel; i++) {
			// The list may have moved in the callback.
			item = &t->list[t->wheel * head + i];
			timeout = item->timeout;

			if (timeout > t->timestamp) {
				continue;
			}

			item->timeout = SC_TIMER_INVALID;
			callback(arg, timeout, item->type, item->data);
		}

		if (++head == WHEEL_COUNT) {
			head = 0;
		}
'''))
R("heap-pop-helper", "C11", (HE, '''	last = h->elems[h->size--];
	while (child <= h->size) {
		if (child < h->size &&
		    h->elems[child].key > h->elems[child + 1].key) {
			child++;
		}

		if (last.key <= h->elems[child].key) {
			break;
		}

		h->elems[i] = h->elems[child];

		i = child;
		child *= 2;
	}

	h->elems[i] = last;
''', '''	last = h->elems[h->size];
	h->size -= 1;

	for (;;) {
		child = 2 * i;
		if (child > h->size) {
			break;
		}

		if (child + 1 <= h->size &&
		    h->elems[child + 1].key < h->elems[child].key) {
			child += 1;
		}

		if (h->elems[child].key >= last.key) {
			break;
		}

		h->elems[i] = h->elems[child];
		i = child;
	}

	h->elems[i] = last;
'''))
R("util-size-overflow-builtin", "C30", ("sc/sc.c", '''	case 'k':
		val = (val > INT64_MAX / kb) ? -1 : val * kb;
		break;
''', '''	case 'k':
		if (val > (INT64_MAX >> 10)) {
			return -1;
		}
		val <<= 10;
		break;
'''))
R("crc-times-for", "C31", ("crc32/sc_crc32.c", '''	while (vec) {
		if (vec & 1) {
			sum ^= *mat;
		}

		vec >>= 1;
		mat++;
	}
''', '''	for (int i = 0; vec != 0; i++) {
		if (vec & 1u) {
			sum = sum ^ mat[i];
		}

		vec = vec >> 1;
	}
'''))
R("crc-lead-for", "C31", ("crc32/sc_crc32.c", '''	while (len && ((uintptr_t) next & 7) != 0) {
		crc0 = _mm_crc32_u8(crc0, *next);
		next++;
		len--;
	}

	/* compute the crc on sets of LONG''', '''	for (; len > 0 && ((uintptr_t) next % 8) != 0; len--) {
		crc0 = _mm_crc32_u8(crc0, *next++);
	}

	/* compute the crc on sets of LONG'''))

# ------------------------------------------------------------------ random generator
R("rand-swap-helper", "C36", (S_, "void sc_rand_init(struct sc_rand *r, const unsigned char *init)\n{\n	unsigned char t;\n", r'''static void exchange(unsigned char *a, unsigned char *b)
{
	unsigned char t = *a;

	*a = *b;
	*b = t;
}

void sc_rand_init(struct sc_rand *r, const unsigned char *init)
{
'''), (S_, "		t = r->init[r->j];\n		r->init[r->j] = r->init[i];\n		r->init[i] = t;\n", "		exchange(&r->init[i], &r->init[r->j]);\n"),
  (S_, "		r->init[r->i] = r->init[r->j];\n		r->init[r->j] = t;\n		t += r->init[r->i];\n",
   "		exchange(&r->init[r->j], &r->init[r->i]);\n		t = (unsigned char) (r->init[r->i] + r->init[r->j]);\n"))
R("rand-locals", "C36", (S_, "fn:sc_rand_read", r'''
void sc_rand_read(struct sc_rand *r, void *buf, int size)
{
	unsigned char *s = r->init, *p = buf;
	unsigned char i = r->i, j = r->j;

	if (buf == NULL) {
		return;
	}

	for (int n = 0; n < size; n++) {
		unsigned int a, b;

		i = (unsigned char) ((i + 1u) % 256u);
		a = s[i];
		j = (unsigned char) ((j + a) & 0xffu);
		b = s[j];
		s[i] = (unsigned char) b;
		s[j] = (unsigned char) a;
		p[n] = s[(a + b) & 0xffu];
	}

	r->i = i;
	r->j = j;
}
'''))
R("rand-init-while", "C36", (S_, "fn:sc_rand_init", r'''
void sc_rand_init(struct sc_rand *r, const unsigned char *init)
{
	unsigned char *s = r->init;
	unsigned int i = 0;
	unsigned char t, j = 0;

	r->i = 0;

	do {
		s[i] = (unsigned char) i;
		i++;
	} while (i != 256);

	for (i = 0; i < 256; i++) {
		j = (unsigned char) (j + s[i] + init[i]);
		t = s[i];
		s[i] = s[j];
		s[j] = t;
	}

	r->j = j;
}
'''))
R("rand-guard", "C36", (S_, "fn:sc_rand_read", r'''
void sc_rand_read(struct sc_rand *r, void *buf, int size)
{
	unsigned char *p = buf;

	if (size > 0 && buf != NULL) {
		unsigned char *end = p + size;

		while (p < end) {
			unsigned char x, y;

			x = r->init[++r->i];
			r->j = (unsigned char) (r->j + x);
			y = r->init[r->j];
			r->init[r->i] = y;
			r->init[r->j] = x;
			x = (unsigned char) (x + y);
			*p = r->init[x];
			p++;
		}
	}
}
'''))
R("log-macro-helper", "C23", ("logger/sc_log.h", "#define sc_log_debug(...) (sc_log_log(SC_LOG_DEBUG, sc_log_ap(__VA_ARGS__, \"\")))",
  "#define sc_log_at(level, ...) (sc_log_log((level), sc_log_ap(__VA_ARGS__, \"\")))\n#define sc_log_debug(...) sc_log_at(SC_LOG_DEBUG, __VA_ARGS__)"))
