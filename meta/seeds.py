"""The planted bugs; see seed.py."""
SEEDS = []


def S(id, prop, edits, needs, what, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo=demo, **k))


BUF = "buffer/sc_buf.c"
S("buf-compact-overlap", "C01", [(BUF, "memmove(b->mem, b->mem + b->rpos, copy);", "memcpy(b->mem, b->mem + b->rpos, copy);")],
  "unread bytes longer than the consumed prefix, so that source and destination overlap",
  "sc_buf_compact copies between overlapping ranges with memcpy: undefined behaviour, unread bytes may be scrambled", r'''
#include "sc_buf.h"
#include <string.h>
int main(void)
{
	struct sc_buf b;
	char src[64];
	for (int i = 0; i < 64; i++) src[i] = (char) i;
	sc_buf_init(&b, 64);
	sc_buf_put_raw(&b, src, 64);
	sc_buf_get_8(&b);
	sc_buf_compact(&b);
	for (int i = 1; i < 64; i++)
		if (sc_buf_get_8(&b) != i) return 1;
	sc_buf_term(&b);
	return 0;
}
''')
S("buf-limit-rounding", "C04", [(BUF, "if (size > b->limit ||", "if (b->cap + len > b->limit ||")],
  "a limit that is not a multiple of 4096 and a write that fits it only before rounding up",
  "the buffer grows past its configured limit", r'''
#include "sc_buf.h"
int main(void)
{
	struct sc_buf b;
	static char big[4500];
	sc_buf_init(&b, 0);
	sc_buf_limit(&b, 5000);
	sc_buf_put_raw(&b, big, sizeof(big));
	if (sc_buf_cap(&b) > 5000) return 1;
	sc_buf_term(&b);
	return 0;
}
''')
S("buf-get-data-err", "C02", [(BUF, "b->rpos += sc_buf_peek_data(b, b->rpos, dest, len);", "sc_buf_peek_data(b, b->rpos, dest, len);\n\tb->rpos += len;")],
  "a read of bytes that are there after the buffer was marked corrupt by an earlier operation",
  "sc_buf_get_data consumes bytes it did not return when the error flag is set", r'''
#include "sc_buf.h"
int main(void)
{
	struct sc_buf b;
	char out[4];
	sc_buf_init(&b, 64);
	sc_buf_put_32(&b, 1);
	sc_buf_put_32(&b, 2);
	sc_buf_set_rpos(&b, 100);	/* marks the buffer */
	sc_buf_get_data(&b, out, 4);
	int rc = sc_buf_rpos(&b) != 0;
	sc_buf_term(&b);
	return rc;
}
''')
STR = "string/sc_str.c"
CFG = {"config.h": '''
#ifndef DEMO_CONFIG_H
#define DEMO_CONFIG_H
#include <stdlib.h>
extern int fail_alloc;
static inline void *d_malloc(size_t n) { return fail_alloc ? NULL : malloc(n); }
static inline void *d_calloc(size_t a, size_t n) { return fail_alloc ? NULL : calloc(a, n); }
static inline void *d_realloc(void *p, size_t n) { return fail_alloc ? NULL : realloc(p, n); }
#define sc_str_malloc d_malloc
#define sc_str_calloc d_calloc
#define sc_str_realloc d_realloc
#define sc_str_free free
#define sc_array_realloc d_realloc
#define sc_array_free free
#define sc_queue_calloc d_calloc
#define sc_queue_free free
#define sc_heap_malloc d_malloc
#define sc_heap_realloc d_realloc
#define sc_heap_free free
#define sc_map_calloc d_calloc
#define sc_map_free free
#define sc_timer_malloc d_malloc
#define sc_timer_free free
#define sc_uri_malloc d_malloc
#define sc_uri_free free
#endif
'''}
S("str-cmp-nul", "C07", [(STR, "!memcmp(s1->buf, s2->buf, s1->len)", "!strcmp(s1->buf, s2->buf)")],
  "two strings of equal length that differ only behind an embedded NUL", "different strings compare equal", r'''
#include "sc_str.h"
int main(void)
{
	char *a = sc_str_create_len("ab\0cd", 5), *b = sc_str_create_len("ab\0ce", 5);
	int rc = sc_str_cmp(a, b);
	sc_str_destroy(&a);
	sc_str_destroy(&b);
	return rc;
}
''')
S("str-replace-step", "C07", [(STR, "memcpy(orig, with, rep_len);\n\t\t\torig += rep_len;", "memcpy(orig, with, rep_len);\n\t\t\torig++;")],
  "a same-length replacement whose text, with what follows it, forms the pattern again", "already replaced text is searched and replaced again", r'''
#include "sc_str.h"
#include <string.h>
int main(void)
{
	char *s = sc_str_create("aaa");
	sc_str_replace(&s, "aa", "ba");
	int rc = strcmp(s, "baa") != 0;
	sc_str_destroy(&s);
	return rc;
}
''')
S("list-add-after-linked", "C08", [("linked-list/sc_list.c", "\t// Delete if exists to prevent adding same item twice\n\tsc_list_del(l, elem);\n\n\tnext = prev->next;", "\tnext = prev->next;")],
  "adding an element that is still linked elsewhere in the list", "the old neighbours keep pointing at the moved element: walking forward and backward disagree", r'''
#include "sc_list.h"
#include <stdio.h>
int main(void)
{
	struct sc_list l, a, b, c, *it;
	sc_list_init(&l); sc_list_init(&a); sc_list_init(&b); sc_list_init(&c);
	sc_list_add_tail(&l, &a); sc_list_add_tail(&l, &b); sc_list_add_tail(&l, &c);
	sc_list_add_after(&l, &c, &a);		/* b c a */
	struct sc_list *want[] = {&b, &c, &a};
	it = l.next;
	for (int i = 0; i < 3; i++, it = it->next)
		if (it != want[i]) return 1;
	it = l.prev;
	for (int i = 2; i >= 0; i--, it = it->prev)
		if (it != want[i]) return 1;
	return it != &l;
}
''')
S("queue-cap-early", "C10", [("queue/sc_queue.h", "\t\t\t(q)->oom = false;                                      \\\n\t\t\t(q)->last = (q)->cap - 1;                              \\\n\t\t\t(q)->first = 0;                                        \\\n\t\t\t(q)->cap = _cap;                                       \\\n",
   "\t\t\t(q)->oom = false;                                      \\\n\t\t\t(q)->last = ((q)->first - 1) & (_cap - 1);             \\\n\t\t\t(q)->last = (q)->first == 0 ? (q)->cap - 1 : (q)->last; \\\n\t\t\t(q)->first = 0;                                        \\\n\t\t\t(q)->cap = _cap;                                       \\\n")],
  "growth while the ring has wrapped around (first is not at index 0)", "the end position after growth is computed from the old start: elements are lost or invented", r'''
#include "sc_queue.h"
int main(void)
{
	struct sc_queue_int q;
	int n = 0, m = 0;
	sc_queue_init(&q);
	for (int i = 0; i < 5; i++) sc_queue_add_last(&q, n++);
	for (int i = 0; i < 4; i++) if (sc_queue_del_first(&q) != m++) return 1;
	for (int i = 0; i < 20; i++) sc_queue_add_last(&q, n++);
	while (!sc_queue_empty(&q)) if (sc_queue_del_first(&q) != m++) return 1;
	sc_queue_term(&q);
	return n != m;
}
''', srcs=[])
S("heap-key-subtract", "C11", [("heap/sc_heap.c", "while (i != 1 && key < h->elems[i / 2].key) {", "while (i != 1 && (int64_t) ((uint64_t) key - (uint64_t) h->elems[i / 2].key) < 0) {")],
  "keys more than 2^63 apart", "the comparison by subtraction wraps around, elements are popped out of order", r'''
#include "sc_heap.h"
int main(void)
{
	struct sc_heap h;
	sc_heap_init(&h, 0);
	sc_heap_add(&h, INT64_MAX, 0);
	sc_heap_add(&h, -5, 0);
	int rc = sc_heap_pop(&h)->key != -5;
	sc_heap_term(&h);
	return rc;
}
''')
S("heap-pop-int", "C11", [("heap/sc_heap.c", "if (last.key <= h->elems[child].key) {", "if ((int) last.key <= (int) h->elems[child].key) {")],
  "keys that differ only above bit 31", "keys are compared truncated to int, elements are popped out of order", r'''
#include "sc_heap.h"
int main(void)
{
	struct sc_heap h;
	int64_t k[] = {0, 1ll << 32, 5ll << 32, 3ll << 32 | 5, 7ll << 32}, prev = INT64_MIN;
	sc_heap_init(&h, 0);
	for (int i = 0; i < 5; i++) sc_heap_add(&h, k[i], 0);
	for (int i = 0; i < 5; i++) {
		int64_t x = sc_heap_pop(&h)->key;
		if (x < prev) return 1;
		prev = x;
	}
	sc_heap_term(&h);
	return 0;
}
''')
MAP = "map/sc_map.c"
S("map-del-wrap", "C12", [(MAP, "if ((p > it && (p <= prev || it >= prev)) ||   \\\n\t\t\t\t    (p <= prev && it >= prev)) {               \\", "if ((p > it && p <= prev) ||                   \\\n\t\t\t\t    (p <= prev && it >= prev)) {               \\")],
  "a probe run that wraps around the end of the table, with a deletion inside the wrapped part",
  "a wrapped entry is not moved into the hole: a stored key is no longer found", r'''
#include "sc_map.h"
int main(void)
{
	struct sc_map_32 m;
	sc_map_init_32(&m, 8, 0);
	/* 7, 15, 23, 31 all hash to the last slot: they fill 7, 0, 1, 2 */
	uint32_t k[] = {7, 15, 23, 31};
	for (int i = 0; i < 4; i++) sc_map_put_32(&m, k[i], k[i]);
	sc_map_del_32(&m, 15);
	for (int i = 0; i < 4; i++) {
		if (k[i] == 15) continue;
		sc_map_get_32(&m, k[i]);
		if (!sc_map_found(&m)) return 1;
	}
	sc_map_term_32(&m);
	return 0;
}
''', san="-fsanitize=address")
S("map-load-round-up", "C13", [(MAP, "m->remap = (uint32_t) (m->cap * ((double) m->load_fac / 100)); \\\n                                                                               \\\n\t\treturn true;                                                   \\\n\t}                                                                      \\\n                                                                               \\\n\tV sc_map_put",
   "m->remap = (uint32_t) (m->cap * ((double) m->load_fac / 100)) + 1; \\\n                                                                               \\\n\t\treturn true;                                                   \\\n\t}                                                                      \\\n                                                                               \\\n\tV sc_map_put")],
  "a load factor of 95 and a table of 8 or 16 slots", "the table fills up completely and the next lookup of an absent key never ends", r'''
#include "sc_map.h"
#include <unistd.h>
int main(void)
{
	struct sc_map_32 m;
	alarm(5);
	sc_map_init_32(&m, 0, 95);
	for (uint32_t i = 1; i < 40; i++) {
		sc_map_put_32(&m, i, i);
		sc_map_get_32(&m, 1000);
		if (sc_map_found(&m)) return 1;
	}
	sc_map_term_32(&m);
	return 0;
}
''', san="")
OPT = "option/sc_option.c"

URI = "uri/sc_uri.c"
S("uri-port-width", "C14", [(URI, "\tunsigned long val;\n", "\tunsigned int val;\n")],
  "a port number whose low 32 bits are a valid port", "port 4294967376 is accepted", r"""
#include "sc_uri.h"
#include <stddef.h>
int main(void)
{
	return sc_uri_create("http://host:4294967376/x") != NULL;
}
""")
S("option-last-match", "C16", [(OPT, "				id = opt->options[i].letter;\n				*value = pos + (*pos != '=' ? 0 : 1);\n				break;", "				id = opt->options[i].letter;\n				*value = pos + (*pos != '=' ? 0 : 1);")],
  "two options with the same long name", "the last of several options with that name is returned, not the first", r"""
#include "sc_option.h"
int main(void)
{
	struct sc_option_item o[] = {{.letter = 'a', .name = "key"}, {.letter = 'b', .name = "key"}};
	char *argv[] = {"x", "--key=1"};
	struct sc_option opt = {.options = o, .count = 2, .argv = argv};
	char *v;
	return sc_option_at(&opt, 1, &v) != 'a';
}
""")
INI = "ini/sc_ini.c"
S("ini-section-key", "C15", [(INI, "			*key = '\\0';\n			*end = '\\0';\n			strncpy(section", "			*end = '\\0';\n			strncpy(section")],
  "an indented line right after a section header, with a key in the section before", "the indented line is reported as a continuation of a key of the previous section", r"""
#include "sc_ini.h"
#include <string.h>
static int n, bad;
static int cb(void *arg, int line, const char *section, const char *key, const char *value)
{
	if (++n == 2 && (strcmp(key, "b") || strcmp(value, "2") || strcmp(section, "two"))) bad = 1;
	return 0;
}
int main(void)
{
	int rc = sc_ini_parse_string(0, cb, "[one]\na=1\n[two]\n  b=2\n");
	return rc != 0 || bad || n != 2;
}
""")
S("ini-file-leak", "C15", [(INI, "	if (rc == 0) {\n		rc = ferror(file) != 0 ? -1 : 0;\n	}\n", "	if (rc != 0) {\n		return rc;\n	}\n\n	rc = ferror(file) != 0 ? -1 : 0;\n")],
  "parsing a file that is malformed or whose callback stops", "the file is left open", r"""
#include "sc_ini.h"
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
static int cb(void *arg, int line, const char *section, const char *key, const char *value) { return 0; }
int main(void)
{
	FILE *f = fopen("x.ini", "w");
	fputs("[broken\n", f);
	fclose(f);
	int a = open("/dev/null", O_RDONLY);
	close(a);
	if (sc_ini_parse_file(0, cb, "x.ini") != 1) return 1;
	int b = open("/dev/null", O_RDONLY);
	return a != b;
}
""", san="")
S("ini-section-term", "C15", [(INI, "strncpy(section, head + 1, sizeof(section) - 1);", "strncpy(section, head + 1, sizeof(section));")],
  "a section name of 256 or more characters", "an overlong section name is not terminated: the callback reads on into the key", r"""
#include "sc_ini.h"
#include <string.h>
static int bad;
static int cb(void *arg, int line, const char *section, const char *key, const char *value)
{
	if (strlen(section) > 255) bad = 1;
	return 0;
}
int main(void)
{
	static char t[600];
	memset(t, 'x', 400);
	t[0] = '[';
	strcpy(t + 400, "]\nk=v\n");
	sc_ini_parse_string(0, cb, t);
	return bad;
}
""", san="")
S("str-append-wrap", "C05", [(STR, "	if (len > SC_STR_MAX - m->len ||\n	    (m = sc_str_realloc(m, alloc)) == NULL) {", "	if ((uint32_t) (m->len + len) < m->len ||\n	    (m = sc_str_realloc(m, alloc)) == NULL) {")],
  "appending a text longer than 4 GB", "the overflow check compares the wrapped sum only: the stored length is not that of the contents", r"""
#include "sc_str.h"
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
int main(void)
{
	/* 4 GB and a bit: the sum modulo 2^32 is larger than the old length */
	size_t n = (size_t) UINT32_MAX + 2, chunk = 64 << 20;
	int fd = memfd_create("x", 0);
	char *big = mmap(NULL, n + 2 * chunk, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (fd == -1 || big == MAP_FAILED || ftruncate(fd, chunk) != 0) return 0;
	for (size_t o = 0; o < n + 1; o += chunk)
		if (mmap(big + o, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0;
	memset(big, 'x', chunk);
	/* the last chunk is a private copy holding the terminator */
	size_t last = n / chunk * chunk;
	if (mmap(big + last, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) return 0;
	memset(big + last, 'x', n - last);
	char *s = sc_str_create("abcdef");
	bool b = sc_str_append(&s, big);
	return b && sc_str_len(s) != (int64_t) (6 + n);
}
""", cflags="-D_GNU_SOURCE", san="")
S("buf-set-wpos", "C01", [(BUF, "	if (pos > b->cap) {\n		b->err |= SC_BUF_CORRUPT;\n		return;\n	}\n\n	b->wpos = pos;", "	if (pos > b->cap && !b->ref) {\n		b->err |= SC_BUF_CORRUPT;\n		return;\n	}\n\n	b->wpos = pos;")],
  "setting the write position of a buffer over referenced memory behind its end", "the write position exceeds the capacity, later calls leave the storage", r"""
#include "sc_buf.h"
int main(void)
{
	char mem[16];
	struct sc_buf b = sc_buf_wrap(mem, sizeof(mem), SC_BUF_REF);
	sc_buf_set_wpos(&b, 17);
	return sc_buf_wpos(&b) > 16 || sc_buf_valid(&b);
}
""")

MTX = "mutex/sc_mutex.c"
S("mutex-init-attr-order", "C17", [(MTX, "	rc = pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_NORMAL);\n	assert(rc == 0);\n\n	// May fail on OOM\n	rc = pthread_mutex_init(&mtx->mtx, &attr);",
   "	rc = pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);\n	assert(rc == 0);\n\n	// May fail on OOM\n	rc = pthread_mutex_init(&mtx->mtx, &attr);")],
  "the holder locks the mutex a second time", "the mutex is recursive: it admits its holder again although it is held", r'''
#include "sc_mutex.h"
#include <signal.h>
#include <unistd.h>
static void on_alarm(int s) { (void) s; _exit(0); }
int main(void)
{
	struct sc_mutex m;
	signal(SIGALRM, on_alarm);
	if (sc_mutex_init(&m) != 0) return 2;
	alarm(2);
	sc_mutex_lock(&m);
	sc_mutex_lock(&m);	/* must not get here */
	return 1;
}
''', san="")

CND = "condition/sc_cond.c"
S("cond-wait-if", "C18", [(CND, "	while (c->done == false) {\n		// This won't fail as long as we pass correct params.\n", "	if (c->done == false) {\n		// This won't fail as long as we pass correct params.\n")],
  "a spurious wake-up of pthread_cond_wait", "wait returns NULL although nothing was signalled", r'''
#include "sc_cond.h"
#include <pthread.h>
#include <unistd.h>
static int waits;
static struct sc_cond c;
int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int __wrap_pthread_cond_wait(pthread_cond_t *cv, pthread_mutex_t *m)
{
	if (waits++ == 0) return 0;	/* spurious */
	return __real_pthread_cond_wait(cv, m);
}
static void *sig(void *a) { usleep(200000); sc_cond_signal(&c, a); return NULL; }
int main(void)
{
	pthread_t t;
	int x;
	sc_cond_init(&c);
	pthread_create(&t, NULL, sig, &x);
	int bad = sc_cond_wait(&c) != &x;
	pthread_join(t, NULL);
	sc_cond_term(&c);
	return bad;
}
''', cflags="-Wl,--wrap=pthread_cond_wait")
S("cond-reset-unlocked", "C18", [(CND, "	data = c->data;\n	c->data = NULL;\n	c->done = false;\n\n	pthread_mutex_unlock(&c->mtx);", "	data = c->data;\n	c->data = NULL;\n\n	pthread_mutex_unlock(&c->mtx);\n	c->done = false;")],
  "a second signal between the waiter's unlock and its reset of the flag", "the second signal is lost: the next wait never returns", r'''
#include "sc_cond.h"
#include <pthread.h>
#include <unistd.h>
#include <signal.h>
static struct sc_cond c;
static int n, x, y;
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
static void *sig(void *a) { sc_cond_signal(&c, a); return NULL; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int rc = __real_pthread_mutex_unlock(m);
	if (++n == 2) {		/* the waiter has just released the mutex */
		pthread_t t;
		pthread_create(&t, NULL, sig, &y);
		pthread_join(t, NULL);
	}
	return rc;
}
static void on_alarm(int s) { (void) s; _exit(1); }
int main(void)
{
	signal(SIGALRM, on_alarm);
	sc_cond_init(&c);
	sc_cond_signal(&c, &x);
	if (sc_cond_wait(&c) != &x) return 2;
	alarm(3);
	if (sc_cond_wait(&c) != &y) return 3;
	sc_cond_term(&c);
	return 0;
}
''', cflags="-Wl,--wrap=pthread_mutex_unlock")

THR = "thread/sc_thread.c"
S("thread-small-stack", "C19", [(THR, "	pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);\n\n	rc = pthread_create(&t->id, &attr, fn, arg);",
   "	pthread_attr_setdetachstate(&attr, fn ? PTHREAD_CREATE_JOINABLE : PTHREAD_CREATE_DETACHED);\n	pthread_attr_setstacksize(&attr, 16384);\n\n	rc = pthread_create(&t->id, &attr, fn, arg);")],
  "a thread function that needs more stack than 16 kB", "the thread gets a minimal stack instead of the default one and crashes in ordinary functions", r'''
#include "sc_thread.h"
#include <string.h>
static void *fn(void *a)
{
	volatile char big[200000];
	memset((char *) big, 1, sizeof(big));
	return big[77] == 1 ? a : NULL;
}
int main(void)
{
	struct sc_thread t;
	void *r = NULL;
	sc_thread_init(&t);
	if (sc_thread_start(&t, fn, &t) != 0) return 1;
	sc_thread_join(&t, &r);
	return r == &t ? 0 : 1;
}
''', san="")
S("thread-join-keep-id", "C19", [(THR, "	rc = pthread_join(t->id, &val);\n	if (rc != 0) {\n		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);\n	}\n\n	t->id = 0;\n",
   "	rc = pthread_join(t->id, &val);\n	if (rc != 0) {\n		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);\n	} else if (ret != NULL) {\n		t->id = 0;\n	}\n")],
  "a thread joined without asking for its result, then terminated", "the thread is joined a second time", r'''
#include "sc_thread.h"
#include <pthread.h>
static int joins;
int __real_pthread_join(pthread_t t, void **r);
int __wrap_pthread_join(pthread_t t, void **r)
{
	if (++joins > 1) return 3;
	return __real_pthread_join(t, r);
}
static void *fn(void *a) { return a; }
int main(void)
{
	struct sc_thread t;
	sc_thread_init(&t);
	if (sc_thread_start(&t, fn, NULL) != 0) return 1;
	sc_thread_join(&t, NULL);
	sc_thread_term(&t);
	return joins == 1 ? 0 : 1;
}
''', cflags="-Wl,--wrap=pthread_join")

TIM = "time/sc_time.c"
S("time-sleep-restart", "C20", [(TIM, "	do {\n		t = rem;\n		rc = nanosleep(&t, &rem);\n", "	t = rem;\n	do {\n		rc = nanosleep(&t, &rem);\n")],
  "a sleep interrupted by a signal", "the sleep starts over with the full duration after every signal", r'''
#include "sc_time.h"
#include <errno.h>
#include <time.h>
static long asked[4];
static int n;
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem)
{
	asked[n++ & 3] = t->tv_sec * 1000 + t->tv_nsec / 1000000;
	if (n < 3) {
		rem->tv_sec = 0;
		rem->tv_nsec = n == 1 ? 500000000 : 100000000;
		errno = EINTR;
		return -1;
	}
	return 0;
}
int main(void)
{
	if (sc_time_sleep(800) != 0) return 2;
	return asked[0] == 800 && asked[1] == 500 && asked[2] == 100 ? 0 : 1;
}
''', cflags="-Wl,--wrap=nanosleep")
S("time-sleep-int", "C20", [(TIM, "	rem.tv_nsec = (long) (millis % 1000) * 1000000;", "	rem.tv_nsec = (long) ((unsigned int) millis % 1000) * 1000000;")],
  "a sleep of more than 2^32 milliseconds", "the millisecond part of a very long sleep is wrong", r'''
#include "sc_time.h"
#include <time.h>
static long s, ns;
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem)
{
	(void) rem;
	s = t->tv_sec;
	ns = t->tv_nsec;
	return 0;
}
int main(void)
{
	sc_time_sleep(4294967296ull);
	return s == 4294967 && ns == 296000000 ? 0 : 1;
}
''', cflags="-Wl,--wrap=nanosleep")
TMR = "timer/sc_timer.c"
S("timer-stale-base", "C21", [(TMR, "				base = t->wheel * head;\n			}\n		}\n", "			}\n		}\n")],
  "a callback that adds enough timers to make the wheel grow, while more timers of the same slot are due",
  "due timers behind the growth are looked up at the old position: they are skipped or others are fired", r'''
#include "sc_timer.h"
static struct sc_timer t;
static int fired;
static int grown;
static void cb(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	(void) arg; (void) timeout; (void) data;
	if (type != 7) return;
	fired++;
	if (!grown) {
		grown = 1;
		for (int i = 0; i < 40; i++) sc_timer_add(&t, 10 * 16, 9, NULL);
	}
}
int main(void)
{
	sc_timer_init(&t, 0);
	for (int i = 0; i < 4; i++) sc_timer_add(&t, 48, 7, NULL);
	sc_timer_timeout(&t, 100, NULL, cb);
	int bad = fired != 4;
	sc_timer_term(&t);
	return bad;
}
''')
S("timer-late-clear", "C21", [(TMR, "				timeout = item->timeout;\n				item->timeout = SC_TIMER_INVALID;\n\n				callback(arg, timeout, item->type, item->data);\n",
   "				timeout = item->timeout;\n				callback(arg, timeout, item->type, item->data);\n				t->list[base + i].timeout = SC_TIMER_INVALID;\n")],
  "a callback that runs sc_timer_timeout, or adds timers so that the wheel grows", "the entry is still pending while its callback runs: it is delivered again or a new timer is wiped out", r'''
#include "sc_timer.h"
static struct sc_timer t;
static int fired, depth;
static void cb(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	(void) arg; (void) timeout; (void) data; (void) type;
	fired++;
	if (depth == 0) {
		depth = 1;
		for (int i = 0; i < 40; i++) sc_timer_add(&t, 32 + 16 * 15, 9, NULL);
	}
}
int main(void)
{
	sc_timer_init(&t, 0);
	for (int i = 0; i < 3; i++) sc_timer_add(&t, 48, 7, NULL);
	sc_timer_timeout(&t, 100, NULL, cb);
	int bad = fired != 3;
	fired = 0;
	for (uint64_t now = 200; now < 3000; now += 100) sc_timer_timeout(&t, now, NULL, cb);
	bad |= fired != 40;
	sc_timer_term(&t);
	return bad;
}
''')

LOG = "logger/sc_log.c"
S("log-unlock-early", "C22", [(LOG, "	sc_log.fp = fp;\n\n	goto out;\n\nerror:", "	sc_log_mutex_unlock(&sc_log.mtx);\n	sc_log.fp = fp;\n\n	goto done;\n\nerror:"),
   (LOG, "out:\n	sc_log_mutex_unlock(&sc_log.mtx);\n	errno = saved_errno;", "out:\n	sc_log_mutex_unlock(&sc_log.mtx);\ndone:\n	errno = saved_errno;")],
  "two threads that set the log file at the same time", "sc_log_set_file publishes the file after releasing the mutex: a file opened by another thread is overwritten and leaks", r'''
#include "sc_log.h"
#include <pthread.h>
#include <unistd.h>
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
static int armed, fclosed, fopened;
static void *other(void *a) { (void) a; sc_log_set_file("p2.txt", "c2.txt"); return NULL; }
#include <stdio.h>
FILE *__real_fopen(const char *n, const char *m);
FILE *__wrap_fopen(const char *n, const char *m) { fopened++; return __real_fopen(n, m); }
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) { fclosed++; return __real_fclose(f); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int rc = __real_pthread_mutex_unlock(m);
	if (armed) {
		pthread_t t;
		armed = 0;
		pthread_create(&t, NULL, other, NULL);
		pthread_join(t, NULL);
	}
	return rc;
}
int main(void)
{
	sc_log_init();
	armed = 1;
	sc_log_set_file("p1.txt", "c1.txt");
	sc_log_set_file(NULL, NULL);
	sc_log_term();
	return fopened == fclosed ? 0 : 1;
}
''', cflags="-Wl,--wrap=pthread_mutex_unlock -Wl,--wrap=fopen -Wl,--wrap=fclose", leaks=0)
S("log-set-file-leak", "C22", [(LOG, "	if (fp != NULL) {\n		fclose(fp);\n	}\nout:", "	if (fp != NULL && ferror(fp) == 0) {\n		fclose(fp);\n	}\nout:")],
  "a log file on a full disk: writing the first newline fails", "the opened file is never closed", r'''
#include "sc_log.h"
#include <stdio.h>
#include <unistd.h>
static int opened, closed;
FILE *__real_fopen(const char *n, const char *m);
FILE *__wrap_fopen(const char *n, const char *m)
{
	FILE *f = __real_fopen(n, m);
	if (f) { opened++; setvbuf(f, NULL, _IONBF, 0); }
	return f;
}
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) { closed++; return __real_fclose(f); }
int main(void)
{
	sc_log_init();
	if (sc_log_set_file("prev.txt", "/dev/full") == 0) return 2;
	sc_log_term();
	return opened == closed ? 0 : 1;
}
''', cflags="-Wl,--wrap=fopen -Wl,--wrap=fclose -fno-builtin", leaks=0)
S("log-va-reuse", "C23", [(LOG, "	if (sc_log.to_stdout) {\n		va_start(va, fmt);\n		rc |= sc_log_stdout(level, fmt, va);\n		va_end(va);\n	}\n\n	if (sc_log.fp != NULL) {\n		va_start(va, fmt);\n		rc |= sc_log_file(level, fmt, va);\n		va_end(va);\n	}\n\n	if (sc_log.cb) {\n		va_start(va, fmt);\n",
  "	if (sc_log.to_stdout) {\n		va_start(va, fmt);\n		rc |= sc_log_stdout(level, fmt, va);\n		va_end(va);\n	}\n\n	va_start(va, fmt);\n	if (sc_log.fp != NULL) {\n		rc |= sc_log_file(level, fmt, va);\n	}\n\n	if (sc_log.cb) {\n")],
  "a message with arguments while both a file and a callback are set", "the callback gets an argument list the file sink has already consumed", r'''
#include "sc_log.h"
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
static char got[100];
static int cb(void *arg, enum sc_log_level l, const char *fmt, va_list va)
{
	(void) arg; (void) l;
	vsnprintf(got, sizeof(got), fmt, va);
	return 0;
}
int main(void)
{
	sc_log_init();
	sc_log_set_stdout(false);
	sc_log_set_file("prev.txt", "cur.txt");
	sc_log_set_callback(NULL, cb);
	sc_log_info("%d %d %d", 11, 22, 33);
	sc_log_term();
	return strstr(got, "11 22 33") ? 0 : 1;
}
''', san="", leaks=0)
S("log-sink-error", "C23", [(LOG, "		rc |= sc_log.cb(sc_log.arg, level, fmt, va);", "		rc = sc_log.cb(sc_log.arg, level, fmt, va);")],
  "an earlier sink fails while a callback is set and succeeds", "the failure of the file or stdout sink is not reported", r'''
#include "sc_log.h"
#include <stdio.h>
#include <stdarg.h>
static int cb(void *arg, enum sc_log_level l, const char *fmt, va_list va)
{
	(void) arg; (void) l; (void) fmt; (void) va;
	return 0;
}
int main(void)
{
	sc_log_init();
	setvbuf(stdout, NULL, _IONBF, 0);
	if (!freopen("/dev/full", "w", stdout)) return 2;
	setvbuf(stdout, NULL, _IONBF, 0);
	sc_log_set_callback(NULL, cb);
	int rc = sc_log_info("hello %d\n", 1);
	sc_log_term();
	return rc < 0 ? 0 : 1;
}
''', leaks=0)
MMP = "memory-map/sc_mmap.c"
S("mmap-fd-leak", "C24", [(MMP, "	p = mmap(NULL, len, prot, map_flags, fd, (off_t) offset);\n	if (p == MAP_FAILED) {\n		goto cleanup_fd;\n	}\n", "	p = mmap(NULL, len, prot, map_flags, fd, (off_t) offset);\n	if (p == MAP_FAILED) {\n		goto error;\n	}\n")],
  "mmap itself fails", "the descriptor of the opened file leaks", r'''
#include "sc_mmap.h"
#include <fcntl.h>
#include <unistd.h>
int main(void)
{
	struct sc_mmap m;
	int a = open("/dev/null", O_RDONLY), b;
	close(a);
	if (sc_mmap_init(&m, "file.bin", O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, 1, 4096) == 0) return 2;
	b = open("/dev/null", O_RDONLY);
	return a == b ? 0 : 1;
}
''')
S("mmap-len-offset", "C24", [(MMP, "	len = (len == 0) ? st.st_size - offset : len;\n\n	if (prot & PROT_WRITE) {\n#if defined(__APPLE__)", "	len = (len == 0) ? (size_t) st.st_size : len;\n\n	if (prot & PROT_WRITE) {\n#if defined(__APPLE__)")],
  "mapping to the end of the file from a non-zero offset", "the mapping is longer than the rest of the file (and a writable one grows the file)", r'''
#include "sc_mmap.h"
#include <fcntl.h>
#include <unistd.h>
int main(void)
{
	struct sc_mmap m;
	int fd = open("file.bin", O_RDWR | O_CREAT, 0600);
	if (ftruncate(fd, 3 * 4096) != 0) return 2;
	close(fd);
	if (sc_mmap_init(&m, "file.bin", O_RDWR, PROT_READ | PROT_WRITE, MAP_SHARED, 4096, 0) != 0) return 3;
	int bad = m.len != 2 * 4096;
	sc_mmap_term(&m);
	return bad;
}
''')

SCK = "socket/sc_sock.c"
S("sock-gai-leak", "C25", [(SCK, "			if (src_addr || src_port) {\n				rc = sc_sock_bind_src(s, src_addr, src_port);\n				if (rc != 0) {\n					goto bind_error;\n				}\n			}\n",
   "			if (src_addr || src_port) {\n				rc = sc_sock_bind_src(s, src_addr, src_port);\n				if (rc != 0) {\n					sc_sock_close(s);\n					return -1;\n				}\n			}\n")],
  "connecting from a source address that cannot be bound", "the resolved address list leaks", r'''
#include "sc_sock.h"
#include <netdb.h>
static int got, freed;
int __real_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r);
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
	int rc = __real_getaddrinfo(n, s, h, r);
	got += rc == 0;
	return rc;
}
void __real_freeaddrinfo(struct addrinfo *r);
void __wrap_freeaddrinfo(struct addrinfo *r) { freed += r != 0; __real_freeaddrinfo(r); }
int main(void)
{
	struct sc_sock s;
	sc_sock_startup();
	sc_sock_init(&s, 0, true, SC_SOCK_INET);
	if (sc_sock_connect(&s, "127.0.0.1", "1", "198.51.100.77", "0") == 0) return 2;
	sc_sock_term(&s);
	return got == freed ? 0 : 1;
}
''', cflags="-Wl,--wrap=getaddrinfo -Wl,--wrap=freeaddrinfo")
S("sock-connect-family", "C26", [(SCK, "			if ((i == 0) ^ (p->ai_family == family)) {", "			if ((i == 0) ^ (p->ai_family == s->family)) {")],
  "a name that resolves to both families and whose addresses all refuse, or only the other family's accept",
  "s->family changes during the first pass, so addresses are skipped or tried twice", r'''
#include "sc_sock.h"
#include <netdb.h>
#include <string.h>
#include <errno.h>
#include <sys/socket.h>
#include <netinet/in.h>
/* one address of each family; every connect fails */
static struct sockaddr_in a4 = {.sin_family = AF_INET};
static struct sockaddr_in6 a6 = {.sin6_family = AF_INET6};
static struct addrinfo l6, l4;
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
	(void) n; (void) s; (void) h;
	l4 = (struct addrinfo){.ai_family = AF_INET, .ai_socktype = SOCK_STREAM, .ai_addr = (struct sockaddr *) &a4, .ai_addrlen = sizeof(a4)};
	l6 = (struct addrinfo){.ai_family = AF_INET6, .ai_socktype = SOCK_STREAM, .ai_addr = (struct sockaddr *) &a6, .ai_addrlen = sizeof(a6), .ai_next = &l4};
	*r = &l6;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *r) { (void) r; }
static int tried4, tried6, fds = 100;
int __wrap_socket(int f, int t, int p) { (void) f; (void) t; (void) p; return fds++; }
int __wrap_close(int fd) { (void) fd; return 0; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { (void) fd; (void) l; (void) o; (void) v; (void) n; return 0; }
int __wrap_fcntl(int fd, int c, ...) { (void) fd; (void) c; return 0; }
int __wrap_fcntl64(int fd, int c, ...) { (void) fd; (void) c; return 0; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n)
{
	(void) fd; (void) n;
	if (a->sa_family == AF_INET) tried4++; else tried6++;
	errno = ECONNREFUSED;
	return -1;
}
int main(void)
{
	struct sc_sock s;
	sc_sock_init(&s, 0, true, SC_SOCK_INET);
	if (sc_sock_connect(&s, "name", "1", NULL, NULL) == 0) return 2;
	return tried4 == 1 && tried6 == 1 ? 0 : 1;
}
''', cflags="-Wl,--wrap=getaddrinfo -Wl,--wrap=freeaddrinfo -Wl,--wrap=socket -Wl,--wrap=close -Wl,--wrap=setsockopt -Wl,--wrap=fcntl -Wl,--wrap=fcntl64 -Wl,--wrap=connect", san="")
S("poll-rollback", "C27", [(SCK, "		// Rollback to the original state if failed.\n		fdt->op = old_mask;\n		sc_sock_poll_set_err(p, \"epoll_ctl : %s \", strerror(errno));\n		return -1;\n	}\n\n	return 0;\n}\n\nint sc_sock_poll_del(struct sc_sock_poll *p, struct sc_sock_fd *fdt,\n		     enum sc_sock_ev events, void *data)\n{\n	int rc, op;",
   "		// Rollback to the original state if failed.\n		fdt->op &= ~events;\n		sc_sock_poll_set_err(p, \"epoll_ctl : %s \", strerror(errno));\n		return -1;\n	}\n\n	return 0;\n}\n\nint sc_sock_poll_del(struct sc_sock_poll *p, struct sc_sock_fd *fdt,\n		     enum sc_sock_ev events, void *data)\n{\n	int rc, op;")],
  "epoll_ctl refuses to modify a descriptor with events that overlap the ones already watched", "the stored mask loses events the kernel still watches", r'''
#include "sc_sock.h"
#include <sys/epoll.h>
#include <errno.h>
static int fail;
int __real_epoll_ctl(int e, int op, int fd, struct epoll_event *ev);
int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev)
{
	if (fail) { errno = ENOMEM; return -1; }
	return __real_epoll_ctl(e, op, fd, ev);
}
int main(void)
{
	struct sc_sock_poll p;
	struct sc_sock_pipe pp;
	sc_sock_poll_init(&p);
	sc_sock_pipe_init(&pp, 0);
	sc_sock_poll_add(&p, &pp.fdt, SC_SOCK_READ, &pp);
	fail = 1;
	if (sc_sock_poll_add(&p, &pp.fdt, SC_SOCK_READ | SC_SOCK_WRITE, &pp) == 0) return 2;
	int bad = pp.fdt.op != SC_SOCK_READ;
	sc_sock_pipe_term(&pp);
	sc_sock_poll_term(&p);
	return bad;
}
''', cflags="-Wl,--wrap=epoll_ctl")
S("pipe-term-half", "C27", [(SCK, "	rv = close(p->fds[0]);\n	if (rv != 0) {\n		rc = -1;\n		sc_sock_pipe_set_err(p, \"pipe close() : %s \", strerror(errno));\n	}\n", "	rv = close(p->fds[0]);\n	if (rv != 0) {\n		sc_sock_pipe_set_err(p, \"pipe close() : %s \", strerror(errno));\n		p->fds[0] = SC_INVALID;\n		return -1;\n	}\n")],
  "closing the read end reports an error", "the write end is never closed", r'''
#include "sc_sock.h"
#include <unistd.h>
#include <errno.h>
static int n, one;
int __real_close(int fd);
int __wrap_close(int fd)
{
	int rc = __real_close(fd);
	n++;
	if (n == 1) { errno = EIO; return -1; }
	return rc;
}
int main(void)
{
	struct sc_sock_pipe p;
	sc_sock_pipe_init(&p, 0);
	sc_sock_pipe_term(&p);
	sc_sock_pipe_term(&p);
	return n == 2 ? 0 : 1;
}
''', cflags="-Wl,--wrap=close")

SIG = "signal/sc_signal.c"
S("signal-fmt-long", "C28", [(SIG, "	(size) == 2 ? va_arg(va, long) :                                       \\\n			    va_arg(va, int)", "	(size) == 2 ? (int) va_arg(va, long) :                                 \\\n			    va_arg(va, int)")],
  "%ld with a value outside the range of int", "the value is truncated", r'''
#include "sc_signal.h"
#include <string.h>
int main(void)
{
	char b[64];
	sc_signal_snprintf(b, sizeof(b), "%ld", 0x7fffffffffffffffL);
	return strcmp(b, "9223372036854775807") ? 1 : 0;
}
''')
S("signal-errno", "C29", [(SIG, "	int rc, saved_errno = errno;\n	int fd = sc_signal_log_fd != -1 ? sc_signal_log_fd : STDOUT_FILENO;\n	char buf[4096], *str = \"Shutdown signal\";\n", "	int rc, saved_errno;\n	int fd = sc_signal_log_fd != -1 ? sc_signal_log_fd : STDOUT_FILENO;\n	char buf[4096], *str = \"Shutdown signal\";\n"),
   (SIG, "	sc_signal_log(fd, buf, sizeof(buf), \"Recv : %s, (%d) \\n\", str, sig);\n", "	sc_signal_log(fd, buf, sizeof(buf), \"Recv : %s, (%d) \\n\", str, sig);\n	saved_errno = errno;\n")],
  "a shutdown signal while the log descriptor cannot be written", "the interrupted code finds errno changed", r'''
#include "sc_signal.h"
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <sys/socket.h>
int main(void)
{
	int fds[2];
	if (pipe(fds) != 0) return 2;
	sc_signal_init();
	sc_signal_shutdown_fd = fds[1];
	sc_signal_log_fd = 9999;	/* EBADF */
	errno = 4242;
	raise(SIGTERM);
	return errno == 4242 ? 0 : 1;
}
''', san="")
S("signal-fatal-mask", "C29", [(SIG, "	action.sa_flags = SA_NODEFER | SA_RESETHAND | SA_SIGINFO;", "	action.sa_flags = SA_NODEFER | SA_SIGINFO;")],
  "a crash inside the crash handler", "the crash handler recurses for ever instead of letting the process die", r'''
#include "sc_signal.h"
#include <signal.h>
int main(void)
{
	struct sigaction a;
	sc_signal_init();
	sigaction(SIGSEGV, 0, &a);
	return (a.sa_flags & SA_RESETHAND) ? 0 : 1;
}
''', san="")

UTL = "sc/sc.c"
S("util-pow2-32", "C30", [(UTL, "	for (uint32_t i = 1; i < sizeof(size) * 8; i *= 2) {", "	for (uint32_t i = 1; i < sizeof(size) * 4; i *= 2) {")],
  "a value above 2^32", "the result is no power of two", r'''
#include "sc.h"
int main(void)
{
	return sc_to_pow2((1ull << 40) + 1) == (1ull << 41) ? 0 : 1;
}
''')
S("util-size-overflow", "C30", [(UTL, "val = (val > INT64_MAX / pb) ? -1 : val * pb;", "val = (val >= INT64_MAX / pb) ? -1 : val * pb;")],
  "the largest number of petabytes that fits", "a representable size is refused", r'''
#include "sc.h"
int main(void)
{
	return sc_size_to_bytes("8191P") == 8191ll << 50 ? 0 : 1;
}
''')
S("util-size-tail", "C30", [(UTL, "	default:\n		return -1;\n	}\n\n	switch (tolower((unsigned char) parse_end[0])) {", "	default:\n		break;\n	}\n\n	switch (tolower((unsigned char) parse_end[0])) {")],
  "text behind a valid unit", "sizes with garbage behind the unit are accepted", r'''
#include "sc.h"
int main(void)
{
	return sc_size_to_bytes("1kbx") == -1 && sc_size_to_bytes("1b b") == -1 ? 0 : 1;
}
''')

S("sock-bind-src-leak", "C25", [(SCK, "	freeaddrinfo(p);\n\n	if (rc == -1) {\n		goto err;\n	}\n\n	return 0;\n\ngai_err:", "	if (rc == -1) {\n		goto err;\n	}\n\n	freeaddrinfo(p);\n\n	return 0;\n\ngai_err:")],
  "connecting from a source address that cannot be bound", "the address list of the source address leaks", r"""
#include "sc_sock.h"
#include <netdb.h>
static int got, freed;
int __real_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r);
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
	int rc = __real_getaddrinfo(n, s, h, r);
	got += rc == 0;
	return rc;
}
void __real_freeaddrinfo(struct addrinfo *r);
void __wrap_freeaddrinfo(struct addrinfo *r) { freed += r != 0; __real_freeaddrinfo(r); }
int main(void)
{
	struct sc_sock s;
	sc_sock_init(&s, 0, true, SC_SOCK_INET);
	if (sc_sock_connect(&s, "127.0.0.1", "1", "198.51.100.77", "0") == 0) return 2;
	sc_sock_term(&s);
	return got == freed ? 0 : 1;
}
""", cflags="-Wl,--wrap=getaddrinfo -Wl,--wrap=freeaddrinfo")
S("sock-toggle-blocking", "C26", [(SCK, "flags = blocking ? (flags & ~O_NONBLOCK) : (flags | O_NONBLOCK);", "flags = blocking ? (flags & ~O_NONBLOCK) : (flags ^ O_NONBLOCK);")],
  "asking for non-blocking mode on a socket that is already non-blocking", "the socket becomes blocking", r"""
#include "sc_sock.h"
#include <fcntl.h>
#include <sys/socket.h>
int main(void)
{
	struct sc_sock s;
	sc_sock_init(&s, 0, false, SC_SOCK_INET);
	s.fdt.fd = socket(AF_INET, SOCK_STREAM, 0);
	sc_sock_set_blocking(&s, false);
	sc_sock_set_blocking(&s, false);
	int bad = !(fcntl(s.fdt.fd, F_GETFL, 0) & O_NONBLOCK);
	sc_sock_term(&s);
	return bad;
}
""")
S("signal-fmt-utf8", "C28", [(SIG, "			while (*pos != '\\0' && *pos != '%') {", "			while (*pos > '\\0' && *pos != '%') {")],
  "a format with a byte above 127", "the formatter never returns", r"""
#include "sc_signal.h"
#include <string.h>
#include <unistd.h>
int main(void)
{
	char b[64];
	alarm(5);
	sc_signal_snprintf(b, sizeof(b), "caf\xc3\xa9 %d", 7);
	return strcmp(b, "caf\xc3\xa9 7") ? 1 : 0;
}
""")
CRC = "crc32/sc_crc32.c"
_CRCD = r"""
#include "sc_crc32.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
/* bit at a time */
static uint32_t slow(uint32_t c, const unsigned char *p, size_t n)
{
	c = ~c;
	while (n--) {
		c ^= *p++;
		for (int i = 0; i < 8; i++)
			c = c & 1 ? (c >> 1) ^ 0x82f63b78u : c >> 1;
	}
	return ~c;
}
int main(void)
{
	static unsigned char mem[20000];
	int bad = 0;
	unsigned x = 12345;
	sc_crc32_init();
	for (size_t i = 0; i < sizeof(mem); i++)
		mem[i] = (unsigned char) ((x = x * 1103515245u + 12345u) >> 16);
	for (size_t n = 0; n < 9000 && !bad; n += n < 800 ? 1 : 61)
		for (int a = 0; a < 8; a++) {
			unsigned char *p = malloc(n + 64);
			unsigned char *q = p + a;
			memcpy(q, mem + a, n);
			memset(q + n, 0x5a, 64 - a);
			bad |= sc_crc32(7, q, n) != slow(7, q, n);
			free(p);
		}
	return bad;
}
"""
S("crc-short-bound", "C31", [(CRC, "	while (len >= CRC32_SHORT * 3) {", "	while (len > CRC32_SHORT * 3 - 8) {")],
  "hardware build, 761 to 767 bytes left for the short blocks", "bytes past the end are read and taken in, the length wraps", _CRCD, cflags="-DHAVE_CRC32C -msse4.2")
S("crc-sw-signed", "C31", [(CRC, "	unsigned char const *next = buf;\n\n	crc = ~crc;\n	while (len && ((uintptr_t) next & 7) != 0) {\n		crc = crc32c_table_le[0][(crc ^ *next++) & 0xff] ^ (crc >> 8);",
                           "	unsigned char const *next = buf;\n\n	crc = ~crc;\n	while (len && ((uintptr_t) next & 7) != 0) {\n		crc = crc32c_table_le[0][(crc ^ *next++) & 0xff] ^ (crc >> 8 & 0x7fffff);")],
  "software build, a start that is not 8-byte aligned", "the checksum depends on the address", _CRCD)
S("crc-len-32", "C31", [(CRC, "	const unsigned char *end;\n	uint64_t crc0", "	const unsigned char *end;\n	unsigned int left;\n	uint64_t crc0"),
                        (CRC, "	end = next + (len - (len & 7));\n	while (next < end) {", "	left = (unsigned int) len;\n	end = next + (left & ~7u);\n	while (next < end) {"),
                        (CRC, "	while (len >= CRC32_LONG * 3) {", "	while ((unsigned int) len >= CRC32_LONG * 3) {"),
                        (CRC, "	while (len >= CRC32_SHORT * 3) {", "	while ((unsigned int) len >= CRC32_SHORT * 3) {")],
  "hardware build, a buffer of 4 GiB or more", "the data beyond the low 32 bits of the length is left out", r"""
#include "sc_crc32.h"
#include <sys/mman.h>
int main(void)
{
	size_t n = ((size_t) 1 << 32) + 100;
	unsigned char *p;
	uint32_t whole, parts = 0;
	/* read only: every page is the zero page */
	p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED)
		return 0;
	sc_crc32_init();
	whole = sc_crc32(0, p, n);
	for (size_t i = 0; i < n; i += 1 << 20)
		parts = sc_crc32(parts, p + i, n - i < 1 << 20 ? n - i : 1 << 20);
	return whole != parts;
}
""", cflags="-O1 -DHAVE_CRC32C -msse4.2", san="")

# ------------------------------------------------------------------ perf
PERF = "perf/sc_perf.c"
_PFD = r"""
#include "sc_perf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
/* a kernel with counters of its own */
static int next = 1000, open_fds, never = -1;
static long long now = 5000000000ll;
long syscall(long n, ...)
{
	(void) n;
	open_fds++;
	return next++;
}
int prctl(int op, ...)
{
	(void) op;
	return 0;
}
ssize_t read(int fd, void *p, size_t n)
{
	unsigned long long v[3] = {1000 + (fd - 1000) % 11, 400, 100};
	if (fd < 1000 || n < sizeof(v))
		return -1;
	if ((fd - 1000) % 11 == never)
		v[0] = v[2] = 0;
	memcpy(p, v, sizeof(v));
	return sizeof(v);
}
int close(int fd)
{
	if (fd >= 1000)
		open_fds--;
	return 0;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
	(void) c;
	t->tv_sec = now / 1000000000;
	t->tv_nsec = now % 1000000000;
	return 0;
}
static char *out;
static size_t out_n;
static int want(const char *row, double v, double part)
{
	char name[64];
	double a, b;
	fflush(stdout);
	for (char *l = out; l && *l; l = strchr(l, '\n') ? strchr(l, '\n') + 1 : NULL) {
		int k = sscanf(l, "| %60[^|]| %lf | (%lf", name, &a, &b);
		if (k < 2 || strncmp(name, row, strlen(row)))
			continue;
		return a > v - 0.02 && a < v + 0.02 && (part < 0 || (b > part - 0.02 && b < part + 0.02));
	}
	return 0;
}
static void again(void)
{
	fflush(stdout);
	rewind(stdout);
	memset(out, 0, out_n);
}
int main(void)
{
	int bad = 0;
	stdout = open_memstream(&out, &out_n);
%s
	return bad || open_fds != 0;
}
"""
S("perf-pause-total", "C32", [(PERF, "	total += sy_time_nano() - start;", "	total = sy_time_nano() - start + (total ? total % 1000000000 : 0);")],
  "a session paused and resumed with a first part of a second or more", "whole seconds measured before the pause are lost",
  _PFD.replace("%s", """	sc_perf_start();
	now += 2500000000ll;
	sc_perf_pause();
	now += 7000000000ll;
	sc_perf_start();
	now += 1000000000ll;
	sc_perf_end();
	bad = !want("time (seconds)", 3.5, -1);"""), san="")
S("perf-stale-share", "C32", [(PERF, "		sc_perf_items[i].active = 0;\n", "")],
  "a second session in which a counter that ran in the first never gets to run", "the share of time of the earlier session is shown",
  _PFD.replace("%s", """	sc_perf_start();
	sc_perf_end();
	again();
	never = 3;
	sc_perf_start();
	sc_perf_end();
	bad = !want("context-switches", 0, 0);"""), san="")
S("perf-never-ran", "C32", [(PERF, "if (fmt.time_enabled > 0 && fmt.time_running > 0) {", "if (fmt.time_enabled > 0) {")],
  "a counter that was enabled and never scheduled", "zero is divided by zero and shown as not a number",
  _PFD.replace("%s", """	never = 4;
	sc_perf_start();
	now += 1000000000ll;
	sc_perf_end();
	bad = !want("cpu-migrations", 0, 0) || !want("cpu-cycles", 4024, 25);"""), san="")

# ---------------------------------------------------------------- maxima, formats, failing formatting
S("array-max-once-more", "C09", [("array/sc_array.h", "			if ((a)->cap > _max / 2) {                             \\", "			if ((a)->cap > _max / 2 + 1) {                         \\")],
  "SC_ARRAY_MAX configured at build time to an odd number of elements, one below a power of two", "the array grows past the configured maximum", r'''
#include "sc_array.h"
int main(void)
{
	sc_array_def(int, a);
	struct sc_array_a arr;
	sc_array_init(&arr);
	for (int i = 0; i < 5000; i++) {
		sc_array_add(&arr, i);
		if (sc_array_oom(&arr)) break;
	}
	int bad = sc_array_size(&arr) > 127;
	sc_array_term(&arr);
	return bad;
}
''', cflags="-DSC_ARRAY_MAX=508")
S("queue-max-once-more", "C10", [("queue/sc_queue.h", "			if ((q)->cap > SC_QUEUE_MAX / 2ul) {                   \\", "			if ((q)->cap > SC_QUEUE_MAX / 2ul + 1) {               \\")],
  "SC_QUEUE_MAX configured at build time to one below a power of two", "the queue grows past the configured maximum", r'''
#include "sc_queue.h"
int main(void)
{
	sc_queue_def(int, q);
	struct sc_queue_q q;
	sc_queue_init(&q);
	for (int i = 0; i < 5000; i++) {
		sc_queue_add_last(&q, i);
		if (sc_queue_oom(&q)) break;
	}
	int bad = sc_queue_size(&q) > 62;
	sc_queue_term(&q);
	return bad;
}
''', cflags="-DSC_QUEUE_MAX=62")
S("heap-max-once-more", "C11", [("heap/sc_heap.c", "h->cap >= SC_HEAP_MAX / 2 ||", "h->cap > SC_HEAP_MAX / 2 + 1 ||")],
  "SC_HEAP_MAX configured at build time to one below a power of two", "the heap grows past the configured maximum", r'''
#include "sc_heap.h"
int main(void)
{
	struct sc_heap h;
	sc_heap_init(&h, 0);
	for (int i = 0; i < 5000; i++)
		if (!sc_heap_add(&h, i, 0)) break;
	int bad = sc_heap_size(&h) >= 63;
	sc_heap_term(&h);
	return bad;
}
''', cflags="-DSC_HEAP_MAX=63")
S("timer-max-once-more", "C21", [("timer/sc_timer.c", "	if (t->wheel >= SC_TIMER_MAX / 2) {", "	if (t->wheel > SC_TIMER_MAX / 2 + 1) {")],
  "SC_TIMER_MAX configured at build time to one below a power of two", "a slot holds more timers than the configured maximum", r'''
#include "sc_timer.h"
int main(void)
{
	struct sc_timer t;
	int n = 0;
	sc_timer_init(&t, 0);
	while (n < 1000 && sc_timer_add(&t, 100, 1, 0) != SC_TIMER_INVALID) n++;
	sc_timer_term(&t);
	return n > 15;
}
''', cflags="-DSC_TIMER_MAX=15u")
S("map-hash-only", "C12", [("map/sc_map.c", "		return t->hash == hash && cmp(t->key, key);                    \\", "		return t->hash == hash && (cmp(t->key, key) || true);          \\")],
  "two different string keys with the same 32-bit hash", "the second key overwrites the value of the first", r'''
#include "sc_map.h"
#include <stdio.h>
static char k[400000][12];
int main(void)
{
	struct sc_map_s64 m;
	int n = 400000;
	sc_map_init_s64(&m, 0, 0);
	for (int i = 0; i < n; i++) {
		sprintf(k[i], "k%d", i);
		sc_map_put_s64(&m, k[i], i);
	}
	int bad = sc_map_size_s64(&m) != (uint32_t) n;
	for (int i = 0; i < n && !bad; i++)
		bad = sc_map_get_s64(&m, k[i]) != (uint64_t) i;
	sc_map_term_s64(&m);
	return bad;
}
''')
S("str-trim-strlen", "C07", [(STR, "	len = sc_str_meta(*str)->len;\n	head", "	len = (uint32_t) strlen(*str);\n	head")],
  "trimming a string with a NUL in it", "what follows the embedded NUL is not trimmed, or is lost", r'''
#include "sc_str.h"
#include <string.h>
int main(void)
{
	char *s = sc_str_create_len("  ab\0cd  ", 9);
	sc_str_trim(&s, " ");
	int bad = sc_str_len(s) != 5 || memcmp(s, "ab\0cd", 6) != 0;
	sc_str_destroy(&s);
	return bad;
}
''')
S("str-fmt-leak", "C06", [(STR, """		if (rc < 0 || (uint32_t) rc > str->len) {
			sc_str_free(str);
			return NULL;""", """		if (rc < 0 || (uint32_t) rc > str->len) {
			return NULL;""")],
  "a text of 1024 bytes or more whose second formatting fails", "the new string leaks", r'''
#define DEMO_MAIN
#include "sc_str.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
int fail_alloc;
int demo_fail;
int demo_vsnprintf(char *b, size_t n, const char *f, va_list a)
{
	return ++demo_fail == 2 ? -1 : vsnprintf(b, n, f, a);
}
int main(void)
{
	static char big[3000];
	memset(big, 'x', sizeof(big) - 1);
	char *s = sc_str_create("old");
	int bad = sc_str_set_fmt(&s, "%s", big) || s == NULL || strcmp(s, "old") != 0;
	sc_str_destroy(&s);
	return bad;
}
''', files={"config.h": CFG["config.h"].replace("#define sc_str_malloc d_malloc", """#include <stdarg.h>
#include <stdio.h>
extern int demo_vsnprintf(char *, size_t, const char *, va_list);
#ifndef DEMO_MAIN
#define vsnprintf(b, n, f, a) demo_vsnprintf(b, n, f, a)
#endif
#define sc_str_malloc d_malloc""")})
S("buf-fmt-exact", "C03", [(BUF, "	if (wr >= quota) {\n		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {", "	if (wr > quota) {\n		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {")],
  "a formatted string exactly as long as the space that is left, so that only the terminator is missing", "the last character is lost", r'''
#include "sc_buf.h"
#include <string.h>
int main(void)
{
	int bad = 0;
	for (int n = 1; n < 80; n++) {
		struct sc_buf b;
		char s[100] = {0};
		memset(s, 'x', n);
		sc_buf_init(&b, 64);
		sc_buf_put_fmt(&b, "%s", s);
		const char *g = sc_buf_get_str(&b);
		bad |= g == NULL || strcmp(g, s) != 0;
		sc_buf_term(&b);
	}
	return bad;
}
''', san="")
S("mutex-attr-kept", "C17", [("mutex/sc_mutex.c", "	rv = pthread_mutexattr_destroy(&attr);", "	rv = rc == 0 ? pthread_mutexattr_destroy(&attr) : 0;")],
  "a mutex that cannot be created", "the attributes object is not destroyed", r'''
#define _GNU_SOURCE
#include "sc_mutex.h"
#include <errno.h>
static int attrs;
int pthread_mutexattr_init(pthread_mutexattr_t *a) { (void) a; attrs++; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { (void) a; (void) t; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t *a) { (void) a; attrs--; return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) m; (void) a; return ENOMEM; }
int main(void)
{
	struct sc_mutex m;
	return sc_mutex_init(&m) != -1 || attrs != 0;
}
''', san="")
S("notify-abstract-len", "C26", [("socket/sc_sock.c", "(socklen_t)(offsetof(struct sockaddr_un, sun_path) + strlen(s));", "(socklen_t)(offsetof(struct sockaddr_un, sun_path) + strlen(s) + 1);")],
  "a notification socket with an abstract name (@...)", "the message goes to a name with a NUL at its end, which nobody has", r'''
#include "sc_sock.h"
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
int main(void)
{
	struct sockaddr_un a = {.sun_family = AF_UNIX};
	char name[64], got[16] = {0};
	int fd = socket(AF_UNIX, SOCK_DGRAM, 0);
	snprintf(name, sizeof(name), "@sc-demo-%d", (int) getpid());
	memcpy(a.sun_path + 1, name + 1, strlen(name) - 1);
	if (bind(fd, (struct sockaddr *) &a, offsetof(struct sockaddr_un, sun_path) + strlen(name))) return 2;
	setenv("NOTIFY_SOCKET", name, 1);
	if (sc_sock_notify_systemd("READY=1")) return 1;
	if (recv(fd, got, sizeof(got), MSG_DONTWAIT) != 7) return 1;
	close(fd);
	return memcmp(got, "READY=1", 7) != 0;
}
''')
S("log-rename-append", "C23", [("logger/sc_log.c", '		sc_log.fp = fopen(sc_log.current_file, "w+");', '		sc_log.fp = fopen(sc_log.current_file, "a+");')],
  "a rotation whose rename fails", "the file is continued and its old contents are not counted, so that it grows past the limit", r'''
#include "sc_log.h"
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
int main(void)
{
	static char line[1001];
	struct stat st;
	memset(line, 'x', 1000);
	sc_log_init();
	sc_log_set_stdout(false);
	if (sc_log_set_file("no-such-dir/prev.txt", "cur.txt")) return 2;
	for (int i = 0; i < 5000; i++)
		sc_log_info("%s", line);
	sc_log_term();
	if (stat("cur.txt", &st)) return 2;
	return st.st_size > SC_LOG_FILE_SIZE + 4096;
}
''')
S("uri-port-octal", "C14", [("uri/sc_uri.c", "			val = strtoul(ptr + 1, &parse_end, 10);", "			val = strtoul(ptr + 1, &parse_end, 0);")],
  "a port with leading zeros", "the port is read in base eight: 0100000 is accepted, 08080 is refused", r'''
#include "sc_uri.h"
#include <stdlib.h>
int main(void)
{
	struct sc_uri *u = sc_uri_create("http://a:0100000/");
	if (u != NULL) return 1;
	u = sc_uri_create("http://a:08080/");
	int bad = u == NULL;
	if (u) sc_uri_destroy(u);
	return bad;
}
''')

S("map-key-truncated", "C12", [("map/sc_map.c", "#define sc_map_eq(a, b) ((a) == (b))", "#define sc_map_eq(a, b) ((uint32_t) (a) == (uint32_t) (b))")],
  "two 64-bit keys that differ in their upper half only and lie on one probe run", "the lookup of an absent key finds another key's value", r"""
#include "sc_map.h"
int main(void)
{
	struct sc_map_64 m;
	sc_map_init_64(&m, 8, 0);
	sc_map_put_64(&m, 4, 40);
	sc_map_put_64(&m, 5, 50);
	sc_map_get_64(&m, (1ULL << 32) + 5);
	int bad = sc_map_found(&m);
	sc_map_term_64(&m);
	return bad;
}
""")
S("str-append-null", "C06", [("string/sc_str.c", "		return *str != NULL;", "		return true;")],
  "appending to a NULL string while memory runs out", "sc_str_append reports success and leaves NULL", r"""
#include "sc_str.h"
int fail_alloc;
int main(void)
{
	char *s = NULL;
	fail_alloc = 1;
	return sc_str_append(&s, "text") || s != NULL;
}
""", files=CFG)

S("array-add-capture", "C33", [("array/sc_array.h", "		size_t _cap;                                                   \\", "		size_t cap;                                                    \\"),
   ("array/sc_array.h", "			_cap = (a)->cap == 0 ? 8 : (a)->cap * 2;               \\", "			cap = (a)->cap == 0 ? 8 : (a)->cap * 2;                \\"),
   ("array/sc_array.h", "					      _cap * sizeof(*((a)->elems)));   \\", "					      cap * sizeof(*((a)->elems)));    \\"),
   ("array/sc_array.h", "			(a)->cap = _cap;                                       \\", "			(a)->cap = cap;                                        \\")],
  "a caller whose own variable is called cap", "sc_array_add stores the macro's own variable instead of the caller's", r"""
#include "sc_array.h"
#include <assert.h>
int main(void)
{
	struct sc_array_int a;
	int bad = 0;
	sc_array_init(&a);
	for (int cap = 100; cap < 120; cap++) sc_array_add(&a, cap);
	for (int i = 0; i < 20; i++) bad |= sc_array_at(&a, i) != 100 + i;
	sc_array_term(&a);
	return bad;
}
""", srcs=[], cflags="-include assert.h -include string.h", san="")
S("queue-next-paren", "C33", [("queue/sc_queue.h", "#define sc_queue_next(q, i) (((i) + 1) & ((q)->cap - 1))", "#define sc_queue_next(q, i) ((i + 1) & ((q)->cap - 1))")],
  "a position given as a conditional or bitwise expression", "the position after it is computed from a part of the expression", r"""
#include "sc_queue.h"
int main(int argc, char **argv)
{
	struct sc_queue_int q;
	(void) argv;
	sc_queue_init(&q);
	size_t at = sc_queue_next(&q, argc > 0 ? 3 : 4);
	sc_queue_term(&q);
	return at != 4;
}
""", srcs=[])
S("list-foreach-paren", "C33", [("linked-list/sc_list.h", "	for ((elem) = (list)->prev; (elem) != (list); (elem) = (elem)->prev)", "	for ((elem) = (list)->prev; (elem) != list; (elem) = (elem)->prev)")],
  "a list chosen by a conditional expression", "the loop does not end at the list's head", r"""
#include "sc_list.h"
int main(int argc, char **argv)
{
	struct sc_list a, b, x, *it;
	int n = 0;
	(void) argv;
	sc_list_init(&a); sc_list_init(&b); sc_list_init(&x);
	sc_list_add_tail(&a, &x);
	sc_list_foreach_r (argc > 0 ? &a : &b, it) {
		if (++n > 1) return 1;
	}
	return n != 1;
}
""", srcs=["linked-list/sc_list.c"])

S("map-term-free", "C34", [("map/sc_map.c", "			sc_map_free(&m->mem[-1]);                              \\\n			*m = sc_map_empty_##name; ", "			free(&m->mem[-1]);                                     \\\n			*m = sc_map_empty_##name; ")],
  "a build with a configured allocator", "the table goes to free() instead of the configured function", r"""
#include "sc_map.h"
int live;
int main(void)
{
	struct sc_map_64 m;
	sc_map_init_64(&m, 8, 0);
	sc_map_put_64(&m, 1, 2);
	sc_map_term_64(&m);
	return live != 0;
}
""", files={"config.h": """
#include <stdlib.h>
extern int live;
static inline void *d_calloc(size_t n, size_t m) { live++; return calloc(n, m); }
static inline void d_free(void *p) { live--; free(p); }
#define sc_map_calloc d_calloc
#define sc_map_free d_free
"""})
S("ini-static-line", "C35", [("ini/sc_ini.c", "	char buf[SC_INI_MAX_LINE_LEN];", "	static char buf[SC_INI_MAX_LINE_LEN];")],
  "two texts parsed at the same time: by two threads, or one from the callback of the other", "the parsers share their line buffer", r"""
#include "sc_ini.h"
#include <string.h>
static int seen, bad;
static int inner(void *a, int l, const char *s, const char *k, const char *v)
{
	(void) a; (void) l; (void) s; (void) k; (void) v;
	return 0;
}
static int outer(void *a, int l, const char *s, const char *k, const char *v)
{
	(void) a; (void) l; (void) s;
	sc_ini_parse_string(NULL, inner, "[other]\nzzzzzzzzzz = yyyyyyyyyyyyyy\n");
	seen++;
	if (strcmp(k, "key") || strcmp(v, "value")) bad = 1;
	return 0;
}
int main(void)
{
	return sc_ini_parse_string(NULL, outer, "[one]\nkey = value\nkey = value\n") || bad || seen != 2;
}
""")

S("log-file-name", "C23", [("logger/sc_log.h", "strrchr(\"/\" __FILE__, '/') + 1, __LINE__, __VA_ARGS__", "strchr(\"/\" __FILE__, '/') + 1, __LINE__, __VA_ARGS__")],
  "a build that prints file names, compiled with a path to the source", "the whole path is printed instead of the name of the file", r"""
#define SC_LOG_PRINT_FILE_NAME
#include "sc_log.h"
static char got[4096];
static int cb(void *arg, enum sc_log_level level, const char *fmt, va_list va)
{
	(void) arg; (void) level;
	vsnprintf(got, sizeof(got), fmt, va);
	return 0;
}
int main(void)
{
	sc_log_init();
	sc_log_set_stdout(false);
	sc_log_set_callback(NULL, cb);
	sc_log_warn("x %d", 5);
	sc_log_term();
	return strncmp(got, "(demo.c:", 8) != 0 || strstr(got, ") x 5") == NULL;
}
""", srcs=["logger/sc_log.c"])
S("rand-xor-swap", "C36", [("sc/sc.c", "		r->init[r->i] = r->init[r->j];\n		r->init[r->j] = t;\n", "		r->init[r->i] ^= r->init[r->j];\n		r->init[r->j] ^= r->init[r->i];\n		r->init[r->i] ^= r->init[r->j];\n")],
  "a state in which both counters name the same entry", "swapping an entry with itself by xor sets it to zero: the table loses a value for good", r"""
#include "sc.h"
#include <string.h>
int main(void)
{
	struct sc_rand r;
	unsigned char a[256], S[256], i, j, t, out;
	for (int k = 0; k < 256; k++) a[k] = (unsigned char) (k * 7 + 3);
	sc_rand_init(&r, a);
	memcpy(S, r.init, 256);
	i = r.i; j = r.j;
	for (int k = 0; k < 3000; k++) {
		sc_rand_read(&r, &out, 1);
		i++; j += S[i];
		t = S[i]; S[i] = S[j]; S[j] = t;
		if (out != S[(unsigned char) (S[i] + S[j])]) return 1;
	}
	return 0;
}
""")
S("rand-seed-half", "C36", [("sc/sc.c", "		r->j += r->init[i] + init[i];\n", "		r->j += r->init[i] + init[i & 0x7f];\n")],
  "two seeds that agree in their first half", "the second half of the seed is ignored", r"""
#include "sc.h"
#include <string.h>
int main(void)
{
	struct sc_rand r, q;
	unsigned char a[256] = {0}, b[256] = {0}, x[64], y[64];
	b[200] = 9;
	sc_rand_init(&r, a);
	sc_rand_init(&q, b);
	sc_rand_read(&r, x, 64);
	sc_rand_read(&q, y, 64);
	return memcmp(x, y, 64) == 0;
}
""")
