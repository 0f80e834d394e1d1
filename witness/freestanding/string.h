/* enough of the header for cross-target analysis units (no libc headers for that target here) */
#ifndef SA_FREESTANDING_STRING
#define SA_FREESTANDING_STRING
#include <stddef.h>
void *memcpy(void *, const void *, size_t);
void *memmove(void *, const void *, size_t);
void *memset(void *, int, size_t);
int memcmp(const void *, const void *, size_t);
#endif
