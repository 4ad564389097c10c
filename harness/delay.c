/* Preloaded into a program: lets its threads pause at random where they allocate or free memory.
 * P4A_DELAY=SEED:RATE:LENGTH pauses at one of RATE such places for up to LENGTH microseconds. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern void __libc_free(void *);
extern void *__libc_malloc(size_t);

static __thread uint64_t state;
static uint64_t seed;
static unsigned long rate = 1000, length = 1000;

__attribute__((constructor)) static void start(void) {
	char *s = getenv("P4A_DELAY");
	if (!s) return;
	uint64_t n = strtoull(s, &s, 10);
	if (*s == ':') rate = strtoul(s + 1, &s, 10);
	if (*s == ':') length = strtoul(s + 1, &s, 10);
	if (!rate) rate = 1;
	if (!length) length = 1;
	seed = n | 1;
}

static void pause_maybe(void) {
	if (!seed) return;
	if (!state) state = (seed * 0x9E3779B97F4A7C15ull) ^ (((uint64_t)syscall(SYS_gettid) * 0xD1342543DE82EF95ull) | 1);
	state ^= state << 13;
	state ^= state >> 7;
	state ^= state << 17;
	if ((state >> 20) % rate == 0) {
		struct timespec t = {0, (long)((state >> 33) % length) * 1000};
		syscall(SYS_nanosleep, &t, 0);
	}
}

void *malloc(size_t n) {
	pause_maybe();
	return __libc_malloc(n);
}

void free(void *p) {
	__libc_free(p);
	pause_maybe();
}
