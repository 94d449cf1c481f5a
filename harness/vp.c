/* Native side of the harness primitives: replays one input (the byte sequence a solver model assigns to
   the symbolic bytes) through the very same harness, compiled for the machine. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
static unsigned char *buf; static size_t len, pos; static int loaded;
static void load(void) {
  loaded = 1; const char *f = getenv("VP_INPUT"); if (!f) return;
  FILE *h = fopen(f, "rb"); if (!h) { fprintf(stderr, "vp: cannot open %s\n", f); _Exit(90); }
  fseek(h, 0, SEEK_END); len = ftell(h); rewind(h); buf = malloc(len + 1); if (fread(buf, 1, len, h) != len) _Exit(90); fclose(h);
}
static unsigned next(void) { if (!loaded) load(); return pos < len ? buf[pos++] : 0; }
void vp_sym(uint8_t *p, uint64_t n) { for (uint64_t i = 0; i < n; i++) p[i] = (uint8_t)next(); }
uint64_t vp_range(uint64_t lo, uint64_t hi) { uint64_t v = next(); if (v < lo || v > hi) { if (pos >= len) return lo; printf("ASSUME range\n"); fflush(stdout); _Exit(77); } return v; }
uint64_t vp_choose(uint64_t n) { uint64_t v = next(); if (v >= n) { printf("ASSUME choose\n"); fflush(stdout); _Exit(77); } return v; }
void vp_assume(uint32_t c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(77); } }
void vp_assert(uint32_t c, const char *p, uint64_t n) { if (!c) { printf("ASSERT-FAILED %.*s\n", (int)n, p); fflush(stdout); _Exit(101); } }
void vp_cover(const char *p, uint64_t n) { printf("COVER %.*s\n", (int)n, p); }
void vp_note(const char *p, uint64_t n) { printf("NOTE %.*s\n", (int)n, p); }
void vp_end(void) { fflush(stdout); _Exit(0); }
