// Replays the checker's cases on the C library and compares every result.
// Lines:  B r c cells want            cal3BV
//         P r c mines ok cells | min mine max probabilities     cal_possibility_onboard
//         L r c mines x y n draws | cells                       laymine under these answers of the random source
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include "/repo/c/ms_toollib.h"

void vp_choose(uint64_t (*f)(uint64_t));
void vp_unchoose(void);

// ---- every block of memory, by address: what the library leaves behind and what it gives back twice
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void __real_free(void *);
#define N (1u << 16)
static void *slot[N];
static long live, alien;
static int watch;
static unsigned home(void *p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; return (unsigned)(x >> 40) & (N - 1); }
static void note(void *p) { if (!watch || !p) return; if (live > N / 2) { alien++; return; } unsigned i = home(p); while (slot[i]) i = (i + 1) & (N - 1); slot[i] = p; live++; }
static int drop(void *p) {
    unsigned i = home(p);
    while (slot[i] && slot[i] != p) i = (i + 1) & (N - 1);
    if (!slot[i]) return 0;
    slot[i] = 0; live--;
    for (unsigned j = (i + 1) & (N - 1); slot[j]; j = (j + 1) & (N - 1)) { unsigned h = home(slot[j]); if (((j - h) & (N - 1)) >= ((j - i) & (N - 1))) { slot[i] = slot[j]; slot[j] = 0; i = j; } }
    return 1;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); note(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); note(p); return p; }
int __wrap_posix_memalign(void **q, size_t a, size_t n) { int e = __real_posix_memalign(q, a, n); if (!e) note(*q); return e; }
void *__wrap_realloc(void *p, size_t n) { if (watch && p && !drop(p)) alien++; void *q = __real_realloc(p, n); note(q); return q; }
// a block given back that is not there is counted, and not passed on
void __wrap_free(void *p) { if (watch && p && !drop(p)) { alien++; return; } __real_free(p); }

// ---- answers of the random source
static uint64_t draws[4096]; static int ndraws, pos, odd;
static uint64_t answer(uint64_t n) { if (pos >= ndraws || draws[pos] >= n) { odd = 1; pos++; return 0; } return draws[pos++]; }

static long bad, calls;
static char *line; static size_t room;
static void fail(const char *what) { if (++bad <= 5) printf("BAD %s: %.400s\n", what, line); fflush(stdout); }
static void died(int s) { char t[320] = "AT "; size_t n = 3; for (size_t i = 0; n < 310 && line[i] && line[i] != '\n'; i++) t[n++] = line[i]; t[n++] = '\n'; if (write(1, t, n) < 0) {} signal(s, SIG_DFL); raise(s); }
static char *at;
static long num(void) { return strtol(at, &at, 10); }
static int32_t *given; static struct Row *rows;
static struct Board board(size_t r, size_t c) {
    given = __real_malloc(r * c * sizeof *given); rows = __real_malloc(r * sizeof *rows);
    for (size_t i = 0; i < r * c; i++) given[i] = (int32_t)num();
    for (size_t i = 0; i < r; i++) { rows[i].cells = given + i * c; rows[i].n_column = c; }
    struct Board b = {rows, r};
    return b;
}
// the caller's board is his own: unchanged, and his to give back
static int intact(size_t r, size_t c, const int32_t *copy) { if (memcmp(given, copy, r * c * sizeof *copy)) return 0; for (size_t i = 0; i < r; i++) if (rows[i].cells != given + i * c || rows[i].n_column != c) return 0; return 1; }
static void begin(void) { memset(slot, 0, sizeof slot); live = alien = 0; watch = 1; }
static const char *finish(void) { watch = 0; return alien ? "gives back memory that is not there" : live ? "leaves memory behind" : 0; }
static int same(double a, double b) { return a == b || (isnan(a) && isnan(b)); }

int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    if (!f) return 3;
    room = 1 << 20; line = __real_malloc(room);
    signal(SIGABRT, died); signal(SIGSEGV, died); signal(SIGBUS, died); signal(SIGFPE, died); signal(SIGILL, died);
    // the first call of a function may set up what lives as long as the program
    { int32_t z[1] = {10}; struct Row w = {z, 1}; struct Board b = {&w, 1}; free_board_poss(cal_possibility_onboard(b, 0.0)); pos = ndraws = 0; vp_choose(answer); free_board(laymine(2, 2, 1, 0, 0)); vp_unchoose(); free_board(laymine(2, 2, 1, 0, 0)); cal3BV(b); }
    while (fgets(line, (int)room, f)) {
        char k = line[0]; at = line + 1;
        size_t r = num(), c = num();
        const char *why = 0, *mem;
        calls++;
        if (k == 'B') {
            struct Board b = board(r, c);
            int32_t *copy = __real_malloc(r * c * sizeof *copy); memcpy(copy, given, r * c * sizeof *copy);
            long want = num();
            begin(); size_t got = cal3BV(b); mem = finish();
            if ((long)got != want) why = "cal3BV differs from the library"; else if (mem) why = mem; else if (!intact(r, c, copy)) why = "cal3BV changes the caller's board";
            __real_free(copy); __real_free(given); __real_free(rows);
        } else if (k == 'P') {
            double m = strtod(at, &at);
            struct Board b = board(r, c);
            int32_t *copy = __real_malloc(r * c * sizeof *copy); memcpy(copy, given, r * c * sizeof *copy);
            size_t lo = num(), mid = num(), hi = num();
            begin();
            struct BoardPossReturn p = cal_possibility_onboard(b, m);
            if (p.min_mine_num != lo || p.mine_num != mid || p.max_mine_num != hi) why = "the mine totals differ from the library";
            if (p.board_poss.n_row != r) why = "the number of rows is wrong";
            else for (size_t i = 0; i < r && !why; i++) {
                if (p.board_poss.rows_poss[i].n_column != c) { why = "the length of a row is wrong"; break; }
                for (size_t j = 0; j < c; j++) { double w = strtod(at, &at); if (!same(p.board_poss.rows_poss[i].cells_poss[j], w)) { why = "a probability differs from the library"; break; } }
            }
            if (!why) { free_board_poss(p); mem = finish(); if (mem) why = mem; else if (!intact(r, c, copy)) why = "cal_possibility_onboard changes the caller's board"; }
            watch = 0;
            __real_free(copy); __real_free(given); __real_free(rows);
        } else if (k == 'L') {
            size_t m = num(), x = num(), y = num(); ndraws = (int)num(); pos = odd = 0;
            for (int i = 0; i < ndraws; i++) draws[i] = num();
            begin(); vp_choose(answer);
            struct Board b = laymine(r, c, m, x, y);
            vp_unchoose();
            if (odd || pos != ndraws) why = "laymine does not draw like the library";
            else if (b.n_row != r) why = "the number of rows is wrong";
            else for (size_t i = 0; i < r && !why; i++) {
                if (b.rows[i].n_column != c) { why = "the length of a row is wrong"; break; }
                for (size_t j = 0; j < c; j++) if (b.rows[i].cells[j] != num()) { why = "a cell differs from the library"; break; }
            }
            if (!why) { free_board(b); mem = finish(); if (mem) why = mem; }
            watch = 0;
        } else return 4;
        if (why) fail(why);
    }
    printf("DONE %ld %ld\n", calls, bad);
    return 0;
}
