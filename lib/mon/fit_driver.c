/* Drives the bath-fit library under sanitizers (C23).
 *
 *   fit_driver SEED NCASES [POISON]
 *
 * Linked against every object of the library with malloc/free/exit wrapped: the wrappers
 * count live blocks, fill new blocks with POISON (so that two runs with different poison
 * must print the same results) and can make the k-th allocation fail.  Every array handed
 * to the library is a heap block of exactly the documented size.
 */
#define _GNU_SOURCE
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "fit.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define DEFINED(p, n) __msan_check_mem_is_initialized(p, n)
#define HIDE(p, n) __msan_poison(p, n)
#endif
#endif
#ifndef DEFINED
#define DEFINED(p, n)
#define HIDE(p, n)
#endif

/* A library whose inner routines are organised differently is driven through what is left. */
#if !defined(NO_INIT) || !defined(NO_MODEL)
extern int nbath;
#endif
#ifndef NO_MODEL
extern int nmats;
extern double complex *vals_true, *delta, *z, **ddelta;
#endif

/* ---- wrapped allocator -------------------------------------------------------------- */
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_exit(int) __attribute__((noreturn));

static long live, total, countdown = -1, armed, failed;
static int poison = -1, inside;
static jmp_buf escape;

static int refuse(void)
{
    total++;
    if (countdown >= 0 && countdown-- == 0) { failed++; return 1; }
    return 0;
}
void *__wrap_malloc(size_t n)
{
    if (!inside) return __real_malloc(n);
    if (refuse()) return NULL;
    void *p = __real_malloc(n);
    if (p) { live++; if (poison >= 0) memset(p, poison, n); }
    return p;
}
void *__wrap_calloc(size_t m, size_t n)
{
    if (!inside) return __real_calloc(m, n);
    if (refuse()) return NULL;
    void *p = __real_calloc(m, n);
    if (p) live++;
    return p;
}
void *__wrap_realloc(void *q, size_t n)
{
    if (!inside) return __real_realloc(q, n);
    if (refuse()) return NULL;
    void *p = __real_realloc(q, n);
    if (p && !q) live++;
    return p;
}
void __wrap_free(void *p)
{
    if (inside && p) live--;
    __real_free(p);
}
void __wrap_exit(int code)
{
    if (inside && armed) longjmp(escape, 1 + (code != 0));
    __real_exit(code);
}

/* ---- random input ------------------------------------------------------------------- */
static uint64_t st;
static uint64_t rnd(void)
{
    st += 0x9E3779B97F4A7C15ull;
    uint64_t x = st;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static double uni(double a, double b) { return a + (b - a) * (double)(rnd() >> 11) / 9007199254740992.0; }
static int pick(int n) { return (int)(rnd() % (uint64_t)n); }

static double *fresh(long n)
{
    double *p = malloc(n * sizeof(double));
    HIDE(p, n * sizeof(double));
    return p;
}

static uint64_t digest = 1469598103934665603ull;
static void mix(const void *p, size_t n)
{
    const unsigned char *c = p;
    for (size_t i = 0; i < n; i++) digest = (digest ^ c[i]) * 1099511628211ull;
}

static void start(double *x, int nb)
{
    int k = pick(7);
    for (int j = 0; j < nb; j++) {
        x[j] = k == 1 ? 0. : k == 2 ? 1. : uni(-3, 3);
        x[nb + j] = k == 3 ? 0. : k == 4 ? uni(-1e-6, 1e-6) : k == 5 ? uni(-50, 50) : uni(.05, 1);
        if (k == 6) x[j] *= 1e3;
    }
}

static void target(double complex *v, int nm, double be, int nb)
{
    int k = pick(6);
    double s = pow(10., uni(-4, 4));
    for (int i = 0; i < nm; i++) {
        double complex w = (2 * i + 1) * PI / be * I;
        switch (k) {
        case 0: v[i] = 2 * (w - csqrt(w * w - 1.)); break;
        case 1: v[i] = .3 / (w - .2) + .4 / (w + 1.1); break;
        case 2: v[i] = 0.; break;
        case 3: v[i] = s * (uni(-1, 1) + I * uni(-1, 1)); break;
        case 4: v[i] = s; break;
        default: v[i] = nb * .25 / w; break;
        }
    }
}

static void fail(const char *what, int seed, int c)
{
    printf("{\"fail\": \"%s\", \"case\": %d}\n", what, c);
    fflush(stdout);
    __real_exit(70);
}

#ifndef NO_LINES
/* an ordinary function for the line search, so that it is driven without the model */
static int nq;
static double *quad;
static double qf(double x[])
{
    double s = 0;
    for (int j = 0; j < nq; j++) s += quad[j] * (x[j] - 1) * (x[j] - 1) + .1 * cos(3 * x[j]);
    return s;
}
static void qg(double x[], double g[])
{
    for (int j = 0; j < nq; j++) g[j] = 2 * quad[j] * (x[j] - 1) - .3 * sin(3 * x[j]);
}
#endif

int main(int argc, char **argv)
{
    int seed = atoi(argv[1]), n = atoi(argv[2]);
    if (argc > 3) poison = atoi(argv[3]);
    long fits = 0, evals = 0, inits = 0, lines = 0, faults = 0, aborted = 0, sizes = 0;
    st = (uint64_t)seed * 7919u + 17;
    for (int c = 0; c < n; c++) {
        int nb = pick(4) ? 1 + pick(9) : pick(3) ? 1 + pick(3) : 1 + pick(pick(4) ? 70 : 200);
        int nm = pick(6) ? 1 + pick(60) : (pick(3) ? 1 : 400);
        double be = pow(10., uni(-1, 3));
        int op = pick(8);
        sizes |= 1l << (nb < 60 ? nb : 60);
        if (nb > 12 && nm > 20) nm = 20;
        if (nb > 70 && nm > 3) nm = 3;
        double *x = fresh(2 * nb);
        double complex *v = malloc(nm * sizeof *v);
        target(v, nm, be, nb);
        if (0) {
#ifndef NO_INIT
        } else if (op == 0) {
            nbath = nb;
            inside = 1; init_bath(x); inside = 0;
            DEFINED(x, 2 * nb * sizeof(double));
            mix(x, 2 * nb * sizeof(double));
            inits++;
#endif
#ifndef NO_MODEL
        } else if (op == 1 || op == 2) {
            double *g = fresh(2 * nb);
            start(x, nb);
            nbath = nb; nmats = nm; vals_true = v;
            z = malloc(nm * sizeof *z);
            delta = (double complex *)fresh(2 * nm);
            ddelta = malloc(nm * sizeof *ddelta);
            for (int i = 0; i < nm; i++) {
                z[i] = (2 * i + 1) * PI / be * I;
                ddelta[i] = (double complex *)fresh(4 * nb);
            }
            long before = live;
            inside = 1;
            if (op == 1) {
                eval_delta(x);
                eval_ddelta(x);
                inside = 0;
                DEFINED(delta, nm * sizeof *delta);
                for (int i = 0; i < nm; i++) {
                    DEFINED(ddelta[i], 2 * nb * sizeof **ddelta);
                    mix(ddelta[i], 2 * nb * sizeof **ddelta);
                }
                mix(delta, nm * sizeof *delta);
            } else {
                double chi = eval_chi2(x);
                eval_dchi2(x, g);
                inside = 0;
                DEFINED(&chi, sizeof chi);
                DEFINED(g, 2 * nb * sizeof(double));
                mix(&chi, sizeof chi);
                mix(g, 2 * nb * sizeof(double));
            }
            if (live != before) fail("model routine did not free what it allocated", seed, c);
            for (int i = 0; i < nm; i++) free(ddelta[i]);
            free(ddelta); free(delta); free(z); free(g);
            evals++;
#endif
#ifndef NO_LINES
        } else if (op == 3) {
            double fret, *d = fresh(2 * nb);
            int it;
            nq = 2 * nb;
            quad = malloc(nq * sizeof(double));
            for (int j = 0; j < nq; j++) { quad[j] = uni(.1, 4); x[j] = uni(-5, 5); }
            HIDE(&fret, sizeof fret);
            HIDE(&it, sizeof it);
            long before = live;
            inside = armed = 1;
            if (setjmp(escape) == 0) {
                if (pick(2)) {
                    qg(x, d);
                    for (int j = 0; j < nq; j++) d[j] = -d[j];
                    dlinmin(x, d, nq, &fret, qf, qg);
                    DEFINED(d, nq * sizeof(double));
                } else {
                    frprmn(x, nq, 1e-10, &it, &fret, qf, qg);
                    DEFINED(&it, sizeof it);
                    mix(&it, sizeof it);
                }
                inside = armed = 0;
                DEFINED(&fret, sizeof fret);
                DEFINED(x, nq * sizeof(double));
                mix(&fret, sizeof fret);
                mix(x, nq * sizeof(double));
                if (live != before) fail("minimiser did not free what it allocated", seed, c);
            } else {
                inside = armed = 0;
                live = before;
                aborted++;
            }
            free(quad); free(d);
            lines++;
#endif
        } else {
            /* fits of changing size in one process; some with a failing allocation */
            double fret;
            int it;
#ifdef NO_INIT
            start(x, nb);
#else
            if (pick(3)) start(x, nb); else { nbath = nb; inside = 1; init_bath(x); inside = 0; }
#endif
            HIDE(&fret, sizeof fret);
            HIDE(&it, sizeof it);
            long before = live;
            if (op == 7) {
                int k = pick(3) ? pick(2 * nm + 8) : pick(6);
                fflush(stdout);
                pid_t pid = fork();
                if (pid == 0) {
                    countdown = k;
                    inside = 1; armed = 0;
                    fit(x, &it, &fret, nb, nm, v, be);
                    inside = 0;
                    _exit(failed ? 71 : 0);
                }
                int status;
                waitpid(pid, &status, 0);
                if (!WIFEXITED(status) || (WEXITSTATUS(status) != 0 && WEXITSTATUS(status) != 1))
                    fail("a failing allocation is not reported", seed, c);
                if (WEXITSTATUS(status) == 1) faults++;
            } else {
                inside = armed = 1;
                if (setjmp(escape) == 0) {
                    fit(x, &it, &fret, nb, nm, v, be);
                    inside = armed = 0;
                    DEFINED(&fret, sizeof fret);
                    DEFINED(&it, sizeof it);
                    DEFINED(x, 2 * nb * sizeof(double));
                    mix(&fret, sizeof fret);
                    mix(&it, sizeof it);
                    mix(x, 2 * nb * sizeof(double));
                    if (live != before) fail("fit did not free what it allocated", seed, c);
                } else {
                    inside = armed = 0;
                    live = before;
                    aborted++;
                }
                fits++;
            }
        }
        free(v);
        free(x);
    }
    printf("\n{\"fits\": %ld, \"model_evaluations\": %ld, \"initial_baths\": %ld, \"line_searches\": %ld, "
           "\"failed_allocations\": %ld, \"gave_up\": %ld, \"allocations\": %ld, \"bath_sizes\": %d, \"digest\": \"%016llx\"}\n",
           fits, evals, inits, lines, faults, aborted, total, __builtin_popcountl(sizes), (unsigned long long)digest);
    return 0;
}
