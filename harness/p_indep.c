/*
 * C10: several operations in progress at once, each of which must give what it gives alone.
 * Modes: inter (one thread, chunk by chunk), nested (operations run from inside the random
 * function), signal (one operation runs in a signal handler which interrupts another one at
 * arbitrary instructions), threads (concurrently).  When the library is linked as a shared object,
 * all its writable static storage is write-protected while anything runs.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include "h.h"
double h_case_cpu_limit = 90;

/* ------------------------------------------------------------- static storage of the library */
static uintptr_t st_lo[8], st_hi[8];
static int st_n;
static size_t st_tls;
static int on_mod(struct dl_phdr_info *i, size_t z, void *a) {
    uintptr_t want = (uintptr_t)a, pg = 4095;
    int mine = 0;
    (void)z;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        uintptr_t b = i->dlpi_addr + p->p_vaddr;
        if (p->p_type == PT_LOAD && want >= b && want < b + p->p_memsz) mine = 1;
    }
    if (!mine || !strstr(i->dlpi_name, "libundertest")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        uintptr_t b = i->dlpi_addr + p->p_vaddr;
        if (p->p_type == PT_TLS) st_tls = p->p_memsz;
        if (p->p_type != PT_LOAD || !(p->p_flags & PF_W) || st_n == 8) continue;
        st_lo[st_n] = b & ~pg;
        st_hi[st_n] = (b + p->p_memsz + pg) & ~pg;
        st_n++;
    }
    return 1;
}
static void lock_statics(void) {
    static int done;
    if (done) return;
    done = 1;
    dl_iterate_phdr(on_mod, (void *)&ts_sign);
    for (int i = 0; i < st_n; i++) {
        if (mprotect((void *)st_lo[i], st_hi[i] - st_lo[i], PROT_READ)) exit(3);
        stat_add("bytes of static storage write-protected", st_hi[i] - st_lo[i]);
    }
    if (st_tls) viol("tls", "the library has %zu bytes of thread-local state", st_tls);
}
static void on_segv(int s, siginfo_t *si, void *u) {
    (void)u;
    uintptr_t a = (uintptr_t)si->si_addr;
    for (int i = 0; i < st_n; i++)
        if (a >= st_lo[i] && a < st_hi[i]) {
            viol("static-write", "the library writes to its own static storage (offset %zu of segment %d)", (size_t)(a - st_lo[i]), i);
            _exit(1);
        }
    viol("crash", "fatal signal %d at %p", s, si->si_addr);
    _exit(1);
}

/* ------------------------------------------------------------- jobs */
enum { SIGN, VERIFY, BADVERIFY, KEYGEN, HASH, NKIND };
static const char *kname[] = {"signing", "verification", "verification of a bad signature", "key generation", "hashing"};
typedef struct job {
    int kind, style, started, done, err, which;
    const fx *f;
    unsigned pos, cap;
    rng r;
    struct ts_context ctx;
    union { SHA256_CTX a; SHA512_CTX b; SHAKE256_CTX c; } h;
    uint8_t *out;           /* signature made, or signature fed */
    uint8_t key[128], pub[64];
    int verdict, ret;
    struct job *nested[3];  /* advanced from inside the random function */
    int nnested;
} job;

static __thread job *cur;
static void step(job *j);
static int cb(unsigned char *p, size_t n) {
    job *j = cur;
    for (int i = 0; i < j->nnested; i++) {
        int lim = (int)rnd_in(&j->r, 1, 4000);
        for (int k = 0; k < lim && !j->nested[i]->done; k++) step(j->nested[i]);
        stat_add("operations run inside the random function", 1);
    }
    cur = j;
    if (j->kind == KEYGEN) {
        if (n != 3 * j->f->n) { memset(p, 1, n); j->err = 1; return 1; }
        memcpy(p, j->f->sk, n);
    } else {
        if (n > 32) { memset(p, 1, n); j->err = 1; return 1; }
        memcpy(p, j->f->opt, n);
    }
    return 1;
}

static job *job_new(rng *r, const fx *f, int kind, int style, unsigned cap) {
    job *j = calloc(1, sizeof *j);
    j->kind = kind;
    j->style = style;
    j->f = f;
    j->cap = cap > f->siglen ? f->siglen : cap;
    rng_init(&j->r, rnd(r), 1, 2);
    rnd_fill(r, &j->ctx, sizeof j->ctx);
    j->which = (int)rnd_below(r, 3);
    j->out = calloc(1, f->siglen);
    if (kind == VERIFY || kind == BADVERIFY) memcpy(j->out, f->sig, f->siglen);
    if (kind == BADVERIFY) j->out[rnd_below(r, f->siglen)] ^= (uint8_t)(1u << rnd_below(r, 8));
    return j;
}
static void job_free(job *j) { free(j->out); free(j); }

static void step(job *j) {
    const fx *f = j->f;
    job *save = cur;
    cur = j;
    if (j->done) goto end;
    unsigned ch = h_chunk(&j->r, j->style, f->n);
    switch (j->kind) {
    case SIGN:
        if (!j->started) {
            j->started = 1;
            ts_init_sign(&j->ctx, f->msg, f->mlen, f->s->ps, f->sk, f->det && !j->nnested ? 0 : cb);
            break;
        }
        if (ch > j->cap - j->pos) ch = j->cap - j->pos;
        {
            unsigned got = ts_sign(j->out + j->pos, ch, &j->ctx);
            if (got != ch) { j->err = 2; j->done = 1; break; }
            j->pos += got;
        }
        if (j->pos == j->cap) j->done = 1;
        break;
    case VERIFY: case BADVERIFY:
        if (!j->started) {
            j->started = 1;
            ts_init_verify(&j->ctx, f->msg, f->mlen, f->s->ps, f->pk);
            break;
        }
        if (ch > f->siglen - j->pos) ch = f->siglen - j->pos;
        (void)ts_update_verify(j->out + j->pos, ch, &j->ctx);
        j->pos += ch;
        if (j->pos == f->siglen) {
            j->verdict = ts_verify(&j->ctx);
            j->done = 1;
        }
        break;
    case KEYGEN:
        j->started = 1;
        j->ret = ts_gen_key(j->key, j->pub, f->s->ps, cb);
        j->done = 1;
        break;
    default: /* hash of the fixture's signature */
        if (!j->started) {
            j->started = 1;
            if (j->which == 0) ts_SHA256_init(&j->h.a);
            else if (j->which == 1) ts_SHA512_init(&j->h.b);
            else ts_shake256_inc_init(&j->h.c);
            break;
        }
        if (ch > f->siglen - j->pos) ch = f->siglen - j->pos;
        if (j->which == 0) ts_SHA256_update(&j->h.a, f->sig + j->pos, ch);
        else if (j->which == 1) ts_SHA512_update(&j->h.b, f->sig + j->pos, ch);
        else ts_shake256_inc_absorb(&j->h.c, f->sig + j->pos, ch);
        j->pos += ch;
        if (j->pos == f->siglen) {
            j->done = 1;
            if (j->which == 0) ts_SHA256_final(j->key, &j->h.a);
            else if (j->which == 1) ts_SHA512_final(j->key, &j->h.b);
            else { ts_shake256_inc_finalize(&j->h.c); ts_shake256_inc_squeeze(j->key, 64, &j->h.c); }
        }
    }
end:
    cur = save;
}

/* 1: as specified */
static int good(const job *j) {
    const fx *f = j->f;
    unsigned n = f->n;
    uint8_t d[64];
    if (j->err) return 0;
    switch (j->kind) {
    case SIGN: return !memcmp(j->out, f->sig, j->cap);
    case VERIFY: return j->verdict == 1;
    case BADVERIFY: return j->verdict == 0;
    case KEYGEN: return j->ret == 1 && !memcmp(j->key, f->sk, 4 * n) && !memcmp(j->pub, f->pk, 2 * n);
    default:
        if (j->which == 0) ref_sha256(f->sig, f->siglen, d);
        else if (j->which == 1) ref_sha512(f->sig, f->siglen, d);
        else ref_shake256(f->sig, f->siglen, d, 64);
        return !memcmp(d, j->key, j->which ? 64 : 32);
    }
}
static int alone_good(const job *j) {
    rng r;
    rng_init(&r, 1, 2, 3);
    job *k = job_new(&r, j->f, j->kind, j->style, j->cap);
    memcpy(k->out, j->out, j->f->siglen);
    if (j->kind == SIGN) memset(k->out, 0, j->f->siglen);
    k->which = j->which;
    while (!k->done) step(k);
    int g = good(k);
    job_free(k);
    return g;
}
static void judge(job *j, const char *how) {
    stat_add("evaluations", 1);
    stat_add(kname[j->kind], 1);
    if (good(j)) return;
    if (!alone_good(j)) { stat_add("wrong also when alone", 1); return; }
    viol("interference", "%s: %s gives a wrong result when run %s, and the right one alone (message %zu bytes, chunk style %d)",
         j->f->s->r->name, kname[j->kind], how, j->f->mlen, j->style);
}

/* ------------------------------------------------------------- workload */
enum { M_INTER, M_NESTED, M_SIGNAL, M_THREADS } mode;
static int nf; /* fixtures usable for full work (f sets) */

uint64_t h_ncases(void) {
    mode = !strcmp(h_mode, "nested") ? M_NESTED : !strcmp(h_mode, "signal") ? M_SIGNAL : !strcmp(h_mode, "threads") ? M_THREADS : M_INTER;
    fx_build(2, h_scale >= .5 ? 1 : 0);
    (void)nf;
    int base = mode == M_THREADS ? 12 : mode == M_SIGNAL ? 36 : 28;
    uint64_t n = (uint64_t)(base * h_scale + .5);
    return n ? n : 1;
}

static job *random_job(rng *r, const fx *prev, int allow_keygen) {
    const fx *f = &h_fx[rnd_below(r, (uint64_t)h_nfx)];
    if (prev && rnd_below(r, 4) == 0) f = prev; /* shares key, message and parameter set */
    int slow = h_is_s(f->s->r), kind;
    do kind = (int)rnd_below(r, NKIND); while (kind == KEYGEN && (slow || !allow_keygen));
    unsigned cap = slow ? 3 * f->n : rnd_below(r, 3) ? f->siglen / (unsigned)rnd_in(r, 1, 4) : f->siglen;
    int style = (int)rnd_below(r, H_CHUNK_STYLES);
    return job_new(r, f, kind, style, cap);
}

/* ---- threads */
static pthread_barrier_t bar;
static void *thr(void *a) {
    job **v = a;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < 3; i++)
        while (!v[i]->done) step(v[i]);
    return 0;
}

/* ---- signals */
static job *volatile intr;
static volatile unsigned hits;
static uint64_t pcs[8192];
static rng sig_r;
static void arm(void) {
    struct itimerval it = {{0, 0}, {0, (long)rnd_in(&sig_r, 20, 1500)}};
    setitimer(ITIMER_REAL, &it, 0);
}
static void on_alrm(int s, siginfo_t *si, void *u) {
    (void)s; (void)si;
    job *j = intr;
    if (!j || j->done) return;
    ucontext_t *uc = u;
    pcs[hits % 8192] = (uint64_t)uc->uc_mcontext.gregs[REG_RIP];
    hits++;
    step(j);
    arm();
}

/* one operation after another over message lengths of every size, for what only happens to long ones */
static void lengths(rng *r, uint64_t id) {
    static const size_t edge[] = {0, 1, 63, 64, 127, 128, 135, 136, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384,
                                  32767, 32768, 65535, 65536, 65537, 100000, 131072, 262145, 524288, 1048576, 1048577, 2500000, 4194304};
    enum { NE = sizeof edge / sizeof *edge };
    static uint8_t *m, sig[SIGMAX];
    if (!m) { m = malloc(edge[NE - 1]); rng q; rng_init(&q, 1, 2, 3); rnd_fill(&q, m, edge[NE - 1]); }
    const hset *s = &h_sets[id % (unsigned)h_nsets];
    unsigned n = s->r->n, want = 2 * n;
    uint8_t sk[128], opt[32], out[64];
    rnd_fill(r, sk, 128);
    rnd_fill(r, opt, 32);
    for (unsigned i = 0; i < NE; i++) {
        size_t len = edge[i] + (i > 20 && i + 1 < NE ? rnd_below(r, 3) : 0);
        if (len > 70000 && h_tag[0] == 'K' && !s->r->sha2) break; /* the slow one */
        ref_sign_prefix(s->r, sk, opt, m, len, sig, want);
        unsigned got = h_lib_sign(r, s, sk, m, len, opt, 0, out, want);
        stat_add("message lengths signed with static storage protected", 1);
        if (got != want || memcmp(out, sig, want)) stat_add("wrong also when alone", 1); /* C02's and C18's business */
        (void)h_lib_verify(r, s, sk + 2 * n, m, len, sig, 3 * n, 0, 1);
    }
}

void h_case(uint64_t id, rng *r) {
    lock_statics();
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_sigaction = on_segv;
    a.sa_flags = SA_SIGINFO | SA_ONSTACK;
#ifndef H_SAN
    sigaction(SIGSEGV, &a, 0);
#endif
    if (mode == M_INTER) lengths(r, id);
    if (mode == M_INTER || mode == M_NESTED) {
        int n = (int)rnd_in(r, 2, mode == M_INTER ? 8 : 5);
        job *j[8];
        uint64_t sched = 0;
        for (int i = 0; i < n; i++) j[i] = random_job(r, i ? j[i - 1]->f : 0, 1);
        if (mode == M_NESTED) { /* j[0] runs the others from inside its random function */
            const fx *f = &h_fx[rnd_below(r, (uint64_t)h_nfx)];
            while (h_is_s(f->s->r)) f = &h_fx[rnd_below(r, (uint64_t)h_nfx)];
            job_free(j[0]);
            j[0] = job_new(r, f, rnd(r) & 1 ? KEYGEN : SIGN, (int)rnd_below(r, H_CHUNK_STYLES), f->siglen);
            for (int i = 1; i < n && i < 4; i++) j[0]->nested[j[0]->nnested++] = j[i];
            if (n > 2 && (j[1]->kind == SIGN || j[1]->kind == KEYGEN)) { /* two deep */
                j[1]->nested[0] = j[2];
                j[1]->nnested = 1;
                j[0]->nested[1] = j[0]->nested[j[0]->nnested - 1];
                if (j[0]->nested[1] == j[2]) j[0]->nnested = 1;
                else j[0]->nnested = 2;
            }
            for (int i = 1; i < n; i++) { /* others already on their way */
                if (j[i]->nnested) continue;
                int lim = (int)rnd_below(r, 200);
                for (int k = 0; k < lim; k++) step(j[i]);
            }
        }
        for (int left = n; left;) {
            int i = (int)rnd_below(r, (uint64_t)n);
            if (j[i]->done) continue;
            int burst = rnd_below(r, 4) ? 1 : (int)rnd_in(r, 1, 30);
            for (int b = 0; b < burst && !j[i]->done; b++) step(j[i]);
            sched = sched * 31 + (uint64_t)i + 1;
            stat_add("switches", 1);
            for (int i2 = left = 0; i2 < n; i2++) left += !j[i2]->done;
        }
        distinct(sched ^ rnd(r));
        for (int i = 0; i < n; i++) judge(j[i], mode == M_INTER ? "interleaved with others" : "inside or around another's random function");
        if (id < 3) sample("%d operations %s: %s %s, %s %s ...", n, mode == M_INTER ? "interleaved" : "nested", j[0]->f->s->r->name, kname[j[0]->kind], j[1]->f->s->r->name, kname[j[1]->kind]);
        for (int i = 0; i < n; i++) job_free(j[i]);
    } else if (mode == M_SIGNAL) {
        sig_r = *r;
        memset(&a, 0, sizeof a);
        a.sa_sigaction = on_alrm;
        a.sa_flags = SA_SIGINFO | SA_RESTART;
        sigaction(SIGALRM, &a, 0);
        job *x, *y[40];
        int ny = 0;
        x = random_job(r, 0, 1);
        if (rnd(r) & 1) { while (x->kind != SIGN || h_is_s(x->f->s->r)) { job_free(x); x = random_job(r, 0, 1); } }
        hits = 0;
        while (!x->done && ny < 40) {
            job *n = random_job(r, x->f, 0);
            while (n->kind == SIGN && h_is_s(n->f->s->r)) { job_free(n); n = random_job(r, x->f, 0); }
            intr = y[ny++] = n;
            arm();
            while (!x->done && !n->done) step(x);
            struct itimerval off = {{0, 0}, {0, 0}};
            setitimer(ITIMER_REAL, &off, 0);
            intr = 0;
            while (!n->done) step(n);
        }
        while (!x->done) step(x);
        for (unsigned i = 0; i < hits && i < 8192; i++) distinct(pcs[i]);
        stat_add("preemptions", hits);
        judge(x, "while a signal handler runs another operation");
        for (int i = 0; i < ny; i++) judge(y[i], "in a signal handler that interrupts another operation");
        if (id < 3) sample("%s %s interrupted %u times", x->f->s->r->name, kname[x->kind], hits);
        job_free(x);
        for (int i = 0; i < ny; i++) job_free(y[i]);
    } else {
        enum { T = 4 };
        job *v[T][3];
        pthread_t t[T];
        const fx *common = &h_fx[rnd_below(r, (uint64_t)h_nfx)];
        for (int i = 0; i < T; i++)
            for (int k = 0; k < 3; k++) v[i][k] = random_job(r, common, 1);
        pthread_barrier_init(&bar, 0, T);
        for (int i = 0; i < T; i++) if (pthread_create(&t[i], 0, thr, v[i])) exit(3);
        for (int i = 0; i < T; i++) pthread_join(t[i], 0);
        pthread_barrier_destroy(&bar);
        for (int i = 0; i < T; i++)
            for (int k = 0; k < 3; k++) {
                distinct(rnd(r));
                judge(v[i][k], "concurrently with other threads");
                job_free(v[i][k]);
            }
        if (id < 3) sample("%d threads with 3 operations each, sharing the keys of %s", T, common->s->r->name);
    }
}
