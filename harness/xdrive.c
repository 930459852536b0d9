/* xdrive SCENARIO.json TRACE.ndjson
 * Replays a scenario (a behaviour of spec/Scenario.tla) on the real library and
 * records the resulting behaviour for spec/XCSFTrace.tla. */
#include "xtrace.h"
#include "../lib/cJSON/cJSON.h"
#include "env_maze.h"
#include "env_mux.h"
#include "env_csv.h"

static bool rl_mode; /* action sets are initialised */

#define JD(k, v) \
    do { \
        fputs(",\"" k "\":", T); \
        tr_d(T, v); \
    } while (0)

static int *told;
static int n_told, cap_told;
static bool
already_told(int id)
{
    for (int i = 0; i < n_told; ++i)
        if (told[i] == id)
            return true;
    if (n_told == cap_told) {
        cap_told = cap_told ? 2 * cap_told : 256;
        told = realloc(told, sizeof(int) * cap_told);
    }
    told[n_told++] = id;
    return false;
}
/* discarded rules: in full once, then only named */
static void
emit_dead(void)
{
    fputs(",\"D\":{\"none\":0", T);
    for (const struct Clist *it = X->kset.list; it != NULL; it = it->next) {
        const int id = tr_id(it->cl);
        fprintf(T, ",\"r%d\":", id);
        if (already_told(id))
            fputs("0", T);
        else
            tr_rule(T, X, it->cl);
    }
    fputs("}", T);
}
static void
emit_post(void)
{
    emit_dead();
    fputs(",\"s\":", T);
    tr_state(T, X);
    fputs("}\n", T);
    fflush(T);
    tr_sync();
}
static const char *
setname(const struct Set *s)
{
    if (s == &X->mset)
        return "m";
    if (s == &X->aset)
        return "a";
    if (s == &X->prev_aset)
        return "v";
    if (s == &X->pset)
        return "p";
    return "?";
}

/* ---------- wrappers ---------- */
void __real_clset_match(struct XCSF *, const double *, const bool);
void __real_clset_action(struct XCSF *, const int);
void __real_clset_update(struct XCSF *, struct Set *, const double *,
                         const double *, const bool);
void __real_pa_build(const struct XCSF *, const double *);
int __real_pa_best_action(const struct XCSF *);
int __real_pa_rand_action(const struct XCSF *);
void __real_ea(struct XCSF *, const struct Set *);
void __real_cl_init(const struct XCSF *, struct Cl *, const double, const int);
void __real_cl_copy(const struct XCSF *, struct Cl *, const struct Cl *);
void __real_cl_free(const struct XCSF *, struct Cl *);
bool __real_cl_crossover(const struct XCSF *, const struct Cl *,
                         const struct Cl *);
bool __real_cl_mutate(const struct XCSF *, const struct Cl *);

#define MAXNEW 4096
static int born[MAXNEW], n_born;

struct Off {
    int id, par;
    bool crossed, mutated, has_x, has_m;
    char *g0, *g1, *g2; /* genotype after copy, after crossover, after mutation */
};
static struct Off off[MAXNEW];
static int n_off;
static bool in_ea;

static char *
geno(const struct Cl *c)
{
    char *b = NULL;
    size_t n;
    FILE *m = open_memstream(&b, &n);
    fputs("{\"c\":", m);
    tr_cond(m, X, c);
    fputs(",\"w\":", m);
    tr_predg(m, X, c);
    fputs(",\"ac\":", m);
    tr_actg(m, X, c);
    fputc('}', m);
    fclose(m);
    return b;
}
static struct Off *
find_off(const struct Cl *c)
{
    const int id = tr_id_known(c);
    for (int i = n_off - 1; i >= 0; --i)
        if (off[i].id == id)
            return &off[i];
    return NULL;
}

void
__wrap_cl_init(const struct XCSF *x, struct Cl *c, const double size,
               const int time)
{
    __real_cl_init(x, c, size, time);
    tr_newid(c);
    if (tracing && n_born < MAXNEW)
        born[n_born++] = tr_id(c);
}
void
__wrap_cl_free(const struct XCSF *x, struct Cl *c)
{
    tr_forget(c);
    __real_cl_free(x, c);
}
void
__wrap_cl_copy(const struct XCSF *x, struct Cl *d, const struct Cl *s)
{
    __real_cl_copy(x, d, s);
    if (tracing && in_ea && n_off < MAXNEW) {
        memset(&off[n_off], 0, sizeof(struct Off));
        off[n_off].id = tr_id(d);
        off[n_off].par = tr_id(s);
        off[n_off].g0 = geno(d);
        ++n_off;
    }
}
bool
__wrap_cl_crossover(const struct XCSF *x, const struct Cl *a,
                    const struct Cl *b)
{
    const bool r = __real_cl_crossover(x, a, b);
    if (tracing && in_ea) {
        struct Off *o = find_off(a), *p = find_off(b);
        if (o != NULL) {
            o->crossed = r;
            o->has_x = true;
            o->g1 = geno(a);
        }
        if (p != NULL && p != o) {
            p->crossed = r;
            p->has_x = true;
            p->g1 = geno(b);
        }
    }
    return r;
}
bool
__wrap_cl_mutate(const struct XCSF *x, const struct Cl *c)
{
    const bool r = __real_cl_mutate(x, c);
    if (tracing && in_ea) {
        struct Off *o = find_off(c);
        if (o != NULL) {
            o->mutated = r;
            o->has_m = true;
            o->g2 = geno(c);
        }
    }
    return r;
}

void
__wrap_clset_match(struct XCSF *x, const double *in, const bool cover)
{
    if (!tracing) {
        __real_clset_match(x, in, cover);
        return;
    }
    tr_frame("match");
    n_born = 0;
    double *xc = malloc(sizeof(double) * x->x_dim);
    memcpy(xc, in, sizeof(double) * x->x_dim);
    __real_clset_match(x, in, cover);
    fprintf(T, "{\"e\":\"Match\",\"cover\":%s,\"ex\":%s", cover ? "true" : "false",
            x->explore ? "true" : "false");
    JD("err", x->error);
    fputs(",\"x\":", T);
    tr_da(T, xc, x->x_dim);
    free(xc);
    fputs(",\"born\":[", T);
    for (int i = 0; i < n_born; ++i)
        fprintf(T, "%s\"r%d\"", i ? "," : "", born[i]);
    fputs("],\"M\":", T);
    tr_set(T, &x->mset);
    emit_post();
}
void
__wrap_clset_action(struct XCSF *x, const int action)
{
    if (!tracing) {
        __real_clset_action(x, action);
        return;
    }
    tr_frame("action");
    __real_clset_action(x, action);
    fprintf(T, "{\"e\":\"Act\",\"a\":%d,\"A\":", action);
    tr_set(T, &x->aset);
    emit_post();
}
void
__wrap_pa_build(const struct XCSF *x, const double *in)
{
    if (!tracing) {
        __real_pa_build(x, in);
        return;
    }
    tr_frame("pa");
    __real_pa_build(x, in);
    fputs("{\"e\":\"PA\",\"x\":", T);
    tr_da(T, in, x->x_dim);
    fputs(",\"M\":", T);
    tr_set(T, &x->mset);
    fprintf(T, ",\"size\":%d,\"pa\":", x->pa_size);
    tr_da(T, x->pa, x->pa_size);
    fputs(",\"nr\":", T);
    tr_da(T, x->nr, x->pa_size);
    emit_post();
}
int
__wrap_pa_best_action(const struct XCSF *x)
{
    const int a = __real_pa_best_action(x);
    if (tracing)
        fprintf(T, "{\"e\":\"Best\",\"a\":%d,\"ex\":%s}\n", a, x->explore ? "true" : "false");
    return a;
}
int
__wrap_pa_rand_action(const struct XCSF *x)
{
    const int a = __real_pa_rand_action(x);
    if (tracing)
        fprintf(T, "{\"e\":\"Rand\",\"a\":%d,\"ex\":%s}\n", a, x->explore ? "true" : "false");
    return a;
}
void
__wrap_clset_update(struct XCSF *x, struct Set *set, const double *in,
                    const double *y, const bool cur)
{
    if (!tracing) {
        __real_clset_update(x, set, in, y, cur);
        return;
    }
    tr_frame("update");
    double *xc = malloc(sizeof(double) * x->x_dim);
    memcpy(xc, in, sizeof(double) * x->x_dim);
    char *b = NULL;
    size_t n;
    FILE *m = open_memstream(&b, &n);
    tr_set(m, set);
    fclose(m);
    __real_clset_update(x, set, in, y, cur);
    fprintf(T, "{\"e\":\"Update\",\"w\":\"%s\",\"cur\":%s,\"ex\":%s,\"S\":%s,\"x\":",
            setname(set), cur ? "true" : "false", x->explore ? "true" : "false", b);
    tr_da(T, xc, x->x_dim);
    fputs(",\"y\":", T);
    tr_da(T, y, x->y_dim);
    fputs(",\"S2\":", T);
    tr_set(T, set);
    free(b);
    free(xc);
    emit_post();
}
void
__wrap_ea(struct XCSF *x, const struct Set *set)
{
    if (!tracing) {
        __real_ea(x, set);
        return;
    }
    tr_frame("ea");
    char *b = NULL;
    size_t n;
    FILE *m = open_memstream(&b, &n);
    tr_set(m, set);
    fclose(m);
    n_off = 0;
    in_ea = true;
    __real_ea(x, set);
    in_ea = false;
    fprintf(T, "{\"e\":\"EA\",\"w\":\"%s\",\"ex\":%s,\"S\":%s", setname(set),
            x->explore ? "true" : "false", b);
    JD("err", x->error);
    fputs(",\"off\":[", T);
    free(b);
    for (int i = 0; i < n_off; ++i) {
        struct Off *o = &off[i];
        fprintf(T, "%s{\"id\":\"r%d\",\"par\":\"r%d\",\"x\":%s,\"mu\":%s,\"g0\":%s",
                i ? "," : "", o->id, o->par, o->crossed ? "true" : "false",
                o->mutated ? "true" : "false", o->g0);
        fprintf(T, ",\"g1\":%s,\"g2\":%s}", o->g1 ? o->g1 : o->g0,
                o->g2 ? o->g2 : (o->g1 ? o->g1 : o->g0));
        free(o->g0);
        free(o->g1);
        free(o->g2);
    }
    fputs("]", T);
    emit_post();
}

/* ---------- scenario interpretation ---------- */
static double *
darr(const cJSON *j, int *n)
{ /* flat or nested */
    int cnt = 0, cap = 64;
    double *v = malloc(sizeof(double) * cap);
    for (const cJSON *i = j ? j->child : NULL; i != NULL; i = i->next) {
        if (cJSON_IsArray(i)) {
            int k;
            double *w = darr(i, &k);
            while (cnt + k > cap) {
                cap *= 2;
                v = realloc(v, sizeof(double) * cap);
            }
            memcpy(v + cnt, w, sizeof(double) * k);
            cnt += k;
            free(w);
        } else {
            if (cnt + 1 > cap) {
                cap *= 2;
                v = realloc(v, sizeof(double) * cap);
            }
            v[cnt++] = i->valuedouble;
        }
    }
    if (n)
        *n = cnt;
    return v;
}
static const cJSON *
G(const cJSON *o, const char *k)
{
    return cJSON_GetObjectItemCaseSensitive(o, k);
}
static int
gi(const cJSON *o, const char *k, int d)
{
    const cJSON *i = G(o, k);
    return i == NULL ? d : (cJSON_IsBool(i) ? cJSON_IsTrue(i) : i->valueint);
}
static double
gd(const cJSON *o, const char *k, double d)
{
    const cJSON *i = G(o, k);
    return i == NULL ? d : i->valuedouble;
}

static void
emit_call(const char *op)
{
    tr_frame(op);
    fprintf(T, "{\"e\":\"Call\",\"op\":\"%s\"", op);
}
static void
emit_ret(const char *op)
{
    tr_frame(op);
    fprintf(T, "{\"e\":\"Ret\",\"op\":\"%s\",\"ex\":%s", op,
            X->explore ? "true" : "false");
    JD("err", X->error);
}
static void
emit_mat(const char *k, const double *v, int rows, int cols)
{
    fprintf(T, ",\"%s\":[", k);
    for (int i = 0; i < rows; ++i) {
        if (i)
            fputc(',', T);
        tr_da(T, v + i * cols, cols);
    }
    fputc(']', T);
}

static void
op_fit(const cJSON *o)
{
    int nx, ny;
    double *x = darr(G(o, "x"), &nx), *y = darr(G(o, "y"), &ny);
    struct Input tr = { x, y, X->x_dim, X->y_dim, nx / X->x_dim };
    const int trials = gi(o, "trials", 1), start = gi(o, "start", 0);
    const bool shuffle = gi(o, "shuffle", 0);
    struct Input te, *tp = NULL;
    double *tx = NULL, *ty = NULL;
    if (G(o, "tx") != NULL) {
        int n1, n2;
        tx = darr(G(o, "tx"), &n1);
        ty = darr(G(o, "ty"), &n2);
        te = (struct Input){ tx, ty, X->x_dim, X->y_dim, n1 / X->x_dim };
        tp = &te;
    }
    emit_call("fit");
    emit_mat("x", x, tr.n_samples, X->x_dim);
    emit_mat("y", y, tr.n_samples, X->y_dim);
    emit_mat("tx", tx, tp ? te.n_samples : 0, X->x_dim);
    emit_mat("ty", ty, tp ? te.n_samples : 0, X->y_dim);
    JD("err", X->error);
    fprintf(T, ",\"trials\":%d,\"start\":%d,\"shuffle\":%s}\n", trials, start,
            shuffle ? "true" : "false");
    const double r =
        xcs_supervised_fit(X, &tr, tp, shuffle, start, trials);
    emit_ret("fit");
    JD("r", r);
    fputs("}\n", T);
    free(x);
    free(y);
    free(tx);
    free(ty);
}
static void
op_predict(const cJSON *o)
{
    int nx, nc = 0;
    double *x = darr(G(o, "x"), &nx);
    double *cov = G(o, "cover") ? darr(G(o, "cover"), &nc) : NULL;
    const int n = nx / X->x_dim;
    double *out = calloc((size_t) n * X->pa_size, sizeof(double));
    emit_call("predict");
    emit_mat("x", x, n, X->x_dim);
    fputs(",\"cover\":", T);
    tr_da(T, cov, cov ? X->pa_size : 0);
    JD("err", X->error);
    fputs("}\n", T);
    xcs_supervised_predict(X, x, out, n, cov);
    emit_ret("predict");
    emit_mat("out", out, n, X->pa_size);
    fputs("}\n", T);
    free(x);
    free(cov);
    free(out);
}
static void
op_score(const cJSON *o)
{
    int nx, ny, nc = 0;
    double *x = darr(G(o, "x"), &nx), *y = darr(G(o, "y"), &ny);
    double *cov = G(o, "cover") ? darr(G(o, "cover"), &nc) : NULL;
    struct Input in = { x, y, X->x_dim, X->y_dim, nx / X->x_dim };
    const int N = gi(o, "N", 0);
    emit_call("score");
    emit_mat("x", x, in.n_samples, X->x_dim);
    emit_mat("y", y, in.n_samples, X->y_dim);
    fputs(",\"cover\":", T);
    tr_da(T, cov, cov ? X->pa_size : 0);
    JD("err", X->error);
    fprintf(T, ",\"N\":%d}\n", N);
    const double r = N > 0 ? xcs_supervised_score_n(X, &in, N, cov) :
                             xcs_supervised_score(X, &in, cov);
    emit_ret("score");
    JD("r", r);
    fputs("}\n", T);
    free(x);
    free(y);
    free(cov);
}
static void
op_rltrial(const cJSON *o)
{
    const bool explore = gi(o, "explore", 1);
    rl_mode = true;
    emit_call("rltrial");
    fprintf(T, ",\"explore\":%s", explore ? "true" : "false");
    JD("err", X->error);
    fputs("}\n", T);
    param_set_explore(X, explore);
    xcs_rl_init_trial(X);
    for (const cJSON *s = G(o, "steps")->child; s != NULL; s = s->next) {
        double *x = darr(G(s, "x"), NULL);
        const double r = gd(s, "r", 0);
        const bool done = gi(s, "done", 0);
        const double maxp = gd(s, "maxp", 1);
        xcs_rl_init_step(X);
        int a = xcs_rl_decision(X, x);
        const int chosen = a;
        if (G(s, "a") != NULL)
            a = gi(s, "a", 0) % X->n_actions;
        fprintf(T, "{\"e\":\"Step\",\"chosen\":%d,\"a\":%d,\"done\":%s,\"x\":",
                chosen, a, done ? "true" : "false");
        tr_da(T, x, X->x_dim);
        JD("r", r);
        JD("maxp", maxp);
        fputs("}\n", T);
        xcs_rl_update(X, x, a, r, done);
        tr_frame("rlerror");
        fputs("{\"e\":\"RLErr\"", T);
        JD("before", X->error);
        const double e = xcs_rl_error(X, a, r, done, maxp);
        JD("ret", e);
        JD("err", X->error);
        fputs("}\n", T);
        xcs_rl_end_step(X, x, a, r);
        fputs("{\"e\":\"EndStep\",\"V\":", T);
        /* rules freed are never in prev_aset: they stay in kset until the trial ends */
        tr_set(T, &X->prev_aset);
        JD("pr", X->prev_reward);
        JD("pp", X->prev_pred);
        fputs("}\n", T);
        free(x);
        if (done)
            break;
    }
    xcs_rl_end_trial(X);
    emit_ret("rltrial");
    fputs("}\n", T);
    rl_mode = false;
}
static void
op_rlfit(const cJSON *o)
{
    double *x = darr(G(o, "x"), NULL);
    const int a = gi(o, "a", 0) % X->n_actions;
    const double r = gd(o, "r", 0);
    rl_mode = true;
    emit_call("rlfit");
    fprintf(T, ",\"a\":%d,\"x\":", a);
    tr_da(T, x, X->x_dim);
    JD("r", r);
    JD("err", X->error);
    fputs("}\n", T);
    const double e = xcs_rl_fit(X, x, a, r);
    emit_ret("rlfit");
    JD("r", e);
    fputs("}\n", T);
    free(x);
    rl_mode = false;
}

/* histograms of the random choices, drawn repeatedly from one fixed situation */
static void
op_delstat(const cJSON *o)
{
    const int N = gi(o, "N", 4000);
    const int size = X->pset.size;
    if (size < 2)
        return;
    if (G(o, "err") != NULL)
        X->error = gd(o, "err", 0);
    tr_frame("delstat");
    struct Cl **cl = malloc(sizeof(*cl) * size);
    int *num = malloc(sizeof(int) * size), *hit = calloc(size, sizeof(int));
    int i = 0, bad = 0;
    for (const struct Clist *it = X->pset.list; it != NULL; it = it->next) {
        cl[i] = it->cl;
        num[i++] = it->cl->num;
    }
    const int pop = X->POP_SIZE;
    const int total = X->pset.num;
    for (int d = 0; d < N; ++d) {
        clset_init(&X->kset);
        X->POP_SIZE = total - 1;
        clset_pset_enforce_limit(X);
        int lost = 0, who = -1;
        for (i = 0; i < size; ++i) {
            if (cl[i]->num != num[i]) {
                lost += num[i] - cl[i]->num;
                who = i;
            }
            cl[i]->num = num[i];
        }
        if (lost != 1)
            ++bad;
        else
            ++hit[who];
        clset_free(&X->kset);
        clset_free(&X->pset);
        for (i = size - 1; i >= 0; --i)
            clset_add(&X->pset, cl[i]);
    }
    X->POP_SIZE = pop;
    tr_frame("delstat");
    fprintf(T, "{\"e\":\"DelStat\",\"N\":%d,\"bad\":%d", N, bad);
    JD("err", X->error);
    fputs(",\"H\":{", T);
    for (i = 0; i < size; ++i)
        fprintf(T, "%s\"r%d\":%d", i ? "," : "", tr_id(cl[i]), hit[i]);
    fputs("}}\n", T);
    free(cl);
    free(num);
    free(hit);
}
/* parent selection: run the EA with no limit pressure and undo it */
static void
op_selstat(const cJSON *o)
{
    const int N = gi(o, "N", 4000);
    const int size = X->pset.size;
    if (size < 2)
        return;
    int some = gi(o, "k", size); /* breed among the first some rules */
    if (some > size)
        some = size;
    tr_frame("selstat");
    struct Cl **cl = malloc(sizeof(*cl) * size);
    int *num = malloc(sizeof(int) * size), *tm = malloc(sizeof(int) * size);
    int *h1 = calloc(size, sizeof(int)), *h2 = calloc(size, sizeof(int));
    int i = 0, cross = 0, pairs = 0, same = 0;
    for (const struct Clist *it = X->pset.list; it != NULL; it = it->next) {
        cl[i] = it->cl;
        tm[i] = it->cl->time;
        num[i++] = it->cl->num;
    }
    const int pop = X->POP_SIZE, lambda = X->ea->lambda, t0 = X->time;
    const double th = X->ea->theta;
    X->POP_SIZE = 1000000;
    X->ea->lambda = 2;
    X->ea->theta = -1000000;
    struct Set set;
    for (int d = 0; d < N; ++d) {
        clset_init(&set);
        clset_init(&X->kset);
        for (i = some - 1; i >= 0; --i)
            clset_add(&set, cl[i]);
        n_off = 0;
        in_ea = true;
        bool tq = tracing;
        tracing = true;
        __real_ea(X, &set);
        tracing = tq;
        in_ea = false;
        if (n_off >= 2) {
            ++pairs;
            same += off[0].par == off[1].par;
            if (off[0].crossed)
                ++cross;
            for (i = 0; i < size; ++i) {
                if (tr_id(cl[i]) == off[0].par)
                    ++h1[i];
                if (tr_id(cl[i]) == off[1].par)
                    ++h2[i];
            }
        }
        for (i = 0; i < n_off; ++i) {
            free(off[i].g0);
            free(off[i].g1);
            free(off[i].g2);
        }
        /* undo */
        for (const struct Clist *it = X->pset.list; it != NULL;) {
            struct Cl *c = it->cl;
            it = it->next;
            bool old = false;
            for (i = 0; i < size; ++i)
                old = old || cl[i] == c;
            if (!old)
                cl_free(X, c);
        }
        clset_free(&X->pset);
        for (i = size - 1; i >= 0; --i) {
            cl[i]->num = num[i];
            cl[i]->time = tm[i];
            clset_add(&X->pset, cl[i]);
        }
        clset_free(&set);
        X->time = t0;
    }
    X->POP_SIZE = pop;
    X->ea->lambda = lambda;
    X->ea->theta = th;
    tr_frame("selstat");
    fprintf(T, "{\"e\":\"SelStat\",\"N\":%d,\"pairs\":%d,\"cross\":%d,\"same\":%d,\"order\":[", N,
            pairs, cross, same);
    for (i = 0; i < some; ++i)
        fprintf(T, "%s\"r%d\"", i ? "," : "", tr_id(cl[i]));
    fputs("],\"H1\":{", T);
    for (i = 0; i < some; ++i)
        fprintf(T, "%s\"r%d\":%d", i ? "," : "", tr_id(cl[i]), h1[i]);
    fputs("},\"H2\":{", T);
    for (i = 0; i < some; ++i)
        fprintf(T, "%s\"r%d\":%d", i ? "," : "", tr_id(cl[i]), h2[i]);
    fputs("}}\n", T);
    free(cl);
    free(num);
    free(tm);
    free(h1);
    free(h2);
}
/* each operator of each part of copies of some rules, reports and genotypes */
static void
op_parts(const cJSON *o)
{
    const int N = gi(o, "N", 3);
    tr_frame("parts");
    const bool tq = tracing;
    tracing = false;
    fputs("{\"e\":\"Parts\",\"mut\":[", T);
    int k = 0;
    for (const struct Clist *it = X->pset.list; it != NULL && k < 6 * N; it = it->next) {
        for (int d = 0; d < N; ++d, ++k) {
            struct Cl *c = malloc(sizeof(struct Cl));
            cl_init_copy(X, c, it->cl);
            char *g0 = geno(c);
            const bool cm = cond_mutate(X, c);
            char *g1 = geno(c);
            const bool pm = pred_mutate(X, c);
            char *g2 = geno(c);
            const bool am = act_mutate(X, c);
            char *g3 = geno(c);
            fprintf(T, "%s{\"r\":\"r%d\",\"cm\":%s,\"pm\":%s,\"am\":%s,\"g0\":%s,\"g1\":%s,\"g2\":%s,\"g3\":%s}", k ? "," : "",
                    tr_id(it->cl), cm ? "true" : "false", pm ? "true" : "false", am ? "true" : "false", g0, g1, g2, g3);
            free(g0);
            free(g1);
            free(g2);
            free(g3);
            cl_free(X, c);
        }
    }
    fputs("],\"cross\":[", T);
    k = 0;
    for (const struct Clist *it = X->pset.list; it != NULL && it->next != NULL && k < 4 * N; it = it->next) {
        for (int d = 0; d < N; ++d, ++k) {
            struct Cl *a = malloc(sizeof(struct Cl)), *b = malloc(sizeof(struct Cl));
            cl_init_copy(X, a, it->cl);
            cl_init_copy(X, b, it->next->cl);
            char *a0 = geno(a), *b0 = geno(b);
            const bool cx = cond_crossover(X, a, b);
            char *a1 = geno(a), *b1 = geno(b);
            const bool px = pred_crossover(X, a, b);
            const bool ax = act_crossover(X, a, b);
            char *a2 = geno(a), *b2 = geno(b);
            fprintf(T, "%s{\"cx\":%s,\"px\":%s,\"ax\":%s,\"a0\":%s,\"b0\":%s,\"a1\":%s,\"b1\":%s,\"a2\":%s,\"b2\":%s}", k ? "," : "",
                    cx ? "true" : "false", px ? "true" : "false", ax ? "true" : "false", a0, b0, a1, b1, a2, b2);
            free(a0);
            free(b0);
            free(a1);
            free(b1);
            free(a2);
            free(b2);
            cl_free(X, a);
            cl_free(X, b);
        }
    }
    tracing = tq;
    fputs("]}\n", T);
    tr_frame("parts");
}
/* action selection frequencies in one state, without any learning */
static void
op_actstat(const cJSON *o)
{
    const int N = gi(o, "N", 4000);
    const bool explore = gi(o, "explore", 1);
    double *x = darr(G(o, "x"), NULL);
    int *h = calloc(X->n_actions, sizeof(int));
    const bool tq = tracing;
    /* first decision observed (covers), the rest only counted */
    rl_mode = true;
    emit_call("actstat");
    fputs("}\n", T);
    param_set_explore(X, explore);
    xcs_rl_init_trial(X);
    xcs_rl_init_step(X);
    (void) xcs_rl_decision(X, x);
    clset_free(&X->mset);
    double *pa = malloc(sizeof(double) * X->pa_size);
    double *nr = malloc(sizeof(double) * X->pa_size);
    memcpy(pa, X->pa, sizeof(double) * X->pa_size);
    memcpy(nr, X->nr, sizeof(double) * X->pa_size);
    int bad = 0;
    for (int i = 0; i < N; ++i) {
        tracing = false;
        xcs_rl_init_step(X);
        const int a = xcs_rl_decision(X, x);
        clset_free(&X->mset);
        if (a >= 0 && a < X->n_actions)
            ++h[a];
        else
            ++bad;
    }
    tracing = tq;
    xcs_rl_end_trial(X);
    tr_sync(); /* ages advanced by the repeated matching */
    fprintf(T, "{\"e\":\"ActStat\",\"N\":%d,\"bad\":%d,\"ex\":%s,\"H\":", N, bad,
            explore ? "true" : "false");
    tr_ia(T, h, X->n_actions);
    fputs(",\"pa\":", T);
    tr_da(T, pa, X->pa_size);
    fputs(",\"nr\":", T);
    tr_da(T, nr, X->pa_size);
    fputs(",\"s\":", T);
    tr_state(T, X);
    fputs("}\n", T);
    free(h);
    free(pa);
    free(nr);
    free(x);
    rl_mode = false;
}

static void
op_insert(const cJSON *o)
{
    char *js = cJSON_PrintUnformatted(G(o, "pop"));
    emit_call("insert");
    fputs("}\n", T);
    const bool tq = tracing;
    tracing = false;
    clset_json_insert(X, js);
    tracing = tq;
    tr_sync();
    fputs("{\"e\":\"Reset\"", T);
    JD("err", X->error);
    fputs(",\"s\":", T);
    tr_state(T, X);
    fputs("}\n", T);
    free(js);
}
/* overwrite statistics of the rules (to place them in chosen regimes) */
static void
op_poke(const cJSON *o)
{
    int k = 0;
    const cJSON *v = G(o, "rules");
    const int n = cJSON_GetArraySize(v);
    int num = 0, left = X->pset.size;
    for (const struct Clist *it = X->pset.list; it != NULL; it = it->next) {
        const cJSON *r = cJSON_GetArrayItem(v, k++ % n);
        struct Cl *c = it->cl;
        c->num = gi(r, "num", c->num);
        /* never above the population limit */
        --left;
        if (num + c->num + left > X->POP_SIZE)
            c->num = X->POP_SIZE - num - left;
        c->exp = gi(r, "exp", c->exp);
        c->err = gd(r, "err", c->err);
        c->fit = gd(r, "fit", c->fit);
        c->size = gd(r, "size", c->size);
        c->time = gi(r, "time", c->time);
        c->age = gi(r, "age", c->age);
        c->mtotal = gi(r, "mtotal", c->mtotal);
        num += c->num;
    }
    X->pset.num = num;
    if (G(o, "error") != NULL)
        X->error = gd(o, "error", 0);
    if (G(o, "time") != NULL)
        X->time = gi(o, "time", 0);
    tr_sync();
    fputs("{\"e\":\"Reset\"", T);
    JD("err", X->error);
    fputs(",\"s\":", T);
    tr_state(T, X);
    fputs("}\n", T);
}

/* the configured loss of given predictions and targets */
static void
op_loss(const cJSON *o)
{
    const cJSON *ps = G(o, "p"), *ys = G(o, "y");
    for (int i = 0; i < cJSON_GetArraySize(ps); ++i) {
        double *p = darr(cJSON_GetArrayItem(ps, i), NULL);
        double *y = darr(cJSON_GetArrayItem(ys, i), NULL);
        const double v = (X->loss_ptr)(X, p, y);
        fputs("{\"e\":\"Loss\",\"p\":", T);
        tr_da(T, p, X->y_dim);
        fputs(",\"y\":", T);
        tr_da(T, y, X->y_dim);
        JD("v", v);
        fputs("}\n", T);
        free(p);
        free(y);
    }
}

/* environments: run the library's own experiment loop on a built-in problem */
static void
op_rlexp(const cJSON *o)
{
    rl_mode = true;
    emit_call("rlexp");
    fprintf(T, ",\"trials\":%d", gi(o, "trials", 1));
    JD("err", X->error);
    fputs("}\n", T);
    param_set_max_trials(X, gi(o, "trials", 1));
    param_set_perf_trials(X, 1000000);
    const double r = xcs_rl_exp(X);
    emit_ret("rlexp");
    JD("r", r);
    fputs("}\n", T);
    rl_mode = false;
}
/* observe the environment through its own table of operations */
static const struct EnvVtbl *env0;
static struct EnvVtbl env1;
static double
w_execute(const struct XCSF *x, const int a)
{
    const double r = env0->env_impl_execute(x, a);
    if (tracing) {
        fprintf(T, "{\"e\":\"Exec\",\"a\":%d", a);
        JD("r", r);
        fprintf(T, ",\"done\":%s,\"maxp\":", env0->env_impl_is_done(x) ? "true" : "false");
        tr_d(T, env0->env_impl_max_payoff(x));
        fprintf(T, ",\"multi\":%s}\n", env0->env_impl_multistep(x) ? "true" : "false");
    }
    return r;
}
static void
w_reset(const struct XCSF *x)
{
    env0->env_impl_reset(x);
    if (tracing) {
        fputs("{\"e\":\"EnvReset\"", T);
        JD("err", x->error);
        fputs("}\n", T);
    }
}

int
main(int argc, char **argv)
{
    if (argc < 3)
        return 64;
    FILE *f = fopen(argv[1], "rb");
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    rewind(f);
    char *buf = malloc(n + 1);
    if (fread(buf, 1, n, f) != (size_t) n)
        return 65;
    buf[n] = 0;
    fclose(f);
    cJSON *sc = cJSON_Parse(buf);
    if (sc == NULL)
        return 66;
    T = fopen(argv[2], "w");
    struct XCSF *xcsf = calloc(1, sizeof(struct XCSF));
    X = xcsf;
    const int xd = gi(sc, "x_dim", 1), yd = gi(sc, "y_dim", 1),
              na = gi(sc, "n_actions", 1);
    dump_cond = gi(sc, "dump_cond", 1);
    dump_pred = gi(sc, "dump_pred", 0);
    const cJSON *env = G(sc, "env");
    if (env != NULL) {
        /* env: ["maze", file] or ["mp", bits] */
        char *av[4] = { "xcsf", env->child->valuestring,
                        env->child->next->valuestring, NULL };
        env_init(X, av);
        env0 = X->env_vptr;
        env1 = *env0;
        env1.env_impl_execute = w_execute;
        env1.env_impl_reset = w_reset;
        X->env_vptr = &env1;
    } else {
        param_init(X, xd, yd, na);
    }
    param_set_random_state(X, gi(sc, "seed", 1));
    char *ps = cJSON_PrintUnformatted(G(sc, "params"));
    param_json_import(X, ps);
    free(ps);
    fflush(stdout);
    rand_init_seed((uint32_t) gi(sc, "seed", 1));
    xcsf_init(X);
    clset_init(&X->mset);
    clset_init(&X->aset);
    clset_init(&X->kset);
    clset_init(&X->prev_aset);
    fprintf(T, "{\"e\":\"Init\",\"name\":\"%s\",\"par\":",
            G(sc, "name") ? G(sc, "name")->valuestring : "");
    tr_params(T, X);
    JD("err", X->error);
    fputs(",\"s\":", T);
    tr_state(T, X);
    fputs("}\n", T);
    tr_sync();
    tracing = true;
    for (const cJSON *o = G(sc, "ops")->child; o != NULL; o = o->next) {
        const char *op = G(o, "op")->valuestring;
        if (!strcmp(op, "fit"))
            op_fit(o);
        else if (!strcmp(op, "predict"))
            op_predict(o);
        else if (!strcmp(op, "score"))
            op_score(o);
        else if (!strcmp(op, "rltrial"))
            op_rltrial(o);
        else if (!strcmp(op, "rlfit"))
            op_rlfit(o);
        else if (!strcmp(op, "rlexp"))
            op_rlexp(o);
        else if (!strcmp(op, "delstat"))
            op_delstat(o);
        else if (!strcmp(op, "selstat"))
            op_selstat(o);
        else if (!strcmp(op, "parts"))
            op_parts(o);
        else if (!strcmp(op, "actstat"))
            op_actstat(o);
        else if (!strcmp(op, "insert"))
            op_insert(o);
        else if (!strcmp(op, "loss"))
            op_loss(o);
        else if (!strcmp(op, "poke"))
            op_poke(o);
        else {
            fprintf(stderr, "unknown op %s\n", op);
            return 67;
        }
        fflush(T);
    }
    tracing = false;
    FILE *out = T;
    T = fopen("/dev/null", "w");
    clset_print(X, &X->pset, true, true, true);
    param_print(X);
    xcsf_free(X);
    if (env != NULL) {
        X->env_vptr = env0;
        env_free(X);
    }
    param_free(X);
    free(X);
    X = xcsf = NULL;
    fclose(T);
    T = out;
    tr_end();
    cJSON_Delete(sc);
    free(buf);
    return 0;
}
