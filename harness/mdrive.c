/* mdrive SCENARIO.json TRACE.ndjson
 * Replays a history of training, saving, loading, storing, retrieving, exporting
 * and inserting on several models (a behaviour of spec/PersistScenario.tla) and
 * records, after every operation, the full content of each model it changed. */
#include "xtrace.h"
#include "../lib/cJSON/cJSON.h"
#include <unistd.h>

#define MAXM 8
static struct XCSF *M[MAXM];
static char *last[MAXM];
static int n_models;
static char *exported[16];

static cJSON *
G(const cJSON *o, const char *k)
{
    return cJSON_GetObjectItemCaseSensitive(o, k);
}
static double
gd(const cJSON *o, const char *k, double d)
{
    const cJSON *v = G(o, k);
    return v == NULL ? d : cJSON_IsBool(v) ? cJSON_IsTrue(v) : v->valuedouble;
}
static int
gi(const cJSON *o, const char *k, int d)
{
    return (int) gd(o, k, d);
}
static int
flat(const cJSON *a, double *out, int n)
{
    if (cJSON_IsArray(a))
        for (const cJSON *v = a->child; v != NULL; v = v->next)
            n = flat(v, out, n);
    else {
        if (out)
            out[n] = a->valuedouble;
        ++n;
    }
    return n;
}
static double *
darr(const cJSON *a, int *n)
{
    int k = a ? flat(a, NULL, 0) : 0;
    double *v = malloc(sizeof(double) * (k ? k : 1));
    if (a)
        flat(a, v, 0);
    if (n)
        *n = k;
    return v;
}
/* JSON text with every number written as a bit pattern */
static void
emit_json(FILE *f, const cJSON *v)
{
    if (v == NULL || cJSON_IsNull(v))
        fputs("\"null\"", f);
    else if (cJSON_IsNumber(v))
        tr_d(f, v->valuedouble);
    else if (cJSON_IsBool(v))
        fputs(cJSON_IsTrue(v) ? "true" : "false", f);
    else if (cJSON_IsString(v)) {
        char *s = cJSON_PrintUnformatted(v);
        fputs(s, f);
        free(s);
    } else {
        const bool ob = cJSON_IsObject(v);
        fputc(ob ? '{' : '[', f);
        int i = 0;
        for (const cJSON *c = v->child; c != NULL; c = c->next) {
            if (i++)
                fputc(',', f);
            if (ob)
                fprintf(f, "\"%s\":", c->string);
            emit_json(f, c);
        }
        if (ob && i == 0)
            fputs("\"empty\":0", f);
        fputc(ob ? '}' : ']', f);
    }
}
static void
emit_json_str(FILE *f, const char *s)
{
    cJSON *j = cJSON_Parse(s);
    emit_json(f, j);
    cJSON_Delete(j);
}
static void
rules(FILE *f, const struct XCSF *x, const struct Set *s)
{
    fputc('[', f);
    int i = 0;
    for (const struct Clist *it = s->list; it != NULL; it = it->next) {
        if (i > 100000)
            abort();
        if (i++)
            fputc(',', f);
        tr_rule(f, x, it->cl);
    }
    fputc(']', f);
}
static char *
content(const struct XCSF *x)
{
    char *b = NULL;
    size_t n;
    FILE *f = open_memstream(&b, &n);
    fprintf(f, "{\"t\":%d,\"n\":%d,\"z\":%d,\"pas\":%d,\"err\":", x->time, x->pset.num, x->pset.size, x->pa_size);
    tr_d(f, x->error);
    fputs(",\"ms\":", f);
    tr_d(f, x->mset_size);
    fputs(",\"as\":", f);
    tr_d(f, x->aset_size);
    fputs(",\"mf\":", f);
    tr_d(f, x->mfrac);
    fputs(",\"par\":", f);
    tr_params(f, x);
    fputs(",\"pj\":", f);
    char *pj = param_json_export(x);
    emit_json_str(f, pj);
    free(pj);
    fputs(",\"R\":", f);
    rules(f, x, &x->pset);
    fprintf(f, ",\"sn\":%d,\"S\":", x->prev_pset.size);
    rules(f, x, &x->prev_pset);
    fputc('}', f);
    fclose(f);
    return b;
}
/* contents of the models that differ from what was last written */
static void
emit_changes(void)
{
    fputs(",\"C\":{\"none\":0", T);
    for (int i = 0; i < n_models; ++i) {
        char *b = content(M[i]);
        if (last[i] == NULL || strcmp(last[i], b) != 0) {
            fprintf(T, ",\"m%d\":%s", i, b);
            free(last[i]);
            last[i] = b;
        } else
            free(b);
    }
    fputs("}}\n", T);
    fflush(T);
}
static void
fresh(int i, const cJSON *c, const char *popfile)
{
    if (M[i] != NULL) {
        xcsf_free(M[i]);
        param_free(M[i]);
        free(M[i]);
    }
    struct XCSF *x = calloc(1, sizeof(struct XCSF));
    M[i] = x;
    param_init(x, gi(c, "x_dim", 1), gi(c, "y_dim", 1), gi(c, "n_actions", 1));
    param_set_random_state(x, gi(c, "seed", 1));
    char *ps = cJSON_PrintUnformatted(G(c, "params"));
    param_json_import(x, ps);
    free(ps);
    if (popfile != NULL)
        param_set_population_file(x, popfile);
    rand_init_seed((uint32_t) gi(c, "seed", 1));
    xcsf_init(x);
}
/* puts the random number generator in a known state, as building a seeded
 * model does */
static void
reseed(const int k)
{
    struct XCSF x;
    memset(&x, 0, sizeof(x));
    param_init(&x, 1, 1, 1);
    param_set_pop_init(&x, false);
    param_set_random_state(&x, k);
    xcsf_init(&x);
    xcsf_free(&x);
    param_free(&x);
}
static void
train(struct XCSF *x, const cJSON *o)
{
    int nx, ny;
    double *xs = darr(G(o, "x"), &nx), *ys = darr(G(o, "y"), &ny);
    const int n = nx / x->x_dim, trials = gi(o, "trials", 1);
    reseed(gi(o, "seed", 1));
    double r = 0;
    if (x->n_actions > 1) {
        for (int t = 0; t < trials; ++t) {
            const int k = t % n;
            r += xcs_rl_fit(x, xs + k * x->x_dim, (t + gi(o, "start", 0)) % x->n_actions, ys[k * x->y_dim]);
        }
    } else {
        struct Input in = { xs, ys, x->x_dim, x->y_dim, n };
        r = xcs_supervised_fit(x, &in, NULL, gi(o, "shuffle", 0), gi(o, "start", 0), trials);
    }
    fputs(",\"r\":", T);
    tr_d(T, r);
    free(xs);
    free(ys);
}
static void
predict(struct XCSF *x, const cJSON *o)
{
    int nx, nc;
    double *xs = darr(G(o, "x"), &nx), *cov = darr(G(o, "cover"), &nc);
    const int n = nx / x->x_dim;
    double *out = calloc((size_t) n * x->pa_size, sizeof(double));
    double *cv = calloc(x->pa_size, sizeof(double));
    for (int i = 0; i < x->pa_size; ++i)
        cv[i] = nc ? cov[i % nc] : 0;
    xcs_supervised_predict(x, xs, out, n, cv);
    fputs(",\"x\":[", T);
    for (int i = 0; i < n; ++i) {
        if (i)
            fputc(',', T);
        tr_da(T, xs + i * x->x_dim, x->x_dim);
    }
    fputs("],\"cv\":", T);
    tr_da(T, cv, x->pa_size);
    fputs(",\"out\":[", T);
    for (int i = 0; i < n; ++i) {
        if (i)
            fputc(',', T);
        tr_da(T, out + i * x->pa_size, x->pa_size);
    }
    fputs("]", T);
    free(xs);
    free(cov);
    free(cv);
    free(out);
}

int
main(int argc, char **argv)
{
    if (argc < 3)
        return 64;
    FILE *f = fopen(argv[1], "rb");
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    rewind(f);
    char *buf = malloc(n + 1);
    if (fread(buf, 1, n, f) != (size_t) n)
        return 65;
    buf[n] = 0;
    fclose(f);
    cJSON *sc = cJSON_Parse(buf);
    if (sc == NULL)
        return 66;
    T = fopen(argv[2], "w");
    dump_cond = dump_pred = dump_act = true;
    dump_hash = false;
    dump_out = false;
    const cJSON *cfgs = G(sc, "cfgs");
    n_models = gi(sc, "models", 2);
    char fn[4096];
    fputs("{\"e\":\"Init\"", T);
    for (int i = 0; i < n_models; ++i)
        fresh(i, cJSON_GetArrayItem(cfgs, i % cJSON_GetArraySize(cfgs)), NULL);
    emit_changes();
    for (const cJSON *o = G(sc, "ops")->child; o != NULL; o = o->next) {
        const char *op = G(o, "op")->valuestring;
        const int m = gi(o, "m", 0), a = gi(o, "f", 0);
        snprintf(fn, sizeof fn, "%s.f%d", argv[2], a);
        struct XCSF *x = M[m];
        X = x;
        fprintf(T, "{\"e\":\"%s\",\"m\":\"m%d\",\"f\":\"f%d\",\"k\":\"", op, m, a);
        /* what training was given, for comparing histories */
        cJSON *od = cJSON_Duplicate(o, 1);
        cJSON_DeleteItemFromObject(od, "m");
        char *key = cJSON_PrintUnformatted(od);
        cJSON_Delete(od);
        for (const char *c = key; *c; ++c)
            if (*c != '"' && *c != '\\')
                fputc(*c, T);
        free(key);
        fputc('"', T);
        fflush(T);
        if (!strcmp(op, "fresh")) {
            fresh(m, cJSON_GetArrayItem(cfgs, gi(o, "cfg", 0)), NULL);
        } else if (!strcmp(op, "construct")) {
            /* a new model with a population file */
            strcat(fn, ".pop");
            FILE *pf = fopen(fn, "w");
            fputs(exported[a], pf);
            fclose(pf);
            fresh(m, cJSON_GetArrayItem(cfgs, gi(o, "cfg", 0)), fn);
            unlink(fn);
        } else if (!strcmp(op, "train"))
            train(x, o);
        else if (!strcmp(op, "predict"))
            predict(x, o);
        else if (!strcmp(op, "save"))
            xcsf_save(x, fn);
        else if (!strcmp(op, "load"))
            xcsf_load(x, fn);
        else if (!strcmp(op, "store"))
            xcsf_store_pset(x);
        else if (!strcmp(op, "retrieve"))
            xcsf_retrieve_pset(x);
        else if (!strcmp(op, "expand"))
            xcsf_pred_expand(x);
        else if (!strcmp(op, "toclass")) {
            xcsf_ae_to_classifier(x, gi(o, "y", 1), gi(o, "d", 1));
            fprintf(T, ",\"y\":%d", gi(o, "y", 1));
        } else if (!strcmp(op, "export")) {
            free(exported[a]);
            exported[a] = clset_json_export(x, &x->pset, true, true, true);
            fputs(",\"J\":", T);
            emit_json_str(T, exported[a]);
        } else if (!strcmp(op, "insert"))
            clset_json_insert(x, exported[a]);
        else if (!strcmp(op, "parimport")) {
            /* import another model's exported parameters */
            char *pj = param_json_export(M[gi(o, "from", 0)]);
            param_json_import(x, pj);
            free(pj);
        } else {
            fprintf(stderr, "unknown op %s\n", op);
            return 67;
        }
        emit_changes();
    }
    for (int i = 0; i < 16; ++i) {
        snprintf(fn, sizeof fn, "%s.f%d", argv[2], i);
        unlink(fn);
    }
    for (int i = 0; i < n_models; ++i) {
        clset_print(M[i], &M[i]->pset, true, true, true);
        param_print(M[i]);
        xcsf_free(M[i]);
        param_free(M[i]);
        free(M[i]);
        M[i] = NULL;
    }
    X = NULL;
    tr_end();
    cJSON_Delete(sc);
    free(buf);
    return 0;
}
