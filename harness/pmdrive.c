/* pmdrive SCENARIO.json TRACE.ndjson
 * Replays a history of parameter settings (a behaviour of spec/ParamScenario.tla)
 * through setters, JSON and files, and records all parameter values in effect
 * and the reported description after each. */
#include "xtrace.h"
#include "../lib/cJSON/cJSON.h"
#include "config.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include <sys/wait.h>
#include <unistd.h>

static cJSON *
G(const cJSON *o, const char *k)
{
    return cJSON_GetObjectItemCaseSensitive(o, k);
}

/* ---- the parameters: name, how to read, how to set */
#define GEN_D(Z) \
    Z("gamma", GAMMA, param_set_gamma) Z("p_explore", P_EXPLORE, param_set_p_explore) \
    Z("alpha", ALPHA, param_set_alpha) Z("beta", BETA, param_set_beta) Z("delta", DELTA, param_set_delta) \
    Z("e0", E0, param_set_e0) Z("init_error", INIT_ERROR, param_set_init_error) \
    Z("init_fitness", INIT_FITNESS, param_set_init_fitness) Z("nu", NU, param_set_nu) \
    Z("huber_delta", HUBER_DELTA, param_set_huber_delta) \
    Z("ea.select_size", ea->select_size, ea_param_set_select_size) Z("ea.theta_ea", ea->theta, ea_param_set_theta) \
    Z("ea.p_crossover", ea->p_crossover, ea_param_set_p_crossover) Z("ea.err_reduc", ea->err_reduc, ea_param_set_err_reduc) \
    Z("ea.fit_reduc", ea->fit_reduc, ea_param_set_fit_reduc)
#define GEN_I(Z) \
    Z("x_dim", x_dim, param_set_x_dim) Z("y_dim", y_dim, param_set_y_dim) Z("n_actions", n_actions, param_set_n_actions) \
    Z("omp_num_threads", OMP_NUM_THREADS, param_set_omp_num_threads) Z("random_state", RANDOM_STATE, param_set_random_state) \
    Z("pop_init", POP_INIT, param_set_pop_init) Z("max_trials", MAX_TRIALS, param_set_max_trials) \
    Z("perf_trials", PERF_TRIALS, param_set_perf_trials) Z("pop_size", POP_SIZE, param_set_pop_size) \
    Z("teletransportation", TELETRANSPORTATION, param_set_teletransportation) Z("theta_del", THETA_DEL, param_set_theta_del) \
    Z("m_probation", M_PROBATION, param_set_m_probation) Z("theta_sub", THETA_SUB, param_set_theta_sub) \
    Z("set_subsumption", SET_SUBSUMPTION, param_set_set_subsumption) Z("stateful", STATEFUL, param_set_stateful) \
    Z("compaction", COMPACTION, param_set_compaction) \
    Z("ea.lambda", ea->lambda, ea_param_set_lambda) Z("ea.subsumption", ea->subsumption, ea_param_set_subsumption) \
    Z("ea.pred_reset", ea->pred_reset, ea_param_set_pred_reset)
#define SUB(Z) \
    Z("cond.eta", cond->eta, cond_param_set_eta(x, v)) Z("cond.min", cond->min, cond_param_set_min(x, v)) \
    Z("cond.max", cond->max, cond_param_set_max(x, v)) Z("cond.spread_min", cond->spread_min, cond_param_set_spread_min(x, v)) \
    Z("cond.p_dontcare", cond->p_dontcare, cond_param_set_p_dontcare(x, v)) Z("cond.bits", cond->bits, cond_param_set_bits(x, (int) v)) \
    Z("dgp.max_k", cond->dargs->max_k, graph_param_set_max_k(x->cond->dargs, (int) v)) \
    Z("dgp.max_t", cond->dargs->max_t, graph_param_set_max_t(x->cond->dargs, (int) v)) \
    Z("dgp.n", cond->dargs->n, graph_param_set_n(x->cond->dargs, (int) v)) \
    Z("dgp.evolve_cycles", cond->dargs->evolve_cycles, graph_param_set_evolve_cycles(x->cond->dargs, v != 0)) \
    Z("gp.min_constant", cond->targs->min, tree_param_set_min(x->cond->targs, v)) \
    Z("gp.max_constant", cond->targs->max, tree_param_set_max(x->cond->targs, v)) \
    Z("gp.n_constants", cond->targs->n_constants, (tree_param_set_n_constants(x->cond->targs, (int) v), tree_args_init_constants(x->cond->targs))) \
    Z("gp.init_depth", cond->targs->init_depth, tree_param_set_init_depth(x->cond->targs, (int) v)) \
    Z("gp.max_len", cond->targs->max_len, tree_param_set_max_len(x->cond->targs, (int) v)) \
    Z("pred.eta", pred->eta, pred_param_set_eta(x, v)) Z("pred.eta_min", pred->eta_min, pred_param_set_eta_min(x, v)) \
    Z("pred.lambda", pred->lambda, pred_param_set_lambda(x, v)) Z("pred.scale_factor", pred->scale_factor, pred_param_set_scale_factor(x, v)) \
    Z("pred.x0", pred->x0, pred_param_set_x0(x, v)) Z("pred.evolve_eta", pred->evolve_eta, pred_param_set_evolve_eta(x, v != 0))

static const char *
set(struct XCSF *x, const char *k, double v)
{
#define Z(n, f, s) \
    if (strcmp(k, n) == 0) \
        return s(x, v);
    GEN_D(Z)
    GEN_I(Z)
#undef Z
#define Z(n, f, s) \
    if (strcmp(k, n) == 0) { \
        s; \
        return NULL; \
    }
    SUB(Z)
#undef Z
    fprintf(stderr, "unknown parameter %s\n", k);
    exit(99);
}
static const char *
set_str(struct XCSF *x, const char *k, const char *v)
{
    if (strcmp(k, "loss_func") == 0)
        return param_set_loss_func_string(x, v) == PARAM_INVALID ? "invalid" : NULL;
    if (strcmp(k, "ea.select_type") == 0)
        return ea_param_set_type_string(x, v) == EA_SELECT_INVALID ? "invalid" : NULL;
    if (strcmp(k, "cond.type") == 0)
        return cond_param_set_type_string(x, v) == COND_TYPE_INVALID ? "invalid" : NULL;
    if (strcmp(k, "pred.type") == 0)
        return pred_param_set_type_string(x, v) == PRED_TYPE_INVALID ? "invalid" : NULL;
    if (strcmp(k, "act.type") == 0)
        return action_param_set_type_string(x, v) == ACT_TYPE_INVALID ? "invalid" : NULL;
    if (strcmp(k, "population_file") == 0)
        return param_set_population_file(x, v);
    fprintf(stderr, "unknown parameter %s\n", k);
    exit(99);
}
/* which loss is computed: its value on a fixed pair of vectors tells */
static double
loss_probe(const struct XCSF *x0)
{
    struct XCSF y = *x0;
    y.y_dim = 2;
    const double p[2] = { 0.6, 0.3 }, t[2] = { 0, 1 };
    return y.loss_ptr(&y, p, t);
}
/* the layers of a network as configured; what the geometry implies is left out */
static void
layers(FILE *f, const char *name, const struct ArgsLayer *a)
{
    static const struct { int t; const char *n; } types[] = {
        { CONNECTED, "connected" }, { DROPOUT, "dropout" }, { NOISE, "noise" }, { SOFTMAX, "softmax" }, { RECURRENT, "recurrent" },
        { LSTM, "lstm" }, { MAXPOOL, "maxpool" }, { CONVOLUTIONAL, "convolutional" }, { AVGPOOL, "avgpool" }, { UPSAMPLE, "upsample" } };
    static const struct { int t; const char *n; } acts[] = {
        { LOGISTIC, "logistic" }, { RELU, "relu" }, { TANH, "tanh" }, { LINEAR, "linear" }, { GAUSSIAN, "gaussian" }, { SIN, "sin" },
        { COS, "cos" }, { SOFT_PLUS, "softplus" }, { LEAKY, "leaky" }, { SELU, "selu" }, { LOGGY, "loggy" } };
    fprintf(f, ",\"%s\":[", name);
    for (int k = 0; a != NULL; a = a->next, ++k) {
        const char *t = "?", *u = "?", *v = "?";
        for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); ++i)
            if (types[i].t == a->type)
                t = types[i].n;
        for (size_t i = 0; i < sizeof(acts) / sizeof(acts[0]); ++i) {
            if (acts[i].t == a->function)
                u = acts[i].n;
            if (acts[i].t == a->recurrent_function)
                v = acts[i].n;
        }
        fprintf(f, "%s{\"type\":\"%s\",\"activation\":\"%s\",\"recurrent_activation\":\"%s\"", k ? "," : "", t, u, v);
#define Z(n) \
    fputs(",\"" #n "\":", f); \
    tr_d(f, a->n);
        const bool w = a->type == CONNECTED || a->type == RECURRENT || a->type == LSTM || a->type == CONVOLUTIONAL;
        fputs(",\"n_init\":", f);
        tr_d(f, w ? a->n_init : 0);
        fputs(",\"n_max\":", f);
        tr_d(f, w ? a->n_max : 0);
        Z(max_neuron_grow) Z(eta) Z(eta_min) Z(momentum) Z(decay) Z(probability) Z(scale)
        Z(evolve_weights) Z(evolve_neurons) Z(evolve_functions) Z(evolve_eta) Z(evolve_connect) Z(sgd_weights)
#undef Z
        const bool img = a->type == CONVOLUTIONAL || a->type == MAXPOOL || a->type == UPSAMPLE;
        fputs(",\"size\":", f);
        tr_d(f, img ? a->size : 0);
        fputs(",\"stride\":", f);
        tr_d(f, img ? a->stride : 0);
        fputs(",\"pad\":", f);
        tr_d(f, img ? a->pad : 0);
        fputc('}', f);
    }
    fputc(']', f);
}
static void
values(FILE *f, const struct XCSF *x)
{
    fputc('{', f);
#define Z(n, fld, s) \
    fputs("\"" n "\":", f); \
    tr_d(f, x->fld); \
    fputc(',', f);
    GEN_D(Z)
    GEN_I(Z)
    SUB(Z)
#undef Z
    fprintf(f, "\"loss_func\":\"%s\",\"ea.select_type\":\"%s\",\"cond.type\":\"%s\",\"pred.type\":\"%s\",\"act.type\":\"%s\",\"population_file\":\"%s\"",
            loss_type_as_string(x->LOSS_FUNC), ea_type_as_string(x->ea->select_type), condition_type_as_string(x->cond->type),
            prediction_type_as_string(x->pred->type), action_type_as_string(x->act->type), x->population_file);
    fputs(",\"probe\":", f);
    tr_d(f, loss_probe(x));
    fputs(",\"in\":", f);
    const int in[2] = { x->cond->dargs->n_inputs, x->cond->targs->n_inputs };
    tr_ia(f, in, 2);
    fputs(",\"const\":[", f);
    for (int i = 0; i < x->cond->targs->n_constants; ++i) {
        if (i)
            fputc(',', f);
        tr_d(f, x->cond->targs->constants[i]);
    }
    fputc(']', f);
    layers(f, "net.cond", x->cond->largs);
    layers(f, "net.pred", x->pred->largs);
    layers(f, "net.act", x->act->largs);
    const int ni[3] = { x->cond->largs->n_inputs, x->pred->largs->n_inputs, x->act->largs->n_inputs };
    fputs(",\"nin\":", f);
    tr_ia(f, ni, 3);
    fputc('}', f);
}
static void
emit_json(FILE *f, const cJSON *v)
{
    if (v == NULL || cJSON_IsNull(v))
        fputs("\"null\"", f);
    else if (cJSON_IsNumber(v))
        tr_d(f, v->valuedouble);
    else if (cJSON_IsBool(v)) /* as a number: so are the values in effect */
        tr_d(f, cJSON_IsTrue(v));
    else if (cJSON_IsString(v)) {
        char *s = cJSON_PrintUnformatted(v);
        fputs(s, f);
        free(s);
    } else {
        const bool ob = cJSON_IsObject(v);
        fputc(ob ? '{' : '[', f);
        int i = 0;
        for (const cJSON *c = v->child; c != NULL; c = c->next) {
            if (i++)
                fputc(',', f);
            if (ob)
                fprintf(f, "\"%s\":", c->string);
            emit_json(f, c);
        }
        if (ob && i == 0)
            fputs("\"empty\":0", f);
        fputc(ob ? '}' : ']', f);
    }
}
static void
both(FILE *f, const struct XCSF *x)
{
    fputs("\"S\":", f);
    values(f, x);
    fputs(",\"E\":", f);
    char *e = param_json_export(x);
    cJSON *j = cJSON_Parse(e);
    emit_json(f, j);
    cJSON_Delete(j);
    free(e);
}
/* what a child process makes of it: it may stop the process */
static void
forked(FILE *f, struct XCSF *x, const char *text)
{
    int p[2];
    if (pipe(p) != 0)
        exit(98);
    fflush(NULL);
    const pid_t c = fork();
    if (c == 0) {
        close(p[0]);
        if (freopen("/dev/null", "w", stdout) == NULL)
            _exit(97);
        param_json_import(x, text);
        FILE *o = fdopen(p[1], "w");
        values(o, x);
        fclose(o);
        _exit(0);
    }
    close(p[1]);
    char *b = NULL;
    size_t n;
    FILE *m = open_memstream(&b, &n);
    char buf[4096];
    ssize_t r;
    while ((r = read(p[0], buf, sizeof(buf))) > 0)
        fwrite(buf, 1, r, m);
    fclose(m);
    close(p[0]);
    int st;
    waitpid(c, &st, 0);
    const bool ran = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    const char *how = ran ? "ran" : WIFEXITED(st) && WEXITSTATUS(st) != 77 ? "stopped" : "crashed";
    fprintf(f, ",\"r\":\"%s\",\"S2\":%s", how, ran ? b : "{\"none\":0}");
    free(b);
}

/* the same settings as a configuration file */
static void
config(struct XCSF *x, const cJSON *kv, int style, const char *base)
{
    char name[4096];
    snprintf(name, sizeof(name), "%s.conf", base);
    FILE *f = fopen(name, "w");
    char *t = style < 2 ? cJSON_PrintUnformatted(kv) : cJSON_Print(kv);
    if (style >= 2)
        fputs("# settings\n\n", f);
    for (const char *c = t; *c; ++c) {
        if (style >= 2 && *c == '\n')
            fputs(style == 2 ? " # why" : "\r\n\t # , } why\n", f);
        fputc(*c, f);
    }
    fputs(style == 0 ? "" : style == 3 ? "\n\n# end" : "\n", f);
    fclose(f);
    free(t);
    config_read(x, name);
    unlink(name);
}

int
main(int argc, char **argv)
{
    FILE *s = fopen(argv[1], "r");
    fseek(s, 0, SEEK_END);
    const long n = ftell(s);
    rewind(s);
    char *b = calloc(n + 1, 1);
    if (fread(b, 1, n, s) != (size_t) n)
        return 98;
    fclose(s);
    cJSON *sc = cJSON_Parse(b);
    T = fopen(argv[2], "w");
    struct XCSF x;
    memset(&x, 0, sizeof(x));
    const cJSON *d = G(sc, "dims");
    param_init(&x, cJSON_GetArrayItem(d, 0)->valueint, cJSON_GetArrayItem(d, 1)->valueint, cJSON_GetArrayItem(d, 2)->valueint);
    fputs("{\"e\":\"Init\",\"dims\":", T);
    emit_json(T, d);
    fputc(',', T);
    both(T, &x);
    fputs("}\n", T);
    for (const cJSON *o = G(sc, "ops")->child; o != NULL; o = o->next) {
        const char *op = G(o, "op")->valuestring;
        fprintf(T, "{\"e\":\"%s\"", op);
        if (strcmp(op, "set") == 0) {
            const cJSON *v = G(o, "v");
            const char *k = G(o, "name")->valuestring;
            const char *r = cJSON_IsString(v) ? set_str(&x, k, v->valuestring) : set(&x, k, cJSON_IsBool(v) ? cJSON_IsTrue(v) : v->valuedouble);
            fprintf(T, ",\"name\":\"%s\",\"v\":", k);
            emit_json(T, v);
            fprintf(T, ",\"r\":\"%s\"", r == NULL ? "ok" : "err");
        } else if (strcmp(op, "json") == 0) {
            char *t = cJSON_PrintUnformatted(G(o, "kv"));
            param_json_import(&x, t);
            free(t);
            fputs(",\"kv\":", T);
            emit_json(T, G(o, "kv"));
        } else if (strcmp(op, "conf") == 0) {
            config(&x, G(o, "kv"), G(o, "style")->valueint, argv[2]);
            fputs(",\"kv\":", T);
            emit_json(T, G(o, "kv"));
        } else if (strcmp(op, "bad") == 0) {
            char *t = cJSON_PrintUnformatted(G(o, "kv"));
            fputs(",\"kv\":", T);
            emit_json(T, G(o, "kv"));
            forked(T, &x, t);
            free(t);
        } else { /* round, file: into another instance */
            struct XCSF y;
            memset(&y, 0, sizeof(y));
            param_init(&y, 1, 1, 1);
            if (strcmp(op, "round") == 0) {
                char *e = param_json_export(&x);
                param_json_import(&y, e);
                free(e);
            } else {
                FILE *f = tmpfile();
                const size_t w = param_save(&x, f);
                rewind(f);
                const size_t r = param_load(&y, f);
                fprintf(T, ",\"same\":%s", w == r ? "true" : "false");
                fclose(f);
            }
            fputs(",\"S2\":", T);
            values(T, &y);
            param_free(&y);
        }
        fputc(',', T);
        both(T, &x);
        fputs("}\n", T);
        fflush(T);
    }
    param_free(&x);
    tr_end();
    cJSON_Delete(sc);
    free(b);
    return 0;
}
