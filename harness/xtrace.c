#include "xtrace.h"

FILE *T;
bool tracing = false;
struct XCSF *X;
bool dump_cond = true, dump_pred = false, dump_act = true, dump_hash = true;
bool dump_out = true;
bool dump_mem = false; /* with the outputs, the memory of recurrent layers */

void
tr_d(FILE *f, double v)
{
    uint64_t u;
    memcpy(&u, &v, 8);
    fprintf(f, "\"#%016" PRIx64 "\"", u);
}
void
tr_da(FILE *f, const double *v, int n)
{
    fputc('[', f);
    for (int i = 0; i < n; ++i) {
        if (i)
            fputc(',', f);
        tr_d(f, v[i]);
    }
    fputc(']', f);
}
void
tr_ia(FILE *f, const int *v, int n)
{
    fputc('[', f);
    for (int i = 0; i < n; ++i)
        fprintf(f, "%s%d", i ? "," : "", v[i]);
    fputc(']', f);
}

/* ---- rule identity: pointer -> id, renewed at cl_init and cl_free ---- */
static struct {
    const struct Cl *p;
    int id;
} *ids;
static int n_ids, cap_ids, next_id = 1;

static int
find(const struct Cl *c)
{
    for (int i = 0; i < n_ids; ++i)
        if (ids[i].p == c)
            return i;
    return -1;
}
void
tr_newid(const struct Cl *c)
{
    int i = find(c);
    if (i < 0) {
        if (n_ids == cap_ids) {
            cap_ids = cap_ids ? 2 * cap_ids : 256;
            ids = realloc(ids, sizeof(*ids) * cap_ids);
        }
        i = n_ids++;
    }
    ids[i].p = c;
    ids[i].id = next_id++;
}
int
tr_id(const struct Cl *c)
{
    int i = find(c);
    if (i < 0) {
        tr_newid(c);
        i = find(c);
    }
    return ids[i].id;
}
int
tr_id_known(const struct Cl *c)
{
    int i = find(c);
    return i < 0 ? 0 : ids[i].id;
}
void
tr_forget(const struct Cl *c)
{
    int i = find(c);
    if (i >= 0)
        ids[i] = ids[--n_ids];
}
void
tr_forget_all(void)
{
    n_ids = 0;
    next_id = 1;
}

/* ---- hashes of what the library itself would write to a model file ---- */
static uint64_t
fnv(const char *b, size_t n)
{
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < n; ++i) {
        h ^= (unsigned char) b[i];
        h *= 1099511628211ULL;
    }
    return h;
}
static uint64_t
hash_part(const struct XCSF *x, const struct Cl *c, int part)
{
    char *buf = NULL;
    size_t n = 0;
    FILE *m = open_memstream(&buf, &n);
    if (part == 0)
        cond_save(x, c, m);
    else if (part == 1)
        pred_save(x, c, m);
    else
        act_save(x, c, m);
    fclose(m);
    uint64_t h = fnv(buf, n);
    free(buf);
    return h;
}

void
tr_graph(FILE *f, const struct Graph *g)
{
    fprintf(f, "{\"n\":%d,\"k\":%d,\"mt\":%d,\"ni\":%d,\"t\":%d,\"ec\":%d,\"fn\":", g->n, g->max_k, g->max_t, g->n_inputs, g->t, g->evolve_cycles);
    tr_ia(f, g->function, g->n);
    fputs(",\"cn\":", f);
    tr_ia(f, g->connectivity, g->klen);
    fputs(",\"i0\":", f);
    tr_da(f, g->initial_state, g->n);
    fputs(",\"st\":", f);
    tr_da(f, g->state, g->n);
    fputs(",\"mu\":", f);
    tr_da(f, g->mu, 3);
    fputc('}', f);
}
static void
tr_layer(FILE *f, const struct Layer *l)
{
    fprintf(f, "{\"ty\":%d,\"fn\":%d,\"rf\":%d,\"ni\":%d,\"no\":%d,\"mo\":%d,\"nw\":%d,\"nb\":%d,\"na\":%d,\"opt\":%u", l->type, l->function, l->recurrent_function, l->n_inputs,
            l->n_outputs, l->max_outputs, l->n_weights, l->n_biases,
            l->n_active, l->options);
    fprintf(f, ",\"h\":%d,\"w\":%d,\"c\":%d,\"pd\":%d,\"ow\":%d,\"oh\":%d,\"oc\":%d,\"sz\":%d,\"sd\":%d,\"nf\":%d",
            l->height, l->width, l->channels, l->pad,
            l->type >= MAXPOOL ? l->out_w : 0, /* bookkeeping elsewhere */
            l->type >= MAXPOOL ? l->out_h : 0,
            l->type >= MAXPOOL ? l->out_c : 0, l->size, l->stride,
            l->n_filters);
    fputs(",\"eta\":", f);
    tr_d(f, l->eta);
    fputs(",\"emin\":", f);
    tr_d(f, l->eta_min);
    fputs(",\"emax\":", f);
    tr_d(f, l->eta_max);
    fputs(",\"mom\":", f);
    tr_d(f, l->momentum);
    fputs(",\"dec\":", f);
    tr_d(f, l->decay);
    fputs(",\"sc\":", f);
    tr_d(f, l->scale);
    fputs(",\"pr\":", f);
    tr_d(f, l->probability);
    const bool own = l->type == CONNECTED || l->type == CONVOLUTIONAL;
    fputs(",\"W\":", f);
    tr_da(f, l->weights, own ? l->n_weights : 0);
    fputs(",\"B\":", f);
    tr_da(f, l->biases, own ? l->n_biases : 0);
    fputs(",\"dW\":", f);
    tr_da(f, l->weight_updates, own ? l->n_weights : 0);
    fputs(",\"dB\":", f);
    tr_da(f, l->bias_updates, own ? l->n_biases : 0);
    fputs(",\"A\":[", f);
    for (int i = 0; own && i < l->n_weights; ++i)
        fprintf(f, "%s%d", i ? "," : "", (int) l->weight_active[i]);
    fputs("]", f);
    if (dump_out) {
        fputs(",\"O\":", f);
        const double *out = layer_output(l);
        tr_da(f, out, out ? l->n_outputs : 0);
    }
    if (!dump_out || dump_mem) {
        fprintf(f, ",\"mg\":%d", l->max_neuron_grow);
        if (l->type == RECURRENT) {
            fputs(",\"rs\":", f);
            tr_da(f, l->state, l->n_outputs);
            fputs(",\"rp\":", f);
            tr_da(f, l->prev_state, l->n_outputs);
            fputs(",\"ro\":", f);
            tr_da(f, l->output_layer->output, l->n_outputs);
        }
    }
    if (own || l->type == RECURRENT || l->type == LSTM) {
        fputs(",\"mu\":", f);
        tr_da(f, l->mu, l->mu ? 6 : 0);
    }
    if (l->type == RECURRENT) {
        fputs(",\"il\":", f);
        tr_layer(f, l->input_layer);
        fputs(",\"sl\":", f);
        tr_layer(f, l->self_layer);
        fputs(",\"ol\":", f);
        tr_layer(f, l->output_layer);
    }
    if (l->type == LSTM) {
        const struct Layer *q[8] = { l->uf, l->ui, l->ug, l->uo,
                                     l->wf, l->wi, l->wg, l->wo };
        const char *nm[8] = { "uf", "ui", "ug", "uo", "wf", "wi", "wg", "wo" };
        for (int i = 0; i < 8; ++i) {
            fprintf(f, ",\"%s\":", nm[i]);
            tr_layer(f, q[i]);
        }
        fputs(",\"cell\":", f);
        tr_da(f, l->cell, l->n_outputs);
        fputs(",\"hh\":", f);
        tr_da(f, l->h, l->n_outputs);
        fputs(",\"cc\":", f);
        tr_da(f, l->c, l->n_outputs);
    }
    fputc('}', f);
}
void
tr_net(FILE *f, const struct Net *n)
{
    fprintf(f, "{\"nl\":%d,\"ni\":%d,\"no\":%d,\"out\":", n->n_layers,
            n->n_inputs, n->n_outputs);
    tr_da(f, n->output, dump_out && n->output ? n->n_outputs : 0);
    fputs(",\"L\":[", f);
    int i = 0;
    for (const struct Llist *it = n->tail; it != NULL; it = it->prev) {
        if (i++)
            fputc(',', f);
        tr_layer(f, it->layer);
    }
    fputs("]}", f);
}

void
tr_cond(FILE *f, const struct XCSF *x, const struct Cl *c)
{
    switch (x->cond->type) {
        case COND_TYPE_DUMMY:
            fputs("{\"k\":\"dum\"}", f);
            break;
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            const struct CondRectangle *r = c->cond;
            fprintf(f, "{\"k\":\"%s\",\"a\":",
                    x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR ? "csr" :
                                                                    "ubr");
            tr_da(f, r->b1, x->x_dim);
            fputs(",\"b\":", f);
            tr_da(f, r->b2, x->x_dim);
            fputs(",\"mu\":", f);
            tr_da(f, r->mu, 1);
            fputc('}', f);
            break;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            const struct CondEllipsoid *r = c->cond;
            fputs("{\"k\":\"ell\",\"a\":", f);
            tr_da(f, r->center, x->x_dim);
            fputs(",\"b\":", f);
            tr_da(f, r->spread, x->x_dim);
            fputs(",\"mu\":", f);
            tr_da(f, r->mu, 1);
            fputc('}', f);
            break;
        }
        case COND_TYPE_TERNARY: {
            const struct CondTernary *r = c->cond;
            fputs("{\"k\":\"ter\",\"q\":[", f);
            for (int i = 0; i < r->length; ++i)
                fprintf(f, "%s\"%c\"", i ? "," : "",
                        (r->string[i] > 31 && r->string[i] < 127 &&
                         r->string[i] != '"' && r->string[i] != '\\') ?
                            r->string[i] :
                            '?');
            fputs("],\"mu\":", f);
            tr_da(f, r->mu, 1);
            fputc('}', f);
            break;
        }
        case COND_TYPE_GP: {
            const struct CondGP *r = c->cond;
            fputs("{\"k\":\"gp\",\"tree\":", f);
            tr_ia(f, r->gp.tree, r->gp.len);
            fputs(",\"mu\":", f);
            tr_da(f, r->gp.mu, 1);
            fputc('}', f);
            break;
        }
        case COND_TYPE_DGP: {
            const struct CondDGP *r = c->cond;
            fputs("{\"k\":\"dgp\",\"G\":", f);
            tr_graph(f, &r->dgp);
            fputc('}', f);
            break;
        }
        case COND_TYPE_NEURAL: {
            const struct CondNeural *r = c->cond;
            fputs("{\"k\":\"nn\",\"N\":", f);
            tr_net(f, &r->net);
            fputc('}', f);
            break;
        }
        case RULE_TYPE_DGP: {
            const struct RuleDGP *r = c->cond;
            fprintf(f, "{\"k\":\"rdgp\",\"nout\":%d,\"G\":", r->n_outputs);
            tr_graph(f, &r->dgp);
            fputc('}', f);
            break;
        }
        case RULE_TYPE_NEURAL: {
            const struct RuleNeural *r = c->cond;
            fputs("{\"k\":\"rnn\",\"N\":", f);
            tr_net(f, &r->net);
            fputc('}', f);
            break;
        }
        default:
            fputs("{\"k\":\"other\"}", f);
    }
}

void
tr_predg(FILE *f, const struct XCSF *x, const struct Cl *c)
{
    switch (x->pred->type) {
        case PRED_TYPE_CONSTANT:
            fputs("{\"k\":\"con\"}", f);
            break;
        case PRED_TYPE_NLMS_LINEAR:
        case PRED_TYPE_NLMS_QUADRATIC: {
            const struct PredNLMS *p = c->pred;
            fprintf(f, "{\"k\":\"nlms\",\"q\":%d,\"n\":%d,\"w\":",
                    x->pred->type == PRED_TYPE_NLMS_QUADRATIC, p->n);
            tr_da(f, p->weights, p->n_weights);
            fputs(",\"eta\":", f);
            tr_d(f, p->eta);
            fputs(",\"mu\":", f);
            tr_da(f, p->mu, 1);
            fputc('}', f);
            break;
        }
        case PRED_TYPE_RLS_LINEAR:
        case PRED_TYPE_RLS_QUADRATIC: {
            const struct PredRLS *p = c->pred;
            fprintf(f, "{\"k\":\"rls\",\"q\":%d,\"n\":%d,\"w\":",
                    x->pred->type == PRED_TYPE_RLS_QUADRATIC, p->n);
            tr_da(f, p->weights, p->n_weights);
            fputs(",\"M\":", f);
            tr_da(f, p->matrix, p->n * p->n);
            fputc('}', f);
            break;
        }
        case PRED_TYPE_NEURAL: {
            const struct PredNeural *p = c->pred;
            fputs("{\"k\":\"nn\",\"N\":", f);
            tr_net(f, &p->net);
            fputc('}', f);
            break;
        }
        default:
            fputs("{\"k\":\"other\"}", f);
    }
}

void
tr_actg(FILE *f, const struct XCSF *x, const struct Cl *c)
{
    if (x->act->type == ACT_TYPE_INTEGER &&
        x->cond->type != RULE_TYPE_DGP && x->cond->type != RULE_TYPE_NEURAL) {
        const struct ActInteger *a = c->act;
        fprintf(f, "{\"k\":\"int\",\"v\":%d,\"mu\":", a->action);
        tr_da(f, a->mu, 1);
        fputc('}', f);
    } else if (x->act->type == ACT_TYPE_NEURAL &&
               x->cond->type != RULE_TYPE_DGP &&
               x->cond->type != RULE_TYPE_NEURAL) {
        const struct ActNeural *a = c->act;
        fputs("{\"k\":\"nn\",\"N\":", f);
        tr_net(f, &a->net);
        fputc('}', f);
    } else {
        fputs("{\"k\":\"rule\"}", f);
    }
}

/* parts of a rule already written, by rule id: 0 statistics, 1 condition,
 * 2 predictor, 3 action */
static struct Seen {
    int id;
    uint64_t h[4];
} *seen;
static int n_seen, cap_seen;
void
tr_delta_reset(void)
{
    n_seen = 0;
}
static struct Seen *
seen_of(int id)
{
    for (int i = 0; i < n_seen; ++i)
        if (seen[i].id == id)
            return &seen[i];
    if (n_seen == cap_seen) {
        cap_seen = cap_seen ? 2 * cap_seen : 256;
        seen = realloc(seen, sizeof(*seen) * cap_seen);
    }
    memset(&seen[n_seen], 0, sizeof(*seen));
    seen[n_seen].id = id;
    return &seen[n_seen++];
}
static void
rule_stats(FILE *f, const struct XCSF *x, const struct Cl *c)
{
    fprintf(f, "\"n\":%d,\"x\":%d,\"e\":", c->num, c->exp);
    tr_d(f, c->err);
    fputs(",\"f\":", f);
    tr_d(f, c->fit);
    fputs(",\"z\":", f);
    tr_d(f, c->size);
    fprintf(f, ",\"t\":%d,\"g\":%d,\"k\":%d,\"m\":%s,\"a\":%d,\"p\":", c->time,
            c->age, c->mtotal, c->m ? "true" : "false", c->action);
    tr_da(f, c->prediction, x->y_dim);
    if (dump_hash)
        fprintf(f,
                ",\"hc\":\"%016" PRIx64 "\",\"hp\":\"%016" PRIx64
                "\",\"ha\":\"%016" PRIx64 "\"",
                hash_part(x, c, 0), hash_part(x, c, 1), hash_part(x, c, 2));
}
static void
rule(FILE *f, const struct XCSF *x, const struct Cl *c, struct Seen *sn)
{
    static const char *key[4] = { "", "\"c\":", "\"w\":", "\"ac\":" };
    int out = 0;
    fputc('{', f);
    for (int k = 0; k < 4; ++k) {
        if ((k == 1 && !dump_cond) || (k == 2 && !dump_pred) ||
            (k == 3 && !dump_act))
            continue;
        char *b = NULL;
        size_t n;
        FILE *m = open_memstream(&b, &n);
        if (k == 0)
            rule_stats(m, x, c);
        else if (k == 1)
            tr_cond(m, x, c);
        else if (k == 2)
            tr_predg(m, x, c);
        else
            tr_actg(m, x, c);
        fclose(m);
        const uint64_t h = sn ? fnv(b, n) : 0;
        if (sn == NULL || sn->h[k] != h)
            fprintf(f, "%s%s%s", out++ ? "," : "", key[k], b);
        if (sn != NULL)
            sn->h[k] = h;
        free(b);
    }
    fputc('}', f);
}
void
tr_rule(FILE *f, const struct XCSF *x, const struct Cl *c)
{
    rule(f, x, c, NULL);
}

void
tr_set(FILE *f, const struct Set *s)
{
    fprintf(f, "{\"n\":%d,\"z\":%d,\"i\":[", s->num, s->size);
    int i = 0;
    for (const struct Clist *it = s->list; it != NULL; it = it->next) {
        if (i > 100000)
            abort(); /* cyclic list */
        fprintf(f, "%s\"r%d\"", i++ ? "," : "", tr_id(it->cl));
    }
    fputs("]}", f);
}

/* population, clock and running statistics.  In an event only what changed since
 * the previous event is written out for a rule; all are named in P. */
static void
state(FILE *f, const struct XCSF *x, bool delta)
{
    fprintf(f, "{\"t\":%d,\"ms\":", x->time);
    tr_d(f, x->mset_size);
    fputs(",\"as\":", f);
    tr_d(f, x->aset_size);
    fputs(",\"mf\":", f);
    tr_d(f, x->mfrac);
    fputs(",\"P\":", f);
    tr_set(f, &x->pset);
    fputs(",\"R\":{\"none\":0", f);
    for (const struct Clist *it = x->pset.list; it != NULL; it = it->next) {
        const int id = tr_id(it->cl);
        if (!delta) {
            fprintf(f, ",\"r%d\":{", id);
            rule_stats(f, x, it->cl);
            fputc('}', f);
            continue;
        }
        char *b = NULL;
        size_t n;
        FILE *m = open_memstream(&b, &n);
        rule(m, x, it->cl, seen_of(id));
        fclose(m);
        if (n > 2)
            fprintf(f, ",\"r%d\":%s", id, b);
        free(b);
    }
    fputs("}}", f);
}
void
tr_state(FILE *f, const struct XCSF *x)
{
    state(f, x, true);
}

void
tr_params(FILE *f, const struct XCSF *x)
{
    fprintf(f, "{\"xd\":%d,\"yd\":%d,\"na\":%d,\"pop\":%d,\"thdel\":%d,\"mprob\":%d,\"thsub\":%d,\"setsub\":%s,\"compact\":%s,\"stateful\":%s,\"popinit\":%s,\"loss\":%d,\"seed\":%d,\"tele\":%d,\"maxt\":%d,\"perft\":%d",
            x->x_dim, x->y_dim, x->n_actions, x->POP_SIZE, x->THETA_DEL,
            x->M_PROBATION, x->THETA_SUB, x->SET_SUBSUMPTION ? "true" : "false",
            x->COMPACTION ? "true" : "false", x->STATEFUL ? "true" : "false",
            x->POP_INIT ? "true" : "false", x->LOSS_FUNC, x->RANDOM_STATE,
            x->TELETRANSPORTATION, x->MAX_TRIALS, x->PERF_TRIALS);
#define D(k, v) \
    fputs(",\"" k "\":", f); \
    tr_d(f, v)
    D("gamma", x->GAMMA);
    D("pexp", x->P_EXPLORE);
    D("alpha", x->ALPHA);
    D("beta", x->BETA);
    D("delta", x->DELTA);
    D("e0", x->E0);
    D("ierr", x->INIT_ERROR);
    D("ifit", x->INIT_FITNESS);
    D("nu", x->NU);
    D("huber", x->HUBER_DELTA);
    D("theta", x->ea->theta);
    D("errr", x->ea->err_reduc);
    D("fitr", x->ea->fit_reduc);
    D("pcross", x->ea->p_crossover);
    D("selsize", x->ea->select_size);
    fprintf(f, ",\"lambda\":%d,\"selt\":%d,\"easub\":%s,\"predreset\":%s",
            x->ea->lambda, x->ea->select_type,
            x->ea->subsumption ? "true" : "false",
            x->ea->pred_reset ? "true" : "false");
    fprintf(f, ",\"ctype\":%d,\"ptype\":%d,\"atype\":%d,\"bits\":%d",
            x->cond->type, x->pred->type, x->act->type, x->cond->bits);
    D("cmin", x->cond->min);
    D("cmax", x->cond->max);
    D("smin", x->cond->spread_min);
    D("ceta", x->cond->eta);
    D("pdc", x->cond->p_dontcare);
    D("peta", x->pred->eta);
    D("petamin", x->pred->eta_min);
    D("x0", x->pred->x0);
    D("rlsl", x->pred->lambda);
    D("rlss", x->pred->scale_factor);
    fprintf(f, ",\"evoeta\":%s", x->pred->evolve_eta ? "true" : "false");
    const struct ArgsGPTree *g = x->cond->targs;
    if (x->cond->type == COND_TYPE_GP && g != NULL) {
        fprintf(f, ",\"gpin\":%d,\"gpnc\":%d,\"gpdep\":%d,\"gplen\":%d,\"gpc\":",
                g->n_inputs, g->n_constants, g->init_depth, g->max_len);
        tr_da(f, g->constants, g->n_constants);
        D("gpmin", g->min);
        D("gpmax", g->max);
    }
    const struct ArgsDGP *d = x->cond->dargs;
    if ((x->cond->type == COND_TYPE_DGP || x->cond->type == RULE_TYPE_DGP) &&
        d != NULL) {
        fprintf(f, ",\"dn\":%d,\"dk\":%d,\"dt\":%d,\"din\":%d,\"dec\":%d", d->n,
                d->max_k, d->max_t, d->n_inputs, d->evolve_cycles);
    }
    fputc('}', f);
}

/* ---- frame condition between observed operations ---- */
static char *last;
static size_t last_n;
static char *
snap(size_t *n)
{
    char *b = NULL;
    FILE *m = open_memstream(&b, n);
    state(m, X, false);
    fclose(m);
    return b;
}
void
tr_sync(void)
{
    free(last);
    last = snap(&last_n);
}
void
tr_frame(const char *at)
{
    if (!tracing)
        return;
    size_t n;
    char *b = snap(&n);
    if (last != NULL && (n != last_n || memcmp(b, last, n) != 0))
        {
        fprintf(T, "{\"e\":\"Frame\",\"at\":\"%s\",\"s\":%s}\n", at, b);
        tr_delta_reset();
    }
    free(last);
    last = b;
    last_n = n;
}

uint64_t
tr_hash_model(const struct XCSF *x)
{
    bool a = dump_cond, b = dump_pred, c = dump_act, d = dump_hash;
    dump_cond = dump_pred = dump_act = false;
    dump_hash = true;
    size_t n;
    char *buf = NULL;
    FILE *m = open_memstream(&buf, &n);
    int i = 0;
    for (const struct Clist *it = x->pset.list; it != NULL; it = it->next, ++i)
        tr_rule(m, x, it->cl);
    fclose(m);
    uint64_t h = fnv(buf, n);
    free(buf);
    dump_cond = a;
    dump_pred = b;
    dump_act = c;
    dump_hash = d;
    return h;
}

/* the last event: whether anything is left allocated that nobody refers to
 * (always 0 unless leak detection is on) */
int __lsan_do_recoverable_leak_check(void);
void
tr_end(void)
{
    fflush(T);
    fprintf(T, "{\"e\":\"End\",\"leak\":%d}\n", __lsan_do_recoverable_leak_check());
    fclose(T);
}
