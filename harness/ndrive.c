/* ndrive SCENARIO.json TRACE.ndjson
 * Replays a history of operations on one network (a behaviour of
 * spec/NeuralScenario.tla) and records the whole network after each. */
#include "xtrace.h"
#include "../lib/cJSON/cJSON.h"
#include "pred_neural.h"

static struct XCSF x;
static struct Net *net;
static double in[256], want[64];

static cJSON *
G(const cJSON *o, const char *k)
{
    return cJSON_GetObjectItemCaseSensitive(o, k);
}
static void
emit(const cJSON *v)
{
    if (cJSON_IsArray(v) || cJSON_IsObject(v)) {
        fputc(cJSON_IsArray(v) ? '[' : '{', T);
        for (const cJSON *i = v->child; i != NULL; i = i->next) {
            if (cJSON_IsObject(v))
                fprintf(T, "\"%s\":", i->string);
            emit(i);
            if (i->next)
                fputc(',', T);
        }
        fputc(cJSON_IsArray(v) ? ']' : '}', T);
    } else if (cJSON_IsString(v)) {
        fprintf(T, "\"%s\"", v->valuestring);
    } else if (cJSON_IsBool(v)) {
        fputs(cJSON_IsTrue(v) ? "true" : "false", T);
    } else {
        tr_d(T, v->valuedouble);
    }
}
static int
vec(const cJSON *a, double *v)
{
    int n = 0;
    for (const cJSON *e = a->child; e != NULL; e = e->next)
        v[n++] = e->valuedouble;
    return n;
}
static void
finish(void)
{
    fputs(",\"N\":", T);
    tr_net(T, net);
    fputs(",\"size\":", T);
    tr_d(T, neural_size(net));
    fputs(",\"outs\":[", T);
    for (int i = 0; i < net->n_outputs; ++i) {
        if (i)
            fputc(',', T);
        tr_d(T, neural_output(net, i));
    }
    fputs("]}\n", T);
    fflush(T);
}

int
main(int argc, char **argv)
{
    (void) argc;
    FILE *s = fopen(argv[1], "r");
    fseek(s, 0, SEEK_END);
    const long n = ftell(s);
    rewind(s);
    char *b = calloc(n + 1, 1);
    if (fread(b, 1, n, s) != (size_t) n)
        return 98;
    fclose(s);
    cJSON *sc = cJSON_Parse(b);
    T = fopen(argv[2], "w");
    dump_out = dump_mem = true;
    param_init(&x, G(sc, "xd")->valueint, G(sc, "yd")->valueint, 1);
    cJSON *doc = cJSON_CreateObject(), *p = cJSON_AddObjectToObject(doc, "prediction");
    cJSON_AddStringToObject(p, "type", "neural");
    cJSON_AddItemToObject(p, "args", cJSON_Duplicate(G(sc, "net"), true));
    char *t = cJSON_PrintUnformatted(doc);
    param_json_import(&x, t);
    free(t);
    cJSON_Delete(doc);
    rand_init_seed(G(sc, "seed")->valueint);
    net = malloc(sizeof(struct Net));
    neural_create(net, x.pred->largs);
    fprintf(T, "{\"e\":\"Init\",\"xd\":%d,\"yd\":%d,\"layers\":", x.x_dim, x.y_dim);
    emit(G(sc, "layers"));
    finish();
    for (const cJSON *o = G(sc, "ops")->child; o != NULL; o = o->next) {
        const char *op = G(o, "op")->valuestring;
        if (strcmp(op, "fwd") == 0 || strcmp(op, "learn") == 0) {
            const bool tr = cJSON_IsTrue(G(o, "tr"));
            const int nx = vec(G(o, "x"), in);
            neural_propagate(net, in, tr);
            fprintf(T, "{\"e\":\"fwd\",\"tr\":%s,\"x\":", tr ? "true" : "false");
            tr_da(T, in, nx);
            finish();
            if (*op == 'l') {
                const int nt = vec(G(o, "t"), want);
                neural_learn(net, want, in);
                fputs("{\"e\":\"learn\",\"t\":", T);
                tr_da(T, want, nt);
                finish();
            }
        } else if (strcmp(op, "mut") == 0) {
            const bool mod = neural_mutate(net);
            fprintf(T, "{\"e\":\"mut\",\"mod\":%s", mod ? "true" : "false");
            finish();
        } else if (strcmp(op, "mut1") == 0) { /* one layer; the others adjust */
            int k = G(o, "k")->valueint % net->n_layers;
            fprintf(T, "{\"e\":\"mut1\",\"k\":%d", k + 1);
            const struct Llist *it = net->tail;
            for (; k > 0; --k)
                it = it->prev;
            const bool mod = layer_mutate(it->layer);
            neural_resize(net);
            fprintf(T, ",\"mod\":%s", mod ? "true" : "false");
            finish();
        } else if (strcmp(op, "rand") == 0) {
            neural_rand(net);
            fputs("{\"e\":\"rand\"", T);
            finish();
        } else if (strcmp(op, "expand") == 0 || strcmp(op, "toclass") == 0) {
            /* the network of a rule's prediction is restructured */
            const struct Llist *top = net->head->next ? net->head->next : net->head;
            if (*op == 'e' && (top->layer->n_outputs > 9 || net->n_layers > 7 || (net->n_layers == 1 && top->layer->n_inputs > 24)))
                continue; /* keep traces small */
            struct Cl c = { .pred = net };
            fprintf(T, "{\"e\":\"%s\"", op);
            if (*op == 'e') {
                pred_neural_expand(&x, &c);
            } else {
                param_set_y_dim(&x, G(o, "y")->valueint);
                pred_neural_ae_to_classifier(&x, &c, G(o, "d")->valueint);
                fprintf(T, ",\"y\":%d,\"d\":%d", x.y_dim, G(o, "d")->valueint);
            }
            finish();
        } else { /* copy, file: goes on with the other network */
            struct Net *other = malloc(sizeof(struct Net));
            fprintf(T, "{\"e\":\"%s\"", op);
            if (strcmp(op, "copy") == 0) {
                neural_copy(other, net);
            } else {
                FILE *f = tmpfile();
                const size_t w = neural_save(net, f);
                rewind(f);
                const size_t r = neural_load(other, f);
                fprintf(T, ",\"same\":%s", w == r ? "true" : "false");
                fclose(f);
            }
            fputs(",\"M\":", T);
            tr_net(T, net);
            neural_free(net);
            free(net);
            net = other;
            finish();
        }
    }
    neural_print(net, true);
    for (const struct Llist *it = net->tail; it != NULL; it = it->prev)
        layer_print(it->layer, true);
    neural_free(net);
    free(net);
    net = NULL;
    param_free(&x);
    tr_end();
    cJSON_Delete(sc);
    free(b);
    return 0;
}
