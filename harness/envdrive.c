/* envdrive SCENARIO.json TRACE.ndjson
 * Plays a history of steps in a built-in problem (a behaviour of
 * spec/EnvScenario.tla) and records what the problem shows. */
#include "xtrace.h"
#include "env_csv.h"
#include "../lib/cJSON/cJSON.h"
#include <sys/wait.h>
#include <unistd.h>

static cJSON *
G(const cJSON *o, const char *k)
{
    return cJSON_GetObjectItemCaseSensitive(o, k);
}
static struct XCSF x;

static void
see(const char *k)
{
    fprintf(T, ",\"%s\":", k);
    tr_da(T, env_get_state(&x), x.x_dim);
}
static void
table(const double *v, int r, int c)
{
    fputc('[', T);
    for (int i = 0; i < r; ++i) {
        if (i)
            fputc(',', T);
        tr_da(T, v + i * c, c);
    }
    fputc(']', T);
}
static void
given(const cJSON *t)
{
    fputc('[', T);
    for (const cJSON *r = t->child; r != NULL; r = r->next) {
        double v[64];
        int n = 0;
        for (const cJSON *e = r->child; e != NULL; e = e->next)
            v[n++] = e->valuedouble;
        tr_da(T, v, n);
        if (r->next)
            fputc(',', T);
    }
    fputc(']', T);
}
static void
csv(const cJSON *sc, const char *base, const char *part)
{
    static const char *const fm[] = { "%.17g", "%.17e", "%+.17g", " %.17g" };
    char name[300];
    snprintf(name, sizeof(name), "%s_%s.csv", base, part);
    FILE *f = fopen(name, "w");
    const bool crlf = cJSON_IsTrue(G(sc, "crlf")), nl = cJSON_IsTrue(G(sc, "nl"));
    const char *q = fm[G(sc, "style")->valueint];
    for (const cJSON *r = G(sc, part)->child; r != NULL; r = r->next) {
        for (const cJSON *e = r->child; e != NULL; e = e->next) {
            fprintf(f, q, e->valuedouble);
            if (e->next)
                fputc(',', f);
        }
        if (r->next || nl)
            fputs(crlf ? "\r\n" : "\n", f);
    }
    fclose(f);
}
static void
init(char **av)
{
    memset(&x, 0, sizeof(x));
    const int out = dup(1);
    if (freopen("/dev/null", "w", stdout) == NULL)
        exit(98);
    env_init(&x, av);
    fflush(stdout);
    dup2(out, 1);
    close(out);
}
static void
described(const char *kind)
{
    const int d[3] = { x.x_dim, x.y_dim, x.n_actions };
    fprintf(T, "{\"e\":\"Init\",\"kind\":\"%s\",\"dims\":", kind);
    tr_ia(T, d, 3);
    fprintf(T, ",\"multi\":%s,\"max\":", env_multistep(&x) ? "true" : "false");
    tr_d(T, env_max_payoff(&x));
}

int
main(int argc, char **argv)
{
    FILE *s = fopen(argv[1], "r");
    fseek(s, 0, SEEK_END);
    const long n = ftell(s);
    rewind(s);
    char *b = calloc(n + 1, 1);
    if (fread(b, 1, n, s) != (size_t) n)
        return 98;
    fclose(s);
    cJSON *sc = cJSON_Parse(b);
    T = fopen(argv[2], "w");
    const char *kind = G(sc, "kind")->valuestring;
    char tmp[300];
    snprintf(tmp, sizeof(tmp), "%s.env", argv[2]);
    if (strcmp(kind, "csv") == 0) {
        static const char *const part[] = { "train_x", "train_y", "test_x", "test_y" };
        for (int i = 0; i < 4; ++i)
            csv(sc, tmp, part[i]);
        char *av[] = { "xcsf", "csv", tmp, NULL };
        init(av);
        const struct EnvCSV *e = x.env;
        described("csv");
        fputs(",\"given\":[", T);
        for (int i = 0; i < 4; ++i) {
            given(G(sc, part[i]));
            if (i < 3)
                fputc(',', T);
        }
        fputs("],\"read\":[", T);
        table(e->train_data->x, e->train_data->n_samples, e->train_data->x_dim);
        fputc(',', T);
        table(e->train_data->y, e->train_data->n_samples, e->train_data->y_dim);
        fputc(',', T);
        table(e->test_data->x, e->test_data->n_samples, e->test_data->x_dim);
        fputc(',', T);
        table(e->test_data->y, e->test_data->n_samples, e->test_data->y_dim);
        fputs("]}\n", T);
        for (int i = 0; i < 4; ++i) {
            char name[400];
            snprintf(name, sizeof(name), "%s_%s.csv", tmp, part[i]);
            unlink(name);
        }
    } else {
        rand_init_seed(G(sc, "seed")->valueint);
        char bits[20];
        char *av[] = { "xcsf", "mp", bits, NULL };
        const bool maze = strcmp(kind, "maze") == 0;
        bool toobig = false;
        if (maze) {
            toobig = G(sc, "w")->valueint > 50 || G(sc, "h")->valueint > 50;
            FILE *f = fopen(tmp, "w");
            for (const cJSON *r = G(sc, "rows")->child; r != NULL; r = r->next) {
                for (const cJSON *e = r->child; e != NULL; e = e->next)
                    fputs(e->valuestring, f);
                if (r->next || cJSON_IsTrue(G(sc, "nl")))
                    fputc('\n', f);
            }
            fclose(f);
            av[1] = "maze";
            av[2] = tmp;
        } else
            snprintf(bits, sizeof(bits), "%d", G(sc, "bits")->valueint);
        if (toobig) {
            fflush(NULL);
            const pid_t c = fork();
            if (c == 0) {
                init(av);
                _exit(0);
            }
            int st;
            waitpid(c, &st, 0);
            fprintf(T, "{\"e\":\"Init\",\"kind\":\"toobig\",\"r\":\"%s\"}\n",
                    !WIFEXITED(st) || WEXITSTATUS(st) == 77 ? "crashed" : WEXITSTATUS(st) ? "stopped" : "ran");
            unlink(tmp);
            tr_end();
            return 0;
        }
        init(av);
        described(kind);
        if (maze) {
            fputs(",\"rows\":[", T);
            for (const cJSON *r = G(sc, "rows")->child; r != NULL; r = r->next) {
                char *t = cJSON_PrintUnformatted(r);
                fprintf(T, "%s%s", t, r->next ? "," : "");
                free(t);
            }
            fputc(']', T);
            unlink(tmp);
        } else
            fprintf(T, ",\"bits\":%s", bits);
        fputs("}\n", T);
        bool fresh = false;
        for (const cJSON *o = G(sc, "ops")->child; o != NULL; o = o->next) {
            const char *op = G(o, "op")->valuestring;
            if (strcmp(op, "exec") == 0) {
                if (maze && !fresh) {
                    env_reset(&x);
                    fprintf(T, "{\"e\":\"reset\",\"done\":%s", env_is_done(&x) ? "true" : "false");
                    see("x");
                    fputs("}\n", T);
                    fresh = true;
                }
                const int a = G(o, "a")->valueint;
                fprintf(T, "{\"e\":\"exec\",\"a\":%d", a);
                if (!maze)
                    see("x");
                const double r = env_execute(&x, a);
                if (maze) {
                    see("x");
                    see("y");
                }
                const bool done = env_is_done(&x);
                fputs(",\"r\":", T);
                tr_d(T, r);
                fprintf(T, ",\"done\":%s}\n", done ? "true" : "false");
                if (done)
                    fresh = false;
            } else if (strcmp(op, "reset") == 0) {
                env_reset(&x);
                fprintf(T, "{\"e\":\"reset\",\"done\":%s", env_is_done(&x) ? "true" : "false");
                if (maze)
                    see("x");
                fputs("}\n", T);
                fresh = true;
            } else { /* many starts */
                fprintf(T, "{\"e\":\"%s\",\"xs\":[", op);
                for (int i = 0; i < 300; ++i) {
                    env_reset(&x);
                    if (i)
                        fputc(',', T);
                    tr_da(T, env_get_state(&x), x.x_dim);
                }
                fputs("]}\n", T);
                fresh = false;
            }
        }
    }
    env_free(&x);
    param_free(&x);
    tr_end();
    cJSON_Delete(sc);
    free(b);
    return 0;
}
