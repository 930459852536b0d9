/* Observation layer of the conformance harnesses.
 *
 * Everything is observed from outside xcsf: the library objects are linked with
 * -Wl,--wrap=<public function>, so each call that crosses translation units
 * passes through a wrapper below that records the projected state after the
 * real function returned.  Nothing in /repo is changed.
 *
 * Doubles are written as "#<16 hex digits>" (bit pattern), read by spec/Dbl.tla.
 */
#pragma once
#include "act_integer.h"
#include "act_neural.h"
#include "action.h"
#include "cl.h"
#include "clset.h"
#include "cond_dgp.h"
#include "cond_ellipsoid.h"
#include "cond_gp.h"
#include "cond_neural.h"
#include "cond_rectangle.h"
#include "cond_ternary.h"
#include "condition.h"
#include "ea.h"
#include "env.h"
#include "loss.h"
#include "neural.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "pa.h"
#include "param.h"
#include "pred_constant.h"
#include "pred_neural.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "prediction.h"
#include "rule_dgp.h"
#include "rule_neural.h"
#include "utils.h"
#include "xcs_rl.h"
#include "xcs_supervised.h"
#include "xcsf.h"

extern FILE *T; /* trace output */
extern bool tracing; /* emit events */
extern struct XCSF *X; /* the instance under observation */

/* what to include in rule dumps */
extern bool dump_cond, dump_pred, dump_act, dump_hash;
extern bool dump_mem;
extern bool dump_out; /* layer outputs (false: memory of recurrent layers) */

void tr_d(FILE *f, double v); /* one double */
void tr_da(FILE *f, const double *v, int n); /* array of doubles */
void tr_ia(FILE *f, const int *v, int n);
int tr_id(const struct Cl *c); /* id of a rule, allocating one if new */
int tr_id_known(const struct Cl *c);
void tr_newid(const struct Cl *c);
void tr_forget(const struct Cl *c);
void tr_forget_all(void);
void tr_rule(FILE *f, const struct XCSF *x, const struct Cl *c);
void tr_set(FILE *f, const struct Set *s);
void tr_state(FILE *f, const struct XCSF *x); /* "s":{...} */
void tr_delta_reset(void);
void tr_cond(FILE *f, const struct XCSF *x, const struct Cl *c);
void tr_predg(FILE *f, const struct XCSF *x, const struct Cl *c);
void tr_actg(FILE *f, const struct XCSF *x, const struct Cl *c);
void tr_net(FILE *f, const struct Net *n);
void tr_graph(FILE *f, const struct Graph *g);
void tr_params(FILE *f, const struct XCSF *x);
void tr_frame(const char *at); /* Frame event if state changed unobserved */
void tr_sync(void); /* remember current state as last observed */
uint64_t tr_hash_model(const struct XCSF *x);
void
tr_end(void);
