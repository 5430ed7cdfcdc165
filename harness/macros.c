/* A sequence of operations on the macros of an agent (SEQ: pairs of an
 * operation letter and the command letter it is for), names and values free,
 * compared with a list of what was defined. */
#include <string.h>
#include <stdlib.h>
#include <milter/core/milter-protocol-agent.h>
#include <milter/core/milter-command-decoder.h>
#include <milter/core/milter-reply-encoder.h>
#include <milter/core/milter-core-internal.h>
#include <milter/core.h>
#include "vnd.h"
typedef struct { MilterProtocolAgent parent; } VAgent;
typedef struct { MilterProtocolAgentClass parent_class; } VAgentClass;
GType v_agent_get_type (void);
G_DEFINE_TYPE(VAgent, v_agent, MILTER_TYPE_PROTOCOL_AGENT)
static MilterDecoder *dec (MilterAgent *a) { return milter_command_decoder_new(); }
static MilterEncoder *enc (MilterAgent *a) { return milter_reply_encoder_new(); }
static void v_agent_class_init (VAgentClass *c) { MILTER_AGENT_CLASS(c)->decoder_new = dec; MILTER_AGENT_CLASS(c)->encoder_new = enc; }
static void v_agent_init (VAgent *a) {}

static const char seq[] = SEQ;
#define NOPS ((int)sizeof(SEQ) / 2)
static const char order[] = "CHMRTLNBE";
typedef struct { char c; char n[4], v[2]; int set; } Def;
static Def def[2 * NOPS + 1]; static int n_def;
static int eqn (const char *a, const char *b) { for (int i = 0; i < 4; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
static int eqv (const char *a, const char *b) { return a && a[0] == b[0] && a[1] == 0; }
static void name (char *n)
{
#ifdef BRACKETS
    n[0] = '{'; n[1] = nd_u8(); VASSUME(n[1] && n[1] != '{' && n[1] != '}'); n[2] = '}'; n[3] = 0;
    v_known_text(n, 3);
#else
    nd_text(n, 1); n[2] = n[3] = 0;
#endif
}
static void define (char c, const char *n, const char *v)
{
    for (int i = 0; i < 2 * NOPS; i++) if (i < n_def && def[i].c == c && eqn(def[i].n, n)) def[i].set = 0;
    Def *d = &def[n_def++]; d->c = c; memcpy(d->n, n, 4); d->set = v != NULL; if (v) memcpy(d->v, v, 2);
}
static void forget (char c) { for (int i = 0; i < 2 * NOPS; i++) if (i < n_def && def[i].c == c) def[i].set = 0; }
static int cur;
/* the value seen in the current context: the one of the latest context that
 * defines it, the current one included; NULL when there is none */
static const char *seen (const char *n)
{
    const char *v = NULL; int done = 0;
    for (int k = 0; order[k]; k++) {
        if (done) break;
        for (int i = 0; i < 2 * NOPS; i++) if (i < n_def && def[i].set && def[i].c == order[k] && eqn(def[i].n, n)) v = def[i].v;
        if (order[k] == cur) done = 1;
    }
    return v;
}
int main (void)
{
#ifdef VSYMBOLIC
    milter_agent_internal_init();
#else
    milter_init();
#endif
    MilterProtocolAgent *a = g_object_new(v_agent_get_type(), NULL);
    char n[4], n2[4], v[2], v2[2]; int found = 0, hidden = 0;
    cur = MILTER_COMMAND_UNKNOWN;
    for (int s = 0; s < NOPS; s++) {
        char op = seq[2 * s], c = seq[2 * s + 1];
        name(n); nd_text(v, 1);
        switch (op) {
        case 's': milter_protocol_agent_set_macro(a, c, n, v); define(c, n, v); break;
        case 'd': milter_protocol_agent_set_macro(a, c, n, NULL); define(c, n, NULL); break;
        case 'm': name(n2); nd_text(v2, 1);
            milter_protocol_agent_set_macros(a, c, n, v, n2, v2, NULL); define(c, n, v); define(c, n2, v2); break;
        case 'h': { name(n2); nd_text(v2, 1); VASSUME(!eqn(n, n2));
            GHashTable *t = g_hash_table_new(g_str_hash, g_str_equal);
            g_hash_table_insert(t, n, v); g_hash_table_insert(t, n2, v2);
            milter_protocol_agent_set_macros_hash_table(a, c, t);
            g_hash_table_unref(t);
            forget(c); define(c, n, v); define(c, n2, v2); break; }
        case 'k': milter_protocol_agent_clear_macros(a, c); forget(c); break;
        case 'r': milter_protocol_agent_clear_message_related_macros(a); for (int k = 2; order[k]; k++) forget(order[k]); break;
        case 'x': cur = c;
            if (c == '?') {
                static const char all[] = "CHMRTLNBEUAQ";
                cur = nd_u8(); int known = 0; for (int k = 0; all[k]; k++) known |= cur == all[k]; VASSUME(known);
            }
            milter_protocol_agent_set_macro_context(a, cur); break;
        case 'g': {
            const gchar *got = milter_protocol_agent_get_macro(a, n);
            const char *want = seen(n);
            VASSERT(!got == !want, "a macro is seen when it is defined in the current context or one before it");
            VASSERT(!want || !got || eqv(got, want), "the definition of the latest context is the one seen");
            if (want) found++; else hidden++;
#ifdef BRACKETS
#endif
            break; }
        case 'b': {       /* by its name in brackets */
            char b[4] = { '{', n[0], '}', 0 }; v_known_text(b, 3);
            const gchar *got = milter_protocol_agent_get_macro(a, b);
            const char *want = seen(n);
            VASSERT(!got == !want && (!want || eqv(got, want)), "a macro is found by its name in brackets, too");
            if (want) found++; else hidden++;
            break; }
        case 't': {       /* the table of the current context */
            GHashTable *t = milter_protocol_agent_get_macros(a);
            const gchar *got = t ? g_hash_table_lookup(t, n) : NULL; const char *want = NULL;
            for (int i = 0; i < 2 * NOPS; i++) if (i < n_def && def[i].set && def[i].c == cur && eqn(def[i].n, n)) want = def[i].v;
            VASSERT(!got == !want && (!want || eqv(got, want)), "the macros of the current context are those defined for it");
            if (want) found++; else hidden++;
            break; }
        }
    }
    VASSERT(!milter_protocol_agent_get_macro(a, NULL), "no name, no macro");
    VOBS(found); VOBS(hidden);
#ifdef W_ACCEPT
    VWITNESS_IF(found > 0, "a macro was seen");
#endif
    VWITNESS_IF(hidden > 0, "a macro was not seen");
    g_object_unref(a);
    return 0;
}
