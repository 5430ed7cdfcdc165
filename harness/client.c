/* A milter's context driven with commands of an MTA: SEQ is the sequence of
 * commands, the handlers answer freely, the bytes sent are compared with the
 * reply each answer stands for. */
#include <stdlib.h>
#include <milter/client/milter-client-context.h>
#include <milter/core/milter-core-internal.h>
#include "vloop.h"
#ifndef OPS
#define OPS ""
#endif
static unsigned char out[256], x[256]; static int n_out, n_x;
static void c_out (const gchar *b, gsize n)
{
    /* compared on the way */
    for (gsize i = 0; i < n; i++) { VASSERT(n_out < n_x && (unsigned char)b[i] == x[n_out], "what is sent is what the milter decided"); VASSUME(n_out < n_x); n_out++; }
}
static void px (int c) { x[n_x++] = c; }
static void ptext (const char *s) { for (int i = 0; ; i++) { px(s[i]); if (!s[i]) break; } }
static void pbegin (int c, int len) { px(0); px(0); px(0); px(len + 1); px(c); }
static MilterClientContext *ctx;
static int calls, letter, st1, st2, has2, progress, processed;
static unsigned char arg;
/* The status, the reply code and the actions negotiated are one of the cases:
 * each is followed on its own, so that they are constants on its path. */
#define K_(x) MILTER_STATUS_##x
static const struct { int s1, s2; int code; int action; } cs[] = { CASES };
#define NCS ((int)(sizeof cs / sizeof *cs))
static int n_status, s1, s2;
static int status (void) { return n_status++ & 1 ? s2 : s1; }
static int letter_of (int s)
{ switch (s) { case MILTER_STATUS_REJECT: return 'r'; case MILTER_STATUS_DISCARD: return 'd'; case MILTER_STATUS_ACCEPT: return 'a'; case MILTER_STATUS_TEMPORARY_FAILURE: return 't'; case MILTER_STATUS_SKIP: return 's'; default: return 'c'; } }
static guint code; static int code_set; static char text[2];
static guint32 action;
static int n_allowed, n_refused;
static guint32 need_of (int o)
{
    switch (o) {
    case 'a': case 'i': return MILTER_ACTION_ADD_HEADERS;
    case 'm': case 'x': return MILTER_ACTION_CHANGE_HEADERS;
    case 'f': case 'F': return MILTER_ACTION_CHANGE_ENVELOPE_FROM;
    case 'r': return MILTER_ACTION_ADD_ENVELOPE_RECIPIENT;
    case 'R': return MILTER_ACTION_ADD_ENVELOPE_RECIPIENT | MILTER_ACTION_ADD_ENVELOPE_RECIPIENT_WITH_PARAMETERS;
    case 'd': return MILTER_ACTION_DELETE_ENVELOPE_RECIPIENT;
    case 'b': return MILTER_ACTION_CHANGE_BODY;
    }
    return 0;
}
static void p32 (guint32 v) { px(v >> 24); px(v >> 16 & 255); px(v >> 8 & 255); px(v & 255); }
static int op (int o, int at_end)
{
    char n[2], v[2]; guint32 i = nd_u32() & 0x7fffffff; GError *e = NULL; gboolean r = FALSE; guint32 need = need_of(o);
    n[0] = 'n'; n[1] = 0; v[0] = 'v'; v[1] = 0;           /* how texts are encoded is C04 */
    switch (o) {
    case 'a': r = milter_client_context_add_header(ctx, n, v, &e); break;
    case 'i': r = milter_client_context_insert_header(ctx, i, n, v, &e); break;
    case 'm': r = milter_client_context_change_header(ctx, n, i, v, &e); break;
    case 'x': r = milter_client_context_delete_header(ctx, n, i, &e); break;
    case 'f': r = milter_client_context_change_from(ctx, v, NULL, &e); break;
    case 'F': r = milter_client_context_change_from(ctx, n, v, &e); break;
    case 'r': r = milter_client_context_add_recipient(ctx, v, NULL, &e); break;
    case 'R': r = milter_client_context_add_recipient(ctx, n, v, &e); break;
    case 'd': r = milter_client_context_delete_recipient(ctx, v, &e); break;
    case 'b': v[0] = nd_u8(); r = milter_client_context_replace_body(ctx, v, 1, &e); break;
    }
    int want = at_end && (action & need) == need;
    VASSERT(!!r == want, "a change is taken exactly at the end of a message and when it was negotiated");
    VASSERT(!r == !!e, "a change that is not taken gives an error");
    g_clear_error(&e);
    if (!want) { n_refused++; return 0; }
    n_allowed++;
    switch (o) {
    case 'a': pbegin('h', 4); ptext(n); ptext(v); break;
    case 'i': case 'm': pbegin(o, 8); p32(i); ptext(n); ptext(v); break;
    case 'x': pbegin('m', 7); p32(i); ptext(n); px(0); break;
    case 'f': pbegin('e', 2); ptext(v); break;
    case 'F': pbegin('e', 4); ptext(n); ptext(v); break;
    case 'r': pbegin('+', 2); ptext(v); break;
    case 'R': pbegin('2', 4); ptext(n); ptext(v); break;
    case 'd': pbegin('-', 2); ptext(v); break;
    case 'b': pbegin('b', 1); px(v[0]); break;
    }
    return 1;
}
static char reason[2]; static int quarantined;
static int final (void)
{
    int v = MILTER_STATUS_DEFAULT;
    if (st1 != MILTER_STATUS_NOT_CHANGE) v = st1;
    if (has2 && (v == MILTER_STATUS_DEFAULT || v == MILTER_STATUS_CONTINUE)) if (st2 != MILTER_STATUS_NOT_CHANGE) v = st2;
    return v;
}
static void expect_reply (int s)
{
    if (quarantined) { pbegin('q', 2); ptext(reason); quarantined = 0; }
    if (code_set && ((s == MILTER_STATUS_TEMPORARY_FAILURE && code / 100 == 4) || (s == MILTER_STATUS_REJECT && code / 100 == 5)))
        { pbegin('y', 6); px('0' + code / 100); px('0' + code / 10 % 10); px('0' + code % 10); px(' '); px(text[0]); px(0); }
    else pbegin(letter_of(s), 0);
    code_set = 0;
}
static int handled (int c)
{
    static const char ops[] = OPS;
    calls++;
    VASSERT(c == letter, "the handler of the command is called");
    VASSERT(!timeout_on, "the MTA is not waited for while the milter works");
    for (int i = 0; i < (int)sizeof ops - 1; i++) {
        if (ops[i] == 'q') { if (c == 'E') { reason[0] = 'Q'; milter_client_context_quarantine(ctx, reason); quarantined = 1; } }
        else if (ops[i] == 'y') {
            GError *e = NULL;
            code_set = 1; text[0] = 'z';
            VASSERT(milter_client_context_set_reply(ctx, code, NULL, text, &e) && !e, "a reply code is taken");
        } else op(ops[i], c == 'E');
    }
    st1 = progress ? MILTER_STATUS_PROGRESS : status();
    return st1;
}
static MilterStatus h2 (void) { calls++; st2 = status(); return st2; }
#define TEXT(n, c) static MilterStatus on_##n (MilterClientContext *o, const gchar *t, gpointer d) { VASSERT((unsigned char)t[0] == arg && !t[1], "the handler is given what was received"); return handled(c); } \
    static MilterStatus on2_##n (MilterClientContext *o, const gchar *t, gpointer d) { return h2(); }
#define NONE(n, c) static MilterStatus on_##n (MilterClientContext *o, gpointer d) { return handled(c); } static MilterStatus on2_##n (MilterClientContext *o, gpointer d) { return h2(); }
#define CHUNK(n, c) static MilterStatus on_##n (MilterClientContext *o, const gchar *b, gsize s, gpointer d) { VASSERT(s == 1 && (unsigned char)b[0] == arg, "the handler is given what was received"); return handled(c); } \
    static MilterStatus on2_##n (MilterClientContext *o, const gchar *b, gsize s, gpointer d) { return h2(); }
TEXT(helo, 'H') TEXT(envelope_from, 'M') TEXT(envelope_recipient, 'R') TEXT(unknown, 'U')
NONE(data, 'T') NONE(end_of_header, 'N') CHUNK(body, 'B') CHUNK(end_of_message, 'E')
static MilterStatus on_connect (MilterClientContext *o, const gchar *h, struct sockaddr *a, socklen_t l, gpointer d) { VASSERT((unsigned char)h[0] == arg && !h[1], "the handler is given what was received"); return handled('C'); }
static MilterStatus on2_connect (MilterClientContext *o, const gchar *h, struct sockaddr *a, socklen_t l, gpointer d) { return h2(); }
static MilterStatus on_header (MilterClientContext *o, const gchar *n, const gchar *v, gpointer d) { VASSERT((unsigned char)n[0] == arg && !n[1] && (unsigned char)v[0] == arg && !v[1], "the handler is given what was received"); return handled('L'); }
static MilterStatus on2_header (MilterClientContext *o, const gchar *n, const gchar *v, gpointer d) { return h2(); }
static MilterStatus on_abort (MilterClientContext *o, MilterClientContextState s, gpointer d) { VASSERT(letter == 'A', "abort"); calls++; return MILTER_STATUS_CONTINUE; }
static void on_processed (MilterClientContext *o, gpointer r, gpointer d) { processed++; }
static const char seq[] = SEQ;
#define NS ((int)sizeof(SEQ) - 1)
static void answer (int c, int s)
{
    switch (c) {
#define A(l, n) case l: g_signal_emit_by_name(ctx, n, s); break;
    A('C', "connect-response") A('H', "helo-response") A('M', "envelope-from-response") A('R', "envelope-recipient-response") A('U', "unknown-response")
    A('T', "data-response") A('L', "header-response") A('N', "end-of-header-response") A('B', "body-response") A('E', "end-of-message-response")
    }
}
/* the actions negotiated: 0 none yet, N those needed, A all, O one that could be taken for it, X no action */
static void negotiated (int a)
{
    static const char ops[] = OPS;
    for (int i = 0; i < (int)sizeof ops - 1; i++) if (a == 'N') action |= need_of(ops[i]);
    if (a == 'A') action = MILTER_ACTION_MASK;
    if (a == 'O') switch (ops[0]) {
        case 'm': case 'x': case 'b': action = MILTER_ACTION_ADD_HEADERS; break;
        case 'd': case 'f': case 'F': action = MILTER_ACTION_ADD_ENVELOPE_RECIPIENT; break;
        case 'a': case 'i': action = MILTER_ACTION_CHANGE_HEADERS; break;
        default: action = MILTER_ACTION_DELETE_ENVELOPE_RECIPIENT;
    }
    milter_client_context_set_option(ctx, milter_option_new(6, action, 0));
}
static void run (int a)
{
    GError *e = NULL;
    if (a) negotiated(a);
    for (int i = 0; i < NS; i++) {
        char f[12]; int n = 5;
        progress = 0;
        letter = seq[i]; calls = 0; st1 = st2 = MILTER_STATUS_NOT_CHANGE;
        if (i + 1 < NS && seq[i + 1] == '.') { progress = 1; i++; }
        arg = letter == 'B' || letter == 'E' ? nd_u8() : 'k';     /* how frames are read is not part of this */
        f[4] = letter;
        switch (letter) {
        case 'C': f[n++] = arg; f[n++] = 0; f[n++] = 'U'; break;
        case 'H': case 'M': case 'R': case 'U': f[n++] = arg; f[n++] = 0; break;
        case 'L': f[n++] = arg; f[n++] = 0; f[n++] = arg; f[n++] = 0; break;
        case 'B': case 'E': f[n++] = arg; break;
        }
        f[0] = f[1] = f[2] = 0; f[3] = n - 4;
        code_set = 0;
        int before = n_x, p = processed;
        gboolean r = milter_client_context_feed(ctx, f, n, &e);
        VASSERT(r && !e, "a good command is taken");
        if (letter == 'A') VASSERT(calls == 1, "the abort handler is called");
        else {
            int s = final();
#ifndef NOHANDLER
            VASSERT(calls == 1 || (has2 && calls == 2 && (st1 == MILTER_STATUS_DEFAULT || st1 == MILTER_STATUS_NOT_CHANGE || st1 == MILTER_STATUS_CONTINUE)), "each handler is called once, until one decides");
#endif
            if (progress) {
                VASSERT(s == MILTER_STATUS_PROGRESS, "later");
                round_out(); round_out();
                s = status(); VASSUME(s != MILTER_STATUS_NOT_CHANGE);
                if (letter != 'E') VASSERT(n_out == before, "nothing is sent while the milter has not decided");
                expect_reply(s);
                answer(letter, s);
            } else expect_reply(s);
            VASSERT(timeout_on, "after a reply the next command is waited for");
        }
        round_out(); round_out();
        VASSERT(n_out == n_x, "each command is answered with one reply, at once");
        VASSERT(processed == p + (letter == 'E'), "a message is reported as processed once, at its end");
    }
    VOBS(n_out); VOBS(n_allowed); VOBS(n_refused);
    VWITNESS("replied");
}
int main (void)
{
#ifdef VSYMBOLIC
    milter_agent_internal_init();
#else
    milter_init();
#endif
    v_formatting(strchr(OPS, 'y') != NULL);
    channel_init(&ch);
    MilterEventLoop *loop = g_object_new(v_loop_get_type(), NULL);
    ctx = milter_client_context_new(NULL);
    milter_agent_set_event_loop(MILTER_AGENT(ctx), loop);
    MilterWriter *w = milter_writer_io_channel_new(&ch);
    milter_agent_set_writer(MILTER_AGENT(ctx), w);
    GError *e = NULL;
    VASSERT(milter_agent_start(MILTER_AGENT(ctx), &e), "started");
#define ON(n) g_signal_connect(ctx, #n, G_CALLBACK(on_##n), NULL)
#define ON2(n) g_signal_connect(ctx, #n, G_CALLBACK(on2_##n), NULL)
#ifndef NOHANDLER
    ON(connect); ON(helo); ON(envelope_from); ON(envelope_recipient); ON(unknown); ON(data); ON(header); ON(end_of_header); ON(body); ON(end_of_message);
#endif
#ifdef TWO
    has2 = 1;
    ON2(connect); ON2(helo); ON2(envelope_from); ON2(envelope_recipient); ON2(unknown); ON2(data); ON2(header); ON2(end_of_header); ON2(body); ON2(end_of_message);
#endif
    ON(abort);
    g_signal_connect(ctx, "message-processed", G_CALLBACK(on_processed), NULL);
#ifdef BUFSIZE
    milter_client_context_set_packet_buffer_size(ctx, BUFSIZE);
#endif
    int choice = nd_u8();
    VASSUME(choice < NCS);
    for (int k = 0; k < NCS; k++) if (choice == k) { s1 = cs[k].s1; s2 = cs[k].s2; code = cs[k].code; run(cs[k].action); return 0; }
    return 0;
}
