/* The context of the MTA's side driven with commands and the milter's replies.
 * SEQ: upper-case letters are commands, lower-case ones (and + 2 - 4) replies,
 * '*' the reply of the case, '!' a timeout that fires, '^' no flush before it
 * (all letters after a command wait until it is flushed otherwise). */
#include <stdlib.h>
#include <milter/server/milter-server-context.h>
#include <milter/core/milter-core-internal.h>
#include "vloop.h"
static unsigned char out[256], x[256]; static int n_out, n_x;
static void c_out (const gchar *b, gsize n)
{
    for (gsize i = 0; i < n; i++) { VASSERT(n_out < n_x && (unsigned char)b[i] == x[n_out], "what is sent is the command, after its macros"); VASSUME(n_out < n_x); n_out++; }
}
static void px (int c) { x[n_x++] = c; }
static void ptext (const char *s) { for (int i = 0; ; i++) { px(s[i]); if (!s[i]) break; } }
static void pbegin (int c, int len) { px(0); px(0); px(0); px(len + 1); px(c); }
static MilterServerContext *ctx;
#define S(x) MILTER_STEP_##x
#define NO_STEPS (S(NO_CONNECT)|S(NO_HELO)|S(NO_ENVELOPE_FROM)|S(NO_ENVELOPE_RECIPIENT)|S(NO_UNKNOWN)|S(NO_DATA)|S(NO_HEADERS)|S(NO_END_OF_HEADER)|S(NO_BODY))
#define NO_REPLIES (S(NO_REPLY_CONNECT)|S(NO_REPLY_HELO)|S(NO_REPLY_ENVELOPE_FROM)|S(NO_REPLY_ENVELOPE_RECIPIENT)|S(NO_REPLY_UNKNOWN)|S(NO_REPLY_DATA)|S(NO_REPLY_HEADER)|S(NO_REPLY_END_OF_HEADER)|S(NO_REPLY_BODY))
#define OTHERS(n, r) ((NO_STEPS | NO_REPLIES) & ~(S(NO_##n) | S(NO_REPLY_##r)))
static const struct { int step; int reply; } cs[] = { CASES };
#define NCS ((int)(sizeof cs / sizeof *cs))
/* what was reported */
enum { CONTINUE, REPLY_CODE, TEMPFAIL, REJECT, ACCEPT, DISCARD, SKIP, ADD, INSERT, CHANGE, DELETE, FROM, ADD_RCPT, DELETE_RCPT, BODY, PROGRESS, QUARANTINE, FAILURE, SHUTDOWN,
       ERROR_, PROCESSED, STOPPED, WTIMEOUT, RTIMEOUT, ETIMEOUT, N_SIGS };
static int seen[N_SIGS], want[N_SIGS], stop, steps;
static guint32 idx; static unsigned char byte;
#define GIVEN "what the milter asked for is what is reported"
static int is (const char *s, const char *t) { if (!s || !t) return !s && !t; for (int i = 0; ; i++) { if (s[i] != t[i]) return 0; if (!s[i]) return 1; } }
#define NONE(n, S_) static void on_##n (MilterServerContext *c, gpointer d) { seen[S_]++; }
NONE(continue, CONTINUE) NONE(temporary_failure, TEMPFAIL) NONE(reject, REJECT) NONE(accept, ACCEPT) NONE(discard, DISCARD) NONE(skip, SKIP) NONE(progress, PROGRESS)
NONE(connection_failure, FAILURE) NONE(shutdown, SHUTDOWN) NONE(stopped, STOPPED) NONE(writing_timeout, WTIMEOUT) NONE(reading_timeout, RTIMEOUT) NONE(end_of_message_timeout, ETIMEOUT)
static guint rcode;
static void on_reply_code (MilterServerContext *c, guint code, const gchar *e, const gchar *m, gpointer d) { seen[REPLY_CODE]++; VASSERT(code == rcode && is(m, "z"), GIVEN); }
static void on_add_header (MilterServerContext *c, const gchar *n, const gchar *v, gpointer d) { seen[ADD]++; VASSERT(is(n, "n") && is(v, "v"), GIVEN); }
static void on_insert_header (MilterServerContext *c, guint32 i, const gchar *n, const gchar *v, gpointer d) { seen[INSERT]++; VASSERT(i == idx && is(n, "n") && is(v, "v"), GIVEN); }
static void on_change_header (MilterServerContext *c, const gchar *n, guint32 i, const gchar *v, gpointer d) { seen[CHANGE]++; VASSERT(i == idx && is(n, "n") && is(v, "v"), GIVEN); }
static void on_delete_header (MilterServerContext *c, const gchar *n, guint32 i, gpointer d) { seen[DELETE]++; VASSERT(i == idx && is(n, "n"), GIVEN); }
static void on_change_from (MilterServerContext *c, const gchar *f, const gchar *p, gpointer d) { seen[FROM]++; VASSERT(is(f, "n") && is(p, "v"), GIVEN); }
static void on_add_recipient (MilterServerContext *c, const gchar *r, const gchar *p, gpointer d) { seen[ADD_RCPT]++; VASSERT(is(r, "n"), GIVEN); }
static void on_delete_recipient (MilterServerContext *c, const gchar *r, gpointer d) { seen[DELETE_RCPT]++; VASSERT(is(r, "n"), GIVEN); }
static void on_replace_body (MilterServerContext *c, const gchar *b, gsize n, gpointer d) { seen[BODY]++; VASSERT(n == 1 && (unsigned char)b[0] == byte, GIVEN); }
static void on_quarantine (MilterServerContext *c, const gchar *r, gpointer d) { seen[QUARANTINE]++; VASSERT(is(r, "n"), GIVEN); }
static void on_error (MilterErrorEmittable *c, GError *e, gpointer d) { seen[ERROR_]++; }
/* the message so far */
static int status = MILTER_STATUS_NOT_CHANGE;
static int in_message, r_ok, r_tmp, r_rej, n_hdr, n_body, quarantined, n_added, n_removed;
static int list_len (const GList *l) { int n = 0; for (; l; l = l->next) n++; return n; }
static void on_processed (MilterServerContext *c, MilterMessageResult *m, gpointer d)
{
    seen[PROCESSED]++;
    VASSERT(list_len(milter_message_result_get_recipients(m)) == r_ok && list_len(milter_message_result_get_temporary_failed_recipients(m)) == r_tmp
            && list_len(milter_message_result_get_rejected_recipients(m)) == r_rej, "the result has each recipient under what was replied to it");
    VASSERT(milter_message_result_get_status(m) == status, "the result has the status the milter gave");
    VASSERT(milter_message_result_get_body_size(m) == n_body && !milter_message_result_is_quarantine(m) == !quarantined, "the result has the size and the quarantine");
    in_message = 0;
}
static gboolean stop_none (MilterServerContext *c, gpointer d) { return stop; }
static gboolean stop_text (MilterServerContext *c, const gchar *t, gpointer d) { return stop; }
static gboolean stop_header (MilterServerContext *c, const gchar *n, const gchar *v, gpointer d) { return stop; }
static gboolean stop_connect (MilterServerContext *c, const gchar *h, struct sockaddr *a, socklen_t l, gpointer d) { return stop; }
static gboolean stop_chunk (MilterServerContext *c, const gchar *b, gsize n, gpointer d) { return stop; }

static const char seq[] = SEQ;
#define NS ((int)sizeof(SEQ) - 1)
static int state;                 /* the command the milter was last told of */
static int waiting, sending, quitted, rcpt_status;
static int no_step (int c)
{
    switch (c) {
    case 'C': return S(NO_CONNECT); case 'H': return S(NO_HELO); case 'M': return S(NO_ENVELOPE_FROM); case 'R': return S(NO_ENVELOPE_RECIPIENT); case 'U': return S(NO_UNKNOWN);
    case 'T': return S(NO_DATA); case 'L': return S(NO_HEADERS); case 'N': return S(NO_END_OF_HEADER); case 'B': return S(NO_BODY);
    }
    return 0;
}
static int no_reply (int c)
{
    switch (c) {
    case 'C': return S(NO_REPLY_CONNECT); case 'H': return S(NO_REPLY_HELO); case 'M': return S(NO_REPLY_ENVELOPE_FROM); case 'R': return S(NO_REPLY_ENVELOPE_RECIPIENT); case 'U': return S(NO_REPLY_UNKNOWN);
    case 'T': return S(NO_REPLY_DATA); case 'L': return S(NO_REPLY_HEADER); case 'N': return S(NO_REPLY_END_OF_HEADER); case 'B': return S(NO_REPLY_BODY);
    }
    return 0;
}
static int message_state (int c) { return c == 'M' || c == 'R' || c == 'T' || c == 'L' || c == 'N' || c == 'B' || c == 'E'; }
/* a further chunk may follow one that is sent */
static int may_follow (void) { return state == 'B' && waiting && !sending; }
static void check (const char *why)
{
    for (int i = 0; i < N_SIGS; i++) VASSERT(seen[i] == want[i], "each reply is reported once, as what it is, and nothing else is");
    VASSERT(!timeout_on == !(sending || waiting) && !milter_server_context_is_processing(ctx) == !(timeout_on && !may_follow()), "a timeout is set exactly while the milter is waited for");
}
static void processed (void) { if (in_message) { want[PROCESSED]++; } }
static void macros_of (int c)
{
#ifdef MACROS
    /* set for MAIL: n = v and o = w; the milter asked for n only */
    if (c == 'M') { pbegin('D', 5); px('M'); ptext("n"); ptext("v"); }
#endif
}
static void flush (void)
{
    if (!sending) return;
    round_out(); round_out();
    VASSERT(n_out == n_x, "the command is sent");
    sending = 0; waiting = !(steps & no_reply(state));
    VASSERT(milter_server_context_get_state(ctx) == (MilterServerContextState)milter_server_context_get_last_state(ctx) || state == 'U', "state");
    check("flushed");
}
static void command (int c)
{
    gboolean r = FALSE; char b[1]; static struct sockaddr addr;
    addr.sa_family = AF_UNSPEC;
    b[0] = nd_u8();
    int last = state;
    int busy = timeout_on && !may_follow(), skipped = !!(steps & no_step(c)), quiet = c == 'Q' || c == 'A';
    if (message_state(c)) {
        if (!in_message) { in_message = 1; r_ok = r_tmp = r_rej = n_hdr = n_body = n_added = n_removed = quarantined = 0; }
        if (c == 'M') { status = MILTER_STATUS_NOT_CHANGE; rcpt_status = 0; }
        if (c == 'R') r_ok++;
        if (c == 'B' || c == 'E') n_body++;
    }
    if (stop && !quiet && c != 'U') {
        want[STOPPED]++; status = MILTER_STATUS_STOP;
        if (message_state(c)) processed();
    } else if (skipped) { want[c == 'B' ? SKIP : CONTINUE]++; state = c; }
    else if (busy && !quiet) want[ERROR_]++;
    else {
        macros_of(c);
        switch (c) {
        case 'C': pbegin('C', 3); ptext("h"); px('U'); break;
        case 'H': case 'U': pbegin(c, 2); ptext("h"); break;
        case 'M': case 'R': pbegin(c, 4); ptext("<h>"); break;
        case 'L': pbegin('L', 4); ptext("n"); ptext("v"); break;
        case 'B': case 'E': pbegin(c, 1); px(b[0]); break;
        default: pbegin(c, 0); break;
        }
        if (!quiet) sending = 1;
        state = c;
    }
    int sent = !stop && !skipped && (!busy || quiet);
    switch (c) {
    case 'C': r = milter_server_context_connect(ctx, "h", &addr, sizeof addr); break;
    case 'H': r = milter_server_context_helo(ctx, "h"); break;
    case 'M': r = milter_server_context_envelope_from(ctx, "<h>"); break;
    case 'R': r = milter_server_context_envelope_recipient(ctx, "<h>"); break;
    case 'U': r = milter_server_context_unknown(ctx, "h"); break;
    case 'T': r = milter_server_context_data(ctx); break;
    case 'L': r = milter_server_context_header(ctx, "n", "v"); break;
    case 'N': r = milter_server_context_end_of_header(ctx); break;
    case 'B': r = milter_server_context_body(ctx, b, 1); break;
    case 'E': r = milter_server_context_end_of_message(ctx, b, 1); break;
    case 'A': r = milter_server_context_abort(ctx); break;
    case 'Q': r = milter_server_context_quit(ctx); quitted = 1; break;
    }
    VASSERT(!!r == (stop || skipped || !busy || quiet), "a command is refused exactly while another is under way");
    check("command");
    if (c == 'A' && in_message) {
        want[PROCESSED]++;
        if (status == MILTER_STATUS_NOT_CHANGE) status = last == 'R' && rcpt_status ? rcpt_status : MILTER_STATUS_ABORT;
    }
    if (c == 'A') {
        /* what was under way is over */
        round_out(); round_out();
        VASSERT(n_out == n_x, "the command is sent");
        sending = waiting = 0;
        VASSERT(!in_message, "an aborted message is reported");
        check("abort");
    }
}
static void reply (int k)
{
    char f[16]; int n = 5, sig = -1, only = 0; GError *e = NULL;
    f[4] = k;
    idx = nd_u32() & 0x7fffffff; byte = nd_u8();
#define PUT(s) do { const char *s_ = s; for (int j = 0; ; j++) { f[n++] = s_[j]; if (!s_[j]) break; } } while (0)
#define PUTI() do { f[n++] = idx >> 24; f[n++] = idx >> 16; f[n++] = idx >> 8; f[n++] = idx; } while (0)
    switch (k) {
    case 'c': sig = CONTINUE; break;
    case 'r': sig = REJECT; break;
    case 't': sig = TEMPFAIL; break;
    case 'a': sig = ACCEPT; break;
    case 'd': sig = DISCARD; break;
    case 's': sig = SKIP; only = 'B'; break;
    case 'p': sig = PROGRESS; only = 'E'; break;
    case 'y': sig = REPLY_CODE; rcode = 550; PUT("550 z"); break;
    case 'Y': sig = REPLY_CODE; f[4] = 'y'; rcode = 451; PUT("451 z"); break;
    case 'h': sig = ADD; only = 'E'; PUT("n"); PUT("v"); break;
    case 'i': sig = INSERT; only = 'E'; PUTI(); PUT("n"); PUT("v"); break;
    case 'm': sig = CHANGE; only = 'E'; PUTI(); PUT("n"); PUT("v"); break;
    case 'x': sig = DELETE; only = 'E'; f[4] = 'm'; PUTI(); PUT("n"); PUT(""); break;
    case 'e': sig = FROM; only = 'E'; PUT("n"); PUT("v"); break;
    case '+': sig = ADD_RCPT; only = 'E'; PUT("n"); break;
    case '2': sig = ADD_RCPT; only = 'E'; PUT("n"); PUT("v"); break;
    case '-': sig = DELETE_RCPT; only = 'E'; PUT("n"); break;
    case 'b': sig = BODY; only = 'E'; f[n++] = byte; break;
    case 'q': sig = QUARANTINE; only = 'E'; PUT("n"); break;
    case 'f': sig = FAILURE; break;
    case '4': sig = SHUTDOWN; break;
    }
    f[0] = f[1] = f[2] = 0; f[3] = n - 4;
    int decided = 0, timers = n_timeouts;
    if (quitted) { }
    else if (only && state != only) { want[ERROR_]++; }
    else {
        want[sig]++;
        switch (k) {
        case 'r': case 'y': decided = 1; if (state == 'R') { r_ok--; r_rej++; decided = 0; rcpt_status = MILTER_STATUS_REJECT; } else status = MILTER_STATUS_REJECT; break;
        case 't': case 'Y': decided = 1; if (state == 'R') { r_ok--; r_tmp++; decided = 0; rcpt_status = MILTER_STATUS_TEMPORARY_FAILURE; } else status = MILTER_STATUS_TEMPORARY_FAILURE; break;
        case 'a': decided = 1; status = MILTER_STATUS_ACCEPT; break;
        case 'd': decided = 1; status = MILTER_STATUS_DISCARD; break;
        case 'c': decided = state == 'E'; break;
        case 'q': quarantined = 1; status = MILTER_STATUS_QUARANTINE; break;
        }
        if (decided && message_state(state)) processed();
    }
    if (!only || k == 's') waiting = 0;
    else if (state != 'E' && waiting) { }
    gboolean r = milter_decoder_decode(milter_agent_get_decoder(MILTER_AGENT(ctx)), f, n, &e);
    VASSERT(r && !e, "a good reply is taken");
    check("reply");
    if (k == 'p' && state == 'E' && !quitted) VASSERT(n_timeouts == timers + 1, "progress gives the milter its time anew");
    if (k == 's' && state == 'B' && !quitted) VASSERT(milter_server_context_get_skip_body(ctx), "a milter that skips the body is known");
}
static void fire (void)
{
    VASSERT(timeout_on, "a timeout is set");
    want[sending ? WTIMEOUT : state == 'E' ? ETIMEOUT : RTIMEOUT]++;
    VASSERT(!timeout_f(timeout_d), "a timeout fires once");
    for (int i = 0; i < N_SIGS; i++) VASSERT(seen[i] == want[i], "a timeout is reported as what was waited for");
}
static void run (int step, int k)
{
    steps = step;
    milter_server_context_set_option(ctx, milter_option_new(6, MILTER_ACTION_MASK, step));
    for (int i = 0; i < NS; i++) {
        int c = seq[i];
        if (c == '^') continue;
        if (i && seq[i - 1] != '^') flush();
        if (c == '!') { fire(); break; }
        if (c == '*') c = k;
        if (c == '%') { stop = 1; continue; }
        if ((c >= 'A' && c <= 'Z' && c != 'Y')) command(c);
        else if (waiting || quitted) reply(c);
    }
    VOBS(n_out); for (int i = 0; i < N_SIGS; i++) VOBS(seen[i]);
    VWITNESS("driven");
}
int main (void)
{
#ifdef VSYMBOLIC
    milter_agent_internal_init();
#else
    milter_init();
#endif
    channel_init(&ch);
    MilterEventLoop *loop = g_object_new(v_loop_get_type(), NULL);
    ctx = milter_server_context_new();
    milter_server_context_set_name(ctx, "m");
    milter_agent_set_event_loop(MILTER_AGENT(ctx), loop);
    milter_agent_set_writer(MILTER_AGENT(ctx), milter_writer_io_channel_new(&ch));
    GError *e = NULL;
    VASSERT(milter_agent_start(MILTER_AGENT(ctx), &e), "started");
#define ON(n, f) g_signal_connect(ctx, n, G_CALLBACK(f), NULL)
    ON("continue", on_continue); ON("reply-code", on_reply_code); ON("temporary-failure", on_temporary_failure); ON("reject", on_reject); ON("accept", on_accept); ON("discard", on_discard);
    ON("skip", on_skip); ON("add-header", on_add_header); ON("insert-header", on_insert_header); ON("change-header", on_change_header); ON("delete-header", on_delete_header);
    ON("change-from", on_change_from); ON("add-recipient", on_add_recipient); ON("delete-recipient", on_delete_recipient); ON("replace-body", on_replace_body); ON("progress", on_progress);
    ON("quarantine", on_quarantine); ON("connection-failure", on_connection_failure); ON("shutdown", on_shutdown); ON("error", on_error); ON("message-processed", on_processed);
    ON("stopped", on_stopped); ON("writing-timeout", on_writing_timeout); ON("reading-timeout", on_reading_timeout); ON("end-of-message-timeout", on_end_of_message_timeout);
#ifdef STOPS
    ON("stop-on-connect", stop_connect); ON("stop-on-helo", stop_text); ON("stop-on-envelope-from", stop_text); ON("stop-on-envelope-recipient", stop_text); ON("stop-on-data", stop_none);
    ON("stop-on-header", stop_header); ON("stop-on-end-of-header", stop_none); ON("stop-on-body", stop_chunk); ON("stop-on-end-of-message", stop_chunk);
#endif
#ifdef MACROS
    GHashTable *h = g_hash_table_new(g_str_hash, g_str_equal);
    g_hash_table_insert(h, "n", "v"); g_hash_table_insert(h, "o", "w");
    milter_protocol_agent_set_macros_hash_table(MILTER_PROTOCOL_AGENT(ctx), MILTER_COMMAND_ENVELOPE_FROM, h);
    MilterMacrosRequests *q = milter_macros_requests_new();
    milter_macros_requests_set_symbols(q, MILTER_COMMAND_ENVELOPE_FROM, "n", NULL);
    milter_protocol_agent_set_macros_requests(MILTER_PROTOCOL_AGENT(ctx), q);
#endif
    int choice = nd_u8();
    VASSUME(choice < NCS);
    for (int k = 0; k < NCS; k++) if (choice == k) { run(cs[k].step, cs[k].reply); return 0; }
    return 0;
}
