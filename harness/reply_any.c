/* One frame of LEN content bytes with reply letter CMD, every other byte
 * symbolic, fed to the reply decoder; the reference below says from the frame
 * layout of the milter protocol what must be reported. */
#include <milter/core/milter-reply-decoder.h>
#include <milter/core/milter-macros-requests.h>
#include "vnd.h"

static unsigned char f[LEN];
#define P (f + 1)
#define PN (LEN - 1)
static int n_signals, kind, args_ok;

static int nul_at (int from) { for (int i = from; i < PN; i++) if (!P[i]) return i; return -1; }
static int is_str (const char *s, int from)
{ for (int i = from; i < PN; i++) { if ((unsigned char)s[i - from] != P[i]) return 0; if (!P[i]) return 1; } return 0; }
/* s is exactly the payload bytes from..to-1 */
static int is_part (const char *s, int from, int to)
{ for (int i = from; i < to; i++) if ((unsigned char)s[i - from] != P[i] || !P[i]) return 0; return s[to - from] == 0; }
static int is_chunk (const char *s, gsize n)
{ if (n != PN) return 0; for (int i = 0; i < PN; i++) if ((unsigned char)s[i] != P[i]) return 0; return 1; }
static void sig (int k, int ok) { n_signals++; kind = k; args_ok = ok; }
static guint32 be (int o) { return (guint32)P[o] << 24 | (guint32)P[o+1] << 16 | (guint32)P[o+2] << 8 | P[o+3]; }
static int digit (unsigned char c) { return c >= '0' && c <= '9'; }

static int frames;
static gboolean on_frame (MilterDecoder *d, gpointer error, gpointer u)
{ if (++frames > 1) { VASSERT(0, "only one frame was sent"); VASSUME(0); } return TRUE; }

static void on_continue (MilterDecoder *d, gpointer u) { sig('c', 1); }
static void on_tempfail (MilterDecoder *d, gpointer u) { sig('t', 1); }
static void on_reject (MilterDecoder *d, gpointer u) { sig('r', 1); }
static void on_accept (MilterDecoder *d, gpointer u) { sig('a', 1); }
static void on_discard (MilterDecoder *d, gpointer u) { sig('d', 1); }
static void on_progress (MilterDecoder *d, gpointer u) { sig('p', 1); }
static void on_confail (MilterDecoder *d, gpointer u) { sig('f', 1); }
static void on_shutdown (MilterDecoder *d, gpointer u) { sig('4', 1); }
static void on_skip (MilterDecoder *d, gpointer u) { sig('s', 1); }
static void on_abort (MilterDecoder *d, gpointer u) { sig('?', 0); }
static void on_quarantine (MilterDecoder *d, const gchar *s, gpointer u) { sig('q', is_str(s, 0)); }
static void on_delrcpt (MilterDecoder *d, const gchar *s, gpointer u) { sig('-', is_str(s, 0)); }
static void on_body (MilterDecoder *d, const gchar *c, gsize n, gpointer u) { sig('b', is_chunk(c, n)); }
/* an empty second string is the same as none */
static int second (const char *s, int at)
{ if (at >= PN || !P[at]) return !s || !s[0]; return s && is_str(s, at); }
static void on_addrcpt (MilterDecoder *d, const gchar *r, const gchar *p, gpointer u)
{
    int k = nul_at(0);
    if (f[0] == '+') sig('+', is_str(r, 0) && !p);
    else sig('2', k >= 0 && is_str(r, 0) && second(p, k + 1));
}
static void on_chgfrom (MilterDecoder *d, const gchar *r, const gchar *p, gpointer u)
{ int k = nul_at(0); sig('e', k >= 0 && is_str(r, 0) && second(p, k + 1)); }
static void on_addheader (MilterDecoder *d, const gchar *n, const gchar *v, gpointer u)
{ int k = nul_at(0); sig('h', k >= 0 && is_str(n, 0) && is_str(v, k + 1)); }
static void on_insheader (MilterDecoder *d, guint index, const gchar *n, const gchar *v, gpointer u)
{ int k = PN > 4 ? nul_at(4) : -1; sig('i', k >= 0 && index == be(0) && is_str(n, 4) && is_str(v, k + 1)); }
static void on_chgheader (MilterDecoder *d, const gchar *n, guint index, const gchar *v, gpointer u)
{ int k = PN > 4 ? nul_at(4) : -1; sig('m', k >= 0 && index == be(0) && is_str(n, 4) && v && v[0] && is_str(v, k + 1)); }
static void on_delheader (MilterDecoder *d, const gchar *n, guint index, gpointer u)
{ int k = PN > 4 ? nul_at(4) : -1; sig('m', k >= 0 && k + 1 < PN && index == be(0) && is_str(n, 4) && !P[k + 1]); }
/* class of the reply code, 1 to 3 digits, 1 to 3 digits */
static int is_ext (int from, int to)
{
    int i = from + 2, n = 0;
    if (to - from < 5 || P[from] != P[0] || P[from + 1] != '.') return 0;
    while (i < to && digit(P[i])) { i++; n++; }
    if (n < 1 || n > 3 || i >= to || P[i] != '.') return 0;
    i++; n = 0;
    while (i < to && digit(P[i])) { i++; n++; }
    return n >= 1 && n <= 3 && i == to;
}
static void on_code (MilterDecoder *d, guint code, const gchar *ext, const gchar *msg, gpointer u)
{
    int end = nul_at(3), ok = end >= 3 && code == (guint)(P[0] - '0') * 100 + (P[1] - '0') * 10 + (P[2] - '0');
    int from = ok && P[3] == ' ' ? 4 : 3;
    /* the text is handed on whole: an extended status code of the same class
     * as such, the rest as the message */
    int sp = -1;
    for (int i = from; ok && i < end; i++) if (P[i] == ' ') { sp = i; break; }
    int to = sp < 0 ? end : sp;
    if (ok && is_ext(from, to)) ok = ext && is_part(ext, from, to) && (sp < 0 ? !msg || !msg[0] : msg && is_part(msg, sp + 1, end));
    else if (ok) ok = !ext && (from == end ? !msg || !msg[0] : msg && is_part(msg, from, end));
    sig('y', ok);
}
/* bits this version does not know may be dropped */
static int same_bits (guint32 got, guint32 sent, guint32 known) { return (got & known) == (sent & known) && !(got & ~sent); }
static int option_is (MilterOption *o)
{ return milter_option_get_version(o) == be(0) && same_bits(milter_option_get_action(o), be(4), 0x1ff) && same_bits(milter_option_get_step(o), be(8), 0x1fffff); }
static void on_negotiate (MilterDecoder *d, MilterOption *o, MilterMacrosRequests *m, gpointer u)
{
    int ok = PN >= 12 && option_is(o);
    if (PN == 12) ok = ok && !m;
    else ok = ok && m;
    if (ok && m) {
        static const char cmds[] = "CHMRTEN";
        int i = 12, last = -1, at = -1;
        while (i < PN) { guint32 st = be(i); int e = nul_at(i + 4); if (e < 0) { ok = 0; break; } last = st; at = i + 4; i = e + 1; }
        ok = ok && last >= 0 && last <= 6;
        if (ok) {
            GList *l = milter_macros_requests_get_symbols(m, cmds[last]);
            /* the symbols are the words between single blanks */
            int w = at, end = nul_at(at);
            for (int n = 0; ok && n <= PN; n++) {
                int x = w; while (x < end && P[x] != ' ') x++;
                ok = ok && l && is_part(l->data, w, x);
                if (ok) l = l->next;
                w = x + 1;
                if (x >= end) break;
            }
            ok = ok && !l;
        }
    }
    sig('O', ok);
}

static int two_strings (int optional)
{
    int k = nul_at(0); if (k <= 0) return 0;
    if (k == PN - 1) return optional;
    int v = nul_at(k + 1); if (v < 0) return 0;
    return v == PN - 1 ? 1 : -1;
}
static int expected (void)
{
    switch (f[0]) {
    case 'c': case 't': case 'r': case 'a': case 'd': case 'p': case 'f': case '4': case 's': return PN == 0;
    case 'b': return 1;
    case 'q': case '-': case '+': { int k = nul_at(0); if (k <= 0) return 0; return k == PN - 1 ? 1 : -1; }
    case '2': case 'e': return two_strings(1);
    case 'h': return two_strings(0);
    case 'i': case 'm': {
        if (PN <= 4) return 0;
        int k = nul_at(4); if (k <= 4) return 0;
        int v = nul_at(k + 1); if (v < 0) return 0;
        return v == PN - 1 ? 1 : -1;
    }
    case 'y': {
        if (PN < 4) return 0;
        if (P[0] != '4' && P[0] != '5') return 0;
        if (!digit(P[1]) || !digit(P[2])) return 0;
        int k = nul_at(3); if (k < 0) return 0;
        if (k != PN - 1) return -1;
        return k == 3 || P[3] == ' ' ? 1 : -1;
    }
    case 'O': {
        if (PN < 12) return 0;
        int i = 12;
        while (i < PN) {
            if (i + 4 > PN) return 0;
            if (be(i) > 6) return 0;
            int k = nul_at(i + 4); if (k < 0) return 0;
            if (k == i + 4) return -1;
            i = k + 1;
        }
        return 1;
    }
    default: return 0;
    }
}

int main (void)
{
    char frame[LEN + 4] = {0};
#ifdef CMD
    f[0] = CMD;
#else
    f[0] = nd_u8();
    { static const char known[] = "Octradpf4sbq-+2ehimy"; for (unsigned i = 0; i < sizeof(known) - 1; i++) VASSUME(f[0] != (unsigned char)known[i]); }
#endif
    for (int i = 1; i < LEN; i++) f[i] = nd_u8();
#ifdef STAGE
    /* the stage numbers of a macros request are concrete here */
    f[13] = f[14] = f[15] = 0; f[16] = STAGE;
#endif
    frame[3] = LEN;
    for (int i = 0; i < LEN; i++) frame[4 + i] = f[i];
    MilterDecoder *d = milter_reply_decoder_new();
#define CON(n, c) g_signal_connect(d, n, G_CALLBACK(c), NULL)
    CON("decode", on_frame);
    CON("negotiate-reply", on_negotiate); CON("continue", on_continue); CON("reply-code", on_code); CON("temporary-failure", on_tempfail);
    CON("reject", on_reject); CON("accept", on_accept); CON("discard", on_discard); CON("add-header", on_addheader);
    CON("insert-header", on_insheader); CON("change-header", on_chgheader); CON("delete-header", on_delheader); CON("change-from", on_chgfrom);
    CON("add-recipient", on_addrcpt); CON("delete-recipient", on_delrcpt); CON("replace-body", on_body); CON("progress", on_progress);
    CON("quarantine", on_quarantine); CON("connection-failure", on_confail); CON("shutdown", on_shutdown); CON("skip", on_skip); CON("abort", on_abort);
    GError *e = NULL;
    gboolean r = milter_decoder_decode(d, frame, LEN + 4, &e);
    int want = expected();
    VASSERT(r || e, "a rejected frame comes with an error");
    VASSERT(!r || !e, "an accepted frame comes without an error");
    VASSERT(n_signals == (r ? 1 : 0), "exactly the accepted frame is reported, once");
    VASSERT(!r || kind == f[0], "the frame is reported as the reply it carries");
    VASSERT(!r || args_ok, "the frame is reported with the values it carries");
    VASSERT(want != 1 || r, "a well-formed frame is accepted");
    VASSERT(want != 0 || !r, "a malformed frame is rejected");
    VOBS(r); VOBS(n_signals); VOBS(kind);
#ifdef W_ACCEPT
    VWITNESS_IF(r, "accepted");
#endif
#ifdef W_REJECT
    VWITNESS_IF(!r, "rejected");
#endif
    GError *e2 = NULL;
    gboolean end = milter_decoder_end_decode(d, &e2);
    VASSERT(end == r, "the stream may end after a complete frame");
    g_object_unref(d);
    return 0;
}
