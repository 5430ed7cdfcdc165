/* A reply is encoded from symbolic values and the packet is compared with the
 * layout of the milter protocol; then the packet is given to the reply decoder,
 * which has to report the values that were encoded. */
#include <string.h>
#include <milter/core/milter-reply-encoder.h>
#include <milter/core/milter-reply-decoder.h>
#include <milter/core/milter-macros-requests.h>
#include "vnd.h"
#ifndef N1
#define N1 1
#endif
#ifndef N2
#define N2 1
#endif

static char s1[N1 + 1], s2[N2 + 1];
static unsigned char x[64]; static unsigned xn;      /* the expected packet */
static int n_signals, kind, ok;
static guint32 idx;
static void put (int c) { x[xn++] = c; }
static void puts_ (const char *s, int n) { for (int i = 0; i < n; i++) put((unsigned char)s[i]); put(0); }
static void put32 (guint32 v) { put(v >> 24); put(v >> 16); put(v >> 8); put(v); }
static int same (const char *s, const char *t) { if (!s) return 0; for (int i = 0; ; i++) { if (s[i] != t[i]) return 0; if (!s[i]) return 1; } }
static int same_n (const char *s, gsize n, const char *t, gsize m) { if (n != m) return 0; for (gsize i = 0; i < m; i++) if (s[i] != t[i]) return 0; return 1; }
static void sig (int k, int o) { n_signals++; kind = k; ok = o; }

static int frames;
static gboolean on_frame (MilterDecoder *d, gpointer error, gpointer u)
{ if (++frames > 1) { VASSERT(0, "only one frame was sent"); VASSUME(0); } return TRUE; }
static void on_0 (MilterDecoder *d, gpointer u) { sig(CMD, 1); }
static void on_1 (MilterDecoder *d, const gchar *s, gpointer u) { sig(CMD, same(s, s1)); }
static void on_2 (MilterDecoder *d, const gchar *s, const gchar *t, gpointer u)
{ sig(CMD, same(s, s1) && (N2 || CMD == 'h' ? same(t, s2) : (!t || !t[0]))); }
static void on_ins (MilterDecoder *d, guint i, const gchar *s, const gchar *t, gpointer u) { sig('i', i == idx && same(s, s1) && same(t, s2)); }
static void on_chg (MilterDecoder *d, const gchar *s, guint i, const gchar *t, gpointer u) { sig('m', N2 && i == idx && same(s, s1) && same(t, s2)); }
static void on_del (MilterDecoder *d, const gchar *s, guint i, gpointer u) { sig('m', !N2 && i == idx && same(s, s1)); }
static gsize packed;
static void on_body (MilterDecoder *d, const gchar *c, gsize n, gpointer u) { sig('b', same_n(c, n, s1, packed)); }
#if CMD == 'y'
/* code, blank, text of two words: s1 ends with the first, s2 is the second */
static char line[N1 + N2 + 2];
static int digit (int c) { return c >= '0' && c <= '9'; }
static int is_ext (void)
{
    int i = 6, n = 0;
    if (N1 < 9 || s1[4] != s1[0] || s1[5] != '.') return 0;
    while (i < N1 && digit(s1[i])) { i++; n++; }
    if (n < 1 || n > 3 || i >= N1 || s1[i] != '.') return 0;
    i++; n = 0;
    while (i < N1 && digit(s1[i])) { i++; n++; }
    return n >= 1 && n <= 3 && i == N1;
}
static void on_code (MilterDecoder *d, guint code, const gchar *ext, const gchar *msg, gpointer u)
{
    int r = code == (guint)(s1[0] - '0') * 100 + (s1[1] - '0') * 10 + (s1[2] - '0');
    if (is_ext()) r = r && ext && same(ext, s1 + 4) && msg && same(msg, s2);
    else r = r && !ext && msg && same(msg, line + 4);
    sig('y', r);
}
#endif
#if CMD == 'O'
static guint32 version, action, step;
static MilterCommand mc;
static void on_negotiate (MilterDecoder *d, MilterOption *o, MilterMacrosRequests *m, gpointer u)
{
    int r = milter_option_get_version(o) == version && milter_option_get_action(o) == action && milter_option_get_step(o) == step;
    if (MACROS == 0) r = r && !m;
    else {
        GList *l = m ? milter_macros_requests_get_symbols(m, mc) : NULL;
        r = r && l && same(l->data, s1);
        l = r ? l->next : NULL;
        if (MACROS == 2) { r = r && l && same(l->data, s2); l = r ? l->next : NULL; }
        r = r && !l;
    }
    sig('O', r);
}
#endif

int main (void)
{
    MilterReplyEncoder *e = MILTER_REPLY_ENCODER(milter_reply_encoder_new());
    const gchar *p = NULL; gsize pn = 0;
    /* the encoder is used again after an earlier frame */
    milter_reply_encoder_encode_quarantine(e, &p, &pn, "mx");
    x[3] = 0; xn = 4;
    int letter = CMD;
    MilterDecoder *d = milter_reply_decoder_new();
#define CON(n, c) g_signal_connect(d, n, G_CALLBACK(c), NULL)
    CON("decode", on_frame);
    MilterMacrosRequests *m = NULL;
#if CMD == 'O'
    put(CMD);
    version = nd_u32(); action = nd_u32() & 0x1ff; step = nd_u32() & 0x1fffff;
    put32(version); put32(action); put32(step);
    CON("negotiate-reply", on_negotiate);
    MilterOption *o = milter_option_new(version, action, step);
    if (MACROS) {
        static const char cs[] = "CHMRTEN";
        int st = STAGE;
        m = milter_macros_requests_new();
        mc = cs[st];
        nd_text(s1, N1); for (int i = 0; i < N1; i++) VASSUME(s1[i] != ' ');
        put32(st); for (int i = 0; i < N1; i++) put((unsigned char)s1[i]);
        if (MACROS == 2) {
            nd_text(s2, N2); for (int i = 0; i < N2; i++) VASSUME(s2[i] != ' ');
            put(' '); for (int i = 0; i < N2; i++) put((unsigned char)s2[i]);
            milter_macros_requests_set_symbols(m, mc, s1, s2, NULL);
        } else milter_macros_requests_set_symbols(m, mc, s1, NULL);
        put(0);
    }
    milter_reply_encoder_encode_negotiate(e, &p, &pn, o, m);
#elif CMD == 'y'
    /* code, blank, extended code, blank, text */
    nd_text(s1, N1); nd_text(s2, N2);
    VASSUME((s1[0] == '4' || s1[0] == '5') && s1[1] >= '0' && s1[1] <= '9' && s1[2] >= '0' && s1[2] <= '9' && s1[3] == ' ');
    for (int i = 4; i < N1; i++) VASSUME(s1[i] != ' ');
    for (int i = 0; i < N1; i++) line[i] = s1[i];
    line[N1] = ' '; for (int i = 0; i < N2; i++) line[N1 + 1 + i] = s2[i];
    for (int i = 0; i < N2; i++) VASSUME(s2[i] != ' ');
    v_known_text(line, N1 + N2 + 1);
    put(CMD); puts_(line, N1 + N2 + 1);
    CON("reply-code", on_code);
    milter_reply_encoder_encode_reply_code(e, &p, &pn, line);
#elif CMD == 'b'
    for (int i = 0; i < N1; i++) s1[i] = nd_u8();
    CON("replace-body", on_body);
    milter_reply_encoder_encode_replace_body(e, &p, &pn, s1, N1, &packed);
    VASSERT(packed == (N1 > MILTER_CHUNK_SIZE ? MILTER_CHUNK_SIZE : N1), "a chunk is packed up to the chunk size limit");
    put(CMD); for (gsize i = 0; i < packed; i++) put((unsigned char)s1[i]);
#else
    int two = 0;
#ifdef TWO
    two = 1;
#endif
    nd_text(s1, N1); nd_text(s2, N2); idx = nd_u32();
    if (CMD == '+' && two) letter = '2';
    put(letter);
    switch (CMD) {
    case 'c': CON("continue", on_0); milter_reply_encoder_encode_continue(e, &p, &pn); break;
    case 't': CON("temporary-failure", on_0); milter_reply_encoder_encode_temporary_failure(e, &p, &pn); break;
    case 'r': CON("reject", on_0); milter_reply_encoder_encode_reject(e, &p, &pn); break;
    case 'a': CON("accept", on_0); milter_reply_encoder_encode_accept(e, &p, &pn); break;
    case 'd': CON("discard", on_0); milter_reply_encoder_encode_discard(e, &p, &pn); break;
    case 'p': CON("progress", on_0); milter_reply_encoder_encode_progress(e, &p, &pn); break;
    case 'f': CON("connection-failure", on_0); milter_reply_encoder_encode_connection_failure(e, &p, &pn); break;
    case '4': CON("shutdown", on_0); milter_reply_encoder_encode_shutdown(e, &p, &pn); break;
    case 's': CON("skip", on_0); milter_reply_encoder_encode_skip(e, &p, &pn); break;
    case 'q': CON("quarantine", on_1); puts_(s1, N1); milter_reply_encoder_encode_quarantine(e, &p, &pn, s1); break;
    case '-': CON("delete-recipient", on_1); puts_(s1, N1); milter_reply_encoder_encode_delete_recipient(e, &p, &pn, s1); break;
    case '+': CON("add-recipient", on_2); puts_(s1, N1); if (two) puts_(s2, N2);
              milter_reply_encoder_encode_add_recipient(e, &p, &pn, s1, two ? s2 : nd_bool() ? "" : NULL); break;
    case 'e': CON("change-from", on_2); puts_(s1, N1); if (two) puts_(s2, N2);
              milter_reply_encoder_encode_change_from(e, &p, &pn, s1, two ? s2 : nd_bool() ? "" : NULL); break;
    case 'h': CON("add-header", on_2); puts_(s1, N1); puts_(s2, N2); milter_reply_encoder_encode_add_header(e, &p, &pn, s1, s2); break;
    case 'i': CON("insert-header", on_ins); put32(idx); puts_(s1, N1); puts_(s2, N2); milter_reply_encoder_encode_insert_header(e, &p, &pn, idx, s1, s2); break;
    case 'm': CON("change-header", on_chg); CON("delete-header", on_del); put32(idx); puts_(s1, N1); puts_(s2, N2);
              if (N2) milter_reply_encoder_encode_change_header(e, &p, &pn, s1, idx, s2);
              else milter_reply_encoder_encode_delete_header(e, &p, &pn, s1, idx); break;
    }
#endif
    x[3] = xn - 4;
    VASSERT(p && pn == xn, "the packet has the size of the protocol's layout");
    for (unsigned i = 0; i < xn; i++) VASSERT((unsigned char)p[i] == x[i], "the packet follows the protocol's layout");
    v_formatting(0);
    GError *er = NULL;
    gboolean r = milter_decoder_decode(d, (char *)x, xn, &er);
    VASSERT(r && !er, "an encoded reply is decodable");
    VASSERT(n_signals == 1, "an encoded reply is reported exactly once");
    VASSERT(kind == CMD, "an encoded reply is decoded as the same reply");
    VASSERT(ok, "an encoded reply is decoded with the same values");
    GError *e2 = NULL;
    VASSERT(milter_decoder_end_decode(d, &e2), "the packet is a complete frame");
    VOBS(pn); VOBS(kind);
    VWITNESS("encoded and decoded");
    g_object_unref(d); g_object_unref(e);
    return 0;
}
