/* A command is encoded from symbolic values and the packet is compared with
 * the layout of the milter protocol; then the packet is given to the command
 * decoder, which has to report the values that were encoded. */
#include <string.h>
#include <milter/core/milter-command-encoder.h>
#include <milter/core/milter-command-decoder.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include "vnd.h"
#ifndef N1
#define N1 1
#endif
#ifndef N2
#define N2 1
#endif

static char s1[N1 + 1], s2[N2 + 1];
static unsigned char x[64]; static unsigned xn;      /* the expected packet */
static int n_signals, kind, ok;
static void put (int c) { x[xn++] = c; }
static void puts_ (const char *s, int n) { for (int i = 0; i < n; i++) put((unsigned char)s[i]); put(0); }
static void put32 (guint32 v) { put(v >> 24); put(v >> 16); put(v >> 8); put(v); }
static int same (const char *s, const char *t) { if (!s) return 0; for (int i = 0; ; i++) { if (s[i] != t[i]) return 0; if (!s[i]) return 1; } }
static int same_n (const char *s, gsize n, const char *t, gsize m) { if (n != m) return 0; for (gsize i = 0; i < m; i++) if (s[i] != t[i]) return 0; return 1; }
static void sig (int k, int o) { n_signals++; kind = k; ok = o; }
static void bytes (char *s, int n) { for (int i = 0; i < n; i++) s[i] = nd_u8(); }

static int frames;
static gboolean on_frame (MilterDecoder *d, gpointer error, gpointer u)
{ if (++frames > 1) { VASSERT(0, "only one frame was sent"); VASSUME(0); } return TRUE; }

#if CMD == 'O'
static guint32 version, action, step;
static void on_negotiate (MilterDecoder *d, MilterOption *o, gpointer u)
{ sig('O', milter_option_get_version(o) == version && milter_option_get_action(o) == action && milter_option_get_step(o) == step); }
#elif CMD == 'D'
static int ctx;
static void on_macro (MilterDecoder *d, MilterCommand c, GHashTable *t, gpointer u)
{
    int r = c == ctx && g_hash_table_size(t) == 2;
    const char *v1 = g_hash_table_lookup(t, s1), *v2 = g_hash_table_lookup(t, s2);
    sig('D', r && same(v1, s2) && same(v2, s1));
}
#elif CMD == 'C'
static struct sockaddr *sa; static socklen_t sl;
static void on_connect (MilterDecoder *d, const gchar *host, const struct sockaddr *a, guint len, gpointer u)
{
    int r = same(host, s1) && a->sa_family == sa->sa_family;
    if (FAM == '4') r = r && len == sl && ((struct sockaddr_in *)a)->sin_port == ((struct sockaddr_in *)sa)->sin_port
        && ((struct sockaddr_in *)a)->sin_addr.s_addr == ((struct sockaddr_in *)sa)->sin_addr.s_addr;
    if (FAM == '6') r = r && len == sl && ((struct sockaddr_in6 *)a)->sin6_port == ((struct sockaddr_in6 *)sa)->sin6_port
        && same_n((char *)&((struct sockaddr_in6 *)a)->sin6_addr, 16, (char *)&((struct sockaddr_in6 *)sa)->sin6_addr, 16);
    if (FAM == 'L') r = r && same(((struct sockaddr_un *)a)->sun_path, s2);
    sig('C', r);
}
#else
static void on_helo (MilterDecoder *d, const gchar *s, gpointer u) { sig('H', same(s, s1)); }
static void on_from (MilterDecoder *d, const gchar *s, gpointer u) { sig('M', same(s, s1)); }
static void on_rcpt (MilterDecoder *d, const gchar *s, gpointer u) { sig('R', same(s, s1)); }
static void on_unknown (MilterDecoder *d, const gchar *s, gpointer u) { sig('U', same(s, s1)); }
static void on_data (MilterDecoder *d, gpointer u) { sig('T', 1); }
static void on_eoh (MilterDecoder *d, gpointer u) { sig('N', 1); }
static void on_abort (MilterDecoder *d, gpointer u) { sig('A', 1); }
static void on_quit (MilterDecoder *d, gpointer u) { sig('Q', 1); }
static void on_header (MilterDecoder *d, const gchar *n, const gchar *v, gpointer u) { sig('L', same(n, s1) && same(v, s2)); }
static gsize packed;
static void on_body (MilterDecoder *d, const gchar *c, gsize n, gpointer u) { sig('B', same_n(c, n, s1, packed)); }
static void on_eom (MilterDecoder *d, const gchar *c, gsize n, gpointer u) { sig('E', same_n(c, n, s1, N1)); }
#endif

int main (void)
{
    MilterCommandEncoder *e = MILTER_COMMAND_ENCODER(milter_command_encoder_new());
    const gchar *p = NULL; gsize pn = 0;
    int match = 0;
    /* the encoder is used again after an earlier frame */
    milter_command_encoder_encode_helo(e, &p, &pn, "mx");
    x[3] = 0; xn = 4;
    put(CMD);
    MilterDecoder *d = milter_command_decoder_new();
#define CON(n, c) g_signal_connect(d, n, G_CALLBACK(c), NULL)
    CON("decode", on_frame);
#if CMD == 'O'
    version = nd_u32(); action = nd_u32() & 0x1ff; step = nd_u32() & 0x1fffff;
    CON("negotiate", on_negotiate);
    MilterOption *o = milter_option_new(version, action, step);
    put32(version); put32(action); put32(step);
    milter_command_encoder_encode_negotiate(e, &p, &pn, o);
#elif CMD == 'D'
    static const char ctxs[] = "CHMRTLNBEU";
    CON("define-macro", on_macro);
    ctx = ctxs[nd_range(0, sizeof(ctxs) - 2)];
    nd_text(s1, N1); nd_text(s2, N2);
    VASSUME(s1[0] != '{' && s2[0] != '{' && !same(s1, s2));
    GHashTable *t = g_hash_table_new(g_str_hash, g_str_equal);
    g_hash_table_insert(t, s1, s2); g_hash_table_insert(t, s2, s1);
    milter_command_encoder_encode_define_macro(e, &p, &pn, ctx, t);
#elif CMD == 'C'
    static union { struct sockaddr_in i; struct sockaddr_in6 i6; struct sockaddr_un u; struct sockaddr a; } a;
    char txt[INET6_ADDRSTRLEN];
    CON("connect", on_connect);
    nd_text(s1, N1); puts_(s1, N1); put(FAM);
    sa = &a.a;
    if (FAM == '4') {
        unsigned char *b = (unsigned char *)&a.i.sin_addr.s_addr;
        a.i.sin_family = AF_INET; a.i.sin_port = nd_u16(); sl = sizeof(a.i);
        for (int i = 0; i < 4; i++) b[i] = nd_u8();
        put(((unsigned char *)&a.i.sin_port)[0]); put(((unsigned char *)&a.i.sin_port)[1]);
        inet_ntop(AF_INET, b, txt, sizeof(txt)); puts_(txt, strlen(txt));
    } else if (FAM == '6') {
        a.i6.sin6_family = AF_INET6; a.i6.sin6_port = nd_u16(); sl = sizeof(a.i6);
        for (int i = 0; i < 16; i++) a.i6.sin6_addr.s6_addr[i] = nd_u8();
        put(((unsigned char *)&a.i6.sin6_port)[0]); put(((unsigned char *)&a.i6.sin6_port)[1]);
        inet_ntop(AF_INET6, &a.i6.sin6_addr, txt, sizeof(txt));
        for (const char *q = "IPv6:"; *q; q++) put(*q);
        puts_(txt, strlen(txt));
    } else if (FAM == 'L') {
        a.u.sun_family = AF_UNIX; nd_text(s2, N2); for (int i = 0; i <= N2; i++) a.u.sun_path[i] = s2[i];
        v_known_text(a.u.sun_path, N2);
        sl = sizeof(a.u); put(0); put(0); puts_(s2, N2);
    } else { a.a.sa_family = AF_UNSPEC; sl = sizeof(a.a); }
    milter_command_encoder_encode_connect(e, &p, &pn, s1, sa, sl);
#elif CMD == 'H'
    CON("helo", on_helo); nd_text(s1, N1); puts_(s1, N1); milter_command_encoder_encode_helo(e, &p, &pn, s1);
#elif CMD == 'M'
    CON("envelope-from", on_from); nd_text(s1, N1); puts_(s1, N1); milter_command_encoder_encode_envelope_from(e, &p, &pn, s1);
#elif CMD == 'R'
    CON("envelope-recipient", on_rcpt); nd_text(s1, N1); puts_(s1, N1); milter_command_encoder_encode_envelope_recipient(e, &p, &pn, s1);
#elif CMD == 'U'
    CON("unknown", on_unknown); nd_text(s1, N1); puts_(s1, N1); milter_command_encoder_encode_unknown(e, &p, &pn, s1);
#elif CMD == 'L'
    CON("header", on_header); nd_text(s1, N1); nd_text(s2, N2); puts_(s1, N1); puts_(s2, N2); milter_command_encoder_encode_header(e, &p, &pn, s1, s2);
#elif CMD == 'T'
    CON("data", on_data); milter_command_encoder_encode_data(e, &p, &pn);
#elif CMD == 'N'
    CON("end-of-header", on_eoh); milter_command_encoder_encode_end_of_header(e, &p, &pn);
#elif CMD == 'A'
    CON("abort", on_abort); milter_command_encoder_encode_abort(e, &p, &pn);
#elif CMD == 'Q'
    CON("quit", on_quit); milter_command_encoder_encode_quit(e, &p, &pn);
#elif CMD == 'B'
    CON("body", on_body); bytes(s1, N1);
    milter_command_encoder_encode_body(e, &p, &pn, s1, N1, &packed);
    VASSERT(packed == (N1 > MILTER_CHUNK_SIZE ? MILTER_CHUNK_SIZE : N1), "a chunk is packed up to the chunk size limit");
    for (gsize i = 0; i < packed; i++) put((unsigned char)s1[i]);
#elif CMD == 'E'
    CON("end-of-message", on_eom); bytes(s1, N1); for (int i = 0; i < N1; i++) put((unsigned char)s1[i]);
    milter_command_encoder_encode_end_of_message(e, &p, &pn, s1, N1);
#endif
    x[3] = xn - 4;
#if CMD == 'D'
    /* either order of the two macros */
    for (int o = 0; o < 2; o++) {
        put(ctx);
        for (int k = 0; k < 2; k++) {
            const char *n = k == o ? s1 : s2; int nn = k == o ? N1 : N2;
            if (nn > 1) put('{');
            for (int i = 0; i < nn; i++) put((unsigned char)n[i]);
            if (nn > 1) put('}');
            put(0);
            puts_(k == o ? s2 : s1, k == o ? N2 : N1);
        }
        x[3] = xn - 4;
        int eq = p && pn == xn;
        for (unsigned i = 0; i < xn; i++) eq = eq && (unsigned char)p[i] == x[i];
        match |= eq;
        if (o == 0) xn = 5;
    }
    VASSERT(match, "the packet follows the protocol's layout");
#else
    VASSERT(p && pn == xn, "the packet has the size of the protocol's layout");
    for (unsigned i = 0; i < xn; i++) VASSERT((unsigned char)p[i] == x[i], "the packet follows the protocol's layout");
#endif
    v_formatting(0);                    /* the texts of error messages */
    GError *er = NULL;
    gboolean r = milter_decoder_decode(d, (char *)x, xn, &er);
    VASSERT(r && !er, "an encoded command is decodable");
    VASSERT(n_signals == 1, "an encoded command is reported exactly once");
    VASSERT(kind == CMD, "an encoded command is decoded as the same command");
    VASSERT(ok, "an encoded command is decoded with the same values");
    GError *e2 = NULL;
    VASSERT(milter_decoder_end_decode(d, &e2), "the packet is a complete frame");
#if CMD != 'C'
    VOBS(pn);
#endif
    VOBS(kind);
    VWITNESS("encoded and decoded");
    g_object_unref(d); g_object_unref(e);
    return 0;
}
