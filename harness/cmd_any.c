/* One frame of LEN content bytes with command CMD, every other byte symbolic,
 * fed to the command decoder; the reference below says from the frame layout
 * of the milter protocol what must be reported. */
#include <milter/core/milter-command-decoder.h>
#include <netinet/in.h>
#include <sys/un.h>
#include "vnd.h"

static unsigned char f[LEN];          /* content: command byte and payload */
#define P (f + 1)
#define PN (LEN - 1)
static int n_signals, kind, args_ok;

static int nul_at (int from) { for (int i = from; i < PN; i++) if (!P[i]) return i; return -1; }
/* s is the string of the payload that starts at from */
static int is_str (const char *s, int from)
{ for (int i = from; i < PN; i++) { if ((unsigned char)s[i - from] != P[i]) return 0; if (!P[i]) return 1; } return 0; }
static int is_chunk (const char *s, gsize n)
{ if (n != PN) return 0; for (int i = 0; i < PN; i++) if ((unsigned char)s[i] != P[i]) return 0; return 1; }
static void sig (int k, int ok) { n_signals++; kind = k; args_ok = ok; }
static guint32 be (int o) { return (guint32)P[o] << 24 | (guint32)P[o+1] << 16 | (guint32)P[o+2] << 8 | P[o+3]; }

/* runs before the class handler of every frame the decoder cuts out */
static int frames;
static gboolean on_frame (MilterDecoder *d, gpointer error, gpointer u)
{ if (++frames > 1) { VASSERT(0, "only one frame was sent"); VASSUME(0); } return TRUE; }

/* bits this version does not know may be dropped */
static int same_bits (guint32 got, guint32 sent, guint32 known) { return (got & known) == (sent & known) && !(got & ~sent); }
static int option_is (MilterOption *o)
{ return milter_option_get_version(o) == be(0) && same_bits(milter_option_get_action(o), be(4), 0x1ff) && same_bits(milter_option_get_step(o), be(8), 0x1fffff); }
static void on_negotiate (MilterDecoder *d, MilterOption *o, gpointer u)
{ sig('O', PN == 12 && option_is(o)); }
static void on_macro (MilterDecoder *d, MilterCommand ctx, GHashTable *t, gpointer u)
{
    int ok = (unsigned char)ctx == P[0], i = 1, n = 0;
    /* the pairs of the frame, the last pair of a name decides */
    while (i < PN) {
        int k0 = i, k1 = nul_at(i);
        if (k1 < 0) { ok = 0; break; }
        int v0 = k1 + 1, v1 = nul_at(v0);
        if (v1 < 0) { ok = 0; break; }
        i = v1 + 1;
        char key[LEN + 1]; int kn = 0;
        if (P[k0] == '{' && P[k1 - 1] == '}') { for (int j = k0 + 1; j < k1 - 1; j++) key[kn++] = P[j]; }
        else for (int j = k0; j < k1; j++) key[kn++] = P[j];
        key[kn] = 0;
        n++;
        const char *v = g_hash_table_lookup(t, key);
        if (i >= PN) ok = ok && v && is_str(v, v0);          /* the last pair */
        else ok = ok && v;
    }
    ok = ok && g_hash_table_size(t) <= n && (n == 0 || g_hash_table_size(t) > 0);
    sig('D', ok);
}
static void on_connect (MilterDecoder *d, const gchar *host, const struct sockaddr *a, guint len, gpointer u)
{
    int h = nul_at(0), ok = is_str(host, 0);
    unsigned char fam = P[h + 1];
    if (fam == 'U') ok = ok && a->sa_family == AF_UNSPEC;
    else if (fam == 'L') {
        const struct sockaddr_un *un = (const struct sockaddr_un *)a;
        ok = ok && len == sizeof(*un) && un->sun_family == AF_UNIX && is_str(un->sun_path, h + 4);
    } else if (fam == '4') {
        const struct sockaddr_in *in = (const struct sockaddr_in *)a;
        ok = ok && len == sizeof(*in) && in->sin_family == AF_INET && ((unsigned char *)&in->sin_port)[0] == P[h + 2] && ((unsigned char *)&in->sin_port)[1] == P[h + 3];
    } else if (fam == '6') {
        const struct sockaddr_in6 *in = (const struct sockaddr_in6 *)a;
        ok = ok && len == sizeof(*in) && in->sin6_family == AF_INET6 && ((unsigned char *)&in->sin6_port)[0] == P[h + 2] && ((unsigned char *)&in->sin6_port)[1] == P[h + 3];
    } else ok = 0;
    sig('C', ok);
}
static void on_helo (MilterDecoder *d, const gchar *s, gpointer u) { sig('H', is_str(s, 0)); }
static void on_from (MilterDecoder *d, const gchar *s, gpointer u) { sig('M', is_str(s, 0)); }
static void on_rcpt (MilterDecoder *d, const gchar *s, gpointer u) { sig('R', is_str(s, 0)); }
static void on_unknown (MilterDecoder *d, const gchar *s, gpointer u) { sig('U', is_str(s, 0)); }
static void on_data (MilterDecoder *d, gpointer u) { sig('T', 1); }
static void on_eoh (MilterDecoder *d, gpointer u) { sig('N', 1); }
static void on_abort (MilterDecoder *d, gpointer u) { sig('A', 1); }
static void on_quit (MilterDecoder *d, gpointer u) { sig('Q', 1); }
static void on_header (MilterDecoder *d, const gchar *n, const gchar *v, gpointer u) { int k = nul_at(0); sig('L', k >= 0 && is_str(n, 0) && is_str(v, k + 1)); }
static void on_body (MilterDecoder *d, const gchar *c, gsize n, gpointer u) { sig('B', is_chunk(c, n)); }
static void on_eom (MilterDecoder *d, const gchar *c, gsize n, gpointer u) { sig('E', PN == 0 ? n == 0 : is_chunk(c, n)); }

/* 1 must be accepted, 0 must be rejected, -1 the property leaves it open
 * (bytes behind a complete value) */
static int expected (void)
{
    switch (f[0]) {
    case 'O': return PN == 12;
    case 'T': case 'N': case 'A': case 'Q': return PN == 0;
    case 'B': case 'E': return 1;
    case 'H': case 'M': case 'R': case 'U': { int k = nul_at(0); if (k <= 0) return 0; return k == PN - 1 ? 1 : -1; }
    case 'L': { int k = nul_at(0); if (k <= 0) return 0; int v = nul_at(k + 1); if (v < 0) return 0; return v == PN - 1 ? 1 : -1; }
    case 'C': {
        int h = nul_at(0); if (h <= 0) return 0;
        if (h + 1 >= PN) return 0;
        unsigned char fam = P[h + 1];
        if (fam == 'U') return h + 2 == PN;
        if (fam != 'L' && fam != '4' && fam != '6') return 0;
        if (h + 4 > PN) return 0;
        int a = nul_at(h + 4); if (a < 0 || a == h + 4) return 0;
        if (fam == 'L') return a == PN - 1 ? 1 : -1;
        return -2;                    /* textual address: subject of cmd_rt */
    }
    case 'D': {
        if (PN < 1) return 0;
        switch (P[0]) { case 'C': case 'H': case 'M': case 'R': case 'T': case 'L': case 'N': case 'B': case 'E': case 'U': break; default: return 0; }
        int i = 1;
        while (i < PN) {
            int k = nul_at(i); if (k < 0 || k == i) return 0;
            int v = nul_at(k + 1); if (v < 0) return 0;
            i = v + 1;
        }
        return 1;
    }
    default: return 0;
    }
}

int main (void)
{
    char frame[LEN + 4] = {0};
#ifdef CMD
    f[0] = CMD;
#else
    f[0] = nd_u8();
    { static const char known[] = "ODCHMRTLNBEAQU"; for (unsigned i = 0; i < sizeof(known) - 1; i++) VASSUME(f[0] != (unsigned char)known[i]); }
#endif
    for (int i = 1; i < LEN; i++) f[i] = nd_u8();
#ifdef CTX
    f[1] = CTX;
#endif
    frame[3] = LEN;
    for (int i = 0; i < LEN; i++) frame[4 + i] = f[i];
    MilterDecoder *d = milter_command_decoder_new();
#define CON(n, c) g_signal_connect(d, n, G_CALLBACK(c), NULL)
    CON("decode", on_frame);
    CON("negotiate", on_negotiate); CON("define-macro", on_macro); CON("connect", on_connect); CON("helo", on_helo);
    CON("envelope-from", on_from); CON("envelope-recipient", on_rcpt); CON("data", on_data); CON("header", on_header);
    CON("end-of-header", on_eoh); CON("body", on_body); CON("end-of-message", on_eom); CON("abort", on_abort);
    CON("quit", on_quit); CON("unknown", on_unknown);
    GError *e = NULL;
    gboolean r = milter_decoder_decode(d, frame, LEN + 4, &e);
    int want = expected();
    VASSERT(r || e, "a rejected frame comes with an error");
    VASSERT(!r || !e, "an accepted frame comes without an error");
    VASSERT(n_signals == (r ? 1 : 0), "exactly the accepted frame is reported, once");
    VASSERT(!r || kind == f[0], "the frame is reported as the command it carries");
    VASSERT(!r || args_ok, "the frame is reported with the values it carries");
    VASSERT(want != 1 || r, "a well-formed frame is accepted");
    VASSERT(want != 0 || !r, "a malformed frame is rejected");
    VOBS(r); VOBS(n_signals); VOBS(kind);
#ifdef W_ACCEPT
    VWITNESS_IF(r, "accepted");
#endif
#ifdef W_REJECT
    VWITNESS_IF(!r, "rejected");
#endif
    GError *e2 = NULL;
    gboolean end = milter_decoder_end_decode(d, &e2);
    VASSERT(end == r, "the stream may end after a complete frame");
    g_object_unref(d);
    return 0;
}
