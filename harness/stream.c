/* A stream of two frames cut into pieces in every way: what is reported, when,
 * and what the end of the stream says. */
#include <string.h>
#include <milter/core/milter-command-decoder.h>
#include <milter/core/milter-reply-decoder.h>
#include "vnd.h"
#define T1 (4 + L1)
#define TT (4 + L1 + 4 + L2)
static unsigned char s[TT + 1];
typedef struct { int kind; int n; unsigned char b[16]; } Ev;
static Ev ev[4]; static int n_ev;
static void put (int kind, const void *p, gsize n)
{
    VASSERT(n_ev < 2, "no more is reported than was sent");
    VASSUME(n_ev < 2);
    Ev *e = &ev[n_ev++]; e->kind = kind; e->n = (int)n;
    for (int i = 0; i < 16; i++) e->b[i] = (gsize)i < n ? ((const unsigned char *)p)[i] : 0;
}
static void put_text (int kind, const char *t) { int n = 0; while (n < 15 && t[n]) n++; put(kind, t, n); }
static void on_text (MilterDecoder *d, const gchar *t, gpointer k) { put_text(GPOINTER_TO_INT(k), t); }
static void on_chunk (MilterDecoder *d, const gchar *c, gsize n, gpointer k) { put(GPOINTER_TO_INT(k), c, n); }
static void on_none (MilterDecoder *d, gpointer k) { put(GPOINTER_TO_INT(k), "", 0); }
/* frame letter -> kind of content */
static int is_chunk (int c) { return c == 'B' || c == 'E' || c == 'b'; }
static int is_text (int c) { return c == 'U' || c == 'H' || c == 'q' || c == '-'; }
#ifdef BASE
/* a decoder that only says what the frames are that it is given */
typedef struct { MilterDecoder parent; } VDecoder;
typedef struct { MilterDecoderClass parent_class; } VDecoderClass;
GType v_decoder_get_type (void);
G_DEFINE_TYPE(VDecoder, v_decoder, MILTER_TYPE_DECODER)
static int refuse, with_error;
static gboolean v_decode (MilterDecoder *d, GError **e)
{
    const gchar *b = milter_decoder_get_buffer(d); gint n = milter_decoder_get_command_length(d);
    VASSERT(n == (n_ev ? L2 : L1), "the frame is as long as its length says");
    VASSUME(n == (n_ev ? L2 : L1));
    if (refuse) { if (with_error) g_set_error_literal(e, g_quark_from_static_string("x"), 1, "no"); return FALSE; }
    put('B', b + 1, n - 1);
    if ((unsigned char)b[0] != s[(n_ev == 1 ? 0 : T1) + 4]) ev[n_ev - 1].kind = 0;
    return TRUE;
}
static void v_decoder_class_init (VDecoderClass *c) { MILTER_DECODER_CLASS(c)->decode = v_decode; }
static void v_decoder_init (VDecoder *d) {}
#endif
#ifndef BASE
static int refuse, with_error;
#endif
static MilterDecoder *decoder (void)
{
    n_ev = 0;
#ifdef BASE
    MilterDecoder *d = g_object_new(v_decoder_get_type(), NULL);
#elif defined REPLY
    MilterDecoder *d = milter_reply_decoder_new();
    g_signal_connect(d, "quarantine", G_CALLBACK(on_text), GINT_TO_POINTER('q'));
    g_signal_connect(d, "delete-recipient", G_CALLBACK(on_text), GINT_TO_POINTER('-'));
    g_signal_connect(d, "replace-body", G_CALLBACK(on_chunk), GINT_TO_POINTER('b'));
    g_signal_connect(d, "continue", G_CALLBACK(on_none), GINT_TO_POINTER('c'));
    g_signal_connect(d, "discard", G_CALLBACK(on_none), GINT_TO_POINTER('d'));
#else
    MilterDecoder *d = milter_command_decoder_new();
    g_signal_connect(d, "unknown", G_CALLBACK(on_text), GINT_TO_POINTER('U'));
    g_signal_connect(d, "helo", G_CALLBACK(on_text), GINT_TO_POINTER('H'));
    g_signal_connect(d, "body", G_CALLBACK(on_chunk), GINT_TO_POINTER('B'));
    g_signal_connect(d, "end-of-message", G_CALLBACK(on_chunk), GINT_TO_POINTER('E'));
    g_signal_connect(d, "quit", G_CALLBACK(on_none), GINT_TO_POINTER('Q'));
    g_signal_connect(d, "abort", G_CALLBACK(on_none), GINT_TO_POINTER('A'));
#endif
    return d;
}
static int event_ok (int i, int c, int at, int n)
{
    const Ev *e = &ev[i];
    int want = is_text(c) ? n - 2 : n - 1;
    if (e->kind != c || e->n != want) return 0;
    for (int j = 0; j < want; j++) if (e->b[j] != s[at + 1 + j]) return 0;
    return 1;
}
/* after the first k bytes have been given */
static void reached (int k)
{
    int want = (k >= T1) + (k >= TT);
#ifdef BAD
    want = 0;
#endif
    VASSERT(n_ev == want, "exactly the frames that have arrived are reported");
    if (n_ev >= 1 && want >= 1) VASSERT(event_ok(0, C1, 4, L1), "the first frame is the one that was sent");
    if (n_ev >= 2 && want >= 2) VASSERT(event_ok(1, C2, T1 + 4, L2), "the second frame is the one that was sent");
}
static void frame (int at, int c, int n)
{
    s[at] = s[at + 1] = s[at + 2] = 0; s[at + 3] = n; s[at + 4] = c;
    for (int i = 1; i < n; i++) { s[at + 4 + i] = nd_u8(); if (is_text(c)) VASSUME(s[at + 4 + i] || i == n - 1); }
    if (is_text(c)) s[at + 4 + n - 1] = 0;
}
static int had_failed;
static gboolean feed (MilterDecoder *d, int from, int to, GError **e)
{
    /* a copy of exactly that size: nothing behind it may be read */
    char *p = g_malloc(to - from);
    for (int i = from; i < to; i++) p[i - from] = s[i];
    gboolean r = milter_decoder_decode(d, p, to - from, e);
    /* after a failure a call fails with no further error */
    if (!had_failed) VASSERT(!r == !!*e, "an error is reported when decoding fails");
    if (!r) had_failed = 1;
    g_free(p);
    return r;
}
int main (void)
{
    GError *e = NULL;
#ifdef FREELEN
    /* a frame length that is no length, or more than has come */
    s[0] = nd_u8(); s[1] = nd_u8(); s[2] = nd_u8(); s[3] = nd_u8();
    guint32 l = (guint32)s[0] << 24 | (guint32)s[1] << 16 | (guint32)s[2] << 8 | s[3];
    VASSUME(l == 0 || l > L1);
    int good = l != 0 && l <= 0x7fffffff;
    for (int i = 0; i < L1; i++) s[4 + i] = nd_u8();
    refuse = 1;
    MilterDecoder *d = decoder();
    gboolean r = feed(d, 0, FREELEN, &e);
    if (FREELEN >= 4) VASSERT(!!r == good, "a frame length is refused when it is zero or does not fit");
    else VASSERT(r, "an incomplete frame length is waited for");
    if (r) { r = feed(d, FREELEN, 4 + L1, &e); VASSERT(!!r == good, "a frame length is refused whenever it is complete"); }
    VASSERT(n_ev == 0, "nothing is reported before the frame is complete");
    if (good) {
        VASSERT(!milter_decoder_end_decode(d, &e) && e, "a stream that ends within a frame is an error");
    } else {
        GError *e2 = NULL;
        char z[5] = { 0, 0, 0, 1, C1 };
        VASSERT(!milter_decoder_decode(d, z, 5, &e2) && n_ev == 0, "after an error nothing is decoded");
    }
    VOBS(good);
    VWITNESS_IF(good, "waiting");
    VWITNESS_IF(!good, "refused");
    g_object_unref(d);
#else
    frame(0, C1, L1); frame(T1, C2, L2);
#ifdef BASE
    s[4] = nd_u8(); s[T1 + 4] = nd_u8();
#endif
    MilterDecoder *d = decoder();
#ifdef BAD
    refuse = 1; with_error = nd_bool();
    gboolean r = feed(d, 0, CUT, &e);
    VASSERT(n_ev == 0 && !!r == (CUT < T1), "a bad frame is refused as soon as it is complete");
    e = NULL;
    if (CUT < TT) { r = feed(d, CUT, TT, &e); VASSERT(!r && n_ev == 0, "after a bad frame nothing is reported"); }
    e = NULL;
    VASSERT(!milter_decoder_end_decode(d, &e), "an error stays");
    VWITNESS_IF(with_error, "refused with an error");
    VWITNESS_IF(!with_error, "refused without an error");
#elif CUT == 0
    for (int k = 0; k < TT; k++) { VASSERT(feed(d, k, k + 1, &e) && !e, "good frames are accepted byte by byte"); reached(k + 1); }
    VWITNESS("byte by byte");
#else
    VASSERT(feed(d, 0, CUT, &e), "good frames are accepted");
    reached(CUT);
#ifdef CUT2
    VASSERT(feed(d, CUT, CUT2, &e), "good frames are accepted");
    reached(CUT2);
    VASSERT(feed(d, CUT2, TT, &e), "good frames are accepted");
    reached(TT);
#else
#if CUT < TT
    {
        int end_here = nd_bool();
        if (end_here) {
            GError *end = NULL;
            gboolean good = milter_decoder_end_decode(d, &end);
            VASSERT(!!good == (CUT == T1) && !end == (CUT == T1), "the stream may end between frames only");
            VWITNESS("ended at the cut");
            return 0;
        }
        VASSERT(feed(d, CUT, TT, &e), "good frames are accepted");
        reached(TT);
    }
#endif
#endif
    GError *end = NULL;
    VASSERT(milter_decoder_end_decode(d, &end) && !end, "the stream may end after a frame");
    VWITNESS("cut");
#endif
    VOBS(n_ev);
    g_object_unref(d);
#endif
    return 0;
}
