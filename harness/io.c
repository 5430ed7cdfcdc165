/* A writer or a reader on a channel and an event loop of the harness: SEQ is
 * the sequence of requests and events, the channel decides freely how much it
 * takes or gives each time. */
#include <string.h>
#include <milter/core.h>
#include "vnd.h"
/* ------------------------------------------------ the event loop */
static gpointer obj;
typedef struct { MilterEventLoop parent; } VLoop;
typedef struct { MilterEventLoopClass parent_class; } VLoopClass;
GType v_loop_get_type (void);
G_DEFINE_TYPE(VLoop, v_loop, MILTER_TYPE_EVENT_LOOP)
#define NW 5
/* one place for each callback: the identifier of a watch does not depend on
 * what happened before */
static struct { int on; GIOCondition c; GIOFunc f; } watch[NW];
static guint v_watch_io_full (MilterEventLoop *l, gint p, GIOChannel *ch, GIOCondition c, GIOFunc f, gpointer d, GDestroyNotify n)
{
    int id = 0;
    for (int i = 1; i < NW; i++) if (!id && (!watch[i].f || watch[i].f == f)) id = i;
    VASSERT(id && watch[id].on != 1, "nothing is watched twice");
    VASSUME(id && watch[id].on != 1);
    watch[id].on = 1;
    if (!watch[id].f) { watch[id].c = c; watch[id].f = f; }
    VASSERT(watch[id].c == c && d == obj, "each callback has its condition and its object");
    return id;
}
static gboolean v_remove (MilterEventLoop *l, guint id)
{
    VASSERT(id >= 1 && id < NW && watch[id].on, "only what is watched is removed");
    VASSUME(id >= 1 && id < NW);
    watch[id].on = 0;
    return TRUE;
}
static void v_loop_class_init (VLoopClass *c) { MILTER_EVENT_LOOP_CLASS(c)->watch_io_full = v_watch_io_full; MILTER_EVENT_LOOP_CLASS(c)->remove = v_remove; }
static void v_loop_init (VLoop *l) {}
static int watched (GIOCondition c) { int n = 0; for (int i = 1; i < NW; i++) if (watch[i].on && (watch[i].c & c)) n++; return n; }
static GIOChannel ch;
static int alive;
/* one round of the loop with that condition; what is added in it comes later */
static int happen (GIOCondition c)
{
    int due[NW], done = 0;
    for (int i = 1; i < NW; i++) due[i] = watch[i].on && (watch[i].c & c);
    for (int i = 1; i < NW; i++)
        if (due[i] && watch[i].on) {
            watch[i].on = 2;
            done++;
            gboolean keep = watch[i].f(&ch, c, obj);
            VASSERT(!keep || watch[i].on != 1, "nothing is watched twice");    /* 1: watched anew meanwhile */
            if (watch[i].on == 2) watch[i].on = !!keep;
        }
    return done;
}
/* ------------------------------------------------ the channel */
#define CAP 16
static unsigned char sent[CAP], out[CAP];
static int n_sent, n_out, io_fails, io_again, take_all, calls, one_call;
static GIOStatus c_write (GIOChannel *c, const gchar *b, gsize n, gsize *w, GError **e)
{
    calls++;
    VASSERT(n == (gsize)(n_sent - n_out), "everything that waits is offered to the channel");
    for (int i = 0; i < CAP; i++) if (n_out + i < n_sent && (gsize)i < n) VASSERT((unsigned char)b[i] == sent[n_out + i], "the bytes go out in the order they were written, each once");
    *w = 0;
    if (io_fails) { g_set_error_literal(e, G_IO_CHANNEL_ERROR, G_IO_CHANNEL_ERROR_FAILED, "x"); return G_IO_STATUS_ERROR; }
    int k = take_all ? (int)n : nd_u8();
    VASSUME(k >= 0 && (gsize)k <= n);
    n_out += k; *w = k;
    return k ? G_IO_STATUS_NORMAL : G_IO_STATUS_AGAIN;
}
static const char *give; static int n_give, give_eof;
static GIOStatus c_read (GIOChannel *c, gchar *b, gsize n, gsize *r, GError **e)
{
    *r = 0; calls++;
    if (io_fails) { g_set_error_literal(e, G_IO_CHANNEL_ERROR, G_IO_CHANNEL_ERROR_FAILED, "x"); return G_IO_STATUS_ERROR; }
    if (give_eof) return G_IO_STATUS_EOF;
    for (int i = 0; i < n_give; i++) { b[i] = sent[n_sent] = nd_u8(); n_sent++; }
    *r = n_give;
    return n_give ? G_IO_STATUS_NORMAL : G_IO_STATUS_AGAIN;
}
static GIOStatus c_close (GIOChannel *c, GError **e) { return G_IO_STATUS_NORMAL; }
static GIOStatus c_seek (GIOChannel *c, gint64 o, GSeekType t, GError **e) { return G_IO_STATUS_NORMAL; }
static void c_free (GIOChannel *c) { alive = 0; }
static GSource *c_watch (GIOChannel *c, GIOCondition d) { return NULL; }
static GIOFlags c_get_flags (GIOChannel *c) { return 0; }
static GIOStatus c_set_flags (GIOChannel *c, GIOFlags f, GError **e) { return G_IO_STATUS_NORMAL; }
static GIOFuncs funcs = { c_read, c_write, c_seek, c_close, c_watch, c_free, c_set_flags, c_get_flags };
static const char seq[] = SEQ;
#define NOPS ((int)sizeof(SEQ) - 1)
static int errors, want_errors, finished, want_finished, flushed, asked, stopped;
#define NF 6
static int due[NF];                     /* what was written before each flush that is not answered */
static void on_error (gpointer o, GError *e, gpointer d) { VASSERT(e != NULL, "an error signal has an error"); errors++; }
static void on_finished (gpointer o, gpointer d) { finished++; }
static int in_handler, in_stop, broken;
#ifdef WRITER
static MilterWriter *w;
static void put (int n)
{
    GError *e = NULL; char b[4];
    for (int i = 0; i < n; i++) { b[i] = nd_u8(); if (!stopped) sent[n_sent++] = b[i]; }
    if (n) broken = 0;              /* a failed write is tried again with the next */
    gboolean r = milter_writer_write(w, b, n, &e);
    VASSERT(!!r == !stopped && !r == !!e, "writing is refused with an error exactly when the writer is not running");
    g_clear_error(&e);
}
static void flush (void)
{
    GError *e = NULL;
    gboolean r = milter_writer_flush(w, &e);
    VASSERT(!!r == !stopped && !r == !!e, "flushing is refused with an error exactly when the writer is not running");
    if (r) { VASSUME(asked < NF); for (int i = 0; i < NF; i++) if (i == asked) due[i] = n_sent; asked++; }
    g_clear_error(&e);
}
static void on_flushed (gpointer o, gpointer d)
{
    flushed++;
    if (!in_stop) VASSERT(asked > 0, "flushed is said only when it was asked for");
    VASSERT(in_stop || n_out >= due[0], "flushed is said only when what was written before the flush is out");
    /* it answers each flush whose bytes are out */
    int k = 0, rest[NF];
    for (int i = 0; i < NF; i++) if (i < asked && due[i] <= n_out) k++;
    for (int i = 0; i < NF; i++) { rest[i] = 0; for (int j = i; j < NF; j++) if (j == i + k) rest[i] = due[j]; }
    for (int i = 0; i < NF; i++) due[i] = rest[i];
    asked -= k;
    if (in_handler) { in_handler = 0; if (AGAIN) { if (AGAIN > 1) put(1); flush(); } }
}
#else
static MilterReader *r;
static void on_flow (gpointer o, const gchar *b, guint n, gpointer d)
{
    VASSERT(n == (guint)(n_sent - n_out), "what was read is passed on in one piece");
    for (int i = 0; i < CAP; i++) if ((guint)i < n && n_out + i < n_sent) VASSERT((unsigned char)b[i] == sent[n_out + i], "the bytes are passed on as they were read");
    n_out += n;
    if (in_handler) { in_handler = 0; milter_reader_shutdown(r); stopped = 1; want_finished++; }
}
#endif
int main (void)
{
#ifdef VSYMBOLIC
    g_io_channel_init(&ch); ch.funcs = &funcs;
#else
    milter_init();
    g_io_channel_init(&ch); ch.funcs = &funcs; ch.is_readable = ch.is_writeable = TRUE;
    g_io_channel_set_encoding(&ch, NULL, NULL); g_io_channel_set_buffered(&ch, FALSE);
#endif
    alive = 1;
    MilterEventLoop *loop = g_object_new(v_loop_get_type(), NULL);
#ifdef WRITER
    /* another one before, so that the callbacks are known */
    obj = w = milter_writer_io_channel_new(&ch);
    milter_writer_start(w, loop); put(1); flush(); take_all = 1; happen(G_IO_OUT); happen(G_IO_OUT); take_all = 0;
    VASSERT(n_out == 1 && !watched(G_IO_OUT), "a single byte goes out");
    milter_writer_shutdown(w); g_object_unref(w);
    n_out = n_sent = asked = calls = 0;
    obj = w = milter_writer_io_channel_new(&ch);
    g_signal_connect(w, "flushed", G_CALLBACK(on_flushed), NULL);
    stopped = 1; put(1); flush(); stopped = 0;
    milter_writer_start(w, loop);
#else
    r = milter_reader_io_channel_new(&ch);
    obj = r;
    g_signal_connect(r, "flow", G_CALLBACK(on_flow), NULL);
    milter_reader_start(r, loop);
#endif
    g_signal_connect(obj, "error", G_CALLBACK(on_error), NULL);
    g_signal_connect(obj, "finished", G_CALLBACK(on_finished), NULL);
    for (int s = 0; s < NOPS; s++) {
        int c = calls;
        switch (seq[s]) {
#ifdef WRITER
        case '1': case '2': case '3': put(seq[s] - '0'); break;
        case '0': put(0); break;
        case 'f': flush(); break;
        case 'h': in_handler = 1; break;                     /* flush again when flushed */
        case 'o': happen(G_IO_OUT); break;                   /* the channel takes something */
        case 'a': take_all = 1; happen(G_IO_OUT); take_all = 0; break;
        case 'x': io_fails = 1; if (happen(G_IO_OUT) && calls > c) { want_errors++; broken = 1; } io_fails = 0; break;
        case 's': { int pending = n_sent > n_out && !stopped; in_stop = 1; take_all = 1; milter_writer_shutdown(w); take_all = in_stop = 0;
            VASSERT(!pending || n_out == n_sent, "what waits is given to the channel on shutdown");
            stopped = 1; break; }
        case 'e': happen(G_IO_HUP); want_errors++; want_finished++;
            VASSERT(!milter_writer_is_watching(w), "a broken channel is watched no more"); break;
#else
        case '1': case '2': case '3': n_give = seq[s] - '0'; happen(G_IO_IN); break;
        case 'n': n_give = 0; happen(G_IO_IN); break;
        case 'z': give_eof = 1; happen(G_IO_IN); if (!stopped) want_finished++; stopped = 1; give_eof = 0; break;
        case 'x': io_fails = 1; happen(G_IO_IN); if (!stopped) { want_finished++; want_errors++; } stopped = 1; io_fails = 0; break;
        case 's': milter_reader_shutdown(r); if (!stopped) want_finished++; stopped = 1; break;
        case 'H': happen(G_IO_HUP); if (!stopped) want_finished++; stopped = 1; break;
        case 'e': happen(G_IO_ERR); if (!stopped) { want_finished++; want_errors++; } stopped = 1; break;
        case 'h': in_handler = 1; break;                     /* shut down while reading */
#endif
        }
#ifdef WRITER
        if (!broken && !stopped && milter_writer_is_watching(w)) VASSERT(n_sent == n_out || watched(G_IO_OUT), "while bytes wait the channel is watched");
#else
        VASSERT(n_out == n_sent, "everything that was read is passed on at once");
        VASSERT(!!watched(G_IO_IN) == !stopped && !!milter_reader_is_watching(r) == !stopped, "the channel is watched until the reader has finished");
#endif
        VASSERT(watched(G_IO_OUT) <= 2 && watched(G_IO_IN) <= 1, "nothing is watched twice");
        VASSERT(errors == want_errors, "each error is said once");
        VASSERT(finished == want_finished, "the end is said once");
    }
#ifdef WRITER
    if (!stopped && milter_writer_is_watching(w) && !want_errors) {
        take_all = 1;
        for (int i = 0; i < 4; i++) happen(G_IO_OUT);
        VASSERT(n_out == n_sent, "all bytes go out in the end");
        VASSERT(!watched(G_IO_OUT), "nothing is watched when nothing waits");
        VASSERT(!asked, "each flush is followed by flushed");
    }
    in_stop = take_all = 1; milter_writer_shutdown(w);
#else
    VASSERT(n_out == n_sent, "all bytes are passed on");
#endif
    VOBS(n_out); VOBS(flushed); VOBS(finished);
    VWITNESS("the end");
    if (!stopped) { }
    g_object_unref(obj);
    VASSERT(!watched(G_IO_OUT | G_IO_IN | G_IO_HUP), "nothing is watched after the end");
    return 0;
}
