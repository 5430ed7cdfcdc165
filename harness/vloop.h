/* An event loop and a writable channel that belong to the harness.  Each
 * callback has one place, so that identifiers do not depend on what happened. */
#ifndef VLOOP_H
#define VLOOP_H
#include <string.h>
#include <milter/core.h>
#include "vnd.h"
typedef struct { MilterEventLoop parent; } VLoop;
typedef struct { MilterEventLoopClass parent_class; } VLoopClass;
GType v_loop_get_type (void);
G_DEFINE_TYPE(VLoop, v_loop, MILTER_TYPE_EVENT_LOOP)
#define NW 6
static struct { int on; GIOCondition c; GIOFunc f; gpointer d; GIOChannel *ch; } watch[NW];
static int timeout_on, n_timeouts; static GSourceFunc timeout_f; static gpointer timeout_d;
static guint v_watch_io_full (MilterEventLoop *l, gint p, GIOChannel *ch, GIOCondition c, GIOFunc f, gpointer d, GDestroyNotify n)
{
    int id = 0;
    for (int i = 1; i < NW; i++) if (!id && (!watch[i].f || (watch[i].f == f && watch[i].ch == ch))) id = i;
    VASSERT(id && watch[id].on != 1, "nothing is watched twice");
    VASSUME(id && watch[id].on != 1);
    watch[id].on = 1;
    if (!watch[id].f) { watch[id].c = c; watch[id].f = f; watch[id].d = d; watch[id].ch = ch; }
    VASSERT(watch[id].c == c && watch[id].d == d, "a watch is for its own object");
    return id;
}
static gboolean v_remove (MilterEventLoop *l, guint id)
{
    if (id == NW) { VASSERT(timeout_on, "only a set timeout is removed"); timeout_on = 0; return TRUE; }
    VASSERT(id >= 1 && id < NW && watch[id].on, "only what is watched is removed");
    VASSUME(id >= 1 && id < NW);
    watch[id].on = 0;
    return TRUE;
}
static guint v_add_timeout_full (MilterEventLoop *l, gint p, gdouble s, GSourceFunc f, gpointer d, GDestroyNotify n)
{ VASSERT(!timeout_on, "one timeout at a time"); timeout_on = 1; n_timeouts++; timeout_f = f; timeout_d = d; return NW; }
static void v_loop_class_init (VLoopClass *c)
{ MilterEventLoopClass *k = MILTER_EVENT_LOOP_CLASS(c); k->watch_io_full = v_watch_io_full; k->remove = v_remove; k->add_timeout_full = v_add_timeout_full; }
static void v_loop_init (VLoop *l) {}
static GIOChannel ch;
/* one round of the loop: the channel can be written */
static void round_out (void)
{
    int due[NW];
    for (int i = 1; i < NW; i++) due[i] = watch[i].on && (watch[i].c & G_IO_OUT);
    for (int i = 1; i < NW; i++)
        if (due[i] && watch[i].on) {
            watch[i].on = 2;
            gboolean keep = watch[i].f(watch[i].ch, G_IO_OUT, watch[i].d);
            VASSERT(!keep || watch[i].on != 1, "nothing is watched twice");
            if (watch[i].on == 2) watch[i].on = !!keep;
        }
}
static void c_out (const gchar *b, gsize n);
static GIOStatus c_write (GIOChannel *c, const gchar *b, gsize n, gsize *w, GError **e) { c_out(b, n); *w = n; return G_IO_STATUS_NORMAL; }
static GIOStatus c_read (GIOChannel *c, gchar *b, gsize n, gsize *r, GError **e) { *r = 0; return G_IO_STATUS_AGAIN; }
static GIOStatus c_close (GIOChannel *c, GError **e) { return G_IO_STATUS_NORMAL; }
static GIOStatus c_seek (GIOChannel *c, gint64 o, GSeekType t, GError **e) { return G_IO_STATUS_NORMAL; }
static void c_free (GIOChannel *c) {}
static GSource *c_watch (GIOChannel *c, GIOCondition d) { return NULL; }
static GIOFlags c_get_flags (GIOChannel *c) { return 0; }
static GIOStatus c_set_flags (GIOChannel *c, GIOFlags f, GError **e) { return G_IO_STATUS_NORMAL; }
static GIOFuncs c_funcs = { c_read, c_write, c_seek, c_close, c_watch, c_free, c_set_flags, c_get_flags };
static void channel_init (GIOChannel *c)
{
    g_io_channel_init(c); c->funcs = &c_funcs;
#ifndef VSYMBOLIC
    c->is_readable = c->is_writeable = TRUE;
    g_io_channel_set_encoding(c, NULL, NULL); g_io_channel_set_buffered(c, FALSE);
#endif
}
#endif
