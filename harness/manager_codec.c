/* The manager's own protocols: control commands and replies, launch command.
 * DEC: frames with free bytes; otherwise encoding and decoding back. */
#include <string.h>
#include <milter/manager/milter-manager-control-command-decoder.h>
#include <milter/manager/milter-manager-control-reply-decoder.h>
#include <milter/manager/milter-manager-launch-command-decoder.h>
#include <milter/manager/milter-manager-control-command-encoder.h>
#include <milter/manager/milter-manager-control-reply-encoder.h>
#include <milter/manager/milter-manager-launch-command-encoder.h>
#include "vnd.h"
#ifndef PRE
#define PRE ""
#endif
#define LP ((int)sizeof(PRE) - 1)
#ifndef M
#define M 0
#endif
#ifdef DEC
#define LEN (LP + N)
#else
#define LEN (LP + N + (KIND == 'L' ? 1 + M : 0))
#endif
static unsigned char f[LEN + 1];
static int n_ev, kind, ok;
enum { SET = 1, GET, RELOAD, STATUS, SUCCESS, FAILURE, ERROR, CONF, LAUNCH };
static const char *const words[] = { "", "set-configuration", "get-configuration", "reload", "get-status", "success", "failure", "error", "configuration", "launch" };
static int at, end;      /* the content */
static int text_is (const char *t, int from, int to)
{ if (!t) return 0; for (int i = from; i < to && i < LEN; i++) { if ((unsigned char)t[i - from] != f[i]) return 0; if (!f[i]) return 1; } return t[to - from] == 0; }
static int nul_at (int from) { for (int i = 0; i < LEN; i++) if (i >= from && !f[i]) return i; return -1; }
static void sig (int k, int o) { n_ev++; kind = k; ok = o; }
static void on_none (MilterDecoder *d, gpointer k) { sig(GPOINTER_TO_INT(k), at == end); }
static void on_text (MilterDecoder *d, const gchar *t, gpointer k) { sig(GPOINTER_TO_INT(k), text_is(t, at, end)); }
static void on_chunk (MilterDecoder *d, const gchar *c, gsize n, gpointer k)
{ int o = n == (gsize)(end - at); for (int i = at; o && i < end && i < LEN; i++) if ((unsigned char)c[i - at] != f[i]) o = 0; sig(GPOINTER_TO_INT(k), o); }
static int user_from;
static void on_launch (MilterDecoder *d, const gchar *c, const gchar *u, gpointer k)
{ sig(LAUNCH, text_is(c, at, end) && (user_from < LEN ? text_is(u, user_from, LEN) : !u)); }
static MilterDecoder *decoder (void)
{
#if KIND == 'C'
    MilterDecoder *d = milter_manager_control_command_decoder_new();
    g_signal_connect(d, "set-configuration", G_CALLBACK(on_chunk), GINT_TO_POINTER(SET));
    g_signal_connect(d, "get-configuration", G_CALLBACK(on_none), GINT_TO_POINTER(GET));
    g_signal_connect(d, "reload", G_CALLBACK(on_none), GINT_TO_POINTER(RELOAD));
    g_signal_connect(d, "get-status", G_CALLBACK(on_none), GINT_TO_POINTER(STATUS));
#elif KIND == 'R'
    MilterDecoder *d = milter_manager_control_reply_decoder_new();
    g_signal_connect(d, "success", G_CALLBACK(on_none), GINT_TO_POINTER(SUCCESS));
    g_signal_connect(d, "failure", G_CALLBACK(on_text), GINT_TO_POINTER(FAILURE));
    g_signal_connect(d, "error", G_CALLBACK(on_text), GINT_TO_POINTER(ERROR));
    g_signal_connect(d, "configuration", G_CALLBACK(on_chunk), GINT_TO_POINTER(CONF));
#else
    MilterDecoder *d = milter_manager_launch_command_decoder_new();
    g_signal_connect(d, "launch", G_CALLBACK(on_launch), NULL);
#endif
    return d;
}
/* kind of the frame, 0 when it is malformed */
static int expected (void)
{
    int z = nul_at(0), w = 0;
    if (z <= 0) return 0;
    for (int k = 1; k < 10; k++) if ((int)strlen(words[k]) == z) { int same = 1; for (int i = 0; i < z && i < LEN; i++) if (f[i] != (unsigned char)words[k][i]) same = 0; if (same) w = k; }
    if (KIND == 'C' ? w > STATUS : KIND == 'R' ? w < SUCCESS || w > CONF : w != LAUNCH) return 0;
    at = z + 1; end = LEN;
    switch (w) {
    case GET: case RELOAD: case STATUS: case SUCCESS: return at == end ? w : 0;
    case FAILURE: case ERROR: { int e = nul_at(at); if (e >= 0) end = e; return w; }
    case LAUNCH: { int e = nul_at(at); if (e <= at) return 0; end = e; user_from = e + 1; return w; }
    default: return w;
    }
}
int main (void)
{
    GError *e = NULL;
    MilterDecoder *d = decoder();
#ifdef DEC
    char frame[4 + LEN + 1];
    for (int i = 0; i < LP; i++) f[i] = PRE[i];
    for (int i = 0; i < N; i++) f[LP + i] = nd_u8();
    frame[0] = frame[1] = frame[2] = 0; frame[3] = LEN;
    for (int i = 0; i < LEN; i++) frame[4 + i] = f[i];
    /* the start of the next frame is there already */
    frame[4 + LEN] = nd_u8();
    int want = expected();
    gboolean r = milter_decoder_decode(d, frame, 4 + LEN + 1, &e);
    VASSERT(!!r == (want != 0), "a frame is accepted exactly when it is well-formed");
    VASSERT(!r == !!e, "a refused frame comes with an error");
    VASSERT(n_ev == !!want, "an accepted frame is reported once, a refused one not at all");
    VASSERT(!r || (kind == want && ok), "the frame is reported with the content it carries");
    VOBS(!!r); VOBS(want);
#ifdef W_ACCEPT
    VWITNESS_IF(r, "accepted");
#endif
#ifdef W_REJECT
    VWITNESS_IF(!r, "refused");
#endif
#else
    const gchar *packet = NULL; gsize size = 0;
    char t[N + 1], u[M + 1];
    for (int i = 0; i < N; i++) { t[i] = nd_u8(); if (OP != SET && OP != CONF) VASSUME(t[i]); } t[N] = 0; 
    for (int i = 0; i < M; i++) { u[i] = nd_u8(); VASSUME(u[i]); } u[M] = 0;
    unsigned char x[64]; int n = 4;
    for (const char *w = words[OP]; *w; w++) x[n++] = *w;
    x[n++] = 0;
#if KIND == 'C'
    MilterManagerControlCommandEncoder *c = MILTER_MANAGER_CONTROL_COMMAND_ENCODER(milter_manager_control_command_encoder_new());
#elif KIND == 'R'
    MilterManagerControlReplyEncoder *c = MILTER_MANAGER_CONTROL_REPLY_ENCODER(milter_manager_control_reply_encoder_new());
#else
    MilterManagerLaunchCommandEncoder *c = MILTER_MANAGER_LAUNCH_COMMAND_ENCODER(milter_manager_launch_command_encoder_new());
#endif
    for (int round = 0; round < 2; round++) {        /* the second time with a used encoder */
#if KIND == 'C'
    if (OP == SET) milter_manager_control_command_encoder_encode_set_configuration(c, &packet, &size, t, N);
    if (OP == RELOAD) milter_manager_control_command_encoder_encode_reload(c, &packet, &size);
    if (OP == STATUS) milter_manager_control_command_encoder_encode_get_status(c, &packet, &size);
#elif KIND == 'R'
    if (OP == SUCCESS) milter_manager_control_reply_encoder_encode_success(c, &packet, &size);
    if (OP == FAILURE) milter_manager_control_reply_encoder_encode_failure(c, &packet, &size, t);
    if (OP == ERROR) milter_manager_control_reply_encoder_encode_error(c, &packet, &size, t);
    if (OP == CONF) milter_manager_control_reply_encoder_encode_configuration(c, &packet, &size, t, N);
#else
    milter_manager_launch_command_encoder_encode_launch(c, &packet, &size, t, M ? u : NULL);
#endif
    }
    if (OP == SET || OP == CONF || OP == FAILURE || OP == ERROR || OP == LAUNCH) for (int i = 0; i < N; i++) x[n++] = t[i];
    if (OP == LAUNCH) { x[n++] = 0; for (int i = 0; i < M; i++) x[n++] = u[i]; }
    x[0] = x[1] = x[2] = 0; x[3] = n - 4;
    VASSERT(packet && size == (gsize)n, "one frame of the length of its content");
    VASSUME(packet && size == (gsize)n);
    for (int i = 0; i < n; i++) VASSERT((unsigned char)packet[i] == x[i], "the frame has the layout of the protocol");
    for (int i = 0; i < LEN; i++) f[i] = x[4 + i];
    expected();
    gboolean r = milter_decoder_decode(d, packet, size, &e);
    VASSERT(r && !e, "an encoded frame is accepted");
    VASSERT(n_ev == 1 && kind == OP && ok, "it is reported as what was encoded");
    VOBS(size);
    VWITNESS("round trip");
#endif
    g_object_unref(d);
    return 0;
}
