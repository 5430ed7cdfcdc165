/* The reply code of a milter: acceptance of code and extended code, and the
 * text a reply code is formatted as. */
#include <stdlib.h>
#include <string.h>
#include <milter/client/milter-client-context.h>
#include <milter/core/milter-utils.h>
#include <milter/core/milter-core-internal.h>
#include <milter/core.h>
#include "vnd.h"
#ifndef N1
#define N1 0
#endif
#ifndef N2
#define N2 0
#endif
static char ext[N1 + 1], msg[N2 + 1];
static int eq (const char *s, const char *t) { if (!s) return 0; for (int i = 0; ; i++) { if (s[i] != t[i]) return 0; if (!s[i]) return 1; } }
static char x[8 * (N2 + 2) + (N1 + 1) * (N2 + 1)]; static int xn;
static void put (int c) { x[xn++] = c; }
static void put_code (guint code, int with_ext)
{
    put('0' + code / 100); put('0' + code / 10 % 10); put('0' + code % 10);
    if (with_ext) { put(' '); for (int i = 0; i < N1; i++) put(ext[i]); }
}
static int digit (int c) { return c >= '0' && c <= '9'; }
/* class '.' 1-3 digits '.' 1-3 digits */
static int ext_ok (guint code)
{
    int dots = 0, run = 0, ok = 1;
    for (int i = 0; i < N1; i++) {
        if (ext[i] == '.') { if (!run) ok = 0; dots++; run = 0; }
        else { run++; if (!digit(ext[i]) || run > (dots ? 3 : 1)) ok = 0; if (!dots && !(ext[i] == '2' || ext[i] == '4' || ext[i] == '5')) ok = 0; }
    }
    return ok && dots == 2 && run && (guint)(ext[0] - '0') == code / 100;
}

int main (void)
{
    guint code = nd_u32();
    nd_text(ext, N1); nd_text(msg, N2);
    GError *e = NULL;
#ifdef FORMAT
    /* the text of a reply code: the code, the extended code and one line of the message on each line */
    VASSUME(code >= 100 && code < 1000);
    int with_ext = N1 > 0;
    int lines = 0, line = 0;
    put_code(code, with_ext);
    for (int i = 0; i < N2; i++) {
        /* a line of nothing but a carriage return is left open */
        VASSUME(!(msg[i] == '\r' && !line && (i + 1 == N2 || msg[i + 1] == '\n')));
        if (!line && msg[i] != '\n') put(' ');
        if (msg[i] == '\n') { put('\r'); put('\n'); put_code(code, with_ext); line = 0; lines++; }
        else { line++; if (!(msg[i] == '\r' && (i + 1 == N2 || msg[i + 1] == '\n'))) put(msg[i]); }
    }
    put(0);
    gchar *r = milter_utils_format_reply_code(code, with_ext ? ext : NULL, N2 ? msg : nd_bool() ? "" : NULL);
    VASSERT(r && eq(r, x), "a reply code is formatted with code, extended code and text on every line");
    VASSERT(!milter_utils_format_reply_code(0, with_ext ? ext : NULL, msg), "no reply code, no text");
    VOBS(strlen(r)); VOBS(lines);
    VWITNESS("formatted");
    g_free(r);
#else
#ifdef VSYMBOLIC
    milter_agent_internal_init();
#else
    milter_init();
#endif
    MilterClientContext *c = milter_client_context_new(NULL);
    gchar *r = milter_client_context_format_reply(c);
    VASSERT(!r, "no reply code is set at first");
    v_formatting(0);     /* texts of errors are not part of this */
    gboolean ok = milter_client_context_set_reply(c, 451, "4.7.1", "a", &e);
    VASSERT(ok && !e, "a reply code with an extended code of the same class is accepted");
    int with_ext = N1 > 0, want = code >= 400 && code < 600 && (!with_ext || ext_ok(code));
    ok = milter_client_context_set_reply(c, code, with_ext ? ext : NULL, N2 ? msg : NULL, &e);
    VASSERT(!!ok == !e, "a reply code is refused with an error, accepted without");
    VASSERT(!!ok == want, "a reply code is accepted when code and extended code are of the same permitted class");
    for (int i = 0; i < N2; i++) VASSUME(msg[i] != '\n' && msg[i] != '\r');
    v_formatting(1);
    r = milter_client_context_format_reply(c);
    VASSERT(r != NULL, "a reply code stays set");
    VASSUME(r != NULL);
    if (want) {
        put_code(code, with_ext);
        if (N2) { put(' '); for (int i = 0; i < N2; i++) put(msg[i]); }
        put(0);
        VASSERT(eq(r, x), "the accepted reply code is the one that is sent");
    } else VASSERT(eq(r, "451 4.7.1 a"), "a refused reply code leaves the earlier one");
    VOBS(ok); VOBS(strlen(r));
#ifdef W_ACCEPT
    VWITNESS_IF(ok, "accepted");
#endif
    VWITNESS_IF(!ok, "refused");
    g_free(r);
#endif
    return 0;
}
