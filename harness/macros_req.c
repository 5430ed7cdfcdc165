/* Merging of macros requests: two requests with N1 and N2 symbolic symbols
 * for a symbolic command each; the merged request is compared with the union. */
#include <string.h>
#include <milter/core/milter-macros-requests.h>
#include "vnd.h"
#define SL 1
static char a[3][SL + 1], b[3][SL + 1];
static void text (char *s) { for (int i = 0; i < SL; i++) { s[i] = nd_u8(); VASSUME(s[i] != 0); } s[SL] = 0; }
static int eq (const char *s, const char *t) { for (int i = 0; i <= SL; i++) if (s[i] != t[i]) return 0; return 1; }
static GList *check (GList *l, const char *s, int *ok) { if (!*ok) return NULL; *ok = l != NULL && eq(l->data, s) ? 1 : 0; return *ok ? l->next : NULL; }
static void set (MilterMacrosRequests *m, MilterCommand c, char s[3][SL + 1], int n)
{
    const gchar *v[4] = { NULL, NULL, NULL, NULL };
    for (int i = 0; i < n; i++) v[i] = s[i];
    milter_macros_requests_set_symbols_string_array(m, c, v);
}
static int calls, n_for_c1, n_for_c2; static MilterCommand c1, c2;
static void each (MilterCommand c, GList *l, gpointer u) { calls++; if (c == c1) n_for_c1++; else if (c == c2) n_for_c2++; }

int main (void)
{
    static const char cmds[] = "CHMRTEN";
    guint8 i1 = nd_u8(), i2 = nd_u8(); VASSUME(i1 < 7 && i2 < 7);
    MilterCommand cs[7]; for (int i = 0; i < 7; i++) cs[i] = cmds[i];
    c1 = cs[i1]; c2 = cs[i2];
    for (int i = 0; i < N1; i++) text(a[i]);
    for (int i = 0; i < N2; i++) text(b[i]);
    MilterMacrosRequests *x = milter_macros_requests_new(), *y = milter_macros_requests_new();
#ifdef OLD
    { char o[3][SL + 1]; for (int i = 0; i < OLD; i++) text(o[i]); set(x, c1, o, OLD); }
#endif
    set(x, c1, a, N1); set(y, c2, b, N2);
    milter_macros_requests_merge(x, y);
    int ok = 1; GList *l;
    if (c1 == c2) {
        l = milter_macros_requests_get_symbols(x, c1);
        for (int i = 0; i < N1; i++) l = check(l, a[i], &ok);
        for (int i = 0; i < N2; i++) {
            int dup = 0;
            for (int j = 0; j < N1; j++) dup |= eq(a[j], b[i]);
            for (int j = 0; j < i; j++) dup |= eq(b[j], b[i]);
            if (!dup) l = check(l, b[i], &ok);
        }
        ok = ok && !l;
    } else {
        l = milter_macros_requests_get_symbols(x, c1);
        for (int i = 0; i < N1; i++) l = check(l, a[i], &ok);
        ok = ok && !l;
        l = milter_macros_requests_get_symbols(x, c2);
        for (int i = 0; i < N2; i++) {
            int dup = 0; for (int j = 0; j < i; j++) dup |= eq(b[j], b[i]);
            if (!dup) l = check(l, b[i], &ok);
        }
        ok = ok && !l;
    }
    VASSERT(ok, "the merged request has the symbols of both, each once, in order");
    ok = 1; l = milter_macros_requests_get_symbols(y, c2);
    for (int i = 0; i < N2; i++) l = check(l, b[i], &ok);
    VASSERT(ok && !l, "the merged in request stays as it is");
    for (int i = 0; i < 7; i++) if (cs[i] != c1 && cs[i] != c2) VASSERT(!milter_macros_requests_get_symbols(x, cs[i]), "no symbols for other commands");
    milter_macros_requests_foreach(x, each, NULL);
    VASSERT(calls == (c1 == c2 ? 1 : 2) && n_for_c1 == 1 && n_for_c2 == (c1 == c2 ? 0 : 1), "every command is visited once");
    VOBS(calls);
    VWITNESS_IF(c1 == c2, "same command");
    VWITNESS_IF(c1 != c2, "two commands");
    g_object_unref(y);
    l = milter_macros_requests_get_symbols(x, c2);
    VASSERT(l || !N2, "the merged request owns its symbols");
    if (N2) VOBS(((char *)l->data)[0] != 0);
    g_object_unref(x);
    return 0;
}
