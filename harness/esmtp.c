/* Parsing of MAIL FROM and RCPT TO arguments: PRE, then N free bytes, then
 * POST, in a block of exactly that size. */
#include <stdlib.h>
#include <string.h>
#include <milter/core/milter-esmtp.h>
#include "vnd.h"
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#define LPRE ((int)sizeof(PRE) - 1)
#define LPOST ((int)sizeof(POST) - 1)
#define LEN (LPRE + N + LPOST)
static char *a;
static int alnum (int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int graph (int c) { return c > ' ' && c < 127; }
static int atom (int c) { static const char o[] = "!#$%&'*+-/=?^_`{|}~"; if (alnum(c)) return 1; for (unsigned i = 0; i + 1 < sizeof(o); i++) if (c == o[i]) return 1; return 0; }
/* strict grammar of the path: position behind it, or -1 */
static int strict_path (int rcpt)
{
    enum { START, PATH, ROUTE, ROUTE_LABEL, ROUTE_NEXT, LOCAL, LOCAL_WORD, DOMAIN, DOMAIN_LABEL, NO } s = START;
    int end = -1;
    if (rcpt && LEN >= 12) { static const char pm[] = "<Postmaster>"; int is = 1; for (int i = 0; i < 12; i++) is = is && a[i] == pm[i]; if (is) return 12; }
    for (int i = 0; i < LEN; i++) {
        int c = a[i];
        if (end >= 0) continue;
        switch (s) {
        case START: s = c == '<' ? PATH : NO; break;
        case PATH: if (c == '>') end = i + 1; s = c == '@' ? ROUTE : atom(c) ? LOCAL_WORD : NO; break;
        case ROUTE: s = alnum(c) ? ROUTE_LABEL : NO; break;
        case ROUTE_LABEL: s = alnum(c) || c == '-' ? ROUTE_LABEL : c == '.' ? ROUTE : c == ',' ? ROUTE_NEXT : c == ':' ? LOCAL : NO; break;
        case ROUTE_NEXT: s = c == '@' ? ROUTE : NO; break;
        case LOCAL: s = atom(c) ? LOCAL_WORD : NO; break;
        case LOCAL_WORD: s = atom(c) ? LOCAL_WORD : c == '.' ? LOCAL : c == '@' ? DOMAIN : NO; break;
        case DOMAIN: s = alnum(c) ? DOMAIN_LABEL : NO; break;
        case DOMAIN_LABEL: if (c == '>') end = i + 1; s = alnum(c) || c == '-' ? DOMAIN_LABEL : c == '.' ? DOMAIN : NO; break;
        default: break;
        }
    }
    return end;
}
/* the parameters behind p */
#define MAXP ((N + LPOST) / 2 + 1)
static int ks[MAXP], ke[MAXP], vs[MAXP], ve[MAXP], np;       /* vs < 0: no value */
static int rest (int p)
{
    enum { END, KEY, IN_KEY, VALUE, NO } s = END;
    np = 0;
    for (int i = 0; i < LEN; i++) {
        int c = a[i];
        if (i < p) continue;
        if (s != KEY && c == ' ') { s = KEY; continue; }
        switch (s) {
        case KEY: if (!alnum(c)) { s = NO; break; }
            s = IN_KEY; for (int k = 0; k < MAXP; k++) if (k == np) { ks[k] = i; ke[k] = i + 1; vs[k] = ve[k] = -1; } np++; break;
        case IN_KEY: if (alnum(c) || c == '-') { for (int k = 0; k < MAXP; k++) if (k == np - 1) ke[k] = i + 1; }
            else if (c == '=') { s = VALUE; for (int k = 0; k < MAXP; k++) if (k == np - 1) vs[k] = ve[k] = i + 1; }
            else s = NO;
            break;
        case VALUE: if (graph(c) && c != '=') { for (int k = 0; k < MAXP; k++) if (k == np - 1) ve[k] = i + 1; } else s = NO; break;
        default: s = NO; break;
        }
        if (s == NO) return 0;
    }
    return s != KEY;
}
static int is_part (const char *s, int from, int to) { for (int i = 0; i < LEN; i++) if (i >= from && i < to && s[i - from] != a[i]) return 0; return s[to - from] == 0; }
static int key_eq (int i, int j) { if (ke[i] - ks[i] != ke[j] - ks[j]) return 0; for (int k = 0; k < LEN; k++) if (k < ke[i] - ks[i] && a[ks[i] + k] != a[ks[j] + k]) return 0; return 1; }

int main (void)
{
    a = malloc(LEN + 1);
    for (int i = 0; i < LPRE; i++) a[i] = PRE[i];
    for (int i = 0; i < N; i++) { a[LPRE + i] = nd_u8(); VASSUME(a[LPRE + i]); }
    for (int i = 0; i < LPOST; i++) a[LPRE + N + i] = POST[i];
    a[LEN] = 0;
    v_known_text(a, LEN);
    gchar *path = NULL; GHashTable *params = NULL; GError *e = NULL;
#ifdef OLD
    params = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free);
    g_hash_table_insert(params, g_strdup("OLD"), g_strdup("x"));
    GHashTable *given = params;
#endif
    gboolean r = RCPT ? milter_esmtp_parse_rcpt_to_argument(a, &path, &params, &e) : milter_esmtp_parse_mail_from_argument(a, &path, &params, &e);
    int sp = strict_path(RCPT);
    VASSERT(!!r == !e, "an argument is refused with an error, accepted without");
    if (!r) {
        VASSERT(!path, "a refused argument gives no path");
#ifndef OLD
        VASSERT(!params, "a refused argument gives no parameters");
#endif
        VASSERT(sp < 0 || !rest(sp), "a well-formed argument is accepted");
    } else {
        VASSERT(LEN >= 2 && a[0] == '<', "an accepted argument starts with a path");
        int end = path ? (int)strlen(path) : 2;
        VASSERT(path ? end <= LEN && is_part(path, 0, end) && a[end - 1] == '>' : a[1] == '>', "the path is the text up to its terminator, none for the null path");
        VASSERT(sp < 0 || sp == end, "the path is the one of the grammar");
        if (sp < 0) { int at = 0; for (int i = 1; i < end - 1; i++) at |= a[i] == '@'; VASSERT(at, "a path has a mailbox"); }
        VASSERT(rest(end), "parameters follow the path, nothing else");
        int distinct = 0;
        for (int i = 0; i < MAXP; i++) {
            if (i >= np) continue;
            int last = 1, first = 1;
            for (int j = 0; j < MAXP; j++) if (j < np && key_eq(i, j)) { if (j > i) last = 0; if (j < i) first = 0; }
            distinct += first;
            if (!last) continue;
            char k[LEN + 1]; for (int j = 0; j <= LEN; j++) k[j] = j < ke[i] - ks[i] ? a[ks[i] + j] : 0;
            gpointer ok = NULL, v = NULL;
            VASSERT(params && g_hash_table_lookup_extended(params, k, &ok, &v), "every parameter is reported");
            VASSERT(vs[i] < 0 ? !v : v && is_part(v, vs[i], ve[i]), "a parameter has its value");
        }
#ifdef OLD
        VASSERT(params == given, "parameters are added to the given ones");
        char *old = g_hash_table_lookup(params, "OLD");
        if (!np) VASSERT(old && old[0] == 'x' && !old[1], "the given parameters stay");
        VASSERT((int)g_hash_table_size(params) >= distinct && (int)g_hash_table_size(params) <= distinct + 1, "no other parameter is reported");
#else
        VASSERT((params ? (int)g_hash_table_size(params) : 0) == distinct, "no other parameter is reported");
#endif
        VOBS(end); VOBS(distinct);
    }
    VOBS(r);
#ifdef W_ACCEPT
    VWITNESS_IF(r, "accepted");
#endif
#ifdef W_REJECT
    VWITNESS_IF(!r, "refused");
#endif
    if (params) g_hash_table_unref(params);
    if (path) g_free(path);
    free(a);
    return 0;
}
