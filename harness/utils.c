/* Helpers the configuration is read with. OP selects one. */
#include <stdlib.h>
#include <string.h>
#include <milter/core/milter-utils.h>
#include <milter/core/milter-enum-types.h>
#include <milter/core/milter-logger.h>
#include <milter/core/milter-protocol.h>
#include "vnd.h"
#ifndef N
#define N 0
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#define LPRE ((int)sizeof(PRE) - 1)
#define LPOST ((int)sizeof(POST) - 1)
#define LEN (LPRE + N + LPOST)
static char a[LEN + 1];
static void text (void)
{
    for (int i = 0; i < LPRE; i++) a[i] = PRE[i];
    for (int i = 0; i < N; i++) { a[LPRE + i] = nd_u8(); VASSUME(a[LPRE + i]); }
    for (int i = 0; i < LPOST; i++) a[LPRE + N + i] = POST[i];
    a[LEN] = 0;
    v_known_text(a, LEN);
}
#if OP == 'S'
static void run (void)
{
    static const char cs[] = "CHMRTEN";
    int c = (int)nd_u32(), s = (int)nd_u32(), stage = -1, cmd = 0;
    for (int i = 0; i < 7; i++) { if (c == cs[i]) stage = i; if (s == i) cmd = cs[i]; }
    VASSERT((int)milter_utils_command_to_macro_stage(c) == stage, "a command has the macro stage of the protocol, others have none");
    VASSERT((int)milter_utils_macro_stage_to_command(s) == cmd, "a macro stage is the one of its command");
    VWITNESS_IF(stage >= 0 && cmd, "known");
    VWITNESS_IF(stage < 0 && !cmd, "unknown");
}
#elif OP == 'M'
static void run (void)
{
    enum { START, TARGET, MODES, FIRST, DIGITS, NO } s = START;
    guint want = 0, target = 0, mode = nd_u32(), before = mode; int n = 0;
    text();
    for (int i = 0; i < LEN; i++) {
        char c = a[i];
        guint t = c == 'a' ? 0777 : c == 'u' ? 0700 : c == 'g' ? 070 : c == 'o' ? 07 : 0, m = c == 'r' ? 0444 : c == 'w' ? 0222 : c == 'x' ? 0111 : 0;
        switch (s) {
        case START: if (t) { s = TARGET; target = t; } else if (c >= '0' && c <= '7') { s = DIGITS; n = 1; want = c - '0'; } else s = NO; break;
        case TARGET: if (t) target |= t; else s = c == '=' ? FIRST : NO; break;
        case FIRST: case MODES: if (m) { want |= target & m; s = MODES; } else s = NO; break;
        case DIGITS: n++; want = want * 8 + (c - '0'); if (n > 3 || c < '0' || c > '7') s = NO; break;
        default: break;
        }
    }
    int ok = s == START || s == MODES || s == DIGITS;
    gchar *msg = NULL;
    gboolean r = milter_utils_parse_file_mode(a, &mode, &msg);
    VASSERT(!!r == ok, "a file mode is accepted exactly when it is well-formed");
    VASSERT(!!r == !msg, "a refused file mode has a message");
    VASSERT(mode == (ok ? want : before), "the mode is the one of the text, untouched when refused");
    VOBS(r); VOBS(r ? mode : 0);
#ifdef W_ACCEPT
    VWITNESS_IF(r, "accepted");
#endif
#ifdef W_REJECT
    VWITNESS_IF(!r, "refused");
#endif
}
#elif OP == 'F'
static const char *const names[] = { "default", "none", "critical", "error", "warning", "message", "info", "debug", "trace", "statistics", "profile" };
#define ALL 0x3ffu
static int named (int from, int to, const char *n)
{ int l = (int)strlen(n); if (to - from != l) return 0; for (int i = 0; i < LEN; i++) if (i >= from && i < to && a[i] != n[i - from]) return 0; return 1; }
static guint want; static int unknown;
static void token (int from, int to, int add, guint dflt)
{
    if (named(from, to, "all")) { want = add ? want | ALL : 0; return; }
    for (int k = 0; k < 11; k++) if (named(from, to, names[k])) { guint f = k ? 1u << (k - 1) : dflt; want = add ? want | f : want & ~f; return; }
    unknown = 1;
}
static void run (void)
{
    guint base = nd_u32() & ALL, dflt = nd_u32() & ALL;
    text();
    GError *e = NULL;
    guint got = milter_utils_flags_from_string(MILTER_TYPE_LOG_LEVEL_FLAGS, a, base, dflt, &e);
    int add = a[0] != '-', skip = a[0] == '+' || a[0] == '-', from = skip;
    want = skip ? base : 0;
    /* the names, divided by bars; a sign in front of one holds for that one */
    for (int i = skip; i <= LEN; i++)
        if (LEN > skip && (i == LEN || a[i] == '|')) {
            int sign = from < i && (a[from] == '+' || a[from] == '-');
            token(from + sign, i, sign ? a[from] == '+' : add, dflt);
            from = i + 1;
        }
    VASSERT(!e == !unknown, "an unknown name gives an error, known ones do not");
    VASSERT(got == want, "the flags are those of the known names");
    VOBS(got); VOBS(unknown);
#ifdef W_REJECT
    VWITNESS_IF(unknown, "an unknown name");
#endif
#ifdef W_ACCEPT
    VWITNESS_IF(!unknown, "known names");
#endif
}
#elif OP == 'E'
static void run (void)
{
    static const char *const ns[] = { "default", "not-change", "continue", "reject", "discard", "accept", "temporary-failure", "no-reply", "skip", "all-options", "progress", "abort", "quarantine", "stop", "error" };
    static const int vs[] = { MILTER_STATUS_DEFAULT, MILTER_STATUS_NOT_CHANGE, MILTER_STATUS_CONTINUE, MILTER_STATUS_REJECT, MILTER_STATUS_DISCARD, MILTER_STATUS_ACCEPT, MILTER_STATUS_TEMPORARY_FAILURE, MILTER_STATUS_NO_REPLY, MILTER_STATUS_SKIP, MILTER_STATUS_ALL_OPTIONS, MILTER_STATUS_PROGRESS, MILTER_STATUS_ABORT, MILTER_STATUS_QUARANTINE, MILTER_STATUS_STOP, MILTER_STATUS_ERROR };
    text();
    int k = -1;
    for (int i = 0; i < (int)(sizeof vs / sizeof *vs); i++) {
        int eq = (int)strlen(ns[i]) == LEN; for (int j = 0; eq && j < LEN; j++) if (a[j] != ns[i][j]) { eq = 0; break; }
        if (eq) k = vs[i];
    }
    GError *e = NULL;
    int got = milter_utils_enum_from_string(MILTER_TYPE_STATUS, a, &e);
    VASSERT(!e == (k >= 0), "an unknown name gives an error, a known one does not");
    VASSERT(k < 0 || got == k, "a known name gives its value");
    VOBS(k);
    VWITNESS_IF(k < 0, "unknown");
#ifdef W_ACCEPT
    VWITNESS_IF(k >= 0, "known");
#endif
}
#elif OP == 'H'
static int eq1 (const char *s, const char *t) { return s && s[0] == t[0] && s[1] == 0; }
static void run (void)
{
    char k[3][2], v[3][2];
    for (int i = 0; i < 3; i++) { k[i][0] = nd_u8(); v[i][0] = nd_u8(); k[i][1] = v[i][1] = 0; VASSUME(k[i][0] && v[i][0]); }
    VASSUME(k[1][0] != k[2][0]);
    GHashTable *d = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free), *s = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free);
    g_hash_table_insert(d, g_strdup(k[0]), g_strdup(v[0]));
    milter_utils_merge_hash_string_string(d, NULL);
    VASSERT(g_hash_table_size(d) == 1 && eq1(g_hash_table_lookup(d, k[0]), v[0]), "merging nothing changes nothing");
    for (int i = 1; i < 3; i++) g_hash_table_insert(s, g_strdup(k[i]), g_strdup(v[i]));
    milter_utils_merge_hash_string_string(d, s);
    VASSERT(g_hash_table_size(s) == 2 && eq1(g_hash_table_lookup(s, k[1]), v[1]) && eq1(g_hash_table_lookup(s, k[2]), v[2]), "the merged in table stays as it is");
    g_hash_table_unref(s);
    int dup = k[0][0] == k[1][0] || k[0][0] == k[2][0];
    VASSERT(g_hash_table_size(d) == 3 - (guint)dup, "the merged table has the keys of both");
    VASSERT(eq1(g_hash_table_lookup(d, k[1]), v[1]) && eq1(g_hash_table_lookup(d, k[2]), v[2]), "the merged in values win");
    if (!dup) VASSERT(eq1(g_hash_table_lookup(d, k[0]), v[0]), "other values stay");
    VOBS(g_hash_table_size(d));
    VWITNESS_IF(dup, "same key");
    VWITNESS_IF(!dup, "distinct keys");
    g_hash_table_unref(d);
}
#elif OP == 'C'
static int sgn (int x) { return (x > 0) - (x < 0); }
static void run (void)
{
    char s[3], t[3];
    int n = nd_u8() % 4, m = nd_u8() % 4;         /* 3: NULL */
    for (int i = 0; i < 3; i++) { s[i] = i < n && i < 2 ? nd_u8() : 0; t[i] = i < m && i < 2 ? nd_u8() : 0; }
    const char *p = n == 3 ? NULL : s, *q = m == 3 ? NULL : t;
    int want = !p || !q ? (p != NULL) - (q != NULL) : 0;
    for (int i = 0; p && q && i < 3; i++) { if (!want && s[i] != t[i]) want = (unsigned char)s[i] < (unsigned char)t[i] ? -1 : 1; if (!s[i]) break; }
    VASSERT(sgn(milter_utils_strcmp0(p, q)) == want, "texts are compared by bytes, none before any");
    VOBS(want + 1);
    VWITNESS_IF(!p && q, "none before some");
    VWITNESS_IF(p && q && want > 0, "greater");
}
#elif OP == 'P'
/* 0: not a decision */
static int rank (int s)
{
    return s == MILTER_STATUS_DISCARD ? 6 : s == MILTER_STATUS_REJECT ? 5 : s == MILTER_STATUS_TEMPORARY_FAILURE ? 4 : s == MILTER_STATUS_CONTINUE ? 3 :
        s == MILTER_STATUS_SKIP ? 2 : s == MILTER_STATUS_ACCEPT ? 1 : 0;
}
static void run (void)
{
    int s = (int)nd_u32(), t = (int)nd_u32();
    int got = milter_status_compare(s, t);
    if (s == t) VASSERT(got == 0, "a status is equal to itself");
    else if (rank(s) || rank(t)) VASSERT(got == (rank(s) > rank(t) ? 1 : -1), "discard, reject, temporary failure, continue, skip, accept: in that order");
    VASSERT(!!MILTER_STATUS_IS_PASS(s) == (s == MILTER_STATUS_DEFAULT || s == MILTER_STATUS_NOT_CHANGE || s == MILTER_STATUS_CONTINUE), "statuses that let a message pass");
    VWITNESS_IF(got > 0, "above");
    VWITNESS_IF(got < 0, "below");
}
#endif
int main (void) { run(); return 0; }
