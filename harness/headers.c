/* A list of K headers with symbolic names and values, then a sequence of
 * operations (one letter each) with symbolic arguments; the list is compared
 * with an array on which the operations are carried out by position. */
#include <string.h>
#include <milter/core/milter-headers.h>
#include "vnd.h"
#ifndef NL
#define NL 1
#endif
#define VL 1
#define NOPS (sizeof(SEQ) - 1)
#define MAXH (K + NOPS)
typedef struct { char n[NL + 1], v[VL + 1]; } Ent;
static Ent e[MAXH + 1]; static unsigned cnt;
static Ent in[MAXH + 1]; static unsigned n_in;
static int low (int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same_name (const char *a, const char *b) { for (int i = 0; i < NL; i++) if (low(a[i]) != low(b[i])) return 0; return 1; }
static int same_bytes (const char *a, const char *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
static void arg (Ent *x)
{
    for (int i = 0; i < NL; i++) { x->n[i] = nd_u8(); VASSUME(x->n[i] != 0); }
    for (int i = 0; i < VL; i++) { x->v[i] = nd_u8(); VASSUME(x->v[i] != 0); }
    x->n[NL] = 0; x->v[VL] = 0;
}
static void ins (unsigned at, const Ent *x) { for (unsigned i = MAXH; i > 0; i--) if (i > at && i <= cnt) e[i] = e[i - 1]; for (unsigned i = 0; i <= MAXH; i++) if (i == at) e[i] = *x; cnt++; }
static void del (unsigned at) { for (unsigned i = 0; i < MAXH; i++) if (i >= at && i + 1 < cnt) e[i] = e[i + 1]; cnt--; }
/* position of the idx-th header (from 1) of that name, or -1 */
static int nth_named (const char *n, guint idx) { guint k = 0; for (unsigned i = 0; i < MAXH; i++) if (i < cnt && same_name(e[i].n, n)) { k++; if (k == idx) return i; } return -1; }
static int first_equal (const Ent *x) { for (unsigned i = 0; i < MAXH; i++) if (i < cnt && same_bytes(e[i].n, x->n, NL) && same_bytes(e[i].v, x->v, VL)) return i; return -1; }
static int is (const MilterHeader *h, const Ent *x) { return h && same_bytes(h->name, x->n, NL + 1) && same_bytes(h->value, x->v, VL + 1); }
/* the header at a position, none when the position is out of the list */
static int is_nth (const MilterHeader *h, int at) { for (unsigned i = 0; i < MAXH; i++) if (i < cnt && at == (int)i) return h && is(h, &e[i]); return !h; }
static int list_is (MilterHeaders *h)
{
    const GList *l = milter_headers_get_list(h); int ok = 1;
    for (unsigned i = 0; i < MAXH; i++) if (ok && i < cnt) { ok = l != NULL && is(l->data, &e[i]) ? 1 : 0; if (ok) l = l->next; }
    return ok && !l && milter_headers_length(h) == cnt;
}

int main (void)
{
    MilterHeaders *h = milter_headers_new();
    for (unsigned i = 0; i < K; i++) {
        Ent *x = &in[n_in++]; arg(x);
        milter_headers_append_header(h, x->n, x->v);
        e[cnt++] = *x;
    }
    int hit = 0;
    static const char seq[] = SEQ;
    for (unsigned s = 0; s < NOPS; s++) {
        Ent *x = &in[n_in++]; arg(x);
        guint idx = nd_u32();
        int at; MilterHeader probe = { x->n, x->v }; MilterHeader *r;
        switch (seq[s]) {
        case 'P': milter_headers_append_header(h, x->n, x->v); ins(cnt, x); hit++; break;
        case 'A': milter_headers_add_header(h, x->n, x->v); at = nth_named(x->n, 1); ins(at < 0 ? cnt : (unsigned)at, x); hit++; break;
        case 'I': milter_headers_insert_header(h, idx, x->n, x->v); ins(idx > cnt ? cnt : idx, x); hit++; break;
        case 'C':
            at = nth_named(x->n, idx);
            milter_headers_change_header(h, x->n, idx, x->v);
            if (at >= 0) { for (unsigned i = 0; i < MAXH; i++) if (i == (unsigned)at) for (int j = 0; j < VL; j++) e[i].v[j] = x->v[j]; hit++; }
            else { at = nth_named(x->n, 1); ins(at < 0 ? cnt : (unsigned)at, x); }
            break;
        case 'D': case 'V':
            at = nth_named(x->n, idx);
            { gboolean ok = seq[s] == 'D' ? milter_headers_delete_header(h, x->n, idx) : milter_headers_change_header(h, x->n, idx, NULL);
              VASSERT(!!ok == (at >= 0), "deleting reports whether the header was there"); }
            if (at >= 0) { del(at); hit++; }
            break;
        case 'R':
            at = first_equal(x);
            { gboolean ok = milter_headers_remove(h, &probe); VASSERT(!!ok == (at >= 0), "removing reports whether the header was there"); }
            if (at >= 0) { del(at); hit++; }
            break;
        case 'N': r = milter_headers_get_nth_header(h, idx);
            VASSERT(is_nth(r, (int)idx - 1), "the n-th header is the n-th of the list");
            if (r) hit++;
            break;
        case 'F': r = milter_headers_find(h, &probe); at = first_equal(x);
            VASSERT(at >= 0 ? r && is(r, x) : !r, "a header is found when it is in the list");
            if (r) hit++;
            break;
        case 'L': r = milter_headers_lookup_by_name(h, x->n); at = nth_named(x->n, 1);
            VASSERT(is_nth(r, at), "the first header of a name is found");
            if (r) hit++;
            break;
        case 'X': { int k = 0, want = -1;
            for (unsigned i = 0; i < MAXH; i++) if (i < cnt && want < 0 && same_name(e[i].n, x->n)) { k++; if (same_bytes(e[i].v, x->v, VL)) want = k; }
            int got = milter_headers_index_in_same_header_name(h, &probe);
            VASSERT(got == want, "the index counts the headers of the same name up to the header");
            if (got > 0) hit++; }
            break;
        case 'Y': { MilterHeaders *c = milter_headers_copy(h);
            VASSERT(list_is(c), "a copy has the same headers");
            if (cnt) { milter_headers_append_header(h, x->n, x->v); ins(cnt, x); }
            VASSERT(milter_headers_length(c) + 1 == cnt || !K, "a copy does not change with the original");
            g_object_unref(c); hit++; }
            break;
        }
        VASSERT(list_is(h), "the list has the headers of the operations, in order");
    }
    VOBS(cnt); VOBS(hit);
    VWITNESS_IF(hit == NOPS, "every operation had an effect");
    VWITNESS("operations done");
    g_object_unref(h);
    return 0;
}
