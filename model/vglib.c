/* Executable model of the parts of GLib/GObject that the code under /repo
 * uses, written for symbolic execution with CBMC.  Semantics follow the GLib
 * documentation; capacities (VSTR_CAP, VGS_CAP, VHT_CAP) are checked by
 * assertions whose description starts with "MODEL-BOUND", so an input that
 * needs more room is reported, never silently cut off. */
#include "vglib.h"
#include "vnd.h"

#define V_BOUND(c, what) __CPROVER_assert((c), "MODEL-BOUND " what)
/* after a MODEL-BOUND assertion continue only inside the bound */
#define V_LIMIT(c, what) do { V_BOUND(c, what); __CPROVER_assume(c); } while (0)

int v_critical_count;
void v_critical (void) { v_critical_count++; }

/* ------------------------------------------------------------ plain C */
/* strings made by nd_text: their length is known although their bytes are
 * symbolic (checked again at every use) */
static struct { const char *p; gsize n; } v_known[16]; static int v_n_known;
void v_known_text (const char *p, gsize n)
{ for (int k = 0; k < v_n_known; k++) if (v_known[k].p == p) { v_known[k].n = n; return; }
  V_LIMIT(v_n_known < 16, "too many nd_text strings"); v_known[v_n_known].p = p; v_known[v_n_known++].n = n; }
gsize v_strlen (const char *s)
{
    for (int k = 0; k < v_n_known; k++)
        if (s == v_known[k].p) {
            for (gsize j = 0; j < v_known[k].n; j++) V_BOUND(s[j] != 0, "a text of fixed length was changed");
            V_BOUND(s[v_known[k].n] == 0, "a text of fixed length was changed");
            return v_known[k].n;
        }
    gsize i = 0; while (s[i]) i++; return i;
}
int v_strcmp (const char *a, const char *b)
{ gsize i = 0; for (;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int v_strncmp (const char *a, const char *b, gsize n)
{ gsize i = 0; for (; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int v_memcmp (const void *a, const void *b, gsize n)
{ const unsigned char *x = a, *y = b; for (gsize i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
void *v_memcpy (void *d, const void *s, gsize n)
{ unsigned char *x = d; const unsigned char *y = s; for (gsize i = 0; i < n; i++) x[i] = y[i]; return d; }
void *v_memmove (void *d, const void *s, gsize n)
{ unsigned char *x = d; const unsigned char *y = s;
  if (x == y || n == 0) return d;
  if (__CPROVER_same_object(x, y) && x > y) { for (gsize i = n; i > 0; i--) x[i-1] = y[i-1]; }
  else { for (gsize i = 0; i < n; i++) x[i] = y[i]; }
  return d; }
char *v_strchr (const char *s, int c)
{ gsize i = 0; for (;; i++) { if (s[i] == (char)c) return (char *)s + i; if (!s[i]) return NULL; } }
char *v_strrchr (const char *s, int c)
{ char *r = NULL; gsize i = 0; for (;; i++) { if (s[i] == (char)c) r = (char *)s + i; if (!s[i]) return r; } }
void *v_memchr (const void *s, int c, gsize n)
{ const unsigned char *x = s; for (gsize i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return NULL; }
char *v_strstr (const char *s, const char *n)
{ gsize l = v_strlen(n); for (gsize i = 0;; i++) { if (v_strncmp(s + i, n, l) == 0) return (char *)s + i; if (!s[i]) return NULL; } }
char *v_strcpy (char *d, const char *s) { gsize i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) return d; } }
char *v_strncpy (char *d, const char *s, gsize n)
{ gsize i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
guint32 v_bswap32 (guint32 x)
{ return ((x & 0xffu) << 24) | ((x & 0xff00u) << 8) | ((x >> 8) & 0xff00u) | (x >> 24); }
guint16 v_bswap16 (guint16 x) { return (guint16)((x << 8) | (x >> 8)); }

static guint64 v_parse (const char *s, char **end, int base, gboolean *neg, gboolean *ovf)
{
    gsize i = 0; guint64 r = 0; gboolean any = FALSE;
    *neg = FALSE; *ovf = FALSE;
    while (isspace(s[i])) i++;
    if (s[i] == '-') { *neg = TRUE; i++; } else if (s[i] == '+') i++;
    if ((base == 0 || base == 16) && s[i] == '0' && (s[i+1] == 'x' || s[i+1] == 'X') && g_ascii_isxdigit(s[i+2])) { i += 2; base = 16; }
    else if (base == 0 && s[i] == '0') base = 8;
    else if (base == 0) base = 10;
    for (;; i++) {
        int d; unsigned char c = s[i];
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        if (r > (G_MAXUINT64 - d) / (guint64)base) *ovf = TRUE;
        r = r * (guint64)base + d; any = TRUE;
    }
    if (end) *end = (char *)(any ? s + i : s);
    return r;
}
long v_strtol (const char *s, char **end, int base)
{ gboolean n, o; guint64 r = v_parse(s, end, base, &n, &o);
  if (n) { if (o || r > (guint64)1 << 63) { errno = ERANGE; return G_MINLONG; } return (long)(0 - r); }
  if (o || r > (guint64)G_MAXLONG) { errno = ERANGE; return G_MAXLONG; } return (long)r; }
unsigned long v_strtoul (const char *s, char **end, int base)
{ gboolean n, o; guint64 r = v_parse(s, end, base, &n, &o);
  if (o) { errno = ERANGE; return G_MAXULONG; } return n ? 0 - r : r; }
int v_atoi (const char *s) { return (int)v_strtol(s, NULL, 10); }
guint64 g_ascii_strtoull (const gchar *s, gchar **end, guint base) { return v_strtoul(s, end, base); }
gint64 g_ascii_strtoll (const gchar *s, gchar **end, guint base) { return v_strtol(s, end, base); }

/* ------------------------------------------------------------ addresses (glibc's rules) */
static int v_pton4 (const char *s, gsize from, unsigned char *d)
{
    gsize i = from; int oct = 0, digits = 0; unsigned v = 0; unsigned char o[4];
    for (;; i++) {
        char c = s[i];
        if (g_ascii_isdigit(c)) {
            if (digits && v == 0) return 0;
            v = v * 10 + (c - '0');
            if (v > 255) return 0;
            digits++;
        } else if (c == '.' && digits && oct < 3) { o[oct++] = v; v = 0; digits = 0; }
        else if (c == 0 && digits && oct == 3) { o[3] = v; for (int k = 0; k < 4; k++) d[k] = o[k]; return 1; }
        else return 0;
    }
}
static int v_pton6 (const char *s, unsigned char *d)
{
    unsigned char t[16]; int n = 0, colon = -1, xd = 0; unsigned v = 0; gsize i = 0, cur = 0;
    for (int k = 0; k < 16; k++) t[k] = 0;
    if (s[0] == ':') { if (s[1] != ':') return 0; i = 1; }
    cur = i;
    for (;;) {
        char c = s[i];
        if (!c) break;
        i++;
        int h = g_ascii_isdigit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        if (h >= 0) { if (xd == 4) return 0; v = v << 4 | h; xd++; continue; }
        if (c == ':') {
            cur = i;
            if (!xd) { if (colon >= 0) return 0; colon = n; continue; }
            if (!s[i]) return 0;
            if (n + 2 > 16) return 0;
            t[n++] = v >> 8; t[n++] = v; xd = 0; v = 0; continue;
        }
        if (c == '.' && n + 4 <= 16 && v_pton4(s, cur, t + n)) { n += 4; xd = 0; break; }
        return 0;
    }
    if (xd) { if (n + 2 > 16) return 0; t[n++] = v >> 8; t[n++] = v; }
    if (colon >= 0) {
        if (n == 16) return 0;
        int m = n - colon;
        for (int k = 1; k <= m; k++) { t[16 - k] = t[colon + m - k]; t[colon + m - k] = 0; }
        n = 16;
    }
    if (n != 16) return 0;
    for (int k = 0; k < 16; k++) d[k] = t[k];
    return 1;
}
#ifdef VINET_TOKEN
/* the text of an address is 2 hexadecimal digits per byte: all that is assumed
 * of libc is that the two functions are inverse to each other */
int v_inet_pton (int af, const char *s, void *dst)
{
    int n = af == AF_INET ? 4 : af == AF_INET6 ? 16 : 0; unsigned char *d = dst;
    if (!n) { errno = EAFNOSUPPORT; return -1; }
    unsigned char t[16];
    for (int i = 0; i < n; i++) { if (!g_ascii_isxdigit(s[2*i]) || !g_ascii_isxdigit(s[2*i+1])) return 0; t[i] = (s[2*i] <= '9' ? s[2*i] - '0' : s[2*i] - 'a' + 10) << 4 | (s[2*i+1] <= '9' ? s[2*i+1] - '0' : s[2*i+1] - 'a' + 10); }
    if (s[2*n]) return 0;
    for (int i = 0; i < n; i++) d[i] = t[i];
    return 1;
}
const char *v_inet_ntop (int af, const void *src, char *dst, unsigned size)
{
    int n = af == AF_INET ? 4 : af == AF_INET6 ? 16 : 0; const unsigned char *b = src;
    if (!n) { errno = EAFNOSUPPORT; return NULL; }
    /* the longest real text has to fit */
    if (size < (af == AF_INET ? 16 : 46)) { errno = ENOSPC; return NULL; }
    for (int i = 0; i < n; i++) { dst[2*i] = "0123456789abcdef"[b[i] >> 4]; dst[2*i+1] = "0123456789abcdef"[b[i] & 15]; }
    dst[2*n] = 0;
    v_known_text(dst, 2*n);
    return dst;
}
#else
int v_inet_pton (int af, const char *s, void *dst)
{
    if (af == AF_INET) return v_pton4(s, 0, dst);
    if (af == AF_INET6) return v_pton6(s, dst);
    errno = EAFNOSUPPORT; return -1;
}
static int v_dec (char *o, int n, unsigned v)
{ if (v >= 100) o[n++] = '0' + v / 100; if (v >= 10) o[n++] = '0' + v / 10 % 10; o[n++] = '0' + v % 10; return n; }
static int v_ntop4 (const unsigned char *b, char *o, int n)
{ for (int i = 0; i < 4; i++) { if (i) o[n++] = '.'; n = v_dec(o, n, b[i]); } o[n] = 0; return n; }
const char *v_inet_ntop (int af, const void *src, char *dst, unsigned size)
{
    char t[48]; int n = 0; const unsigned char *b = src;
    if (af == AF_INET) n = v_ntop4(b, t, 0);
    else if (af == AF_INET6) {
        unsigned w[8]; int bb = -1, bl = 0, cb = -1, cl = 0;
        for (int i = 0; i < 8; i++) w[i] = b[2 * i] << 8 | b[2 * i + 1];
        for (int i = 0; i < 8; i++) {
            if (w[i] == 0) { if (cb < 0) { cb = i; cl = 1; } else cl++; }
            else { if (cb >= 0 && (bb < 0 || cl > bl)) { bb = cb; bl = cl; } cb = -1; cl = 0; }
        }
        if (cb >= 0 && (bb < 0 || cl > bl)) { bb = cb; bl = cl; }
        if (bb >= 0 && bl < 2) bb = -1;
        gboolean done = FALSE;
        for (int i = 0; i < 8 && !done; i++) {
            if (bb >= 0 && i >= bb && i < bb + bl) { if (i == bb) t[n++] = ':'; continue; }
            if (i) t[n++] = ':';
            if (i == 6 && bb == 0 && (bl == 6 || (bl == 5 && w[5] == 0xffff))) { n = v_ntop4(b + 12, t, n); done = TRUE; continue; }
            gboolean lead = FALSE;
            for (int k = 12; k >= 0; k -= 4) { unsigned h = w[i] >> k & 15; if (h || lead || k == 0) { lead = TRUE; t[n++] = h < 10 ? '0' + h : 'a' + h - 10; } }
        }
        if (!done && bb >= 0 && bb + bl == 8) t[n++] = ':';
        t[n] = 0;
    } else { errno = EAFNOSUPPORT; return NULL; }
    if ((unsigned)n + 1 > size) { errno = ENOSPC; return NULL; }
    for (int i = 0; i <= n; i++) dst[i] = t[i];
    return dst;
}
#endif

/* ------------------------------------------------------------ memory, strings */
static char *v_stralloc (gsize n)          /* room for n characters and NUL */
{ V_LIMIT(n < VSTR_CAP, "string longer than VSTR_CAP"); return (char *)malloc(VSTR_CAP); }
void g_free (gpointer p) { if (p) free(p); }
gpointer g_malloc (gsize n) { return n ? malloc(n) : NULL; }
gpointer g_malloc0 (gsize n) { if (!n) return NULL; char *p = malloc(n); for (gsize i = 0; i < n; i++) p[i] = 0; return p; }
gpointer g_malloc_n (gsize a, gsize b) { return g_malloc(a * b); }
gpointer g_malloc0_n (gsize a, gsize b) { return g_malloc0(a * b); }
#ifdef VTEXT_MAX
/* all texts copied or kept in tables are at most VTEXT_MAX bytes (checked) */
static gboolean v_short_eq (const gchar *a, const gchar *b)
{ for (int i = 0; i <= VTEXT_MAX; i++) { if (a[i] != b[i]) return FALSE; if (!a[i]) return TRUE; } V_LIMIT(0, "a text longer than VTEXT_MAX"); return TRUE; }
#else
#define v_short_eq(a, b) (v_strcmp(a, b) == 0)
#endif
gchar *g_strdup (const gchar *s)
{
#ifdef VTEXT_MAX
  if (!s) return NULL;
  char *c = malloc(VTEXT_MAX + 1); gboolean ended = FALSE;
  for (int i = 0; i <= VTEXT_MAX; i++) { c[i] = ended ? 0 : s[i]; if (!c[i]) ended = TRUE; }
  V_LIMIT(ended, "a text longer than VTEXT_MAX");
  return c;
#endif
  if (!s) return NULL; gsize n = v_strlen(s); char *d = v_stralloc(n); for (gsize i = 0; i <= n; i++) d[i] = s[i]; return d; }
gchar *g_strndup (const gchar *s, gsize n)
{ if (!s) return NULL; char *d = v_stralloc(n); gsize i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; d[n] = 0; return d; }
gpointer g_memdup (gconstpointer m, guint n)
{ if (!m || !n) return NULL; char *d = malloc(n); v_memcpy(d, m, n); return d; }
gpointer g_memdup2 (gconstpointer m, gsize n) { return g_memdup(m, (guint)n); }
gint g_strcmp0 (const char *a, const char *b)
{ if (!a) return b ? -1 : 0; if (!b) return 1; return v_strcmp(a, b); }
gboolean g_str_equal (gconstpointer a, gconstpointer b) { return v_strcmp(a, b) == 0; }
guint g_str_hash (gconstpointer v) { return 0; }
gboolean g_direct_equal (gconstpointer a, gconstpointer b) { return a == b; }
guint g_direct_hash (gconstpointer v) { return 0; }
gboolean g_int_equal (gconstpointer a, gconstpointer b) { return *(const gint *)a == *(const gint *)b; }
guint g_int_hash (gconstpointer v) { return 0; }
gboolean g_str_has_prefix (const gchar *s, const gchar *p)
{ gsize i = 0; for (;; i++) { if (!p[i]) return TRUE; if (s[i] != p[i]) return FALSE; } }
gboolean g_str_has_suffix (const gchar *s, const gchar *p)
{ gsize a = v_strlen(s), b = v_strlen(p); return a >= b && v_strcmp(s + a - b, p) == 0; }
gchar g_ascii_tolower (gchar c) { return g_ascii_isupper(c) ? c - 'A' + 'a' : c; }
gchar g_ascii_toupper (gchar c) { return g_ascii_islower(c) ? c - 'a' + 'A' : c; }
gint g_ascii_strcasecmp (const gchar *a, const gchar *b)
{ for (gsize i = 0;; i++) { int x = (guchar)g_ascii_tolower(a[i]), y = (guchar)g_ascii_tolower(b[i]); if (x != y) return x - y; if (!x) return 0; } }
gint g_ascii_strncasecmp (const gchar *a, const gchar *b, gsize n)
{ for (gsize i = 0; i < n; i++) { int x = (guchar)g_ascii_tolower(a[i]), y = (guchar)g_ascii_tolower(b[i]); if (x != y) return x - y; if (!x) return 0; } return 0; }
#undef strcasecmp
#undef strncasecmp
int strcasecmp (const char *a, const char *b) { return g_ascii_strcasecmp(a, b); }
int strncasecmp (const char *a, const char *b, size_t n) { return g_ascii_strncasecmp(a, b, n); }
gint g_utf8_collate (const gchar *a, const gchar *b) { return v_strcmp(a, b); }
gchar *g_strchomp (gchar *s) { gsize n = v_strlen(s); while (n && g_ascii_isspace(s[n-1])) s[--n] = 0; return s; }
gchar *g_strchug (gchar *s) { gsize i = 0; while (s[i] && g_ascii_isspace(s[i])) i++; v_memmove(s, s + i, v_strlen(s + i) + 1); return s; }
void g_strfreev (gchar **v) { if (v) { for (gsize i = 0; v[i]; i++) free(v[i]); free(v); } }
guint g_strv_length (gchar **v) { guint n = 0; while (v[n]) n++; return n; }
#ifndef VSPLIT_MAX
#define VSPLIT_MAX 6
#endif
gchar **g_strsplit (const gchar *s, const gchar *delim, gint max_tokens)
{
    gchar **r = (gchar **)malloc(sizeof(gchar *) * (VSPLIT_MAX + 1));
#ifdef VSPLIT_FLAT
    /* tokens in blocks of the size of the text: their places do not depend on
     * where the delimiters are */
    {
        gint k = 0, m = VSPLIT_MAX; gsize j = 0, i = 0; gchar *b[VSPLIT_MAX];
        V_LIMIT(max_tokens < 1 && v_strlen(delim) == 1, "a flat g_strsplit divides at single characters");
        for (gint q = 0; q < m; q++) { b[q] = (gchar *)malloc(VSPLIT_FLAT + 1); for (i = 0; i <= VSPLIT_FLAT; i++) b[q][i] = 0; }
        for (i = 0; i < VSPLIT_FLAT; i++) {
            if (!s[i]) break;
            if (s[i] == delim[0]) { k++; j = 0; V_LIMIT(k < m, "too many g_strsplit tokens"); }
            else { for (gint q = 0; q < m; q++) if (q == k) b[q][j] = s[i]; j++; }
        }
        V_LIMIT(i < VSPLIT_FLAT || !s[i], "a text longer than the block of its tokens");
        for (gint q = 0; q < m; q++) r[q] = s[0] && q <= k ? b[q] : NULL;
        r[m] = NULL;
        return r;
    }
#endif
    gsize dl = v_strlen(delim), i = 0, start = 0; gint n = 0;
    if (max_tokens < 1) max_tokens = G_MAXINT;
    if (!s[0]) { r[0] = NULL; return r; }
    for (;;) {
        if (!s[i]) break;
        if (n + 1 < max_tokens && v_strncmp(s + i, delim, dl) == 0) {
            V_LIMIT(n < VSPLIT_MAX, "too many g_strsplit tokens");
            r[n++] = g_strndup(s + start, i - start); i += dl; start = i;
        } else i++;
    }
    V_LIMIT(n < VSPLIT_MAX, "too many g_strsplit tokens");
    r[n++] = g_strdup(s + start);
    r[n] = NULL;
    return r;
}

/* formatted output: the conversions used in the code base */
static void v_put (GString *o, char c) { v_g_string_append_c(o, c); }
static void v_put_u (GString *o, guint64 v, int base, int width, char pad, gboolean upper)
{
    char t[24]; int n = 0;
    if (base == 10 && width == 3) {      /* reply codes: three places, whatever the value */
        V_LIMIT(v < 1000, "a number wider than its three places");
        v_put(o, v >= 100 ? '0' + (int)(v / 100) : pad); v_put(o, v >= 10 ? '0' + (int)(v / 10 % 10) : pad); v_put(o, '0' + (int)(v % 10));
        return;
    }
#ifdef VPUT_DIGITS
    if (base == 10 && !width) {      /* the number of digits is a parameter of the configuration */
        V_LIMIT(v < 65536, "a number above 16 bits");
        guint16 w = (guint16)v; unsigned e = 1; for (int i = 1; i < VPUT_DIGITS; i++) e *= 10;
        V_LIMIT((w >= e || VPUT_DIGITS == 1) && w / 10 < e, "a number of another number of digits");
        for (int i = 0; i < VPUT_DIGITS; i++) { v_put(o, '0' + (int)((guint16)(w / (guint16)e) % (guint16)10)); e /= 10; }
        return;
    }
#endif
    do { int d = v % base; t[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v && n < 23);
    for (int i = n; i < width; i++) v_put(o, pad);
    while (n) v_put(o, t[--n]);
}
#ifndef VFORMAT
/* formatted text is only built in harnesses whose property depends on it
 * (-DVFORMAT); elsewhere it only feeds error messages and is left empty */
static void v_format (GString *o, const char *f, va_list ap) {}
void v_formatting (int on) {}
#else
static gboolean v_format_off;
void v_formatting (int on) { v_format_off = !on; }
static void v_format (GString *o, const char *f, va_list ap)
{
    if (v_format_off) return;
    for (gsize i = 0; f[i]; i++) {
        if (f[i] != '%') { v_put(o, f[i]); continue; }
        i++;
        if (f[i] == '%') { v_put(o, '%'); continue; }
        char pad = ' '; int width = 0, prec = -1, lng = 0; gboolean left = FALSE;
        for (;; i++) { if (f[i] == '0') pad = '0'; else if (f[i] == '-') left = TRUE; else if (f[i] == '#' || f[i] == '+') {} else break; }
        if (f[i] == '*') { width = va_arg(ap, int); i++; }
        else while (g_ascii_isdigit(f[i])) { width = width * 10 + f[i] - '0'; i++; }
        if (f[i] == '.') { i++; prec = 0; if (f[i] == '*') { prec = va_arg(ap, int); i++; } else while (g_ascii_isdigit(f[i])) { prec = prec * 10 + f[i] - '0'; i++; } }
        while (f[i] == 'l' || f[i] == 'h' || f[i] == 'z') { if (f[i] != 'h') lng = 1; i++; }
        switch (f[i]) {
        case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; gsize k = 0;
                    if (prec < 0) { gsize n = v_strlen(s); for (; k < n; k++) v_put(o, s[k]); }
                    else for (; k < (gsize)prec && s[k]; k++) v_put(o, s[k]);
                    for (; (int)k < width; k++) v_put(o, ' '); break; }
        case 'c': v_put(o, (char)va_arg(ap, int)); break;
        case 'd': case 'i': { gint64 v = lng ? va_arg(ap, long) : __CPROVER_OBJECT_SIZE(*(void **)ap) == 2 ? (gint64)va_arg(ap, guint16) : va_arg(ap, int);   /* CBMC does not promote a 16 bit statement expression */
#ifdef VPUT_DIGITS
                    V_LIMIT(v >= 0, "a negative number"); if (v < 0) v = 0;
#endif
                    if (v < 0) { v_put(o, '-'); v_put_u(o, 0 - (guint64)v, 10, width - 1, pad, FALSE); }
                    else v_put_u(o, (guint64)v, 10, width, pad, FALSE); break; }
        case 'u': v_put_u(o, lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), 10, width, pad, FALSE); break;
        case 'o': v_put_u(o, lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), 8, width, pad, FALSE); break;
        case 'x': v_put_u(o, lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), 16, width, pad, FALSE); break;
        case 'X': v_put_u(o, lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), 16, width, pad, TRUE); break;
        case 'p': (void)va_arg(ap, void *); v_put(o, 'p'); break;
        case 'g': case 'f': (void)va_arg(ap, double); v_put(o, '0'); break;
        default: V_BOUND(0, "unsupported format conversion"); break;
        }
    }
}
#endif
gchar *g_strdup_vprintf (const gchar *f, va_list ap)
{ GString *o = g_string_new(NULL); v_format(o, f, ap); return g_string_free(o, FALSE); }
gchar *g_strdup_printf (const gchar *f, ...)
{ va_list ap; va_start(ap, f); gchar *r = g_strdup_vprintf(f, ap); va_end(ap); return r; }
gint g_vasprintf (gchar **s, const gchar *f, va_list ap) { *s = g_strdup_vprintf(f, ap); return (gint)v_strlen(*s); }
gchar *g_strconcat (const gchar *a, ...)
{ GString *o = g_string_new(a); va_list ap; va_start(ap, a); for (;;) { const char *s = va_arg(ap, const char *); if (!s) break; g_string_append(o, s); } va_end(ap); return g_string_free(o, FALSE); }
gchar *g_strjoinv (const gchar *sep, gchar **v)
{ GString *o = g_string_new(NULL); for (gsize i = 0; v[i]; i++) { if (i && sep) g_string_append(o, sep); g_string_append(o, v[i]); } return g_string_free(o, FALSE); }
const gchar *g_strerror (gint e) { return "error"; }
gchar *g_shell_quote (const gchar *s) { return g_strdup(s); }

/* ------------------------------------------------------------ GString */
GString *g_string_sized_new (gsize n)
{ GString *s = (GString *)malloc(sizeof(GString)); 
#ifdef VEXACT
  s->str = (char *)malloc(1);
#else
  s->str = (char *)malloc(VGS_CAP);
#endif
  s->len = 0; s->allocated_len = VGS_CAP; s->str[0] = 0; return s; }
GString *g_string_new (const gchar *v) { GString *s = g_string_sized_new(0); if (v) g_string_append(s, v); return s; }
GString *g_string_new_len (const gchar *v, gssize len) { if (len < 0) return g_string_new(v); GString *s = g_string_sized_new(0); if (v) g_string_append_len(s, v, len); return s; }
#ifdef VEXACT
/* exactly sized buffers: every access behind the terminator is seen */
static void v_gs_room (GString *s, gsize len)
{ char *n = (char *)malloc(len + 1); for (gsize i = 0; i < s->len && i < len; i++) n[i] = s->str[i]; free(s->str); s->str = n; }
#else
static void v_gs_room (GString *s, gsize len) {}
#endif
GString *g_string_append_len (GString *s, const gchar *v, gssize len)
{ if (!s) { v_critical(); return NULL; }
#ifdef VGS_OFF                 /* the code uses GString for error texts only */
    return s;
#endif
    gsize n = len < 0 ? v_strlen(v) : (gsize)len;
    if (n == 0) return s;
    V_LIMIT(n < VGS_CAP && s->len + n < VGS_CAP, "GString longer than VGS_CAP");
    v_gs_room(s, s->len + n);
    for (gsize i = 0; i < n; i++) s->str[s->len + i] = v[i];
    s->len += n; s->str[s->len] = 0; return s;
}
GString *g_string_append (GString *s, const gchar *v) { if (!s) { v_critical(); return NULL; } return g_string_append_len(s, v, -1); }
GString *v_g_string_append_c (GString *s, gchar c)
{ if (!s) { v_critical(); return NULL; } V_LIMIT(s->len + 1 < VGS_CAP, "GString longer than VGS_CAP"); v_gs_room(s, s->len + 1); s->str[s->len++] = c; s->str[s->len] = 0; return s; }
GString *g_string_insert_len (GString *s, gssize pos, const gchar *v, gssize len)
{ if (!s) { v_critical(); return NULL; }
    gsize n = len < 0 ? v_strlen(v) : (gsize)len;
    gsize p = pos < 0 ? s->len : (gsize)pos;
    __CPROVER_assert(p <= s->len, "g_string_insert_len position");
    if (n == 0) return s;
    V_LIMIT(n < VGS_CAP && s->len + n < VGS_CAP, "GString longer than VGS_CAP");
    v_gs_room(s, s->len + n);
    for (gsize i = s->len; i > p; i--) s->str[i - 1 + n] = s->str[i - 1];
    for (gsize i = 0; i < n; i++) s->str[p + i] = v[i];
    s->len += n; s->str[s->len] = 0; return s;
}
GString *g_string_prepend_len (GString *s, const gchar *v, gssize len) { if (!s) { v_critical(); return NULL; } return g_string_insert_len(s, 0, v, len); }
GString *g_string_prepend (GString *s, const gchar *v) { if (!s) { v_critical(); return NULL; } return g_string_insert_len(s, 0, v, -1); }
GString *g_string_prepend_c (GString *s, gchar c) { if (!s) { v_critical(); return NULL; } return g_string_insert_len(s, 0, &c, 1); }
GString *g_string_insert_c (GString *s, gssize pos, gchar c) { if (!s) { v_critical(); return NULL; } return g_string_insert_len(s, pos, &c, 1); }
GString *v_g_string_truncate (GString *s, gsize len) { if (!s) { v_critical(); return NULL; } s->len = len < s->len ? len : s->len; s->str[s->len] = 0; return s; }
GString *g_string_set_size (GString *s, gsize len) { if (!s) { v_critical(); return NULL; } V_LIMIT(len < VGS_CAP, "GString longer than VGS_CAP"); v_gs_room(s, len); s->len = len; s->str[len] = 0; return s; }
GString *g_string_erase (GString *s, gssize pos, gssize len)
{ if (!s) { v_critical(); return NULL; }
    __CPROVER_assert(pos >= 0 && (gsize)pos <= s->len, "g_string_erase position");
    if (len < 0) len = s->len - pos;
    else { __CPROVER_assert((gsize)pos + (gsize)len <= s->len, "g_string_erase length");
           for (gsize i = pos; i + len < s->len; i++) s->str[i] = s->str[i + len]; }
    s->len -= len; v_gs_room(s, s->len); s->str[s->len] = 0; return s;
}
GString *g_string_assign (GString *s, const gchar *v) { if (!s) { v_critical(); return NULL; } if (s->str != v) { v_g_string_truncate(s, 0); g_string_append(s, v); } return s; }
gchar *g_string_free (GString *s, gboolean seg)
{ if (!s) { v_critical(); return NULL; } char *r = NULL; if (!s) return NULL; if (seg) free(s->str); else r = s->str; free(s); return r; }
gchar *g_string_free_and_steal (GString *s) { if (!s) { v_critical(); return NULL; } return g_string_free(s, FALSE); }
void g_string_vprintf (GString *s, const gchar *f, va_list ap) { if (!s) { v_critical(); return; } v_g_string_truncate(s, 0); v_format(s, f, ap); }
void g_string_append_vprintf (GString *s, const gchar *f, va_list ap) { if (!s) { v_critical(); return; } v_format(s, f, ap); }
void g_string_append_printf (GString *s, const gchar *f, ...) { if (!s) { v_critical(); return; } va_list ap; va_start(ap, f); v_format(s, f, ap); va_end(ap); }
void g_string_printf (GString *s, const gchar *f, ...) { if (!s) { v_critical(); return; } va_list ap; va_start(ap, f); v_g_string_truncate(s, 0); v_format(s, f, ap); va_end(ap); }
gboolean g_string_equal (const GString *a, const GString *b) { return a->len == b->len && v_memcmp(a->str, b->str, a->len) == 0; }

/* ------------------------------------------------------------ GList etc. */
GList *g_list_alloc (void) { GList *l = (GList *)malloc(sizeof(GList)); l->data = NULL; l->next = l->prev = NULL; return l; }
GList *g_list_last (GList *l) { if (l) while (l->next) l = l->next; return l; }
GList *g_list_first (GList *l) { if (l) while (l->prev) l = l->prev; return l; }
guint g_list_length (GList *l) { guint n = 0; for (; l; l = l->next) n++; return n; }
GList *g_list_append (GList *l, gpointer d)
{ GList *n = g_list_alloc(); n->data = d; if (!l) return n; GList *t = g_list_last(l); t->next = n; n->prev = t; return l; }
GList *g_list_prepend (GList *l, gpointer d)
{ GList *n = g_list_alloc(); n->data = d; n->next = l; if (l) { n->prev = l->prev; if (l->prev) l->prev->next = n; l->prev = n; } return n; }
GList *g_list_nth (GList *l, guint n) { for (; l && n; n--) l = l->next; return l; }
gpointer g_list_nth_data (GList *l, guint n) { l = g_list_nth(l, n); return l ? l->data : NULL; }
GList *g_list_insert (GList *l, gpointer d, gint pos)
{
    if (pos < 0) return g_list_append(l, d);
    if (pos == 0) return g_list_prepend(l, d);
    GList *t = g_list_nth(l, pos);
    if (!t) return g_list_append(l, d);
    GList *n = g_list_alloc(); n->data = d; n->prev = t->prev; t->prev->next = n; n->next = t; t->prev = n; return l;
}
GList *g_list_insert_before (GList *l, GList *s, gpointer d)
{
    if (!l) return g_list_append(NULL, d);
    if (!s) return g_list_append(l, d);
    GList *n = g_list_alloc(); n->data = d; n->prev = s->prev; n->next = s; s->prev = n;
    if (n->prev) { n->prev->next = n; return l; }
    return n;
}
GList *g_list_remove_link (GList *l, GList *k)
{
    if (!k) return l;
    if (k->prev) k->prev->next = k->next;
    if (k->next) k->next->prev = k->prev;
    if (k == l) l = l->next;
    k->next = k->prev = NULL; return l;
}
GList *g_list_delete_link (GList *l, GList *k) { l = g_list_remove_link(l, k); if (k) free(k); return l; }
GList *g_list_find (GList *l, gconstpointer d) { for (; l; l = l->next) if (l->data == d) return l; return NULL; }
GList *g_list_find_custom (GList *l, gconstpointer d, GCompareFunc f) { for (; l; l = l->next) if (f(l->data, d) == 0) return l; return NULL; }
GList *g_list_remove (GList *l, gconstpointer d) { GList *k = g_list_find(l, d); return k ? g_list_delete_link(l, k) : l; }
GList *g_list_remove_all (GList *l, gconstpointer d) { GList *k; while ((k = g_list_find(l, d))) l = g_list_delete_link(l, k); return l; }
gint g_list_position (GList *l, GList *k) { gint i = 0; for (; l; l = l->next, i++) if (l == k) return i; return -1; }
gint g_list_index (GList *l, gconstpointer d) { gint i = 0; for (; l; l = l->next, i++) if (l->data == d) return i; return -1; }
void g_list_free (GList *l) { while (l) { GList *n = l->next; free(l); l = n; } }
void g_list_free_1 (GList *l) { free(l); }
/* functions of one argument passed as GFunc */
extern void milter_header_free (gpointer), milter_manager_module_unload (gpointer);
static void v_each (GFunc f, gpointer d, gpointer u)
{
    if (f == (GFunc)g_free) g_free(d);
    else if (f == (GFunc)g_object_unref) g_object_unref(d);
    else if (f == (GFunc)milter_header_free) milter_header_free(d);
    else if (f == (GFunc)milter_manager_module_unload) milter_manager_module_unload(d);
    else f(d, u);
}
void g_list_free_full (GList *l, GDestroyNotify f) { for (GList *k = l; k; k = k->next) f(k->data); g_list_free(l); }
void g_list_foreach (GList *l, GFunc f, gpointer u) { while (l) { GList *n = l->next; v_each(f, l->data, u); l = n; } }
GList *g_list_copy (GList *l) { GList *r = NULL, *t = NULL; for (; l; l = l->next) { GList *n = g_list_alloc(); n->data = l->data; n->prev = t; if (t) t->next = n; else r = n; t = n; } return r; }
GList *g_list_copy_deep (GList *l, GCopyFunc f, gpointer u) { GList *r = g_list_copy(l); for (GList *k = r; k; k = k->next) k->data = f(k->data, u); return r; }
GList *g_list_concat (GList *a, GList *b) { if (!b) return a; if (!a) return b; GList *t = g_list_last(a); t->next = b; b->prev = t; return a; }
GList *g_list_reverse (GList *l) { GList *t = NULL; while (l) { t = l; l = t->next; t->next = t->prev; t->prev = l; } return t; }
GList *g_list_insert_sorted (GList *l, gpointer d, GCompareFunc f)
{ GList *k = l; while (k && f(d, k->data) > 0) k = k->next; return g_list_insert_before(l, k, d); }
GList *g_list_sort (GList *l, GCompareFunc f)
{ GList *r = NULL; for (GList *k = l; k; k = k->next) { GList *p = r; while (p && f(k->data, p->data) >= 0) p = p->next; r = g_list_insert_before(r, p, k->data); } g_list_free(l); return r; }

GSList *g_slist_prepend (GSList *l, gpointer d) { GSList *n = (GSList *)malloc(sizeof(GSList)); n->data = d; n->next = l; return n; }
GSList *g_slist_append (GSList *l, gpointer d) { GSList *n = g_slist_prepend(NULL, d); if (!l) return n; GSList *t = l; while (t->next) t = t->next; t->next = n; return l; }
void g_slist_free (GSList *l) { while (l) { GSList *n = l->next; free(l); l = n; } }
void g_slist_foreach (GSList *l, GFunc f, gpointer u) { while (l) { GSList *n = l->next; v_each(f, l->data, u); l = n; } }
guint g_slist_length (GSList *l) { guint n = 0; for (; l; l = l->next) n++; return n; }

GQueue *g_queue_new (void) { GQueue *q = (GQueue *)malloc(sizeof(GQueue)); q->head = q->tail = NULL; q->length = 0; return q; }
void g_queue_init (GQueue *q) { q->head = q->tail = NULL; q->length = 0; }
void g_queue_clear (GQueue *q) { g_list_free(q->head); g_queue_init(q); }
void g_queue_free (GQueue *q) { g_list_free(q->head); free(q); }
void g_queue_free_full (GQueue *q, GDestroyNotify f) { g_list_free_full(q->head, f); free(q); }
gboolean g_queue_is_empty (GQueue *q) { return q->head == NULL; }
guint g_queue_get_length (GQueue *q) { return q->length; }
void g_queue_push_tail (GQueue *q, gpointer d)
{ GList *n = g_list_alloc(); n->data = d; n->prev = q->tail; if (q->tail) q->tail->next = n; else q->head = n; q->tail = n; q->length++; }
void g_queue_push_head (GQueue *q, gpointer d)
{ GList *n = g_list_alloc(); n->data = d; n->next = q->head; if (q->head) q->head->prev = n; else q->tail = n; q->head = n; q->length++; }
gpointer g_queue_pop_head (GQueue *q)
{ GList *h = q->head; if (!h) return NULL; gpointer d = h->data; q->head = h->next; if (q->head) q->head->prev = NULL; else q->tail = NULL; q->length--; free(h); return d; }
gpointer g_queue_pop_tail (GQueue *q)
{ GList *h = q->tail; if (!h) return NULL; gpointer d = h->data; q->tail = h->prev; if (q->tail) q->tail->next = NULL; else q->head = NULL; q->length--; free(h); return d; }
gpointer g_queue_peek_head (GQueue *q) { return q->head ? q->head->data : NULL; }
gpointer g_queue_peek_tail (GQueue *q) { return q->tail ? q->tail->data : NULL; }
gboolean g_queue_remove (GQueue *q, gconstpointer d)
{ GList *k = g_list_find(q->head, d); if (!k) return FALSE; if (k == q->tail) q->tail = k->prev; q->head = g_list_delete_link(q->head, k); q->length--; return TRUE; }
GList *g_queue_find (GQueue *q, gconstpointer d) { return g_list_find(q->head, d); }
void g_queue_foreach (GQueue *q, GFunc f, gpointer u) { g_list_foreach(q->head, f, u); }

#ifndef VARR_CAP
#define VARR_CAP 8
#endif
GPtrArray *g_ptr_array_new (void) { GPtrArray *a = (GPtrArray *)malloc(sizeof(GPtrArray)); a->len = 0; a->pdata = (gpointer *)malloc(sizeof(gpointer) * VARR_CAP); return a; }
void g_ptr_array_add (GPtrArray *a, gpointer d) { V_LIMIT(a->len < VARR_CAP, "GPtrArray longer than VARR_CAP"); a->pdata[a->len++] = d; }
gpointer *g_ptr_array_free (GPtrArray *a, gboolean seg) { gpointer *r = NULL; if (seg) free(a->pdata); else r = a->pdata; free(a); return r; }
void g_ptr_array_foreach (GPtrArray *a, GFunc f, gpointer u) { for (guint i = 0; i < a->len; i++) v_each(f, a->pdata[i], u); }

typedef struct { gchar *data; guint len; guint esz; gboolean zt; } VArray;
static void v_array_end (VArray *a)
{
    if (!a->zt) return;
    if (a->esz == sizeof(gpointer)) ((gpointer *)a->data)[a->len] = NULL;
    else for (guint i = 0; i < a->esz; i++) a->data[a->len * a->esz + i] = 0;
}
GArray *g_array_new (gboolean zt, gboolean clear, guint esz) { VArray *a = (VArray *)malloc(sizeof(VArray)); a->data = esz == sizeof(gpointer) ? (gchar *)malloc(sizeof(gpointer) * (VARR_CAP + 1)) : (gchar *)malloc(esz * (VARR_CAP + 1)); a->len = 0; a->esz = esz; a->zt = zt; v_array_end(a); return (GArray *)a; }
GArray *g_array_sized_new (gboolean zt, gboolean clear, guint esz, guint n) { return g_array_new(zt, clear, esz); }
GArray *g_array_append_vals (GArray *g, gconstpointer d, guint n)
{ VArray *a = (VArray *)g; V_LIMIT(n <= VARR_CAP && a->len + n <= VARR_CAP, "GArray longer than VARR_CAP"); 
  if (a->esz == sizeof(gpointer)) for (guint i = 0; i < n; i++) ((gpointer *)a->data)[a->len + i] = ((const gpointer *)d)[i];
  else v_memcpy(a->data + a->len * a->esz, d, n * a->esz);
  a->len += n; v_array_end(a); return g; }
gchar *g_array_free (GArray *g, gboolean seg) { VArray *a = (VArray *)g; gchar *r = NULL; if (seg) free(a->data); else r = a->data; free(a); return r; }
GArray *g_array_ref (GArray *a) { return a; }
void g_array_unref (GArray *a) { g_array_free(a, TRUE); }

/* ------------------------------------------------------------ GHashTable */
struct _GHashTable { GEqualFunc eq; GHashFunc hash; GDestroyNotify kd, vd; guint n; gint ref; gboolean used[VHT_CAP]; gpointer key[VHT_CAP], val[VHT_CAP]; };
GHashTable *g_hash_table_new_full (GHashFunc h, GEqualFunc e, GDestroyNotify kd, GDestroyNotify vd)
{ GHashTable *t = (GHashTable *)malloc(sizeof(GHashTable)); *t = (struct _GHashTable){0}; t->hash = h; t->eq = e; t->kd = kd; t->vd = vd; t->ref = 1; return t; }
GHashTable *g_hash_table_new (GHashFunc h, GEqualFunc e) { return g_hash_table_new_full(h, e, NULL, NULL); }
static gboolean v_hteq (GHashTable *t, gconstpointer a, gconstpointer b)
{
    if (t->hash == g_str_hash) return v_short_eq(a, b);
    if (!t->eq || t->eq == g_direct_equal) return a == b;
    if (t->eq == g_int_equal) return *(const gint *)a == *(const gint *)b;
    return t->eq(a, b);
}
static int v_htfind (GHashTable *t, gconstpointer k)
{ if (!t) { v_critical(); return -1; } for (int i = 0; i < VHT_CAP && i < (int)t->n; i++) if (t->used[i] && v_hteq(t, t->key[i], k)) return i; return -1; }
static gboolean v_htput (GHashTable *t, gpointer k, gpointer v, gboolean replace)
{ if (!t) { v_critical(); return 0; }
    int i = v_htfind(t, k);
    if (i >= 0) {
        if (replace) { if (t->kd) t->kd(t->key[i]); t->key[i] = k; }
        else if (t->kd) t->kd(k);
        if (t->vd) t->vd(t->val[i]);
        t->val[i] = v; return FALSE;
    }
    V_LIMIT(t->n < VHT_CAP, "GHashTable larger than VHT_CAP");
    i = t->n++; t->used[i] = TRUE; t->key[i] = k; t->val[i] = v; return TRUE;
}
gboolean g_hash_table_insert (GHashTable *t, gpointer k, gpointer v) { if (!t) { v_critical(); return 0; } return v_htput(t, k, v, FALSE); }
gboolean g_hash_table_replace (GHashTable *t, gpointer k, gpointer v) { if (!t) { v_critical(); return 0; } return v_htput(t, k, v, TRUE); }
gboolean g_hash_table_add (GHashTable *t, gpointer k) { if (!t) { v_critical(); return 0; } return v_htput(t, k, k, TRUE); }
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k) { if (!t) { v_critical(); return NULL; } int i = v_htfind(t, k); return i < 0 ? NULL : t->val[i]; }
gboolean g_hash_table_contains (GHashTable *t, gconstpointer k) { if (!t) { v_critical(); return 0; } return v_htfind(t, k) >= 0; }
gboolean g_hash_table_lookup_extended (GHashTable *t, gconstpointer k, gpointer *ok, gpointer *v)
{ if (!t) { v_critical(); return 0; } int i = v_htfind(t, k); if (i < 0) return FALSE; if (ok) *ok = t->key[i]; if (v) *v = t->val[i]; return TRUE; }
gboolean g_hash_table_remove (GHashTable *t, gconstpointer k)
{ if (!t) { v_critical(); return 0; } int i = v_htfind(t, k); if (i < 0) return FALSE; t->used[i] = FALSE; if (t->kd) t->kd(t->key[i]); if (t->vd) t->vd(t->val[i]); return TRUE; }
gboolean g_hash_table_steal (GHashTable *t, gconstpointer k)
{ if (!t) { v_critical(); return 0; } int i = v_htfind(t, k); if (i < 0) return FALSE; t->used[i] = FALSE; return TRUE; }
void g_hash_table_remove_all (GHashTable *t)
{ if (!t) { v_critical(); return; } for (int i = 0; i < VHT_CAP && i < (int)t->n; i++) if (t->used[i]) { t->used[i] = FALSE; if (t->kd) t->kd(t->key[i]); if (t->vd) t->vd(t->val[i]); } t->n = 0; }
guint g_hash_table_size (GHashTable *t) { if (!t) { v_critical(); return 0; } guint c = 0; for (int i = 0; i < VHT_CAP && i < (int)t->n; i++) if (t->used[i]) c++; return c; }
void g_hash_table_foreach (GHashTable *t, GHFunc f, gpointer u)
{ if (!t) { v_critical(); return; } for (int i = 0; i < VHT_CAP && i < (int)t->n; i++) if (t->used[i]) f(t->key[i], t->val[i], u); }
GList *g_hash_table_get_keys (GHashTable *t) { if (!t) { v_critical(); return NULL; } GList *r = NULL; for (int i = 0; i < VHT_CAP && i < (int)t->n; i++) if (t->used[i]) r = g_list_prepend(r, t->key[i]); return r; }
GList *g_hash_table_get_values (GHashTable *t) { if (!t) { v_critical(); return NULL; } GList *r = NULL; for (int i = 0; i < VHT_CAP && i < (int)t->n; i++) if (t->used[i]) r = g_list_prepend(r, t->val[i]); return r; }
gpointer g_hash_table_find (GHashTable *t, GHRFunc f, gpointer u)
{ if (!t) { v_critical(); return NULL; } for (int i = 0; i < VHT_CAP && i < (int)t->n; i++) if (t->used[i] && f(t->key[i], t->val[i], u)) return t->val[i]; return NULL; }
guint g_hash_table_foreach_remove (GHashTable *t, GHRFunc f, gpointer u)
{ if (!t) { v_critical(); return 0; } guint c = 0; for (int i = 0; i < VHT_CAP && i < (int)t->n; i++) if (t->used[i] && f(t->key[i], t->val[i], u)) { t->used[i] = FALSE; if (t->kd) t->kd(t->key[i]); if (t->vd) t->vd(t->val[i]); c++; } return c; }
GHashTable *g_hash_table_ref (GHashTable *t) { if (!t) { v_critical(); return NULL; } t->ref++; return t; }
void g_hash_table_unref (GHashTable *t) { if (!t) { v_critical(); return; } if (--t->ref == 0) { g_hash_table_remove_all(t); free(t); } }
void g_hash_table_destroy (GHashTable *t) { if (!t) { v_critical(); return; } g_hash_table_remove_all(t); g_hash_table_unref(t); }
typedef struct { GHashTable *t; int i; } VIter;
void g_hash_table_iter_init (GHashTableIter *it, GHashTable *t) { it->dummy1 = t; it->dummy4 = 0; }
gboolean g_hash_table_iter_next (GHashTableIter *it, gpointer *k, gpointer *v)
{ GHashTable *t = it->dummy1; while (it->dummy4 < (int)t->n) { int i = it->dummy4++; if (t->used[i]) { if (k) *k = t->key[i]; if (v) *v = t->val[i]; return TRUE; } } return FALSE; }

/* ------------------------------------------------------------ GQuark, GError */
/* a quark is a pure function of the text (a 30-bit hash); the names in the
 * code base are constants, so distinctness is visible at once */
GQuark g_quark_from_static_string (const gchar *s)
{ guint h = 5381; if (!s) return 0; for (gsize i = 0; s[i]; i++) h = h * 33 + (guchar)s[i]; return (h & 0x3fffffff) | 0x40000000; }
GQuark g_quark_from_string (const gchar *s) { return g_quark_from_static_string(s); }
const gchar *g_quark_to_string (GQuark q) { return "quark"; }
static char v_errmsg[] = "error";
static GError *v_error_new (GQuark d, gint c) { GError *e = (GError *)malloc(sizeof(GError)); e->domain = d; e->code = c; e->message = v_errmsg; return e; }
/* message formatting of errors is not the subject: the text is not built */
GError *g_error_new (GQuark d, gint c, const gchar *f, ...) { return v_error_new(d, c); }
GError *g_error_new_literal (GQuark d, gint c, const gchar *m) { return v_error_new(d, c); }
GError *g_error_new_valist (GQuark d, gint c, const gchar *f, va_list a) { return v_error_new(d, c); }
GError *g_error_copy (const GError *e) { return v_error_new(e->domain, e->code); }
void g_error_free (GError *e) { free(e); }
gboolean g_error_matches (const GError *e, GQuark d, gint c) { return e && e->domain == d && e->code == c; }
void g_set_error (GError **e, GQuark d, gint c, const gchar *f, ...)
{ if (e) { if (*e) v_critical(); else *e = v_error_new(d, c); } }
void g_set_error_literal (GError **e, GQuark d, gint c, const gchar *m) { if (e) { if (*e) v_critical(); else *e = v_error_new(d, c); } }
void g_propagate_error (GError **dst, GError *src) { if (!dst) { if (src) g_error_free(src); } else if (*dst) { v_critical(); } else *dst = src; }
void g_propagate_prefixed_error (GError **dst, GError *src, const gchar *f, ...) { g_propagate_error(dst, src); }
void g_prefix_error (GError **e, const gchar *f, ...) { }
void g_clear_error (GError **e) { if (e && *e) { g_error_free(*e); *e = NULL; } }
GFileError g_file_error_from_errno (gint e) { return G_FILE_ERROR_FAILED; }
GQuark g_file_error_quark (void) { return 90; }
GQuark g_io_channel_error_quark (void) { return 91; }
GQuark g_shell_error_quark (void) { return 92; }
GQuark g_convert_error_quark (void) { return 93; }
GQuark g_spawn_error_quark (void) { return 94; }

/* ------------------------------------------------------------ types */
#define VMAXT 64
#define VT0 4096
/* tables of pointers in two levels: every table read costs the solver front
 * end time in proportion to the size of the object read from */
typedef struct { gpointer p[8]; } VBlk;
typedef struct { VBlk *b[8]; guint n; } VTab;
static VTab vt;
static gpointer v_tab_get (VTab *t, guint i) { return t->b[i >> 3]->p[i & 7]; }
static void v_tab_add (VTab *t, gpointer p)
{
    V_LIMIT(t->n < VMAXT, "too many types or signals");
    if (!(t->n & 7)) { VBlk *b = (VBlk *)malloc(sizeof(VBlk)); *b = (VBlk){0}; t->b[t->n >> 3] = b; }
    t->b[t->n >> 3]->p[t->n & 7] = p; t->n++;
}
/* names of signals and properties: an underscore stands for a minus */
static int v_canon (char c) { return c == '_' ? '-' : (guchar)c; }
static guint v_hash (const char *s) { guint h = 5381; for (gsize i = 0; s[i]; i++) h = h * 33 + v_canon(s[i]); return h; }
static gboolean v_find_prop_name (const char *a, const char *b) { for (gsize i = 0;; i++) { if (v_canon(a[i]) != v_canon(b[i])) return FALSE; if (!a[i]) return TRUE; } }
static VType *v_type (GType t) { return v_tab_get(&vt, (t - VT0) >> 2); }
static GObjectClass v_object_class;
static void v_nop_obj (GObject *o) {}
static GObject *v_default_constructor (GType t, guint n, GObjectConstructParam *p);
static void v_gobject_class (void)
{ v_object_class.dispose = v_nop_obj; v_object_class.finalize = v_nop_obj; v_object_class.constructor = v_default_constructor; v_object_class.g_type_class.g_type = G_TYPE_OBJECT; }
GType v_register (const char *name, GType parent, gpointer klass, gpointer (*alloc)(void),
                  void (*init)(gpointer), void (*class_init)(gpointer), gboolean abs)
{
    if (!v_object_class.dispose) v_gobject_class();
    VType *y = (VType *)malloc(sizeof(VType)); *y = (VType){0};
    y->name = name; y->parent = parent; y->klass = klass; y->alloc = alloc; y->init = init; y->class_init = class_init; y->abstract_p = abs;
    y->level = parent >= VT0 ? v_type(parent)->level + 1 : 0;
    GType t = VT0 + ((GType)vt.n << 2);
    v_tab_add(&vt, y);
    return t;
}
void v_add_iface (GType t, GType iface, gpointer vtable)
{
    VType *y = v_type(t);
    V_LIMIT(y->n_ifaces < V_MAX_IFACE, "too many interfaces");
    ((GTypeInterface *)vtable)->g_type = iface; ((GTypeInterface *)vtable)->g_instance_type = t;
    y->ifaces[y->n_ifaces].iface = iface; y->ifaces[y->n_ifaces].vtable = vtable; y->n_ifaces++;
}
/* the class structure holds the parent's members already */
void v_class_setup (GType t)
{
    VType *y = v_type(t);
    y->klass->g_type_class.g_type = t;
    y->class_init(y->klass);
}
GType g_type_parent (GType t) { return t >= VT0 ? v_type(t)->parent : 0; }
gpointer g_type_class_peek (GType t) { if (t < VT0) { if (!v_object_class.dispose) v_gobject_class(); return &v_object_class; } return v_type(t)->klass; }
gpointer g_type_class_ref (GType t) { return t >= VT0 && (v_type(t)->kind == 2 || v_type(t)->kind == 3) ? v_type(t)->extra : g_type_class_peek(t); }
gpointer g_type_class_get (GType t) { return g_type_class_ref(t); }
void g_type_class_unref (gpointer k) {}
gpointer g_type_class_peek_parent (gpointer k) { return g_type_class_peek(g_type_parent(((GTypeClass *)k)->g_type)); }
void g_type_class_add_private (gpointer k, gsize n) {}
gint g_type_add_instance_private (GType t, gsize n) { return 0; }
const gchar *g_type_name (GType t) { return t >= VT0 ? v_type(t)->name : "type"; }
const gchar *g_type_name_from_instance (GTypeInstance *i) { return g_type_name(i->g_class->g_type); }
gboolean g_type_is_a (GType t, GType is)
{
    for (;;) {
        if (t == is) return TRUE;
        if (t < VT0) return FALSE;
        VType *y = v_type(t);
        for (int i = 0; i < y->n_ifaces; i++) if (y->ifaces[i].iface == is) return TRUE;
        if (y->kind == 2) return is == G_TYPE_ENUM;
        if (y->kind == 3) return is == G_TYPE_FLAGS;
        if (y->kind == 4) return is == G_TYPE_BOXED;
        if (y->kind == 1) return is == G_TYPE_INTERFACE;
        t = y->parent;
    }
}
static gpointer v_iface_vtable (GType t, GType iface)
{ while (t >= VT0) { VType *y = v_type(t); for (int i = 0; i < y->n_ifaces; i++) if (y->ifaces[i].iface == iface) return y->ifaces[i].vtable; t = y->parent; } return NULL; }
/* no type of this code base derives from a type and re-implements one of its
 * interfaces: the parent never has the interface */
gpointer g_type_interface_peek_parent (gpointer iface) { return NULL; }
gpointer g_type_interface_peek (gpointer k, GType iface) { return v_iface_vtable(((GTypeClass *)k)->g_type, iface); }
GType g_type_fundamental (GType t)
{
    if (t < VT0) return t;
    switch (v_type(t)->kind) { case 1: return G_TYPE_INTERFACE; case 2: return G_TYPE_ENUM; case 3: return G_TYPE_FLAGS; case 4: return G_TYPE_BOXED; default: return G_TYPE_OBJECT; }
}
gboolean v_is_a (gpointer o, GType t) { return o && g_type_is_a(((GTypeInstance *)o)->g_class->g_type, t); }
gboolean g_type_check_instance_is_a (GTypeInstance *o, GType t) { return v_is_a(o, t); }
GType g_type_register_static (GType parent, const gchar *name, const GTypeInfo *info, GTypeFlags f)
{
    GType t = v_register(name, parent, NULL, NULL, NULL, NULL, TRUE);
    v_type(t)->kind = 1;
    GTypeInterface *g = (GTypeInterface *)malloc(sizeof(GTypeInterface)); g->g_type = t;
    if (info->base_init) info->base_init(g);
    return t;
}
GType g_boxed_type_register_static (const gchar *name, GBoxedCopyFunc c, GBoxedFreeFunc f)
{ GType t = v_register(name, G_TYPE_BOXED, NULL, NULL, NULL, NULL, FALSE); v_type(t)->kind = 4; v_type(t)->extra = (gpointer)c; v_type(t)->extra2 = (gpointer)f; return t; }
GType g_bytes_get_type (void) { static GType t; if (!t) t = g_boxed_type_register_static("GBytes", (GBoxedCopyFunc)g_bytes_ref, (GBoxedFreeFunc)g_bytes_unref); return t; }
GType g_enum_register_static (const gchar *name, const GEnumValue *v)
{ GType t = v_register(name, G_TYPE_ENUM, NULL, NULL, NULL, NULL, FALSE); v_type(t)->kind = 2;
  GEnumClass *k = (GEnumClass *)malloc(sizeof(GEnumClass)); k->g_type_class.g_type = t; k->values = (GEnumValue *)v; k->n_values = 0; while (v[k->n_values].value_name) k->n_values++; v_type(t)->extra = k; return t; }
GType g_flags_register_static (const gchar *name, const GFlagsValue *v)
{ GType t = v_register(name, G_TYPE_FLAGS, NULL, NULL, NULL, NULL, FALSE); v_type(t)->kind = 3;
  GFlagsClass *k = (GFlagsClass *)malloc(sizeof(GFlagsClass)); k->g_type_class.g_type = t; k->values = (GFlagsValue *)v; k->n_values = 0; k->mask = 0; while (v[k->n_values].value_name) { k->mask |= v[k->n_values].value; k->n_values++; } v_type(t)->extra = k; return t; }
GEnumValue *g_enum_get_value (GEnumClass *k, gint v) { for (guint i = 0; i < k->n_values; i++) if (k->values[i].value == v) return &k->values[i]; return NULL; }
GEnumValue *g_enum_get_value_by_nick (GEnumClass *k, const gchar *n) { for (guint i = 0; i < k->n_values; i++) if (v_strcmp(k->values[i].value_nick, n) == 0) return &k->values[i]; return NULL; }
GEnumValue *g_enum_get_value_by_name (GEnumClass *k, const gchar *n) { for (guint i = 0; i < k->n_values; i++) if (v_strcmp(k->values[i].value_name, n) == 0) return &k->values[i]; return NULL; }
GFlagsValue *g_flags_get_value_by_nick (GFlagsClass *k, const gchar *n) { for (guint i = 0; i < k->n_values; i++) if (v_strcmp(k->values[i].value_nick, n) == 0) return &k->values[i]; return NULL; }
GFlagsValue *g_flags_get_value_by_name (GFlagsClass *k, const gchar *n) { for (guint i = 0; i < k->n_values; i++) if (v_strcmp(k->values[i].value_name, n) == 0) return &k->values[i]; return NULL; }
GFlagsValue *g_flags_get_first_value (GFlagsClass *k, guint v) { for (guint i = 0; i < k->n_values; i++) if (v ? ((k->values[i].value & v) == k->values[i].value && k->values[i].value) : !k->values[i].value) return &k->values[i]; return NULL; }

/* ------------------------------------------------------------ GBytes */
struct _GBytes { const guint8 *data; gsize size; int ref; gboolean own; };
GBytes *g_bytes_new_static (gconstpointer d, gsize n) { GBytes *b = (GBytes *)malloc(sizeof(GBytes)); b->data = d; b->size = n; b->ref = 1; b->own = FALSE; return b; }
GBytes *g_bytes_new (gconstpointer d, gsize n) { guint8 *c = (guint8 *)malloc(VGS_CAP); V_LIMIT(n <= VGS_CAP, "GBytes"); v_memcpy(c, d, n); GBytes *b = g_bytes_new_static(c, n); b->own = TRUE; return b; }
gconstpointer g_bytes_get_data (GBytes *b, gsize *n) { if (n) *n = b->size; return b->data; }
gsize g_bytes_get_size (GBytes *b) { return b->size; }
GBytes *g_bytes_ref (GBytes *b) { b->ref++; return b; }
void g_bytes_unref (GBytes *b) { if (b && --b->ref == 0) { if (b->own) free((gpointer)b->data); free(b); } }

/* ------------------------------------------------------------ GValue */
typedef struct { gpointer p; guint64 u; double d; } VSlot;
#define VS(v) ((VSlot *)(v)->data[0].v_pointer)
GValue *g_value_init (GValue *v, GType t) { VSlot *s = (VSlot *)malloc(sizeof(VSlot)); *s = (VSlot){0}; v->g_type = t; v->data[0].v_pointer = s; return v; }
void g_value_unset (GValue *v) { free(VS(v)); v->g_type = 0; v->data[0].v_pointer = NULL; }
void g_value_set_uint (GValue *v, guint x) { VS(v)->u = x; }
void g_value_set_int (GValue *v, gint x) { VS(v)->u = (guint64)(gint64)x; }
void g_value_set_enum (GValue *v, gint x) { VS(v)->u = (guint64)(gint64)x; }
void g_value_set_flags (GValue *v, guint x) { VS(v)->u = x; }
void g_value_set_boolean (GValue *v, gboolean x) { VS(v)->u = (guint64)(gint64)x; }
void g_value_set_uint64 (GValue *v, guint64 x) { VS(v)->u = x; }
void g_value_set_double (GValue *v, gdouble x) { VS(v)->d = x; }
void g_value_set_pointer (GValue *v, gpointer x) { VS(v)->p = x; }
void g_value_set_object (GValue *v, gpointer x) { VS(v)->p = x ? g_object_ref(x) : NULL; }
void g_value_set_boxed (GValue *v, gconstpointer x) { VS(v)->p = (gpointer)x; }
void g_value_set_string (GValue *v, const gchar *x) { VS(v)->p = g_strdup(x); }
void g_value_set_static_string (GValue *v, const gchar *x) { VS(v)->p = (gpointer)x; }
void g_value_take_string (GValue *v, gchar *x) { VS(v)->p = x; }
guint g_value_get_uint (const GValue *v) { return (guint)VS(v)->u; }
gint g_value_get_int (const GValue *v) { return (gint)VS(v)->u; }
gint g_value_get_enum (const GValue *v) { return (gint)VS(v)->u; }
guint g_value_get_flags (const GValue *v) { return (guint)VS(v)->u; }
gboolean g_value_get_boolean (const GValue *v) { return (gboolean)VS(v)->u; }
guint64 g_value_get_uint64 (const GValue *v) { return VS(v)->u; }
gdouble g_value_get_double (const GValue *v) { return VS(v)->d; }
gpointer g_value_get_pointer (const GValue *v) { return VS(v)->p; }
gpointer g_value_get_object (const GValue *v) { return VS(v)->p; }
gpointer g_value_get_boxed (const GValue *v) { return VS(v)->p; }
const gchar *g_value_get_string (const GValue *v) { return VS(v)->p; }
gchar *g_value_dup_string (const GValue *v) { return g_strdup(VS(v)->p); }
gpointer g_value_dup_object (const GValue *v) { return VS(v)->p ? g_object_ref(VS(v)->p) : NULL; }

enum { VK_P, VK_I, VK_L, VK_D, VK_NONE };
static int v_kind (GType t)
{
    switch (g_type_fundamental(t & ~(GType)G_SIGNAL_TYPE_STATIC_SCOPE)) {
    case G_TYPE_INT: case G_TYPE_UINT: case G_TYPE_BOOLEAN: case G_TYPE_ENUM: case G_TYPE_FLAGS: case G_TYPE_CHAR: case G_TYPE_UCHAR: return VK_I;
    case G_TYPE_INT64: case G_TYPE_UINT64: case G_TYPE_LONG: case G_TYPE_ULONG: return VK_L;
    case G_TYPE_DOUBLE: case G_TYPE_FLOAT: return VK_D;
    case G_TYPE_NONE: return VK_NONE;
    default: return VK_P;
    }
}

/* ------------------------------------------------------------ properties */
static GParamSpec *v_pspec (const gchar *name, GType t, GParamFlags f, VSlot def)
{
    GParamSpec *p = (GParamSpec *)malloc(sizeof(GParamSpec)); *p = (GParamSpec){0};
    p->name = name; p->value_type = t; p->flags = f; p->ref_count = 1;
    VSlot *s = (VSlot *)malloc(sizeof(VSlot)); *s = def; p->_nick = (gchar *)s; return p;
}
#define U(x) ((VSlot){NULL, (guint64)(gint64)(x), 0})
GParamSpec *g_param_spec_uint (const gchar *n, const gchar *a, const gchar *b, guint lo, guint hi, guint d, GParamFlags f) { return v_pspec(n, G_TYPE_UINT, f, U(d)); }
GParamSpec *g_param_spec_int (const gchar *n, const gchar *a, const gchar *b, gint lo, gint hi, gint d, GParamFlags f) { return v_pspec(n, G_TYPE_INT, f, U(d)); }
GParamSpec *g_param_spec_uint64 (const gchar *n, const gchar *a, const gchar *b, guint64 lo, guint64 hi, guint64 d, GParamFlags f) { return v_pspec(n, G_TYPE_UINT64, f, U(d)); }
GParamSpec *g_param_spec_boolean (const gchar *n, const gchar *a, const gchar *b, gboolean d, GParamFlags f) { return v_pspec(n, G_TYPE_BOOLEAN, f, U(d)); }
GParamSpec *g_param_spec_enum (const gchar *n, const gchar *a, const gchar *b, GType t, gint d, GParamFlags f) { return v_pspec(n, t, f, U(d)); }
GParamSpec *g_param_spec_flags (const gchar *n, const gchar *a, const gchar *b, GType t, guint d, GParamFlags f) { return v_pspec(n, t, f, U(d)); }
GParamSpec *g_param_spec_double (const gchar *n, const gchar *a, const gchar *b, gdouble lo, gdouble hi, gdouble d, GParamFlags f) { return v_pspec(n, G_TYPE_DOUBLE, f, (VSlot){NULL, 0, d}); }
GParamSpec *g_param_spec_string (const gchar *n, const gchar *a, const gchar *b, const gchar *d, GParamFlags f) { return v_pspec(n, G_TYPE_STRING, f, (VSlot){(gpointer)d, 0, 0}); }
GParamSpec *g_param_spec_pointer (const gchar *n, const gchar *a, const gchar *b, GParamFlags f) { return v_pspec(n, G_TYPE_POINTER, f, U(0)); }
GParamSpec *g_param_spec_object (const gchar *n, const gchar *a, const gchar *b, GType t, GParamFlags f) { return v_pspec(n, t, f, U(0)); }
GParamSpec *g_param_spec_boxed (const gchar *n, const gchar *a, const gchar *b, GType t, GParamFlags f) { return v_pspec(n, t, f, U(0)); }

void g_object_class_install_property (GObjectClass *k, guint id, GParamSpec *p)
{
    VType *y = v_type(k->g_type_class.g_type);
    VProp *r = (VProp *)malloc(sizeof(VProp));
    p->param_id = id; p->owner_type = k->g_type_class.g_type;
    r->hash = v_hash(p->name); r->p = p; r->next = NULL;
    if (!y->props) y->props = r; else { VProp *l = y->props; while (l->next) l = l->next; l->next = r; }
}
static GParamSpec *v_find_prop (GType t, const char *name)
{
    guint h = v_hash(name);
    for (; t >= VT0; t = v_type(t)->parent)
        for (VProp *r = v_type(t)->props; r; r = r->next) if (r->hash == h && v_find_prop_name(r->p->name, name)) return r->p;
    return NULL;
}
GParamSpec *g_object_class_find_property (GObjectClass *k, const gchar *n) { return v_find_prop(k->g_type_class.g_type, n); }
/* a macro: with CBMC a va_list is passed by value */
#define v_collect(v, t, ap) do { \
    GType ct_ = (t); g_value_init(v, ct_); \
    switch (v_kind(ct_)) { case VK_I: VS(v)->u = (guint64)(gint64)va_arg(ap, int); break; case VK_L: VS(v)->u = va_arg(ap, guint64); break; case VK_D: VS(v)->d = va_arg(ap, double); break; default: VS(v)->p = va_arg(ap, gpointer); break; } \
} while (0)
/* the validation of g_object_set: a value with unknown flags is not set */
static guint v_flags_mask (GType t) { GFlagsClass *k = v_type(t)->extra; return k->mask; }
static void v_set_prop (GObject *o, GParamSpec *p, GValue *v)
{ if (p->value_type >= VT0 && v_type(p->value_type)->kind == 3 && ((guint)VS(v)->u & ~v_flags_mask(p->value_type))) return;
  v_type(p->owner_type)->klass->set_property(o, p->param_id, v, p); }
#define VMAXCP 8
static GObject *v_default_constructor (GType t, guint n, GObjectConstructParam *cp)
{
    VType *y = v_type(t);
    GObject *o = y->alloc();
    VInst *in = (VInst *)malloc(sizeof(VInst)); *in = (VInst){0};
    in->type = t; o->qdata = (GData *)in; o->ref_count = 1; o->g_type_instance.g_class = (GTypeClass *)y->klass;
    GType chain[V_MAX_LEVEL]; int d = 0;
    for (GType a = t; a >= VT0; a = v_type(a)->parent) { V_LIMIT(d < V_MAX_LEVEL, "class depth"); chain[d++] = a; }
    for (int i = d; i > 0; i--) v_type(chain[i-1])->init(o);
    /* construct properties: given value or default; base class first */
    for (int i = d; i > 0; i--)
        for (VProp *r = v_type(chain[i-1])->props; r; r = r->next) {
            GParamSpec *p = r->p;
            if (!(p->flags & (G_PARAM_CONSTRUCT | G_PARAM_CONSTRUCT_ONLY))) continue;
            gboolean given = FALSE;
            for (guint j = 0; j < n; j++) if (cp[j].pspec == p) given = TRUE;
            if (!given) { GValue v = {0}; g_value_init(&v, p->value_type); *VS(&v) = *(VSlot *)p->_nick; v_set_prop(o, p, &v); g_value_unset(&v); }
        }
    for (guint j = 0; j < n; j++) v_set_prop(o, cp[j].pspec, cp[j].value);
    return o;
}
VInst *v_inst (gpointer o) { return (VInst *)((GObject *)o)->qdata; }
int v_level (GType t) { return v_type(t)->level; }
gpointer g_object_new_valist_ (GType t, const gchar *first, va_list ap)
{
    GObjectConstructParam cp[VMAXCP]; GValue vals[VMAXCP]; guint n = 0;
    const char *name = first;
    __CPROVER_assert(t >= VT0 && !v_type(t)->abstract_p, "instantiating an abstract type");
    while (name) {
        GParamSpec *p = v_find_prop(t, name);
        __CPROVER_assert(p != NULL, "g_object_new: unknown property");
        __CPROVER_assume(p != NULL);
        V_LIMIT(n < VMAXCP, "constructor properties");
        vals[n] = (GValue){0}; v_collect(&vals[n], p->value_type, ap);
        cp[n].pspec = p; cp[n].value = &vals[n]; n++;
        name = va_arg(ap, const char *);
    }
    GObjectClass *k = v_type(t)->klass;
    GObject *o = k->constructor(t, n, cp);
    if (k->constructed) k->constructed(o);
    return o;
}
GObject *g_object_new_valist (GType t, const gchar *first, va_list ap) { return g_object_new_valist_(t, first, ap); }
gpointer g_object_new (GType t, const gchar *first, ...)
{ va_list ap; va_start(ap, first); gpointer r = g_object_new_valist_(t, first, ap); va_end(ap); return r; }
void g_object_set (gpointer o, const gchar *first, ...)
{
    va_list ap; va_start(ap, first);
    for (const char *n = first; n; n = va_arg(ap, const char *)) {
        GParamSpec *p = v_find_prop(v_inst(o)->type, n); __CPROVER_assert(p != NULL, "g_object_set: unknown property"); __CPROVER_assume(p != NULL);
        GValue v = {0}; v_collect(&v, p->value_type, ap); v_set_prop(o, p, &v); g_value_unset(&v);
    }
    va_end(ap);
}
void g_object_set_property (GObject *o, const gchar *n, const GValue *v) { GParamSpec *p = v_find_prop(v_inst(o)->type, n); GValue w = *v; v_set_prop(o, p, &w); }
void g_object_get_property (GObject *o, const gchar *n, GValue *v) { GParamSpec *p = v_find_prop(v_inst(o)->type, n); v_type(p->owner_type)->klass->get_property(o, p->param_id, v, p); }
void g_object_get (gpointer o, const gchar *first, ...)
{
    va_list ap; va_start(ap, first);
    for (const char *n = first; n; n = va_arg(ap, const char *)) {
        GParamSpec *p = v_find_prop(v_inst(o)->type, n); __CPROVER_assert(p != NULL, "g_object_get: unknown property"); __CPROVER_assume(p != NULL);
        GValue v = {0}; g_value_init(&v, p->value_type); v_type(p->owner_type)->klass->get_property(o, p->param_id, &v, p);
        switch (v_kind(p->value_type)) { case VK_I: *va_arg(ap, int *) = (int)VS(&v)->u; break; case VK_L: *va_arg(ap, guint64 *) = VS(&v)->u; break; case VK_D: *va_arg(ap, double *) = VS(&v)->d; break; default: *va_arg(ap, gpointer *) = VS(&v)->p; break; }
        g_value_unset(&v);
    }
    va_end(ap);
}
gpointer g_object_ref (gpointer o) { if (!o) { v_critical(); return NULL; } ((GObject *)o)->ref_count++; return o; }
gpointer g_object_ref_sink (gpointer o) { return g_object_ref(o); }
int v_objects_freed;
void g_object_unref (gpointer p)
{ if (!p) { v_critical(); return; }
    GObject *o = p;
    __CPROVER_assert(o->ref_count > 0, "g_object_unref on a dead object");
    if (o->ref_count > 1) { o->ref_count--; return; }
    GObjectClass *k = (GObjectClass *)o->g_type_instance.g_class;
    k->dispose(o);
    if (o->ref_count > 1) { o->ref_count--; return; }
    o->ref_count = 0;
    VInst *in = v_inst(o);
    for (VData *d = in->data; d; d = d->next) if (d->destroy && d->data) d->destroy(d->data);
    k->finalize(o);
    v_objects_freed++;
    free(o);
}
void g_object_set_data_full (GObject *o, const gchar *key, gpointer data, GDestroyNotify f)
{ if (!o) { v_critical(); return; }
    VInst *in = v_inst(o);
    for (VData *d = in->data; d; d = d->next) if (v_strcmp(d->key, key) == 0) { if (d->destroy && d->data) d->destroy(d->data); d->data = data; d->destroy = f; return; }
    VData *d = (VData *)malloc(sizeof(VData)); d->key = key; d->data = data; d->destroy = f; d->next = in->data; in->data = d;
}
void g_object_set_data (GObject *o, const gchar *key, gpointer data) { g_object_set_data_full(o, key, data, NULL); }
gpointer g_object_get_data (GObject *o, const gchar *key) { if (!o) { v_critical(); return NULL; } for (VData *d = v_inst(o)->data; d; d = d->next) if (v_strcmp(d->key, key) == 0) return d->data; return NULL; }
void g_object_notify (GObject *o, const gchar *n) {}
void g_object_freeze_notify (GObject *o) {}
void g_object_thaw_notify (GObject *o) {}

/* ------------------------------------------------------------ signals */
static VTab vsig;
guint g_signal_new (const gchar *name, GType t, GSignalFlags flags, guint off, GSignalAccumulator acc, gpointer accd, GSignalCMarshaller m, GType ret, guint np, ...)
{
    VType *y = v_type(t);
    VSig *s = (VSig *)malloc(sizeof(VSig)); *s = (VSig){0};
    s->name = name; s->hash = v_hash(name); s->owner = t; s->offset = off; s->np = np; s->ret = ret; s->flags = flags; s->acc = acc; s->acc_data = accd;
    va_list ap; va_start(ap, np); for (guint j = 0; j < np; j++) s->pt[j] = va_arg(ap, GType); va_end(ap);
    v_tab_add(&vsig, s); s->id = vsig.n;
    s->next = y->sigs; y->sigs = s;
    return s->id;
}
static guint v_sig_of (VType *y, const char *name, guint h)
{ for (VSig *s = y->sigs; s; s = s->next) if (s->hash == h && v_find_prop_name(s->name, name)) return s->id; return 0; }
static guint v_sig_lookup (const char *name, GType t)
{
    guint h = v_hash(name), id;
    for (; t >= VT0; t = v_type(t)->parent) {
        VType *y = v_type(t);
        if ((id = v_sig_of(y, name, h))) return id;
        for (int i = 0; i < y->n_ifaces; i++) if ((id = v_sig_of(v_type(y->ifaces[i].iface), name, h))) return id;
    }
    return 0;
}
guint g_signal_lookup (const gchar *name, GType t) { return v_sig_lookup(name, t); }
static gulong v_next_handler;
gulong g_signal_connect_data (gpointer o, const gchar *name, GCallback cb, gpointer data, GClosureNotify d, GConnectFlags f)
{
    guint s = v_sig_lookup(name, v_inst(o)->type);
    __CPROVER_assert(s != 0, "connecting to an unknown signal");
    VHandler *h = (VHandler *)malloc(sizeof(VHandler)); *h = (VHandler){0};
    h->id = ++v_next_handler; h->signal = s; h->cb = cb; h->data = data; h->destroy = d; h->swapped = (f & G_CONNECT_SWAPPED) != 0; h->after = (f & G_CONNECT_AFTER) != 0;
    VInst *in = v_inst(o);
    if (!in->handlers) in->handlers = h; else { VHandler *t = in->handlers; while (t->next) t = t->next; t->next = h; }
    return h->id;
}
void g_signal_handler_disconnect (gpointer o, gulong id) { for (VHandler *h = v_inst(o)->handlers; h; h = h->next) if (h->id == id) { h->dead = TRUE; return; } v_critical(); }
gboolean g_signal_handler_is_connected (gpointer o, gulong id) { for (VHandler *h = v_inst(o)->handlers; h; h = h->next) if (h->id == id && !h->dead) return TRUE; return FALSE; }
void g_signal_handler_block (gpointer o, gulong id) { for (VHandler *h = v_inst(o)->handlers; h; h = h->next) if (h->id == id) h->blocked = TRUE; }
void g_signal_handler_unblock (gpointer o, gulong id) { for (VHandler *h = v_inst(o)->handlers; h; h = h->next) if (h->id == id) h->blocked = FALSE; }
guint g_signal_handlers_disconnect_matched (gpointer o, GSignalMatchType m, guint s, GQuark q, GClosure *c, gpointer func, gpointer data)
{
    guint n = 0;
    for (VHandler *h = v_inst(o)->handlers; h; h = h->next) {
        if (h->dead) continue;
        if ((m & G_SIGNAL_MATCH_FUNC) && (gpointer)h->cb != func) continue;
        if ((m & G_SIGNAL_MATCH_DATA) && h->data != data) continue;
        if ((m & G_SIGNAL_MATCH_ID) && h->signal != s) continue;
        h->dead = TRUE; n++;
    }
    return n;
}

/* invoking a handler: f(instance, args..., data), by argument shape.  Shapes
 * occurring in the code base are listed; P pointer, I 32-bit, L 64-bit. */
#define P0 (a[0].p)
#define P1 (a[1].p)
#define P2 (a[2].p)
#define I0 ((guint)a[0].u)
#define I1 ((guint)a[1].u)
#define I2 ((guint)a[2].u)
typedef gpointer gp;
#ifndef V_SHAPES_EXTRA
#define V_SHAPES_EXTRA
#endif
#define SH(n,a0,a1,a2) ((n) | (a0) << 4 | (a1) << 8 | (a2) << 12)
/* the class closure gets no user data argument */
#define SHAPES(R, S) \
        case SH(0,0,0,0):          if (d) S ((R (*)(gp, gp))f)(o, data); else S ((R (*)(gp))f)(o); break; \
        case SH(1,VK_P,0,0):       if (d) S ((R (*)(gp, gp, gp))f)(o, P0, data); else S ((R (*)(gp, gp))f)(o, P0); break; \
        case SH(1,VK_I,0,0):       if (d) S ((R (*)(gp, guint, gp))f)(o, I0, data); else S ((R (*)(gp, guint))f)(o, I0); break; \
        case SH(2,VK_P,VK_P,0):    if (d) S ((R (*)(gp, gp, gp, gp))f)(o, P0, P1, data); else S ((R (*)(gp, gp, gp))f)(o, P0, P1); break; \
        case SH(2,VK_P,VK_I,0):    if (d) S ((R (*)(gp, gp, guint, gp))f)(o, P0, I1, data); else S ((R (*)(gp, gp, guint))f)(o, P0, I1); break; \
        case SH(2,VK_P,VK_L,0):    if (d) S ((R (*)(gp, gp, guint64, gp))f)(o, P0, a[1].u, data); else S ((R (*)(gp, gp, guint64))f)(o, P0, a[1].u); break; \
        case SH(2,VK_I,VK_P,0):    if (d) S ((R (*)(gp, guint, gp, gp))f)(o, I0, P1, data); else S ((R (*)(gp, guint, gp))f)(o, I0, P1); break; \
        case SH(3,VK_P,VK_P,VK_I): if (d) S ((R (*)(gp, gp, gp, guint, gp))f)(o, P0, P1, I2, data); else S ((R (*)(gp, gp, gp, guint))f)(o, P0, P1, I2); break; \
        case SH(3,VK_P,VK_I,VK_P): if (d) S ((R (*)(gp, gp, guint, gp, gp))f)(o, P0, I1, P2, data); else S ((R (*)(gp, gp, guint, gp))f)(o, P0, I1, P2); break; \
        case SH(3,VK_I,VK_P,VK_P): if (d) S ((R (*)(gp, guint, gp, gp, gp))f)(o, I0, P1, P2, data); else S ((R (*)(gp, guint, gp, gp))f)(o, I0, P1, P2); break;
static void v_invoke (GCallback f, gp o, gboolean d, gp data, int shape, int rk, VSlot *a, VSlot *ret)
{
    if (rk == VK_NONE) {
        switch (shape) {
        SHAPES(void, )
        V_SHAPES_EXTRA
        default: V_BOUND(0, "unsupported signal signature"); break;
        }
    } else {
        V_BOUND(rk == VK_I, "unsupported signal return type");
        switch (shape) {
        SHAPES(gint, ret->u = (guint64)(gint64))
        default: V_BOUND(0, "unsupported signal signature"); break;
        }
    }
}
static void v_after_call (VSig *s, int rk, VSlot *r, VSlot *acc, gboolean *stop)
{
    if (rk == VK_NONE) return;
    if (s->acc) {
        GValue ra = {0}, rv = {0};
        g_value_init(&ra, s->ret); g_value_init(&rv, s->ret); *VS(&ra) = *acc; *VS(&rv) = *r;
        GSignalInvocationHint hint = {0};
        if (!s->acc(&hint, &ra, &rv, s->acc_data)) *stop = TRUE;
        *acc = *VS(&ra);
    } else *acc = *r;
}
static void v_emit (gpointer o, guint id, va_list ap)
{
    VSig *s = v_tab_get(&vsig, id - 1);
    VInst *in = v_inst(o);
    VSlot a[7]; int shape = s->np; gboolean stop = FALSE;
    for (guint i = 0; i < s->np; i++) {
        int k = v_kind(s->pt[i]);
        a[i] = (VSlot){0};
        switch (k) { case VK_I: a[i].u = (guint64)(gint64)va_arg(ap, int); break; case VK_L: a[i].u = va_arg(ap, guint64); break; case VK_D: a[i].d = va_arg(ap, double); break; default: a[i].p = va_arg(ap, gpointer); break; }
        /* strings are collected as copies unless declared STATIC_SCOPE */
        if (s->pt[i] == G_TYPE_STRING) a[i].p = g_strdup(a[i].p);
        shape |= k << (4 * (i + 1));
    }
    int rk = v_kind(s->ret);
    gpointer rloc = NULL; VSlot acc = (VSlot){0};
    if (rk != VK_NONE) rloc = va_arg(ap, gpointer);
    GCallback klass = NULL;
    if (s->offset) {
        gpointer base = v_type(s->owner)->kind == 1 ? v_iface_vtable(in->type, s->owner) : (gpointer)v_type(in->type)->klass;
        if (base) klass = *(GCallback *)((char *)base + s->offset);
    }
    g_object_ref(o);
    gulong last = v_next_handler;        /* handlers connected during emission do not run */
    if ((s->flags & G_SIGNAL_RUN_FIRST) && klass) { VSlot r = (VSlot){0}; v_invoke(klass, o, FALSE, NULL, shape, rk, a, &r); v_after_call(s, rk, &r, &acc, &stop); }
    for (VHandler *h = in->handlers; h && !stop; h = h->next)
        if (h->signal == id && !h->after && !h->dead && !h->blocked && h->id <= last) {
            VSlot r = (VSlot){0};
            if (h->swapped) v_invoke(h->cb, h->data, TRUE, o, shape, rk, a, &r); else v_invoke(h->cb, o, TRUE, h->data, shape, rk, a, &r);
            v_after_call(s, rk, &r, &acc, &stop);
        }
    if (!stop && (s->flags & G_SIGNAL_RUN_LAST) && klass) { VSlot r = (VSlot){0}; v_invoke(klass, o, FALSE, NULL, shape, rk, a, &r); v_after_call(s, rk, &r, &acc, &stop); }
    for (VHandler *h = in->handlers; h && !stop; h = h->next)
        if (h->signal == id && h->after && !h->dead && !h->blocked && h->id <= last) {
            VSlot r = (VSlot){0};
            v_invoke(h->cb, o, TRUE, h->data, shape, rk, a, &r); v_after_call(s, rk, &r, &acc, &stop);
        }
    if (rloc) *(gint *)rloc = (gint)acc.u;
    for (guint i = 0; i < s->np; i++) if (s->pt[i] == G_TYPE_STRING) g_free(a[i].p);
    g_object_unref(o);
}
void g_signal_emit (gpointer o, guint id, GQuark detail, ...) { if (!o) { v_critical(); return; } va_list ap; va_start(ap, detail); v_emit(o, id, ap); va_end(ap); }
void g_signal_emit_by_name (gpointer o, const gchar *name, ...)
{ guint id = v_sig_lookup(name, v_inst(o)->type); __CPROVER_assert(id != 0, "emitting an unknown signal"); __CPROVER_assume(id != 0); va_list ap; va_start(ap, name); v_emit(o, id, ap); va_end(ap); }
gboolean g_signal_has_handler_pending (gpointer o, guint id, GQuark d, gboolean may_be_blocked)
{ for (VHandler *h = v_inst(o)->handlers; h; h = h->next) if (h->signal == id && !h->dead && (may_be_blocked || !h->blocked)) return TRUE; return FALSE; }

/* ------------------------------------------------------------ GIOChannel */
void g_io_channel_init (GIOChannel *c) { c->ref_count = 1; c->is_readable = c->is_writeable = TRUE; c->close_on_unref = FALSE; }
GIOChannel *g_io_channel_ref (GIOChannel *c) { c->ref_count++; return c; }
void g_io_channel_unref (GIOChannel *c) { if (--c->ref_count == 0) c->funcs->io_free(c); }
GIOStatus g_io_channel_set_encoding (GIOChannel *c, const gchar *e, GError **err) { return G_IO_STATUS_NORMAL; }
void g_io_channel_set_buffered (GIOChannel *c, gboolean b) {}
gboolean g_io_channel_get_buffered (GIOChannel *c) { return FALSE; }
void g_io_channel_set_close_on_unref (GIOChannel *c, gboolean b) {}
GIOFlags g_io_channel_get_flags (GIOChannel *c) { return 0; }
GIOStatus g_io_channel_set_flags (GIOChannel *c, GIOFlags f, GError **e) { return G_IO_STATUS_NORMAL; }
GIOCondition g_io_channel_get_buffer_condition (GIOChannel *c) { return 0; }
GIOStatus g_io_channel_read_chars (GIOChannel *c, gchar *b, gsize n, gsize *r, GError **e) { return c->funcs->io_read(c, b, n, r, e); }
GIOStatus g_io_channel_write_chars (GIOChannel *c, const gchar *b, gssize n, gsize *w, GError **e) { gsize cnt = n < 0 ? v_strlen(b) : (gsize)n; return c->funcs->io_write(c, b, cnt, w, e); }
GIOStatus g_io_channel_flush (GIOChannel *c, GError **e) { return G_IO_STATUS_NORMAL; }
GIOStatus g_io_channel_shutdown (GIOChannel *c, gboolean f, GError **e) { return c->funcs->io_close(c, e); }
GIOStatus g_io_channel_seek_position (GIOChannel *c, gint64 o, GSeekType t, GError **e) { return c->funcs->io_seek ? c->funcs->io_seek(c, o, t, e) : G_IO_STATUS_NORMAL; }

/* ------------------------------------------------------------ misc */
struct _GTimer { int dummy; };
GTimer *g_timer_new (void) { return (GTimer *)malloc(sizeof(GTimer)); }
void g_timer_destroy (GTimer *t) { free(t); }
void g_timer_start (GTimer *t) {}
void g_timer_stop (GTimer *t) {}
void g_timer_continue (GTimer *t) {}
void g_timer_reset (GTimer *t) {}
gdouble g_timer_elapsed (GTimer *t, gulong *u) { return 0.0; }
const gchar *g_getenv (const gchar *n) { return NULL; }
void g_get_current_time (GTimeVal *t) { t->tv_sec = 0; t->tv_usec = 0; }
void g_usleep (gulong n) {}
void g_dataset_id_set_data_full (gconstpointer d, GQuark k, gpointer v, GDestroyNotify f) {}
void g_mutex_init (GMutex *m) {}
void g_mutex_clear (GMutex *m) {}
void g_mutex_lock (GMutex *m) {}
void g_mutex_unlock (GMutex *m) {}
const gchar *g_intern_static_string (const gchar *s) { return s; } const gchar *g_intern_string (const gchar *s) { return s; }
const struct in6_addr in6addr_any = {{{0}}};
