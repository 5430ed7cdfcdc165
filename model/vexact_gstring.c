/* Native build only: GString with exactly sized buffers, so that ASan sees
 * every access behind the end of the string.  Interposes GLib's functions for
 * the code of /repo linked into the same executable. */
#define GLIB_DISABLE_DEPRECATION_WARNINGS
#include <glib.h>
#include <stdarg.h>
#include <stdio.h>
#include <glib/gprintf.h>
#include <stdlib.h>
#include <string.h>
#undef g_string_append
#undef g_string_append_c
#undef g_string_append_len
#undef g_string_truncate
#undef g_string_free
#undef g_string_new
static GString *resize (GString *s, gsize len)
{
    char *n = malloc(len + 1);
    gsize k = s->len < len ? s->len : len;
    if (s->str) memcpy(n, s->str, k);
    n[len] = 0;
    free(s->str);
    s->str = n; s->len = len; s->allocated_len = len + 1;
    return s;
}
GString *g_string_sized_new (gsize n) { return resize(calloc(1, sizeof(GString)), 0); }
GString *g_string_insert_len (GString *s, gssize pos, const gchar *v, gssize len)
{
    gsize n = len < 0 ? strlen(v) : (gsize)len, p = pos < 0 ? s->len : (gsize)pos, old = s->len;
    if (!n) return s;
    char *c = malloc(n); memcpy(c, v, n);
    resize(s, old + n);
    memmove(s->str + p + n, s->str + p, old - p);
    memcpy(s->str + p, c, n); free(c);
    return s;
}
GString *g_string_new (const gchar *v) { GString *s = g_string_sized_new(0); return v ? g_string_insert_len(s, -1, v, -1) : s; }
GString *g_string_new_len (const gchar *v, gssize len) { if (len < 0) return g_string_new(v); GString *s = g_string_sized_new(0); return v ? g_string_insert_len(s, -1, v, len) : s; }
GString *g_string_append (GString *s, const gchar *v) { return g_string_insert_len(s, -1, v, -1); }
GString *g_string_append_len (GString *s, const gchar *v, gssize n) { return g_string_insert_len(s, -1, v, n); }
GString *g_string_append_c (GString *s, gchar c) { return g_string_insert_len(s, -1, &c, 1); }
GString *g_string_insert_c (GString *s, gssize pos, gchar c) { return g_string_insert_len(s, pos, &c, 1); }
GString *g_string_insert (GString *s, gssize pos, const gchar *v) { return g_string_insert_len(s, pos, v, -1); }
GString *g_string_prepend (GString *s, const gchar *v) { return g_string_insert_len(s, 0, v, -1); }
GString *g_string_prepend_c (GString *s, gchar c) { return g_string_insert_len(s, 0, &c, 1); }
GString *g_string_prepend_len (GString *s, const gchar *v, gssize n) { return g_string_insert_len(s, 0, v, n); }
GString *g_string_truncate (GString *s, gsize n) { return resize(s, n < s->len ? n : s->len); }
GString *g_string_set_size (GString *s, gsize n) { return resize(s, n); }
GString *g_string_assign (GString *s, const gchar *v) { if (v == s->str) return s; resize(s, 0); return g_string_append(s, v); }
GString *g_string_erase (GString *s, gssize pos, gssize len)
{
    if (pos < 0 || (gsize)pos > s->len || (len >= 0 && (gsize)pos + len > s->len)) { fprintf(stderr, "AddressSanitizer: g_string_erase out of range\n"); fflush(stderr); _Exit(99); }
    gsize n = len < 0 ? s->len - pos : (gsize)len;
    memmove(s->str + pos, s->str + pos + n, s->len - pos - n);
    return resize(s, s->len - n);
}
gchar *g_string_free (GString *s, gboolean seg)
{ gchar *r = NULL; if (!s) return NULL; if (seg) free(s->str); else r = s->str; free(s); return r; }
gchar *(g_string_free_and_steal) (GString *s) { return g_string_free(s, FALSE); }
void g_string_append_vprintf (GString *s, const gchar *f, va_list ap)
{ char *b = NULL; int n = g_vasprintf(&b, f, ap); if (n > 0) g_string_insert_len(s, -1, b, n); g_free(b); }
void g_string_vprintf (GString *s, const gchar *f, va_list ap) { resize(s, 0); g_string_append_vprintf(s, f, ap); }
void g_string_append_printf (GString *s, const gchar *f, ...) { va_list ap; va_start(ap, f); g_string_append_vprintf(s, f, ap); va_end(ap); }
void g_string_printf (GString *s, const gchar *f, ...) { va_list ap; va_start(ap, f); g_string_vprintf(s, f, ap); va_end(ap); }
