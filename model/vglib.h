/* Force-included before every translation unit of /repo that is compiled with
 * goto-cc.  It pulls in the real GLib/GObject headers and then replaces the
 * macros that would drag in GLib internals with calls into the model of GLib
 * in vglib.c.  Only declarations live here. */
#ifndef VGLIB_H
#define VGLIB_H

#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <ctype.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <glib.h>
#include <glib-object.h>

#ifndef VSTR_CAP
#define VSTR_CAP 40
#endif
#ifndef VGS_CAP
#define VGS_CAP 64
#endif
#ifndef VHT_CAP
#define VHT_CAP 10
#endif

/* ---- plain C replacements ------------------------------------------------ */
gsize  v_strlen (const char *s);
int    v_strcmp (const char *a, const char *b);
int    v_strncmp (const char *a, const char *b, gsize n);
void  *v_memcpy (void *d, const void *s, gsize n);
void  *v_memmove (void *d, const void *s, gsize n);
char  *v_strchr (const char *s, int c);
char  *v_strrchr (const char *s, int c);
void  *v_memchr (const void *s, int c, gsize n);
char  *v_strstr (const char *s, const char *n);
char  *v_strcpy (char *d, const char *s);
char  *v_strncpy (char *d, const char *s, gsize n);
int    v_memcmp (const void *a, const void *b, gsize n);
int    v_atoi (const char *s);
long   v_strtol (const char *s, char **end, int base);
unsigned long v_strtoul (const char *s, char **end, int base);
int    v_inet_pton (int af, const char *s, void *dst);
const char *v_inet_ntop (int af, const void *src, char *dst, unsigned n);
guint32 v_bswap32 (guint32 x);
guint16 v_bswap16 (guint16 x);
#undef strlen
#undef strcmp
#undef strncmp
#undef memcmp
#undef strchr
#undef strrchr
#undef memchr
#undef strstr
#undef strcpy
#undef strncpy
#undef atoi
#undef strtol
#undef strtoul
#define strlen(s) v_strlen(s)
#define strcmp(a,b) v_strcmp(a,b)
#define strncmp(a,b,n) v_strncmp(a,b,n)
#define memcmp(a,b,n) v_memcmp(a,b,n)
#define strchr(s,c) v_strchr(s,c)
#define strrchr(s,c) v_strrchr(s,c)
#define memchr(s,c,n) v_memchr(s,c,n)
#define strstr(s,n) v_strstr(s,n)
#define strcpy(d,s) v_strcpy(d,s)
#define strncpy(d,s,n) v_strncpy(d,s,n)
#define atoi(s) v_atoi(s)
#define strtol(s,e,b) v_strtol(s,e,b)
#define strtoul(s,e,b) v_strtoul(s,e,b)
#define V_STRUCT_COPY_MAX 64
#undef memcpy
#undef memmove
#define memcpy(d,s,n) v_memcpy(d,s,n)
#define memmove(d,s,n) v_memmove(d,s,n)

#include <arpa/inet.h>
#include <netinet/in.h>
#define inet_pton(a,s,d) v_inet_pton(a,s,d)
#define inet_ntop(a,s,d,n) v_inet_ntop(a,s,d,n)
#undef g_htonl
#undef g_ntohl
#undef g_htons
#undef g_ntohs
#undef htonl
#undef ntohl
#undef htons
#undef ntohs
#define g_htonl(x) v_bswap32(x)
#define g_ntohl(x) v_bswap32(x)
#define g_htons(x) v_bswap16(x)
#define g_ntohs(x) v_bswap16(x)
#define htonl(x) v_bswap32(x)
#define ntohl(x) v_bswap32(x)
#define htons(x) v_bswap16(x)
#define ntohs(x) v_bswap16(x)
#undef GUINT32_TO_BE
#undef GUINT32_FROM_BE
#define GUINT32_TO_BE(x) v_bswap32(x)
#define GUINT32_FROM_BE(x) v_bswap32(x)

/* ---- GLib macros that hide functions ------------------------------------- */
#undef g_free
#undef g_strdup
#undef g_str_equal
#undef g_str_has_prefix
#undef g_str_has_suffix
#undef g_string_append
#undef g_string_append_c
#undef g_string_append_len
#undef g_string_truncate
#undef g_string_free
#undef g_object_ref
#undef g_object_ref_sink
#undef g_clear_object
#undef g_new
#undef g_new0
#undef g_renew
#undef g_memdup
#undef g_slice_new
#undef g_slice_new0
#undef g_slice_free
#undef g_slice_dup
#undef g_return_if_fail
#undef g_return_val_if_fail
#undef g_return_if_reached
#undef g_return_val_if_reached
#undef g_assert
#undef g_assert_not_reached
#undef g_warning
#undef g_critical
#undef g_message
#undef g_error
#undef g_debug
#undef G_OBJECT_WARN_INVALID_PROPERTY_ID
#undef g_set_object
#undef g_clear_pointer
#undef g_type_is_a

#define g_new(T,n)  ((T *)malloc(sizeof(T) * (n)))
#define g_new0(T,n) ({ gsize v_n_ = (n); T *v_p_ = (T *)malloc(sizeof(T) * v_n_); \
                       for (gsize v_i_ = 0; v_i_ < v_n_; v_i_++) v_p_[v_i_] = (T){0}; v_p_; })
#define g_slice_new(T)  ((T *)malloc(sizeof(T)))
#define g_slice_new0(T) g_new0(T, 1)
#define g_slice_free(T,p) do { T *v_p_ = (p); if (v_p_) free(v_p_); } while (0)
#define g_slice_dup(T,p) ({ const T *v_s_ = (p); T *v_d_ = (T *)malloc(sizeof(T)); *v_d_ = *v_s_; v_d_; })
#define g_clear_object(pp) do { if (*(pp)) { gpointer v_o_ = *(pp); *(pp) = NULL; g_object_unref(v_o_); } } while (0)
#define g_clear_pointer(pp, f) do { if (*(pp)) { __typeof__(*(pp)) v_o_ = *(pp); *(pp) = NULL; (f)(v_o_); } } while (0)
void v_critical (void);
#define g_return_if_fail(e)        do { if (!(e)) { v_critical(); return; } } while (0)
#define g_return_val_if_fail(e,v)  do { if (!(e)) { v_critical(); return (v); } } while (0)
#define g_return_if_reached()      do { v_critical(); return; } while (0)
#define g_return_val_if_reached(v) do { v_critical(); return (v); } while (0)
#define g_assert(e)                __CPROVER_assert((e), "g_assert")
#define g_assert_not_reached()     __CPROVER_assert(0, "g_assert_not_reached")
#define g_warning(...)  ((void)0)
#define g_critical(...) ((void)0)
#define g_message(...)  ((void)0)
#define g_error(...)    __CPROVER_assert(0, "g_error")
#define g_debug(...)    ((void)0)
#define G_OBJECT_WARN_INVALID_PROPERTY_ID(o,p,s) v_critical()
void     g_free (gpointer p);
gboolean g_type_is_a (GType t, GType is);
gchar   *g_strdup (const gchar *s);
gboolean g_str_equal (gconstpointer a, gconstpointer b);
gboolean g_str_has_prefix (const gchar *s, const gchar *p);
gboolean g_str_has_suffix (const gchar *s, const gchar *p);
GString *g_string_append (GString *s, const gchar *v);
GString *v_g_string_append_c (GString *s, gchar c);
GString *g_string_append_len (GString *s, const gchar *v, gssize len);
GString *v_g_string_truncate (GString *s, gsize len);
gchar   *g_string_free (GString *s, gboolean free_segment);
#define g_string_append_c(s,c) v_g_string_append_c(s,c)
#define g_string_truncate(s,n) v_g_string_truncate(s,n)
gpointer g_object_ref (gpointer o);

#undef g_ascii_isalnum
#undef g_ascii_isalpha
#undef g_ascii_iscntrl
#undef g_ascii_isdigit
#undef g_ascii_isgraph
#undef g_ascii_islower
#undef g_ascii_isprint
#undef g_ascii_ispunct
#undef g_ascii_isspace
#undef g_ascii_isupper
#undef g_ascii_isxdigit
static inline gboolean v_in(unsigned char c, int lo, int hi) { return c >= lo && c <= hi; }
#define g_ascii_isdigit(c) v_in((c), '0', '9')
#define g_ascii_isupper(c) v_in((c), 'A', 'Z')
#define g_ascii_islower(c) v_in((c), 'a', 'z')
#define g_ascii_isalpha(c) (g_ascii_isupper(c) || g_ascii_islower(c))
#define g_ascii_isalnum(c) (g_ascii_isalpha(c) || g_ascii_isdigit(c))
#define g_ascii_isgraph(c) v_in((c), 0x21, 0x7e)
#define g_ascii_isprint(c) v_in((c), 0x20, 0x7e)
#define g_ascii_iscntrl(c) (v_in((c), 0, 0x1f) || (unsigned char)(c) == 0x7f)
#define g_ascii_isspace(c) ((unsigned char)(c) == ' ' || v_in((c), 0x9, 0xa) || v_in((c), 0xc, 0xd))
#define g_ascii_isxdigit(c) (g_ascii_isdigit(c) || v_in((c),'a','f') || v_in((c),'A','F'))
#undef isspace
#undef isdigit
#undef isalpha
#undef isalnum
#define isspace(c) (g_ascii_isspace(c) || (c) == 0xb)
#define isdigit(c) g_ascii_isdigit(c)
#define isalpha(c) g_ascii_isalpha(c)
#define isalnum(c) g_ascii_isalnum(c)

/* ---- GType --------------------------------------------------------------- */
#define V_MAX_LEVEL 6
#define V_MAX_IFACE 4
typedef struct { GType iface; gpointer vtable; } VIface;
typedef struct VType_ {
    const char *name;
    GType parent;
    int level;                       /* 0 for GObject */
    GObjectClass *klass;             /* class structure */
    gpointer (*alloc) (void);
    void (*init) (gpointer self);
    void (*class_init) (gpointer klass);
    int n_ifaces;
    VIface ifaces[V_MAX_IFACE];
    gboolean abstract_p;
    int kind;                        /* 0 object 1 interface 2 enum 3 flags 4 boxed */
    gpointer extra;                  /* enum values / boxed copy */
    gpointer extra2;                 /* boxed free */
    guint n_values;
    struct VSig_ *sigs;              /* signals of this type */
    struct VProp_ *props;            /* properties of this type */
} VType;
typedef struct VSig_ { const char *name; guint hash; GType owner; guint id; guint offset; guint np; GType pt[7]; GType ret; GSignalFlags flags; GSignalAccumulator acc; gpointer acc_data; struct VSig_ *next; } VSig;
typedef struct VProp_ { guint hash; GParamSpec *p; struct VProp_ *next; } VProp;

typedef struct VHandler_ {
    gulong id; guint signal; GCallback cb; gpointer data; GClosureNotify destroy;
    gboolean swapped, after, blocked, dead;
    struct VHandler_ *next;
} VHandler;
typedef struct VData_ { const char *key; gpointer data; GDestroyNotify destroy; struct VData_ *next; } VData;
typedef struct { GType type; gpointer priv[V_MAX_LEVEL]; VHandler *handlers; VData *data; } VInst;

VInst   *v_inst (gpointer instance);
int      v_level (GType t);
gboolean v_is_a (gpointer instance, GType t);
GType    v_register (const char *name, GType parent, gpointer klass,
                     gpointer (*alloc)(void), void (*init)(gpointer),
                     void (*class_init)(gpointer), gboolean abstract_p);
void     v_add_iface (GType t, GType iface, gpointer vtable);
void     v_class_setup (GType t);

#undef G_TYPE_INSTANCE_GET_PRIVATE
#define G_TYPE_INSTANCE_GET_PRIVATE(instance, g_type, c_type) \
  ({ gpointer *v_pp_ = &v_inst((gpointer)(instance))->priv[v_level(g_type)]; \
     if (!*v_pp_) { c_type *v_np_ = (c_type *)malloc(sizeof(c_type)); \
                    *v_np_ = (c_type){0}; *v_pp_ = v_np_; } \
     (c_type *)*v_pp_; })

#undef G_TYPE_CHECK_INSTANCE_TYPE
#define G_TYPE_CHECK_INSTANCE_TYPE(instance, g_type) v_is_a((gpointer)(instance), g_type)
#undef G_TYPE_INSTANCE_GET_INTERFACE
#define G_TYPE_INSTANCE_GET_INTERFACE(instance, g_type, c_type) \
  ((c_type *)g_type_interface_peek(((GTypeInstance *)(instance))->g_class, (g_type)))

#undef G_DEFINE_TYPE
#undef G_DEFINE_TYPE_WITH_CODE
#undef G_DEFINE_TYPE_WITH_PRIVATE
#undef G_DEFINE_ABSTRACT_TYPE
#undef G_DEFINE_ABSTRACT_TYPE_WITH_CODE
#undef G_DEFINE_ABSTRACT_TYPE_WITH_PRIVATE
#undef G_DEFINE_FINAL_TYPE
#undef G_DEFINE_TYPE_EXTENDED
#undef G_IMPLEMENT_INTERFACE
#undef G_ADD_PRIVATE
#undef G_DEFINE_BOXED_TYPE
#undef G_DEFINE_QUARK

#define V_DEFINE_TYPE(TN, t_n, T_P, ABS, CODE) \
  static void t_n##_init (TN *self); \
  static void t_n##_class_init (TN##Class *klass); \
  static gpointer t_n##_parent_class = NULL; \
  static GType t_n##_v_type = 0; \
  static TN##Class t_n##_v_class; \
  static gpointer t_n##_v_alloc (void) { TN *p = (TN *)malloc(sizeof(TN)); *p = (TN){0}; return p; } \
  static void t_n##_v_init (gpointer p) { t_n##_init((TN *)p); } \
  static void t_n##_v_class_init (gpointer k) { t_n##_class_init((TN##Class *)k); } \
  static void t_n##_v_class_copy (gpointer pk) { t_n##_v_class.parent_class = *(__typeof__(t_n##_v_class.parent_class) *)pk; } \
  GType t_n##_get_type (void) { \
    if (!t_n##_v_type) { \
      GType g_define_type_id = v_register(#TN, T_P, &t_n##_v_class, t_n##_v_alloc, \
                                          t_n##_v_init, t_n##_v_class_init, ABS); \
      t_n##_v_type = g_define_type_id; \
      t_n##_parent_class = g_type_class_peek(g_type_parent(g_define_type_id)); \
      t_n##_v_class_copy(t_n##_parent_class); \
      { CODE; } \
      v_class_setup(g_define_type_id); \
    } \
    return t_n##_v_type; }

#define G_DEFINE_TYPE_EXTENDED(TN,t_n,T_P,_f_,_C_) V_DEFINE_TYPE(TN,t_n,T_P,((_f_) & G_TYPE_FLAG_ABSTRACT) != 0,_C_)
#define G_DEFINE_TYPE(TN,t_n,T_P) V_DEFINE_TYPE(TN,t_n,T_P,0,)
#define G_DEFINE_TYPE_WITH_CODE(TN,t_n,T_P,_C_) V_DEFINE_TYPE(TN,t_n,T_P,0,_C_)
#define G_DEFINE_FINAL_TYPE(TN,t_n,T_P) V_DEFINE_TYPE(TN,t_n,T_P,0,)
#define G_DEFINE_ABSTRACT_TYPE(TN,t_n,T_P) V_DEFINE_TYPE(TN,t_n,T_P,1,)
#define G_DEFINE_ABSTRACT_TYPE_WITH_CODE(TN,t_n,T_P,_C_) V_DEFINE_TYPE(TN,t_n,T_P,1,_C_)
#define V_PRIV_GETTER(TN,t_n) \
  static GType t_n##_v_type; \
  static inline gpointer t_n##_get_instance_private (TN *self) { \
     return G_TYPE_INSTANCE_GET_PRIVATE(self, t_n##_v_type, TN##Private); }
#define G_DEFINE_TYPE_WITH_PRIVATE(TN,t_n,T_P) V_PRIV_GETTER(TN,t_n) V_DEFINE_TYPE(TN,t_n,T_P,0,)
#define G_DEFINE_ABSTRACT_TYPE_WITH_PRIVATE(TN,t_n,T_P) V_PRIV_GETTER(TN,t_n) V_DEFINE_TYPE(TN,t_n,T_P,1,)
#define G_ADD_PRIVATE(TN)

/* The first member of every interface structure of this code base is a
 * GTypeInterface; the structure is sized generously here (vtable storage is a
 * typed static object supplied by the interface init function's parameter). */
typedef struct { GTypeInterface parent; gpointer slot[40]; } VIfaceVTable;
#define G_IMPLEMENT_INTERFACE(TYPE_IFACE, iface_init) { \
    static VIfaceVTable v_vt_; \
    v_add_iface(g_define_type_id, TYPE_IFACE, &v_vt_); \
    ((void (*)(gpointer, gpointer))(iface_init))(&v_vt_, NULL); }

#define G_DEFINE_BOXED_TYPE(TN, t_n, copy_f, free_f) \
  GType t_n##_get_type (void) { static GType t_; \
    if (!t_) t_ = g_boxed_type_register_static(#TN, (GBoxedCopyFunc)copy_f, (GBoxedFreeFunc)free_f); \
    return t_; }
#define G_DEFINE_QUARK(QN, q_n) \
  GQuark q_n##_quark (void) { return g_quark_from_static_string(#QN); }

#endif
