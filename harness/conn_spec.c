/* Parsing and formatting of connection specs. */
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include <milter/core/milter-connection.h>
#include "vnd.h"
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef N
#define N 0
#endif
#define LPRE ((int)sizeof(PRE) - 1)
#define LPOST ((int)sizeof(POST) - 1)
#define LEN (LPRE + N + LPOST)
static char *a;
static int starts (const char *p, int n) { if (n > LEN) return 0; for (int i = 0; i < n; i++) if (a[i] != p[i]) return 0; return 1; }

/* what the text from p on says: 1 and port and host, 0 when it is not a port
 * with an optional host, -1 when left open */
static guint64 port; static int host;
static int port_host (int p)
{
    int done = 0, digits = 0;
    port = 0; host = -1;
    for (int i = 0; i < LEN; i++) {
        if (i < p || done) continue;
        if (a[i] == '@') { host = i + 1; done = 1; }
        else if (a[i] >= '0' && a[i] <= '9') { digits++; port = port > 100000 ? port : port * 10 + (a[i] - '0'); }
        else return 0;
    }
    if (port > 65535) return 0;
    return digits ? 1 : -1;
}

int main (void)
{
    gint domain = -1; struct sockaddr *ad = NULL; socklen_t size = 0; GError *e = NULL;
#ifdef ROUNDTRIP
    union { struct sockaddr sa; struct sockaddr_in in; struct sockaddr_in6 in6; } u;
    guint16 po = nd_u16();
    unsigned char b[16];
    { unsigned lo = 1; for (int i = 1; i < DIGITS; i++) lo *= 10; VASSUME((po >= lo || DIGITS == 1) && po / 10 < lo); }
    for (int i = 0; i < (ROUNDTRIP == 4 ? 4 : 16); i++) b[i] = nd_u8();
    if (ROUNDTRIP == 4) { u.in.sin_family = AF_INET; u.in.sin_port = g_htons(po); memcpy(&u.in.sin_addr, b, 4); }
    else { u.in6.sin6_family = AF_INET6; u.in6.sin6_port = g_htons(po); for (int i = 0; i < 16; i++) u.in6.sin6_addr.s6_addr[i] = b[i]; }
    gchar *spec = milter_connection_address_to_spec(&u.sa);
    VASSERT(spec != NULL, "an address has a spec");
    VASSUME(spec != NULL);
    /* PROTOCOL:PORT@[ADDRESS] (that such a spec is parsed as that address is
     * decided by the other configurations) */
    char want[80]; int n = 0, at = ROUNDTRIP == 4 ? 5 : 6; guint said = 0;
    inet_ntop(ROUNDTRIP == 4 ? AF_INET : AF_INET6, b, want, sizeof want);
    for (int i = 0; i < at; i++) VASSERT(spec[i] == (ROUNDTRIP == 4 ? "inet:" : "inet6:")[i], "the protocol of the family");
    for (int i = 0; i < DIGITS; i++) { char c = spec[at + i]; VASSERT(c >= '0' && c <= '9' && (i || DIGITS == 1 || c > '0'), "the port is a decimal number"); said = said * 10 + (c - '0'); }
    VASSERT(said == po, "the port of the address");
    VASSERT(spec[at + DIGITS] == '@' && spec[at + DIGITS + 1] == '[', "the address is in brackets");
    for (n = 0; want[n]; n++) VASSERT(spec[at + DIGITS + 2 + n] == want[n], "the address");
    VASSERT(spec[at + DIGITS + 2 + n] == ']' && !spec[at + DIGITS + 3 + n], "the bracket ends the spec");
    VOBS(spec[at]);
    VWITNESS("formatted");
    g_free(spec);
#else
    a = malloc(LEN + 1);
    for (int i = 0; i < LPRE; i++) a[i] = PRE[i];
    for (int i = 0; i < N; i++) {
#ifdef FILL
        /* a long path: only its ends are symbolic */
        if (i > 0 && i < N - 1) { a[LPRE + i] = 'p'; continue; }
#endif
        a[LPRE + i] = nd_u8(); VASSUME(a[LPRE + i]);
    }
    for (int i = 0; i < LPOST; i++) a[LPRE + N + i] = POST[i];
    a[LEN] = 0;
    v_known_text(a, LEN);
    int unix_ = starts("unix:", 5) ? 5 : starts("local:", 6) ? 6 : 0, in4 = starts("inet:", 5), in6 = starts("inet6:", 6), want, hn = 0;
    unsigned char addr[16] = {0};
    if (unix_) want = LEN > unix_ && LEN - unix_ < (int)sizeof(((struct sockaddr_un *)0)->sun_path);
    else if (in4 || in6) {
        want = port_host(in4 ? 5 : 6);
        if (LEN == (in4 ? 5 : 6)) want = 0;
        /* names are looked up: not part of this */
        if (host >= 0) VASSUME(host < LEN && a[host] == '[');
        if (want && host >= 0) {
            hn = LEN - host - 2;
            if (hn < 0 || a[LEN - 1] != ']') want = 0;
            else {
                char t[LEN + 1]; for (int i = 0; i <= LEN; i++) t[i] = i < hn ? a[host + 1 + i] : 0;
                if (inet_pton(in4 ? AF_INET : AF_INET6, t, addr) != 1) want = 0;
            }
        }
    } else want = 0;
    gboolean r = milter_connection_parse_spec(a, &domain, &ad, &size, &e);
    VASSERT(!!r == !e, "a spec is refused with an error, accepted without");
    VASSERT(want != 0 || !r, "a malformed spec is refused");
    VASSERT(want != 1 || r, "a well-formed spec is accepted");
    if (r) {
        VASSUME(ad != NULL);
        if (unix_) {
            struct sockaddr_un *un = (struct sockaddr_un *)ad;
            VASSERT(domain == PF_UNIX && size == sizeof *un && un->sun_family == AF_UNIX, "a UNIX address");
            for (int i = unix_; i <= LEN; i++) VASSERT(un->sun_path[i - unix_] == a[i], "the path is the one of the spec");
        } else if (in4) {
            struct sockaddr_in *in = (struct sockaddr_in *)ad;
            VASSERT(domain == PF_INET && size == sizeof *in && in->sin_family == AF_INET, "an IPv4 address");
            VASSERT(in->sin_port == g_htons((guint16)port), "the port is the one of the spec");
            const unsigned char *c = (const unsigned char *)&in->sin_addr;
            for (int i = 0; i < 4; i++) VASSERT(c[i] == addr[i], "the address is the one of the spec, any when there is none");
        } else {
            struct sockaddr_in6 *in = (struct sockaddr_in6 *)ad;
            VASSERT(domain == PF_INET6 && size == sizeof *in && in->sin6_family == AF_INET6, "an IPv6 address");
            VASSERT(in->sin6_port == g_htons((guint16)port), "the port is the one of the spec");
            for (int i = 0; i < 16; i++) VASSERT(in->sin6_addr.s6_addr[i] == addr[i], "the address is the one of the spec, any when there is none");
        }
        VOBS(domain); VOBS(size);
    } else VASSERT(!ad, "a refused spec gives no address");
    VOBS(r);
#ifdef W_ACCEPT
    VWITNESS_IF(r, "accepted");
#endif
#ifdef W_REJECT
    VWITNESS_IF(!r, "refused");
#endif
    free(a);
#endif
    if (ad) g_free(ad);
    return 0;
}
