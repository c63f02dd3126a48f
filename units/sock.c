/*
 * sock.c and sock_util.c over the contracts of the resolver, of strtoimax and
 * of the socket system calls.  -DOP: 0 sock_resolve of every string of LEN
 * bytes over a representative alphabet, 1 copying and comparing addresses,
 * 2 sock_addr_ensure_port, 3 sock_connect_bind_nb, 4 sock_listener,
 * 5 sock_resolve of paths around the longest allowed, 6 sock_resolve_one.
 */
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <stdarg.h>
#include <unistd.h>
#include "vc_alloc.h"
#include "stub_misc.h"
#include "vc_strto.h"
#define getaddrinfo vc_getaddrinfo
#define freeaddrinfo vc_freeaddrinfo
#define gai_strerror(x) ""
#define inet_pton vc_inet_pton
#define socket vc_socket
#define bind vc_bind
#define listen vc_listen
#define connect vc_connect
#define setsockopt vc_setsockopt
#define fcntl vc_fcntl
#define close vc_close
#undef htons
#define htons(x) ((uint16_t)((((uint16_t)(x)) << 8) | (((uint16_t)(x)) >> 8)))
int vc_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
void vc_freeaddrinfo(struct addrinfo *);
int vc_inet_pton(int, const char *, void *);
int vc_socket(int, int, int), vc_bind(int, const struct sockaddr *, socklen_t), vc_listen(int, int);
int vc_connect(int, const struct sockaddr *, socklen_t), vc_setsockopt(int, int, int, const void *, socklen_t);
int vc_fcntl(int, int, ...), vc_close(int);
#include "libcperciva/util/sock.c"
#include "libcperciva/util/sock_util.c"
#undef malloc
#undef calloc
#undef free
#undef strdup
#ifndef OP
#define OP (int)nd_range(0, 6)
#endif
#ifndef LEN
#define LEN 6
#endif
#ifndef NLEN
#define NLEN 20		/* Length of addresses the resolver returns. */
#endif

static struct {
	char s[128];
	size_t len, colon;		/* Length; the last ':', or len. */
	struct vc_num port;
	/* The resolver. */
	int gaierr, ngai, gailive, gaicalls;
	struct addrinfo ai[2]; uint8_t name[2][NLEN];
	int ptonok, v6; uint8_t ip[16];
	/* One socket. */
	const struct sock_addr * sa, * sab;
	int open, made, bound, listening, nonblock, connected, fail, reuse, reusefail;
} g;

/* Is t bytes from..to of the string? */
static int
is(const char * t, size_t from, size_t to)
{
	size_t i;

	for (i = 0; i < sizeof(g.s) && i < LEN; i++)
		if (from + i < to && t[i] != g.s[from + i])
			return (0);
	return (t[to - from] == '\0');
}
static struct vc_num *
vc_num_find(const char * t)
{

	vc_assert(g.colon < g.len && is(t, g.colon + 1, g.len), "the port is what follows the last colon");
	return (&g.port);
}
int
vc_getaddrinfo(const char * host, const char * port, const struct addrinfo * h, struct addrinfo ** res)
{

	vc_assert(++g.gaicalls == 1 && g.s[0] != '[' && g.s[0] != '/', "only host names are looked up");
	vc_assert(g.colon < g.len && is(host, 0, g.colon), "the host is what precedes the last colon");
	vc_assert(is(port, g.colon + 1, g.len), "the port is what follows the last colon");
	vc_assert(h->ai_family == AF_UNSPEC && h->ai_socktype == SOCK_STREAM, "stream addresses of any family are looked up");
	if (g.gaierr)
		return (g.gaierr);
	g.gailive = 1;
	*res = &g.ai[0];
	return (0);
}
void
vc_freeaddrinfo(struct addrinfo * r)
{

	vc_requires(r == &g.ai[0] && g.gailive, "the resolver's list is freed once");
	g.gailive = 0;
}
int
vc_inet_pton(int af, const char * src, void * dst)
{
	size_t n = af == AF_INET6 ? 16 : 4;

	vc_assert(g.s[0] == '[' && is(src, 1, g.colon - 1), "the IP address is what the brackets enclose");
	vc_assert(af == (g.v6 ? AF_INET6 : AF_INET), "an address with a colon is IPv6");
	vc_requires(VC_RW(dst, n), "address");
	if (!g.ptonok)
		return (0);
	memcpy(dst, g.ip, n);
	return (1);
}
/* asprintf with %s and %d. */
int
libcperciva_asprintf(char ** ret, const char * fmt, ...)
{
	va_list ap;
	const char * a;
	size_t n, i;

	vc_assert(fmt[0] == '%' && fmt[1] == 's' && fmt[2] == ':' && fmt[3] == '0' && fmt[4] == '\0', "the default port is appended");
	va_start(ap, fmt);
	a = va_arg(ap, const char *);
	va_end(ap);
	n = strlen(a);
	if ((*ret = vc_malloc(n + 3)) == NULL)
		return (-1);
	for (i = 0; i < n; i++)
		(*ret)[i] = a[i];
	(*ret)[n] = ':';
	(*ret)[n + 1] = '0';
	(*ret)[n + 2] = '\0';
	return ((int)n + 2);
}

/* System calls on the one socket. */
#define FD 7
static int
fails(void)
{

	if (!nd_bool())
		return (0);
	g.fail = 1;
	errno = (int)nd_range(1, 133);
	return (1);
}
int
vc_socket(int family, int type, int proto)
{

	(void)proto;
	vc_assert(!g.made && family == g.sa->ai_family && (type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC)) == g.sa->ai_socktype, "a socket of the address's kind is made");
	if (fails())
		return (-1);
	g.made = g.open = 1;
	if (type & SOCK_NONBLOCK)
		g.nonblock = 1;
	return (FD);
}
int
vc_setsockopt(int s, int level, int name, const void * v, socklen_t n)
{

	vc_assert(s == FD && g.open && !g.bound, "options are set on the open socket");
	if (level != SOL_SOCKET || name != SO_REUSEADDR)
		return (0);
	vc_assert(n == sizeof(int) && *(const int *)v != 0, "the address may be reused");
	if (nd_bool()) {
		if (nd_bool())
			errno = ENOPROTOOPT;
		else {
			errno = EINVAL;
			g.fail = 1;
		}
		return (-1);
	}
	g.reuse = 1;
	return (0);
}
int
vc_bind(int s, const struct sockaddr * n, socklen_t len)
{

	vc_assert(s == FD && g.open && !g.bound && !g.connected && g.sab != NULL && n == g.sab->name && len == g.sab->namelen, "the socket is bound as asked");
	if (fails())
		return (-1);
	g.bound = 1;
	return (0);
}
int
vc_listen(int s, int n)
{

	vc_assert(s == FD && g.open && g.bound && n > 0, "a bound socket listens");
	if (fails())
		return (-1);
	g.listening = 1;
	return (0);
}
int
vc_fcntl(int s, int op, ...)
{
	va_list ap;
	int a;

	vc_assert(s == FD && g.open, "the open socket is made non-blocking");
	if (op == F_GETFL)
		return (O_RDWR);
	if (op != F_SETFL)
		return (0);
	va_start(ap, op);
	a = va_arg(ap, int);
	va_end(ap);
	if (fails())
		return (-1);
	g.nonblock = (a & O_NONBLOCK) != 0;
	return (0);
}
int
vc_connect(int s, const struct sockaddr * n, socklen_t len)
{

	vc_assert(s == FD && g.open && !g.connected && n == g.sa->name && len == g.sa->namelen, "connects to the given address");
	vc_assert(g.nonblock, "connecting does not block");
	vc_assert(g.sab == NULL || g.bound, "the socket is bound before connecting");
	g.connected = 1;
	switch (nd_range(0, 3)) {
	case 0:
		return (0);
	case 1:
		errno = EINPROGRESS;
		return (-1);
	case 2:
		errno = EINTR;
		return (-1);
	}
	g.fail = 1;
	errno = nd_bool() ? ECONNREFUSED : nd_bool() ? EAGAIN : ENETUNREACH;
	return (-1);
}
int
vc_close(int s)
{

	vc_assert(s == FD && g.open, "an open socket is closed, once");
	g.open = 0;
	vc_errno();
	return (nd_bool() ? -1 : 0);
}

static void
string(void)
{
	static const char c[] = { '\0', 'a', '0', ':', '[', ']', '/' };
	size_t i;

	for (i = 0; i < LEN; i++)
		g.s[i] = c[nd_range(0, 6)];
#if defined(KIND) && KIND == 0
	g.s[0] = '/';
#elif defined(KIND) && KIND == 2
	g.s[0] = '[';
#endif
	g.s[LEN] = '\0';
	for (g.len = 0; g.len < LEN && g.s[g.len] != '\0'; g.len++)
		continue;
	g.colon = g.len;
	for (i = 0; i < g.len; i++)
		if (g.s[i] == ':')
			g.colon = i;
}
static void
resolver(void)
{
	int i;

	g.gaierr = nd_bool() ? (int)nd_range(1, 10) : 0;
	g.ngai = (int)nd_range(1, 2);
	for (i = 0; i < 2; i++) {
		g.ai[i].ai_family = nd_bool() ? AF_INET : AF_INET6;
		g.ai[i].ai_socktype = SOCK_STREAM;
		g.ai[i].ai_addrlen = (socklen_t)nd_range(1, NLEN);
		nd_fill(g.name[i], NLEN);
		g.ai[i].ai_addr = (struct sockaddr *)g.name[i];
		g.ai[i].ai_next = i + 1 < g.ngai ? &g.ai[i + 1] : NULL;
	}
	g.ptonok = nd_bool();
	nd_fill(g.ip, 16);
}
static int
same(const struct sock_addr * sa, int i)
{
	size_t k = (size_t)nd_range(0, NLEN - 1);	/* Any byte. */

	if (sa->ai_family != g.ai[i].ai_family || sa->ai_socktype != g.ai[i].ai_socktype || sa->namelen != g.ai[i].ai_addrlen)
		return (0);
	if (k < sa->namelen && ((uint8_t *)sa->name)[k] != g.name[i][k])
		return (0);
	return ((uint8_t *)sa->name != g.name[i]);
}
static void
resolve(void)
{
	struct sock_addr ** r;
	size_t i, portlen = 0;
	int bad = 0, kind;

	string();
	resolver();
	g.v6 = 0;
	for (i = 1; i + 1 < g.colon && i < LEN; i++)
		if (g.s[i] == ':')
			g.v6 = 1;
	if (g.colon < g.len)
		portlen = g.len - g.colon - 1;
	g.port.base = 10;
	g.port.len = portlen;
	g.port.used = (size_t)nd_range(0, portlen);
	g.port.range = nd_bool();
	g.port.i = (intmax_t)(nd_bool() ? nd_range(0, 70000) : nd_u64());
	kind = g.s[0] == '/' ? 0 : g.s[0] != '[' ? 1 : 2;
#ifdef KIND
	vc_assume(kind == KIND);
#endif
	if (g.len == 0 || g.s[0] == ':' || (kind != 0 && g.colon == g.len))
		bad = 1;
	else if (kind == 1)
		bad = g.gaierr != 0;
	else if (kind == 2)
		bad = g.colon < 2 || g.s[g.colon - 1] != ']' || g.port.used != portlen || portlen == 0 || g.port.range ||
		    g.port.i < 1 || g.port.i > 65535 || !g.ptonok;
	r = sock_resolve(g.s);
	vc_assert(!g.gailive, "the resolver's list is freed");
	if (r == NULL) {
		vc_assert(bad || vc_nfail, "a well-formed address is accepted");
		vc_assert(vc_live == 0, "nothing is left behind");
		vc_reach("refused");
		return;
	}
	vc_assert(!bad, "a malformed address is refused");
	if (kind == 1) {
		vc_assert(g.gaicalls == 1, "the host is looked up");
		for (i = 0; i < 2; i++)
			if (i < (size_t)g.ngai)
				vc_assert(r[i] != NULL && same(r[i], (int)i), "all addresses found are returned in order");
		vc_assert(r[g.ngai] == NULL, "the list ends");
		vc_reach("host");
	} else {
		vc_assert(r[0] != NULL && r[1] == NULL && r[0]->ai_socktype == SOCK_STREAM, "one stream address is returned");
		if (kind == 0) {
			struct sockaddr_un * un = (struct sockaddr_un *)r[0]->name;

			vc_assert(r[0]->ai_family == AF_UNIX && r[0]->namelen == sizeof(*un) && un->sun_family == AF_UNIX, "a path is a Unix address");
			vc_assert(is(un->sun_path, 0, g.len), "the path is kept");
			vc_reach("path");
		} else if (g.v6) {
			struct sockaddr_in6 * s6 = (struct sockaddr_in6 *)r[0]->name;

			vc_assert(r[0]->ai_family == AF_INET6 && r[0]->namelen == sizeof(*s6) && s6->sin6_family == AF_INET6, "an IPv6 address");
			vc_assert(s6->sin6_port == htons((uint16_t)g.port.i), "the port is the number written");
			i = (size_t)nd_range(0, 15);
			vc_assert(((uint8_t *)&s6->sin6_addr)[i] == g.ip[i], "the address is the one written");
			vc_reach("IPv6");
		} else {
			struct sockaddr_in * s4 = (struct sockaddr_in *)r[0]->name;

			vc_assert(r[0]->ai_family == AF_INET && r[0]->namelen == sizeof(*s4) && s4->sin_family == AF_INET, "an IPv4 address");
			vc_assert(s4->sin_port == htons((uint16_t)g.port.i), "the port is the number written");
			i = (size_t)nd_range(0, 3);
			vc_assert(((uint8_t *)&s4->sin_addr)[i] == g.ip[i], "the address is the one written");
			vc_reach("IPv4");
		}
	}
	sock_addr_freelist(r);
	vc_assert(vc_live == 0, "freeing a list frees all of it");
}
static void
address(struct sock_addr * sa, uint8_t * name)
{

	sa->ai_family = nd_int();
	sa->ai_socktype = nd_int();
	sa->namelen = (socklen_t)nd_range(1, NLEN);
	nd_fill(name, NLEN);
	sa->name = (struct sockaddr *)name;
}
static void
copies(void)
{
	struct sock_addr a[2], * d, * list[3], ** l;
	uint8_t n[2][NLEN];
	int i, k, diff, cnt;

	address(&a[0], n[0]);
	address(&a[1], n[1]);
#ifndef WHAT
#define WHAT (int)nd_range(0, 2)
#endif
	cnt = WHAT;
	if (cnt == 0) {
		/* Comparison: alike but for one thing at most. */
		i = (int)nd_range(0, NLEN - 1);
		switch (nd_range(0, 3)) {
		case 0: a[1] = a[0]; a[1].name = (struct sockaddr *)n[1]; break;
		case 1: a[1].namelen = a[0].namelen; a[1].ai_family = a[0].ai_family; break;
		case 2: a[1].ai_socktype = a[0].ai_socktype; a[1].ai_family = a[0].ai_family; break;
		default: a[1].ai_socktype = a[0].ai_socktype; a[1].namelen = a[0].namelen;
		}
		k = nd_bool();
		for (cnt = 0; cnt < NLEN; cnt++)
			if (k || cnt != i)
				n[1][cnt] = n[0][cnt];
		diff = a[0].ai_family != a[1].ai_family || a[0].ai_socktype != a[1].ai_socktype || a[0].namelen != a[1].namelen;
		for (cnt = 0; cnt < NLEN; cnt++)
			if (cnt < (int)a[0].namelen && cnt < (int)a[1].namelen && n[0][cnt] != n[1][cnt])
				diff = 1;
		vc_assert((sock_addr_cmp(&a[0], &a[1]) != 0) == diff, "addresses are equal exactly if all agrees");
		vc_assert(vc_live == 0, "nothing is left behind");
		vc_reach("compared");
		return;
	}
	cnt = cnt == 1 ? 0 : (int)nd_range(1, 2);
	if (cnt == 0) {
		d = sock_addr_dup(&a[0]);
		list[0] = d;
	} else {
		for (i = 0; i < cnt; i++)
			list[i] = &a[i];
		list[cnt] = NULL;
		l = sock_addr_duplist(list);
		d = l != NULL ? l[0] : NULL;
	}
	if (d == NULL) {
		vc_assert(vc_nfail, "copying succeeds unless memory runs out");
		vc_assert(vc_live == 0, "nothing is left behind");
		vc_reach("no memory");
		return;
	}
	for (i = 0; i < (cnt ? cnt : 1); i++) {
		if (cnt)
			d = l[i];
		vc_assert(d != &a[i] && d->name != a[i].name, "a copy shares no memory");
		vc_assert(d->ai_family == a[i].ai_family && d->ai_socktype == a[i].ai_socktype && d->namelen == a[i].namelen, "a copy equals the original");
		k = (int)nd_range(0, NLEN - 1);
		if (k < (int)a[i].namelen)
			vc_assert(((uint8_t *)d->name)[k] == n[i][k], "a copy equals the original");
	}
	if (cnt == 0)
		sock_addr_free(d);
	else {
		vc_assert(l[cnt] == NULL, "the list ends");
		sock_addr_freelist(l);
	}
	vc_assert(vc_live == 0, "freeing a copy frees all of it");
	vc_reach("copied");
}
static void
ensure(void)
{
	char * r;
	size_t i;
	int port;

	string();
	vc_assume(g.len > 0 && g.s[0] != ':');
	r = sock_addr_ensure_port(g.s);
	if (r == NULL) {
		vc_assert(vc_nfail && vc_live == 0, "an address is returned unless memory runs out");
		return;
	}
	/* What has a port already, or needs none? */
	port = g.s[0] == '/' || (g.s[0] == '[' ? g.colon < g.len && g.s[g.colon - 1] == ']' : g.colon < g.len);
	i = (size_t)nd_range(0, LEN - 1);
	if (i < g.len)
		vc_assert(r[i] == g.s[i], "the address is kept");
	if (port) {
		vc_assert(r[g.len] == '\0', "an address with a port is unchanged");
		vc_reach("unchanged");
	} else {
		vc_assert(r[g.len] == ':' && r[g.len + 1] == '0' && r[g.len + 2] == '\0', "the default port is appended");
		vc_reach("appended");
	}
	vc_free(r);
	vc_assert(vc_live == 0, "nothing is left behind");
}
static void
oneconn(int listening)
{
	struct sock_addr a[2];
	uint8_t n[2][NLEN];
	int s;

	address(&a[0], n[0]);
	address(&a[1], n[1]);
	a[0].ai_socktype = (int)nd_range(0, 6);
	g.sa = &a[0];
	if (listening) {
		g.sab = &a[0];
		s = sock_listener(&a[0]);
	} else {
		g.sab = nd_bool() ? &a[1] : NULL;
		s = sock_connect_bind_nb(&a[0], g.sab);
	}
	if (s == -1) {
		vc_assert(g.fail, "only a failing step is an error");
		vc_assert(!g.open, "a socket which cannot be used is closed");
		vc_reach("no socket");
		return;
	}
	vc_assert(s == FD && g.open && !g.fail, "a failing step is reported");
	vc_assert(g.nonblock, "the socket is non-blocking");
	vc_assert(listening ? g.listening : g.connected, "the socket is connecting or listening");
	vc_assert(g.sab == NULL || g.bound, "the socket is bound as asked");
	vc_assert(vc_live == 0, "nothing is left behind");
	vc_reach("socket");
}
static void
longpath(void)
{
	struct sock_addr ** r;
	size_t n = (size_t)nd_range(105, 110), i;

	for (i = 0; i < n; i++)
		g.s[i] = i == 0 ? '/' : 'a';
	g.s[n] = '\0';
	r = sock_resolve(g.s);
	if (r == NULL) {
		vc_assert(n >= 108 || vc_nfail, "a well-formed address is accepted");
		vc_assert(vc_live == 0, "nothing is left behind");
		vc_reach("too long");
		return;
	}
	vc_assert(n < 108, "a path too long is refused");
	vc_assert(((struct sockaddr_un *)r[0]->name)->sun_path[n] == '\0' && ((struct sockaddr_un *)r[0]->name)->sun_path[n - 1] == 'a', "the path is kept");
	sock_addr_freelist(r);
	vc_assert(vc_live == 0, "freeing a list frees all of it");
	vc_reach("long enough");
}
static void
one(void)
{
	struct sock_addr * r;
	int add = nd_bool();

	resolver();
	g.s[0] = 'h'; g.s[1] = ':'; g.s[2] = '0';
	g.len = 3;
	g.colon = 1;
	if (add && nd_bool())
		r = sock_resolve_one("h", 1);
	else
		r = sock_resolve_one("h:0", add);
	vc_assert(!g.gailive, "the resolver's list is freed");
	if (r == NULL) {
		vc_assert(g.gaierr || vc_nfail, "a well-formed address is accepted");
		vc_assert(vc_live == 0, "nothing is left behind");
		vc_reach("none");
		return;
	}
	vc_assert(!g.gaierr && same(r, 0), "the first address is returned");
	sock_addr_free(r);
	vc_assert(vc_live == 0, "the others are freed");
	vc_reach("first");
}
void
harness(void)
{

	switch (OP) {
	case 0: resolve(); break;
	case 1: copies(); break;
	case 2: ensure(); break;
	case 3: oneconn(0); break;
	case 4: oneconn(1); break;
	case 5: longpath(); break;
	default: one(); break;
	}
}
