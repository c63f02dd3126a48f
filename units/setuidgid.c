/*
 * setuidgid.c and setgroups_none.c over the contracts of the user and group
 * databases, of strtoumax and of the system calls: every string of up to LEN
 * bytes, every mode and every failing step.
 */
#define _DEFAULT_SOURCE 1
#define _GNU_SOURCE 1
#include <sys/types.h>
#include <grp.h>
#include <pwd.h>
#include <unistd.h>
#include "vc_alloc.h"
#include "stub_misc.h"
#include "vc_strto.h"
#define getgrnam vc_getgrnam
#define getpwnam vc_getpwnam
#define setgid vc_setgid
#define setuid vc_setuid
#define setgroups vc_setgroups
#define getgroups vc_getgroups
#define getegid vc_getegid
struct group * vc_getgrnam(const char *);
struct passwd * vc_getpwnam(const char *);
int vc_setgid(gid_t);
int vc_setuid(uid_t);
int vc_setgroups(size_t, const gid_t *);
int vc_getgroups(int, gid_t *);
gid_t vc_getegid(void);
#include "libcperciva/util/setgroups_none.c"
#include "libcperciva/util/setuidgid.c"
#undef malloc
#undef free
#undef strdup
#ifndef LEN
#define LEN 5
#endif

static struct {
	char s[LEN + 1];
	size_t len, colon;		/* Its length; where the first ':' is, or len. */
	int mode;
	struct { int wanted, found, dberr; uint32_t id, real; int ok; struct vc_num n; } who[2];
	struct group gr; struct passwd pw;
	int left, leaveerr, leaveperm, checked, ngroups, inother, checkerr, calls;
	int gidset, uidset, bad;
	gid_t egid;
} g;

/* Is s the user (0) or the group (1) asked for? */
static int
is(const char * s, int k)
{
	size_t from = k ? g.colon + 1 : 0, n = k ? g.len - g.colon - 1 : g.colon, i;

	if (!g.who[k].wanted)
		return (0);
	for (i = 0; i < LEN; i++)
		if (i < n && s[i] != g.s[from + i])
			return (0);
	return (s[n] == '\0');
}
static struct vc_num *
vc_num_find(const char * s)
{

	/* Numbers are looked at only if the database does not know the name. */
	if (is(s, 1) && !g.gidset)
		return (&g.who[1].n);
	vc_assert(is(s, 0), "the user or group asked for is looked up");
	return (&g.who[0].n);
}
struct group *
vc_getgrnam(const char * s)
{

	vc_assert(is(s, 1), "the group asked for is looked up");
	if (g.who[1].found) {
		g.gr.gr_gid = g.who[1].id;
		vc_errno();
		return (&g.gr);
	}
	if (g.who[1].dberr)
		errno = (int)nd_range(1, 133);
	return (NULL);
}
struct passwd *
vc_getpwnam(const char * s)
{

	vc_assert(is(s, 0), "the user asked for is looked up");
	if (g.who[0].found) {
		g.pw.pw_uid = g.who[0].id;
		vc_errno();
		return (&g.pw);
	}
	if (g.who[0].dberr)
		errno = (int)nd_range(1, 133);
	return (NULL);
}
static void
failing(void)
{

	g.bad = 1;
	errno = nd_bool() ? EPERM : (int)nd_range(1, 133);
}
int
vc_setgid(gid_t id)
{

	vc_assert(!g.bad && !g.uidset && !g.gidset, "the group is set once, before the user and not after a failure");
	vc_assert(g.who[1].wanted && g.who[1].ok && id == g.who[1].real, "the group asked for is set");
	vc_assert(g.mode == SETUIDGID_SGROUP_IGNORE || g.left || g.leaveerr, "supplementary groups are left first");
	if (nd_bool()) {
		failing();
		return (-1);
	}
	g.gidset = 1;
	return (0);
}
int
vc_setuid(uid_t id)
{

	vc_assert(!g.bad && !g.uidset, "the user is set once and not after a failure");
	vc_assert(g.who[0].wanted && g.who[0].ok && id == g.who[0].real, "the user asked for is set");
	vc_assert(g.gidset == g.who[1].wanted, "the group is set while that is still permitted");
	vc_assert(g.mode == SETUIDGID_SGROUP_IGNORE || g.left || g.leaveerr, "supplementary groups are left first");
	if (nd_bool()) {
		failing();
		return (-1);
	}
	g.uidset = 1;
	return (0);
}
int
vc_setgroups(size_t n, const gid_t * list)
{

	(void)list;
	vc_assert(n == 0 && !g.gidset && !g.uidset, "all supplementary groups are left, while that is permitted");
	vc_assert(g.mode != SETUIDGID_SGROUP_IGNORE, "supplementary groups are left only if asked");
	if (nd_bool()) {
		g.leaveerr = 1;
		g.leaveperm = nd_bool();
		errno = g.leaveperm ? EPERM : EINVAL;
		if (!g.leaveperm || g.mode == SETUIDGID_SGROUP_LEAVE_ERROR)
			g.bad = 1;
		return (-1);
	}
	g.left = 1;
	return (0);
}
/* The groups the process is in: none, its own, another, or several. */
int
vc_getgroups(int n, gid_t * list)
{

	vc_assume(++g.calls <= 4);
	if (!g.checked) {
		g.checked = 1;
		g.ngroups = (int)nd_range(0, 3);
		g.inother = g.ngroups == 1 && nd_bool();
		g.egid = (gid_t)nd_range(0, 1000);
		if ((g.ngroups > 1 || g.inother) && g.mode == SETUIDGID_SGROUP_LEAVE_ERROR)
			g.bad = 1;
	}
	if (nd_bool()) {
		g.checkerr = 1;
		if (g.mode == SETUIDGID_SGROUP_LEAVE_ERROR)
			g.bad = 1;
		vc_errno();
		return (-1);
	}
	if (n == 0)
		return (g.ngroups);
	if (n < g.ngroups) {
		errno = EINVAL;
		return (-1);
	}
	vc_requires(VC_RW(list, (size_t)n * sizeof(gid_t)), "getgroups list");
	if (g.ngroups >= 1)
		list[0] = g.inother ? g.egid + 1 : g.egid;
	return (g.ngroups);
}
gid_t
vc_getegid(void)
{

	return (g.egid);
}
static void
choose(int k, size_t len)
{
	struct vc_num * n = &g.who[k].n;

	g.who[k].wanted = 1;
	g.who[k].found = nd_bool();
	g.who[k].dberr = nd_bool();
	g.who[k].id = nd_u32();
	n->base = 0;
	n->len = len;
	n->used = (size_t)nd_range(0, len);
	n->range = nd_bool();
	n->u = nd_bool() ? nd_u32() : nd_u64();
	if (g.who[k].found) {
		g.who[k].ok = 1;
		g.who[k].real = g.who[k].id;
	} else if (!g.who[k].dberr) {
		/* A name unknown to the database may be a number. */
		g.who[k].ok = n->used == len && !n->range && n->u <= UINT32_MAX;
		g.who[k].real = (uint32_t)n->u;
	}
}
void
harness(void)
{
	size_t i;
	int rc, wrong;

	for (i = 0; i < LEN; i++) {
		g.s[i] = (char)nd_range(0, 4);
		g.s[i] = g.s[i] == 0 ? '\0' : g.s[i] == 1 ? ':' : g.s[i] == 2 ? 'a' : g.s[i] == 3 ? '0' : 'b';
	}
	g.s[LEN] = '\0';
	g.len = 0;
	while (g.len < LEN && g.s[g.len] != '\0')
		g.len++;
	g.colon = 0;
	while (g.colon < g.len && g.s[g.colon] != ':')
		g.colon++;
	switch (nd_range(0, 2)) {
	case 0: g.mode = SETUIDGID_SGROUP_IGNORE; break;
	case 1: g.mode = SETUIDGID_SGROUP_LEAVE_WARN; break;
	default: g.mode = SETUIDGID_SGROUP_LEAVE_ERROR;
	}
	wrong = g.len == 0 || g.colon + 1 == g.len;
	if (g.colon + 1 == g.len && g.s[g.colon] != ':')
		wrong = 0;
	if (g.colon > 0)
		choose(0, g.colon);
	if (g.colon + 1 < g.len)
		choose(1, g.len - g.colon - 1);
	rc = setuidgid(g.s, g.mode);
	vc_assert(vc_live == 0, "nothing is left behind");
	if (rc == 0) {
		vc_assert(!wrong, "malformed requests are refused");
		vc_assert(!g.bad, "a failing step is reported");
		vc_assert(g.gidset == g.who[1].wanted && g.uidset == g.who[0].wanted, "group and user are those asked for");
		if (g.mode == SETUIDGID_SGROUP_LEAVE_ERROR)
			vc_assert(g.left && g.checked && !g.checkerr, "supplementary groups have been left");
		if (g.mode == SETUIDGID_SGROUP_LEAVE_WARN)
			vc_assert(g.left || g.leaveerr, "leaving supplementary groups was tried");
		vc_reach("changed");
	} else {
		vc_assert(wrong || g.bad || vc_nfail || (g.who[0].wanted && !g.who[0].ok) || (g.who[1].wanted && !g.who[1].ok),
		    "requests which can be met are met");
		vc_reach("refused");
	}
}
