/*
 * spipe/pushbits.c and noeintr.c over the contracts of read, write, shutdown
 * and exit.  The thread's function is run here; nothing but the two
 * descriptors is kept from one read to the next, so the first reads stand for
 * all.  Where each byte is kept is followed in the proof, contents are
 * compared natively; the thread may be cancelled wherever it may block.
 */
#include <sys/types.h>
#include <sys/socket.h>
#include <pthread.h>
#include <stdio.h>
#include <unistd.h>
#include "vc_alloc.h"
#include "stub_misc.h"
#define read vc_read
#define write vc_write
#define shutdown vc_shutdown
#define exit vc_exit
#define close vc_close
ssize_t vc_read(int, void *, size_t);
ssize_t vc_write(int, const void *, size_t);
int vc_shutdown(int, int);
int vc_close(int);
void vc_exit(int);
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
static void (* vc_cleanup)(void *);
static void * vc_cleanup_arg;
#define pthread_cleanup_push(f, a) { vc_cleanup = (f); vc_cleanup_arg = (a);
#define pthread_cleanup_pop(x) { void (* vc_f)(void *) = vc_cleanup; vc_cleanup = NULL; if (x) (vc_f)(vc_cleanup_arg); } }
#include "libcperciva/util/noeintr.c"
#include "spipe/pushbits.c"
#undef malloc
#undef free
#ifndef READS
#define READS 2
#define WRITES 3
#endif
#ifdef VC_NATIVE
#define LEMMA(c, m) do { } while (0)
#define STOP() do { fflush(stdout); _exit(0); } while (0)
#else
#define LEMMA(c, m) vc_assert(c, "LEMMA " m)
#define STOP() vc_assume(0)
#endif

static struct {
	int in, out;
	void * (* fn)(void *); void * arg;
	int thrfail;
	uint64_t got, put;	/* Bytes read, bytes written. */
	uint64_t off; const uint8_t * buf; /* Where the last read began and went. */
	int eof, err, shut, shuterr, cancelled, reads, writes;
} g;

#ifdef VC_NATIVE
#define AT(p) ((uint8_t)(((p) * 2654435761u) >> 9))
#endif

int
pthread_create_blocking_np(pthread_t * thr, const pthread_attr_t * attr, void * (* fn)(void *), void * arg)
{

	(void)thr; (void)attr;
	vc_assert(g.fn == NULL, "one thread is created");
	if (nd_bool()) {
		g.thrfail = 1;
		return ((int)nd_range(1, 133));
	}
	g.fn = fn;
	g.arg = arg;
	return (0);
}
static void
done(void)
{

	vc_assert(g.shut == 1, "the destination is told that nothing follows");
	vc_assert(vc_live == 0, "nothing is left behind");
}
/* The thread may be cancelled here. */
static void
point(void)
{

	vc_assert(g.fn != NULL && !g.shut && !g.err && !g.eof, "copying has ended");
	if (vc_cleanup != NULL && nd_bool()) {
		g.cancelled = 1;
		(vc_cleanup)(vc_cleanup_arg);
		done();
		vc_reach("cancelled");
		STOP();
	}
}
ssize_t
vc_read(int fd, void * buf, size_t n)
{
	static const int bad[] = { EIO, EBADF, EAGAIN, ECONNRESET, EINVAL };
	size_t r;

	vc_requires(n > 0 && VC_RW(buf, n), "read buffer");
	vc_assert(fd == g.in, "reads from the source");
	point();
	g.writes = 0;
	switch (++g.reads > READS ? 2 : nd_range(0, 3)) {
	case 0:
		errno = EINTR;
		return (-1);
	case 1:
		errno = bad[nd_range(0, 4)];
		g.err = 1;
		return (-1);
	case 2:
		g.eof = 1;
		errno = (int)nd_range(0, 133);
		return (0);
	default:
		r = (size_t)nd_range(1, n);
#ifdef VC_NATIVE
		{
			size_t i;

			for (i = 0; i < r; i++)
				((uint8_t *)buf)[i] = AT(g.got + i);
		}
#endif
		LEMMA(g.got == g.put, "what was read is written before more is read");
		g.buf = buf;
		g.off = g.got;
		g.got += r;
		return ((ssize_t)r);
	}
}
ssize_t
vc_write(int fd, const void * buf, size_t n)
{
	static const int bad[] = { EIO, EBADF, EAGAIN, EPIPE, ENOSPC, EINVAL };
	size_t r;

	vc_requires(VC_R(buf, n), "write buffer");
	vc_assert(fd == g.out, "writes to the destination");
	vc_assert(n > 0 && n <= g.got - g.put, "only bytes which were read are written, each once");
	point();
#ifdef VC_NATIVE
	{
		size_t i;

		for (i = 0; i < n; i++)
			vc_assert(((const uint8_t *)buf)[i] == AT(g.put + i), "bytes are written in order and unchanged");
	}
#endif
	LEMMA((const uint8_t *)buf == g.buf + (g.put - g.off), "bytes are written in order and unchanged");
	switch (++g.writes >= WRITES ? 2 : nd_range(0, 3)) {
	case 0:
		errno = EINTR;
		return (-1);
	case 1:
		errno = bad[nd_range(0, 5)];
		g.err = 1;
		return (-1);
	case 2:
		r = n;
		break;
	default:
		r = (size_t)nd_range(1, n);
		break;
	}
	g.put += r;
	return ((ssize_t)r);
}
int
vc_shutdown(int fd, int how)
{

	vc_assert(fd == g.out && how == SHUT_WR && !g.shut, "the destination's write side is shut down, once");
	vc_assert(g.cancelled || (g.eof && g.put == g.got), "every byte read is written before the end");
	g.shut = 1;
	switch (nd_range(0, 2)) {
	case 0:
		errno = ENOTSOCK;
		return (-1);
	case 1:
		errno = nd_bool() ? ENOTCONN : EINVAL;
		g.shuterr = 1;
		return (-1);
	}
	return (0);
}
int
vc_close(int fd)
{

	vc_assert(fd == g.out && g.shut, "no descriptor is closed while copying");
	return (0);
}
void
vc_exit(int code)
{

	vc_assert(code != 0, "an error is not reported as success");
	vc_assert(g.err || g.shuterr, "only errors end the program");
	vc_reach("error");
	STOP();
}
void
harness(void)
{
	pthread_t thr;
	int rc;

	g.in = (int)nd_range(0, 1000);
	g.out = (int)nd_range(1001, 2000);
	rc = pushbits(g.in, g.out, &thr);
	if (rc != 0) {
		vc_assert(g.thrfail || vc_nfail, "copying starts unless a step fails");
		vc_assert(vc_live == 0 && g.fn == NULL, "nothing is left behind");
		vc_reach("not started");
		return;
	}
	vc_assert(g.fn != NULL, "a thread was created");
	(g.fn)(g.arg);
	vc_assert(g.eof && !g.err && !g.shuterr, "copying ends at the end of the input only");
	vc_assert(g.put == g.got, "every byte read is written");
	done();
	vc_reach("end");
}
