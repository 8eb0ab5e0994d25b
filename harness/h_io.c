/*	Monitor C22: descriptor transfer.  read() and write() are observed and, in most histories, answered by a schedule of
	full, short, zero, EINTR, EAGAIN and fatal results; other histories use real pipes, sockets and files.
	The byte stream supplied must equal the bytes delivered followed by the bytes still held, at every step. */
#include "rec.h"
#include <sys/socket.h>
#include <poll.h>
#include "strbuf_io.h"
#include "strview_io.h"

ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
#define MAXS (1 << 18)
static char g_in[MAXS], g_out[MAXS], g_held[MAXS];
static int g_inn, g_taken, g_given, g_on, g_hn;	/* bytes supplied, taken by the library, delivered, held */
static bool g_watch, g_real;
static int g_reads, g_writes, g_errno, g_last;
static size_t g_space;
static const char* g_src; static size_t g_srcn; static int g_fd;
static const char* g_op;
static int g_style;
static const int g_errs[] = {EINTR, EAGAIN, EINTR, EIO, EBADF, EPIPE, ENOSPC, ECONNRESET, EFAULT};
static ssize_t schedule(size_t n, size_t avail)
{
	if(avail > n) avail = n;
	int r = rnd(100);
	if(r < (g_style == 1 ? 60 : 20)) { errno = g_errno = g_errs[rnd(9)]; return -1; }
	if(r < 25) return 0;
	if(!avail) return 0;
	if(g_style == 2) return 1;
	if(r < 60) return 1 + (ssize_t)rnd(avail);
	return (ssize_t)avail;
}
/* transfers of up to INT_MAX bytes: the system calls only look at both ends */
static bool g_huge; static int g_hret;
static ssize_t huge_io(bool rd, int fd, const void* p, size_t n)
{
	if(rd) g_reads++; else g_writes++;
	CHECK(fd == g_fd, "C22:descriptor", "%s used another descriptor", g_op);
	if(rd)
	{
		CHECK(n == g_space, "C22:read-size", "%s asked for %zu bytes, %zu are free", g_op, n, g_space);
		CHECK(p == (const void*)g_src, "C22:read-range", "%s reads to an address %td bytes behind the contents", g_op, (const char*)p - g_src);
		if(g_hret > 0) { ((char*)p)[0] = 'f'; ((char*)p)[g_hret - 1] = 'l'; }
	}
	else
	{
		CHECK(n == g_srcn, "C22:write-range", "%s offered %zu bytes, the contents are %zu bytes", g_op, n, g_srcn);
		size_t e = n < 4096 ? n : 4096;
		CHECK(!memcmp(p, g_src, e) && !memcmp((const char*)p + n - e, g_src + n - e, e), "C22:write-range", "%s offered other bytes than its contents", g_op);
	}
	if(g_hret < 0) errno = g_errno = EINTR;
	g_last = g_hret;
	return g_hret;
}
ssize_t __wrap_read(int fd, void* p, size_t n)
{
	if(!g_watch) return __real_read(fd, p, n);
	if(g_huge) return huge_io(true, fd, p, n);
	g_reads++;
	CHECK(fd == g_fd, "C22:descriptor", "%s read from another descriptor", g_op);
	CHECK(n == g_space, "C22:read-size", "%s asked for %zu bytes, %zu are free", g_op, n, g_space);
	if(g_real)
	{
		ssize_t r = __real_read(fd, p, n);
		g_errno = errno; g_last = (int)r;
		return r;
	}
	ssize_t r = schedule(n, g_inn - g_given);
	if(r > 0) { memcpy(p, g_in + g_given, r); g_given += (int)r; }
	g_last = (int)r;
	return r;
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
	if(!g_watch) return __real_write(fd, p, n);
	if(g_huge) return huge_io(false, fd, p, n);
	g_writes++;
	CHECK(fd == g_fd, "C22:descriptor", "%s wrote to another descriptor", g_op);
	CHECK(n == g_srcn && !memcmp(p, g_src, n), "C22:write-range", "%s offered %zu bytes, the contents are %zu bytes%s", g_op, n, g_srcn, n == g_srcn ? " and differ" : "");
	if(g_real)
	{
		ssize_t r = __real_write(fd, p, n);
		g_errno = errno; g_last = (int)r;
		return r;
	}
	ssize_t r = schedule(n, n);
	if(r > 0) { memcpy(g_out + g_on, p, r); g_on += (int)r; }
	g_last = (int)r;
	return r;
}
static strbuf_t* g_b; static int g_fixed; static rec_area_t g_area;
static void judge(int ret, size_t asked)
{
	int e = errno;
	g_watch = false;
	CHECK(g_reads + g_writes == 1, "C22:calls", "%s: read() was called %d times and write() %d times", g_op, g_reads, g_writes);
	CHECK(ret == g_last, "C22:return", "%s returned %d, the system call %d", g_op, ret, g_last);
	if(ret < 0) CHECK(e == g_errno, "C22:errno", "%s left errno %d, the system call set %d", g_op, e, g_errno);
	vh_count(ret < 0 ? (g_errno == EINTR ? "EINTR" : g_errno == EAGAIN ? "EAGAIN" : "fatal-error") : ret == 0 ? "zero" : "transferred");
}
static void held(void)
{
	rec_shape(g_op, g_b, g_fixed, &g_area);
	CHECK(g_b->size == g_hn && !memcmp(g_b->cstr, g_held, g_hn), "C22:contents", "%s: the buffer holds %s, expected %s", g_op, vh_q(g_b->cstr, g_b->size), vh_q(g_held, g_hn));
}
static void do_read(int fd)
{
	g_op = "append_read"; g_fd = fd;
	g_space = g_b->capacity - g_b->size;
	int cap = g_b->capacity; strbuf_t* b0 = g_b; int calls = rec_calls;
	g_reads = g_writes = 0; g_watch = true; errno = 0;
	int r = strbuf_append_read(&g_b, fd);
	judge(r, g_space);
	CHECK(g_b == b0 && g_b->capacity == cap && rec_calls == calls, "C22:capacity", "append_read changed the allocation");
	vh_trace("append_read: %d of %zu (errno %d)", r, g_space, r < 0 ? g_errno : 0);
	if(r > 0)
	{
		memcpy(g_held + g_hn, g_in + g_taken, r);
		g_hn += r; g_taken += r;
		if((size_t)r < g_space) vh_count("short-read"); else vh_count("filled");
	}
	held();
}
static void do_write(int fd)
{
	g_op = "strbuf_write"; g_fd = fd;
	g_src = g_b->cstr; g_srcn = g_b->size;
	g_reads = g_writes = 0; g_watch = true; errno = 0;
	int r = strbuf_write(fd, &g_b);
	judge(r, g_srcn);
	vh_trace("strbuf_write: %d of %zu (errno %d)", r, g_srcn, r < 0 ? g_errno : 0);
	if(r > 0)
	{
		if(r < g_hn) vh_count("short-write"); else vh_count("emptied");
		memmove(g_held, g_held + r, g_hn - r); g_hn -= r;
	}
	held();
}
/* what arrived at the other end so far */
static void drain(int fd)
{
	for(;;)
	{
		struct pollfd pf = {fd, POLLIN, 0};
		if(poll(&pf, 1, 0) <= 0) return;
		ssize_t r = __real_read(fd, g_out + g_on, chance(30) ? 1 + rnd(100) : 65536);
		if(r <= 0) return;
		g_on += (int)r;
		if(chance(40)) return;
	}
}
static void conserve(const char* what)
{
	CHECK(g_on + g_hn == g_taken && !memcmp(g_out, g_in, g_on) && !memcmp(g_held, g_in + g_on, g_hn), "C22:conservation", "%s: %d bytes taken, %d delivered, %d held, or their order changed", what, g_taken, g_on, g_hn);
}
static int huge_ret(int n)
{
	switch(rnd(7))
	{
		case 0: return -1;
		case 1: return 0;
		case 2: return n;
		case 3: return n > 65536 ? n - 65536 : n;
		case 4: return n > 70000 ? n - (int)rnd(70000) : n;
		case 5: return n - (int)rnd(n < 300 ? n + 1 : 300);
		default: return n > 40000 ? n - 32768 - (int)rnd(3) : n;
	}
}
static void run_huge(void)
{
	size_t bytes = sizeof(strbuf_t) + 1 + (size_t)INT_MAX, tot = (bytes + 4095) / 4096 * 4096;
	char* m = mmap(NULL, tot + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED || mprotect(m, tot, PROT_READ | PROT_WRITE)) vh_harness_error("mmap 2 GiB");
	uint64_t sig = 99; g_huge = true; g_fd = 4444;
	if(chance(50))
	{
		int n = chance(50) ? INT_MAX : INT_MAX - (int)rnd(1 << 20), pos = 0;
		char* p = m + (INT_MAX - n);
		for(int i = 0; i < 50; i++) { p[n - 1 - (i ? rnd(70000) : 0)] = (char)(33 + rnd(90)); p[i] = (char)(33 + rnd(90)); }
		strview_t v = {.data = p, .size = n};
		for(int k = 0; k < 12 && v.size; k++)
		{
			/* any part may be accepted: a view moves nothing */
			g_hret = chance(50) ? huge_ret(v.size) : 1 + (int)(rnd64() % (uint64_t)v.size);
			g_op = "strview_write"; g_src = v.data; g_srcn = v.size; g_reads = g_writes = 0; g_watch = true; errno = 0;
			int left = v.size, r = strview_write(4444, &v);
			judge(r, left);
			vh_trace("strview_write: %d of %d", r, left);
			if(r > 0) { pos += r; left -= r; }
			CHECK(v.size == left && (!left || v.data == p + pos), "C22:view", "strview_write of %d bytes left %d bytes, expected %d", r, v.size, left);
			sig = vh_mix(sig, (uint64_t)r);
		}
		vh_count("huge-views");
	}
	else
	{
		strbuf_t* b = strbuf_create_fixed(m, bytes - (chance(50) ? 0 : rnd(100000)));
		CHECK(b, "C22:contents", "creation failed");
		int cap = b->capacity, n = 0;
		static char want[1 << 17];
		for(int k = 0; k < 10; k++)
		{
			g_reads = g_writes = 0; errno = 0;
			if(n < 200000 && chance(60))
			{
				g_space = (size_t)cap - n; g_src = b->cstr + n;
				g_hret = huge_ret(cap - n); g_op = "append_read"; g_watch = true;
				int r = strbuf_append_read(&b, 4444);
				judge(r, g_space);
				vh_trace("append_read: %d of %zu", r, g_space);
				if(r > 0) CHECK(b->size == n + r && b->cstr[n + r - 1] == 'l' && (r == 1 || b->cstr[n] == 'f'), "C22:contents", "%d bytes read behind %d: size %d, or other bytes", r, n, b->size);
				if(r > 0) n += r;
			}
			else
			{
				g_src = b->cstr; g_srcn = n; g_hret = huge_ret(n); g_op = "strbuf_write";
				int left = g_hret > 0 ? n - g_hret : n;
				if(left <= (int)sizeof want && g_hret > 0) memcpy(want, b->cstr + g_hret, left);
				g_watch = true;
				int r = strbuf_write(4444, &b);
				judge(r, n);
				vh_trace("strbuf_write: %d of %d", r, n);
				if(r > 0) CHECK(b->size == left && !memcmp(b->cstr, want, left), "C22:contents", "%d of %d bytes written: %d remain, expected %d, or they differ", r, n, b->size, left);
				n = left;
			}
			CHECK((char*)b == m && b->capacity == cap && b->size == n && b->cstr[n] == 0, "C22:contents", "%s: size %d, expected %d", g_op, b->size, n);
			sig = vh_mix(sig, (uint64_t)n);
		}
		vh_count("huge-buffers");
	}
	g_huge = false; g_watch = false;
	munmap(m, tot + 65536);
	vh_case(sig, true);
}
static void run(uint64_t ci)
{
	uint64_t ev = vh.events;
	if(ci % 300 == 11) { run_huge(); return; }
	bool heavy = ci % 40 == 0;
	g_style = rnd(3); g_taken = g_given = g_on = g_hn = 0; g_watch = false;
	g_inn = heavy ? (int)rnd(150000) : rnd_size(3000);
	for(int i = 0; i < g_inn; i++) g_in[i] = (char)rnd(256);
	uint64_t sig = vh_mix(g_style, g_inn);
	int kind = rnd(10);
	g_real = kind >= 7;
	if(kind < 2 || kind == 7)
	{
		/* a view written piecewise; the view's text is read only */
		char* p = vh_place(g_in, g_inn, true);
		vh_protect(p);
		strview_t v = {.data = p, .size = g_inn};
		int fds[2] = {12345, -1};
		if(g_real) { if(pipe2(fds, O_NONBLOCK)) vh_harness_error("pipe"); int t = fds[0]; fds[0] = fds[1]; fds[1] = t; }
		int steps = 0, pos = 0;
		while((v.size || steps == 0) && steps++ < 400)
		{
			g_op = "strview_write"; g_fd = fds[0]; g_src = p + pos; g_srcn = g_inn - pos; g_reads = g_writes = 0; g_watch = true; errno = 0;
			strview_t v0 = v;
			int r = strview_write(fds[0], &v);
			judge(r, g_srcn);
			vh_trace("strview_write: %d of %zu", r, g_srcn);
			if(r > 0) { pos += r; if(v.size) vh_count("short-write"); else vh_count("emptied"); }
			else CHECK(v.data == v0.data && v.size == v0.size, "C22:view", "strview_write transferred nothing but changed the view");
			CHECK(v.size == g_inn - pos && (!v.size || v.data == p + pos), "C22:view", "strview_write of %d bytes left %d bytes, expected %d", r, v.size, g_inn - pos);
			if(g_real) drain(fds[1]);
			else CHECK(g_on == pos && !memcmp(g_out, g_in, g_on), "C22:conservation", "the delivered bytes are not the view's first %d bytes", pos);
			sig = vh_mix(sig, r);
		}
		if(g_real)
		{
			for(int k = 0; k < 1000 && g_on < pos; k++) drain(fds[1]);
			CHECK(g_on == pos && !memcmp(g_out, g_in, g_on), "C22:conservation", "the delivered bytes are not the view's first %d bytes", pos);
			close(fds[0]); close(fds[1]);
		}
		if(chance(20))
		{
			strview_t inv = STRVIEW_INVALID;
			g_reads = g_writes = 0; g_watch = true; g_fd = -1;
			int r = strview_write(12345, &inv), r2 = strview_write(12345, NULL);
			g_watch = false;
			CHECK(g_writes == 0 && r == 0 && r2 == 0 && !strview_is_valid(inv), "C22:invalid-view", "writing an invalid view called write() or returned %d", r);
		}
		vh_count("view-histories");
		vh_case(sig, vh.events - ev > 5);
		return;
	}
	int cap = chance(20) ? (int)rnd(4) : heavy ? (int)rnd(100000) : chance(50) ? (int)rnd(60) : rnd_size(2000);
	g_fixed = chance(40) ? cap : -1;
	g_b = g_fixed >= 0 ? rec_fixed(cap, &g_area) : strbuf_create(cap, &rec_al);
	int in = 11111, out = 22222, feed = -1, sink = -1; char path[600] = ""; int what = 0;
	if(g_real)
	{
		int a[2], b[2];
		what = rnd(3);
		if(what == 0) { if(pipe2(a, O_NONBLOCK) || pipe2(b, O_NONBLOCK)) vh_harness_error("pipe"); in = a[0]; feed = a[1]; sink = b[0]; out = b[1]; vh_count("pipes"); }
		else if(what == 1)
		{
			int t = chance(50) ? SOCK_STREAM : SOCK_STREAM;
			if(socketpair(AF_UNIX, t | SOCK_NONBLOCK, 0, a) || socketpair(AF_UNIX, t | SOCK_NONBLOCK, 0, b)) vh_harness_error("socketpair");
			in = a[0]; feed = a[1]; sink = b[0]; out = b[1]; vh_count("sockets");
		}
		else
		{
			extern const char* g_scratch;
			snprintf(path, sizeof path, "%s/io.%d", g_scratch, (int)getpid());
			feed = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600); in = open(path, O_RDONLY);
			if(feed < 0 || in < 0) vh_harness_error("open %s", path);
			if(pipe2(b, O_NONBLOCK)) vh_harness_error("pipe");
			sink = b[0]; out = b[1]; vh_count("files");
		}
	}
	int steps = 5 + rnd(heavy ? 200 : 40); bool closed = false;
	for(int k = 0; k < steps; k++)
	{
		if(g_real)
		{
			if(!closed && g_given < g_inn && chance(60))
			{
				int n = 1 + rnd(g_inn - g_given); if(chance(60) && n > 50) n = 50;
				ssize_t r = __real_write(feed, g_in + g_given, n);
				if(r > 0) g_given += (int)r;
			}
			if(what != 2 && !closed && chance(3)) { close(feed); closed = true; vh_count("end-of-file"); }
			if(chance(50)) drain(sink);
			if(chance(1)) { int keep = in; in = -1; do_read(in); in = keep; }	/* a real EBADF */
		}
		int s0 = g_hn;
		if(chance(50)) do_read(in); else do_write(out);
		sig = vh_mix(sig, (uint64_t)(g_hn - s0) + 7);
		if(!g_real) conserve(g_op);
		if(g_fixed < 0 && chance(10)) { strbuf_grow(&g_b, g_b->capacity + (int)rnd(100)); held(); }
		if(g_fixed < 0 && chance(3)) { strbuf_shrink(&g_b); held(); }
	}
	if(g_real)
	{
		/* everything held is deliverable: afterwards the whole stream has arrived in order */
		for(int k = 0; k < 4000 && g_hn; k++) { drain(sink); do_write(out); }
		for(int k = 0; k < 4000 && g_on < g_taken - g_hn; k++) drain(sink);
		conserve("at the end");
		close(in); close(out); close(sink); if(!closed) close(feed);
		if(*path) unlink(path);
	}
	if(chance(10))
	{
		strbuf_t* nb = NULL; g_reads = g_writes = 0; g_watch = true; g_fd = -1;
		int a = strbuf_append_read(&nb, 3), b = strbuf_write(3, &nb), c = strbuf_append_read(NULL, 3), d = strbuf_write(3, NULL);
		g_watch = false;
		CHECK(!a && !b && !c && !d && !g_reads && !g_writes && !nb, "C22:null", "transfer without a buffer made a system call or returned non-zero");
	}
	strbuf_destroy(&g_b);
	CHECK(rec_nlive == 0, "C22:leak", "%d blocks remain", rec_nlive);
	rec_reset();
	vh_count(g_real ? "real-histories" : "scheduled-histories");
	if(vh_want_sample()) vh_sample("%s buffer capacity %d, %s, %d steps: %d bytes supplied, %d taken, %d delivered", g_fixed >= 0 ? "fixed" : "dynamic", cap, g_real ? "real descriptors" : "scheduled results", steps, g_inn, g_taken, g_on);
	vh_case(sig, vh.events - ev > 5);
}
const char* g_scratch = "/tmp";
static void init(int argc, char** argv) { g_scratch = vh_arg(argc, argv, "scratch", "/tmp"); signal(SIGPIPE, SIG_IGN); }
int main(int argc, char** argv) { return vh_main(argc, argv, init, run); }
