// C17-C18 memory pool, C19-C22 byte buffer.
#include "bufm.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <fcntl.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

// ------------------------------------------------------------------ pool

// Chunks and blocks of gigabytes, of which a few bytes are used.
static void pool_giant(Src &s)
{
	cx_reset();
	size_t item, block;
	if (s.chance(1, 2)) {
		static const size_t I[] = {0x7fffffff, 0x80000000, 0x80000005, 0xffffffff, 0x100000000, 0x100000008, 0x100001000};
		item = I[s.u(6)];
		block = 2 + s.u(1);
	} else {
		item = 65534 + s.u(5000);
		block = 65534 + s.u(5000);
	}
	vt_allow((size_t)64 << 30); // of address space: few of the pages are touched
	void *probe = malloc(item * block + 4096);
	if (!probe)
		return;
	free(probe);
	s.note("pool = new(item %zu, block %zu)", item, block);
	void *p = shim_pool_new(item, block);
	std::vector<std::pair<char *, uint64_t>> live;
	uint64_t next = 1;
	auto check = [&] {
		for (auto &c : live) {
			uint64_t a, z;
			memcpy(&a, c.first, 8);
			memcpy(&z, c.first + item - 8, 8);
			CHECK(a == c.second && z == c.second, "an outstanding chunk of %zu bytes changed", item);
		}
	};
	unsigned allocs = 0, reused = 0;
	std::vector<char *> back;
	while (s.more(12)) {
		if (s.w({3, 1}) && !live.empty()) {
			size_t i = s.u((uint32_t)live.size() - 1);
			s.note("free #%zu", i);
			shim_pool_free(p, live[i].first);
			back.push_back(live[i].first);
			live.erase(live.begin() + (long)i);
		} else if (live.size() < (item > 100000 ? 5 : 40)) {
			s.note("alloc");
			char *c = (char *)shim_pool_alloc(p);
			CHECK(c, "the pool returned NULL");
			for (auto &o : live)
				CHECK(c + item <= o.first || o.first + item <= c, "the new chunk overlaps an outstanding one (distance %zd, item size %zu)", (ssize_t)(c - o.first), item);
			memcpy(c, &next, 8);
			memcpy(c + item - 8, &next, 8);
			live.push_back({c, next++});
			++allocs;
			reused += std::count(back.begin(), back.end(), c) != 0;
		}
		check();
	}
	s.label("gigabytes");
	if (allocs >= 4 && reused)
		s.nontrivial();
	shim_pool_destroy(p);
	vt_check_all();
}

// More than 2^32 chunks of one block.
static void pool_many(Src &s)
{
	cx_reset();
	size_t item = 2 + s.u(1), block = ((size_t)1 << 32) + 20 + s.u(100);
	vt_allow((size_t)20 << 30);
	void *probe = malloc(item * block + 4096);
	if (!probe)
		return;
	free(probe);
	s.note("pool = new(item %zu, block %zu); alloc x%zu", item, block, block);
	void *p = shim_pool_new(item, block);
	std::vector<std::pair<char *, uint16_t>> kept;
	std::vector<char *> first;
	char *lo = nullptr, *hi = nullptr;
	for (size_t i = 0; i < block; ++i) {
		char *c = (char *)shim_pool_alloc(p);
		if (c >= lo && c < hi)
			for (char *o : first)
				CHECK(c + item <= o || o + item <= c, "chunk number %zu overlaps chunk number %zu", i, (size_t)(std::find(first.begin(), first.end(), o) - first.begin()));
		if (i < 64) {
			first.push_back(c);
			lo = *std::min_element(first.begin(), first.end()) - item;
			hi = *std::max_element(first.begin(), first.end()) + item;
		}
		if ((uint32_t)(i + 40) % 0x7fffffff < 80 || (uint32_t)(i + 40) < 80 || i + 40 > block) {
			uint16_t tag = (uint16_t)(kept.size() * 7 + 1);
			memcpy(c, &tag, 2);
			kept.push_back({c, tag});
		}
	}
	for (auto &k : kept)
		CHECK(!memcmp(k.first, &k.second, 2), "an outstanding chunk changed");
	shim_pool_destroy(p);
	vt_check_all();
}

// Pools of every block size, or every item size, up to a limit.
static void pool_sizes(Src &s, bool overlap)
{
	cx_reset();
	bool items = s.chance(1, 2);
	size_t n = 3 + s.u(items ? 4200 : 1300), other = items ? 2 + s.u(4) : 2 + s.u(30);
	s.note("pools of every %s up to %zu (%s %zu)", items ? "item size" : "block size", n, items ? "block size" : "item size", other);
	std::string *trace = s.trace;
	s.trace = nullptr;
	std::vector<char *> v, again;
	for (size_t k = 2; k <= n; ++k) {
		size_t item = items ? k : other, block = items ? other : k;
		void *p = shim_pool_new(item, block);
		v.clear();
		again.clear();
		size_t m = block + 1 + s.u(2) * block;
		for (size_t i = 0; i < m; ++i) {
			char *c = (char *)shim_pool_alloc(p);
			CHECK(c, "the pool returned NULL");
			memset(c, (int)(i * 7 + 1), item);
			v.push_back(c);
		}
		auto check = [&] {
			if (overlap) {
				again = v;
				std::sort(again.begin(), again.end());
				for (size_t i = 1; i < again.size(); ++i)
					CHECK(again[i - 1] + item <= again[i], "chunks of %zu bytes overlap (distance %zd, block size %zu)", item, (ssize_t)(again[i] - again[i - 1]), block);
			}
		};
		check();
		for (size_t i = 0; i < m; ++i)
			CHECK(v[i][0] == (char)(i * 7 + 1) && v[i][item - 1] == v[i][0], "an outstanding chunk of %zu bytes changed (block size %zu)", item, block);
		again = v;
		std::sort(again.begin(), again.end());
		std::vector<char *> had = again;
		for (char *c : v)
			shim_pool_free(p, c);
		v.clear();
		for (size_t i = 0; i < m; ++i)
			v.push_back((char *)shim_pool_alloc(p));
		check();
		if (!overlap) {
			std::sort(v.begin(), v.end());
			CHECK(v == had, "%zu chunks were returned, but as many allocations delivered others (item size %zu, block size %zu)", m, item, block);
		}
		shim_pool_destroy(p);
		CHECK(vt_live_blocks() == 0, "%zu blocks are left after the pool was destroyed (item size %zu, block size %zu)", vt_live_blocks(), item, block);
	}
	s.trace = trace;
	s.label("every size up to a limit");
	s.nontrivial();
	vt_check_all();
}

static void run_pool(Src &s, bool overlap, bool reuse, uint32_t mean)
{
	cx_reset();
	PoolMachine a;
	a.overlap = overlap;
	a.reuse = reuse;
	vt_garbage((uint8_t)s.u(255));
	size_t item, block;
	switch (s.w({4, 2, 1})) {
	case 0: item = 2 + s.u(30); break;
	case 1: item = 2 + s.u(200); break;
	default: item = 2 + s.u(5000); break;
	}
	switch (s.w({5, 2, 1})) {
	case 0: block = 2 + s.u(8); break;
	case 1: block = 2 + s.u(100); break;
	default: block = item > 300 ? 2 + s.u(50) : 2 + s.u(3000); break;
	}
	size_t max_live = s.chance(1, 8) ? 3000 : s.chance(1, 2) ? 40 : 300;
	if (item * max_live > 2000000)
		max_live = 40;
	bool scale = s.chance(1, 4000);
	if (scale) { // beyond 16 bits
		switch (s.u(2)) {
		case 0: item = 2 + s.u(14); block = s.chance(1, 2) ? 65535 + s.u(2) : 65536 - 2 + s.u(4000); max_live = 75000; break;
		case 1: item = 2 + s.u(14); block = 2 + s.u(200); max_live = 75000; break;
		default: item = s.chance(1, 2) ? 65535 + s.u(2) : 65536 - 2 + s.u(4000); block = 2 + s.u(6); max_live = 20; break;
		}
		s.label("more than 16 bits");
	}
	a.create(s, item, block);
	if (scale && max_live > 20) {
		size_t n = 65500 + s.u(8000);
		s.note("alloc x%zu", n);
		for (size_t i = 0; i < n; ++i)
			a.alloc();
		size_t k = s.chance(1, 2) ? n : s.u((uint32_t)n);
		s.note("free x%zu", k);
		for (size_t i = 0; i < k; ++i)
			a.release(a.live.size() - 1);
		for (size_t i = 0; i < k; ++i)
			a.alloc();
		while (s.more(4))
			a.step(s, max_live);
	} else {
		while (s.more(mean))
			a.step(s, max_live);
		if (item <= 64 && s.chance(1, 8000))
			prolong(s, [&](Src &t) { a.step(t, 40); });
	}
	if (a.peak > block)
		s.label("more than one block");
	if (a.peak > 3 * block)
		s.label("more than three blocks");
	if (a.n_reused)
		s.label("chunks reused");
	if (a.n_free > block)
		s.label("more frees than a block");
	if (overlap ? a.n_alloc >= 4 && a.n_reused >= 1 : a.n_reused >= 2 && a.n_free >= 3)
		s.nontrivial();
	// often with nothing outstanding
	if (s.chance(1, 2))
		while (!a.live.empty())
			a.release(a.live.size() - 1);
	a.destroy(s);
	vt_check_all();
}
static void c17(Src &s)
{
	if (!vt_poisons && s.at_case(1)) {
		s.label("more than 2^32 chunks");
		s.nontrivial();
		in_child(100, [&] { pool_many(s); });
	} else if (!vt_poisons && s.chance(1, 2000)) {
		s.label("gigabytes");
		in_child(60, [&] { pool_giant(s); });
	} else if (s.chance(1, 3000))
		pool_sizes(s, true);
	else
		run_pool(s, true, false, 40);
}
static void c18(Src &s)
{
	if (s.chance(1, 6000))
		pool_sizes(s, false);
	else
		run_pool(s, false, true, 40);
}

// ------------------------------------------------------------------ buffer

static size_t draw_max(Src &s, bool small)
{
	if (small)
		switch (s.w({4, 3, 2, 1})) {
		case 0: return 1 + s.u(20);
		case 1: return ((size_t)32 << s.u(4)) + s.u(4) - 2;
		case 2: return 1 + s.u(2000);
		default: break;
		}
	switch (s.w({2, 2, 1, 1})) {
	case 0: return 1000000;
	case 1: return SSIZE_MAX - 1;
	case 2: return 70000 + s.u(10000);
	default: return (size_t)UINT32_MAX + s.u(2);
	}
}

// Contents beyond 32 bits.
static void buffer_giant(Src &s)
{
	size_t n = ((size_t)1 << 32) + 1 + s.u(1000);
	s.note("fill 3, %zu and 4 bytes; read_line, flush, to_string, read_line, flush, clear", n);
	if (memory_available() < 4 * n) // where there is not that much memory
		return;
	vt_allow((size_t)20 << 30);
	vt_huge_pages();
	Wide w(n);
	void *b = shim_buffer_new(SSIZE_MAX - 1);
	CHECK(shim_buffer_fill(b, "ab\n", 3) && shim_buffer_fill(b, w.p, n) && shim_buffer_fill(b, "\nxyz", 4), "a write of %zu bytes was rejected", n);
	CHECK(shim_buffer_is_valid(b), "the buffer is invalid");
	CHECK(shim_buffer_len(b) == n + 7, "the length is %zu instead of %zu", shim_buffer_len(b), n + 7);
	char *d = nullptr;
	size_t len = 0;
	CHECK(shim_buffer_read_line(b, &d, &len) && !strcmp(d, "ab"), "the first line is wrong");
	for (int how = 0; how < 3; ++how) {
		static const char *const HOW[] = {"flush", "to_string", "read_line"};
		CHECK(shim_buffer_len(b) == n + 4, "the length is %zu instead of %zu", shim_buffer_len(b), n + 4);
		size_t all = how == 2 ? n : n + 4;
		bool ok = true;
		if (how == 1)
			d = shim_buffer_to_string(b);
		else
			ok = how ? shim_buffer_read_line(b, &d, &len) : shim_buffer_flush(b, &d, &len);
		CHECK(ok && d, "%s failed", HOW[how]);
		CHECK(vt_size(d) >= all + 1 && (how == 1 || len <= vt_size(d)), "%s of %zu bytes: a block of %zu bytes, reported size %zu", HOW[how], all, vt_size(d), len);
		CHECK(!memcmp(d, w.p, n) && !strcmp(d + n, how == 2 ? "" : "\nxyz"), "%s delivered other bytes", HOW[how]);
		vt_free(d);
		d = nullptr;
		len = 0;
	}
	CHECK(shim_buffer_len(b) == 3 && shim_buffer_flush(b, &d, &len) && !strcmp(d, "xyz"), "the rest is wrong");
	vt_free(d);
	shim_buffer_clear(b);
	CHECK(shim_buffer_is_empty(b), "the buffer is not empty after clear");
	CHECK(shim_buffer_fill(b, "q", 1) && shim_buffer_len(b) == 1, "a write after clear failed");
	shim_buffer_destroy(b);
	s.label("gigabytes");
	s.nontrivial();
	vt_check_all();
}

static void c19(Src &s)
{
	cx_reset();
	if (!vt_poisons && s.at_case(1)) {
		in_child(100, [&] { buffer_giant(s); });
		s.label("gigabytes");
		s.nontrivial();
		return;
	}
	vt_garbage((uint8_t)s.u(255));
	BufMachine a;
	a.overflow_allowed = false;
	a.create(s, B_STREAM, 2, draw_max(s, s.chance(1, 3)));
	a.check();
	while (s.more(40))
		a.step(s);
	if (s.chance(1, 10000)) {
		a.keep = true;
		bool lines = s.chance(1, 2);
		prolong(s, [&](Src &t) {
			if (a.m.size() > 300)
				a.do_clear();
			a.step(t);
			while (lines && a.m.find('\n') != std::string::npos)
				a.do_read(t, true);
		});
	}
	// everything is still there
	a.do_to_string();
	a.do_read(s, false);
	while (a.m.find('\n') != std::string::npos && a.n_line < 400)
		a.do_read(s, true);
	a.do_read(s, true);
	a.do_to_string();
	a.check();
	if (a.peak > 64)
		s.label("more than 64 bytes");
	if (a.peak > 4096)
		s.label("more than 4096 bytes");
	if (a.n_exact)
		s.label("filled to the maximum");
	if (a.n_line >= 1 && a.n_fill >= 2 && a.peak > 10)
		s.nontrivial();
	a.destroy(s);
	vt_check_all();
}

static void c20(Src &s)
{
	cx_reset();
	vt_garbage((uint8_t)s.u(255));
	BufMachine a;
	a.create(s, B_LIMIT, 2, draw_max(s, !s.chance(1, 6)));
	a.check();
	int devnull = -1;
	while (s.more(40)) {
		if (s.chance(1, 25) && !a.valid) {
			// filling from a descriptor is a write, too
			s.note("fill_from_fd while invalid");
			int p[2];
			if (pipe(p))
				harness_error("pipe: %s", strerror(errno));
			if (write(p[1], "abc\n", 4) != 4)
				harness_error("write: %s", strerror(errno));
			close(p[1]);
			size_t n = 1 + s.u((uint32_t)std::min<size_t>(a.max, 8) - 1);
			ssize_t got = shim_buffer_fill_from_fd(a.b, p[0], n);
			CHECK(got <= 0, "an invalid buffer took %zd bytes from a descriptor", got);
			close(p[0]);
			++a.n_latched;
			a.check();
		} else {
			a.step(s);
		}
	}
	if (s.chance(1, 30000)) {
		a.keep = true;
		prolong(s, [&](Src &t) {
			if (a.m.size() > 300)
				a.do_clear();
			a.step(t);
		});
	}
	// full capacity after clearing
	a.do_clear();
	a.check();
	if (a.max <= 100000) {
		s.note("clear, fill to the maximum, then one byte more");
		a.do_fill(std::string(a.max, 'f'));
		a.check();
		if (s.chance(1, 2)) {
			a.do_fill(std::string());
			a.check();
		}
		a.do_fill("!");
		a.check();
		a.do_fill("");
		a.check();
		a.do_clear();
		a.check();
		size_t k = s.u((uint32_t)a.max);
		a.do_fill(std::string(k, 'g'));
		a.do_fill(std::string(a.max - k, 'h'));
		a.check();
	}
	(void)devnull;
	if (a.n_exact > 2)
		s.label("filled to the maximum by the history");
	if (a.n_reject > 1)
		s.label("overflow");
	if (a.n_latched > 1)
		s.label("used while invalid");
	if (a.n_reject >= 1 && a.n_fill >= 3 && a.n_latched >= 1)
		s.nontrivial();
	a.destroy(s);
	vt_check_all();
}

static void c22(Src &s)
{
	cx_reset();
	vt_garbage((uint8_t)s.u(255));
	BufMachine a;
	a.overflow_allowed = s.chance(1, 3);
	a.giants = true;
	a.create(s, B_DST, 2, draw_max(s, s.chance(1, 2)));
	while (s.more(60))
		a.step(s);
	if (s.chance(1, 20000)) {
		a.keep = true;
		prolong(s, [&](Src &t) {
			if (a.m.size() > 300)
				a.do_clear();
			a.step(t);
		});
	}
	if (a.n_grown)
		s.label("destination grown");
	if (a.n_reused)
		s.label("destination passed again");
	if (a.n_noline)
		s.label("failing read");
	if (a.n_reused >= 2 && a.n_grown >= 1)
		s.nontrivial();
	a.destroy(s);
	vt_check_all();
}

// ------------------------------------------------------------------ descriptors

struct Source {
	enum Kind { PIPE, FILE_, SOCKET, BAD, DIR_, WRONLY } kind = PIPE;
	int rd = -1, wr = -1;
	std::string pending;    // not yet consumed
	bool closed = false;    // write end closed
	bool nonblock = false;
	off_t pos = 0;

	void open_(Src &s)
	{
		switch (kind) {
		case PIPE: {
			int p[2];
			if (pipe(p))
				harness_error("pipe: %s", strerror(errno));
			rd = p[0];
			wr = p[1];
			break;
		}
		case SOCKET: {
			int p[2];
			if (socketpair(AF_UNIX, SOCK_STREAM, 0, p))
				harness_error("socketpair: %s", strerror(errno));
			rd = p[0];
			wr = p[1];
			break;
		}
		case FILE_:
			rd = memfd_create("source", 0);
			if (rd < 0)
				harness_error("memfd_create: %s", strerror(errno));
			closed = true;
			break;
		case BAD: {
			int fd = open("/dev/null", O_RDONLY);
			if (fd < 0)
				harness_error("/dev/null: %s", strerror(errno));
			rd = fcntl(fd, F_DUPFD, 200); // a number nothing else uses
			close(rd);
			close(fd);
			break;
		}
		case DIR_:
			rd = open("/", O_RDONLY | O_DIRECTORY);
			if (rd < 0)
				harness_error("open: %s", strerror(errno));
			break;
		case WRONLY:
			rd = open("/dev/null", O_WRONLY);
			if (rd < 0)
				harness_error("/dev/null: %s", strerror(errno));
			break;
		}
		if ((kind == PIPE || kind == SOCKET) && s.chance(1, 2)) {
			nonblock = true;
			fcntl(rd, F_SETFL, O_NONBLOCK);
		}
		// the number: whatever is free, 0, or a large one
		static int top = 0;
		if (!top) {
			struct rlimit l;
			if (!getrlimit(RLIMIT_NOFILE, &l) && l.rlim_cur < 4096) {
				l.rlim_cur = std::min<rlim_t>(l.rlim_max, 4096);
				setrlimit(RLIMIT_NOFILE, &l);
			}
			top = getrlimit(RLIMIT_NOFILE, &l) ? 1000 : (int)std::min<rlim_t>(l.rlim_cur, 1 << 16) - 40;
			zero = fcntl(0, F_DUPFD_CLOEXEC, 400);
		}
		int to = -1;
		switch (s.w({4, 1, 1})) {
		case 1: to = number0 ? -1 : 0; break;
		case 2: to = top + (int)s.u(30); break;
		}
		if (to >= 0 && kind != BAD) {
			if (fcntl(to, F_GETFD) >= 0 && to != 0)
				return;
			if (dup2(rd, to) == to) {
				close(rd);
				rd = to;
				if (!rd)
					number0 = true;
			}
		}
	}
	static int zero;      // the process's own descriptor 0
	static bool number0;  // 0 is in use as a source
	void close_()
	{
		if (rd == 0) {
			number0 = false;
			if (zero >= 0)
				dup2(zero, 0);
			else
				close(0);
		} else if (rd >= 0 && kind != BAD) {
			close(rd);
		}
		if (wr >= 0)
			close(wr);
		rd = wr = -1;
	}
	void put(const std::string &d)
	{
		if (kind == FILE_) {
			off_t end = lseek(rd, 0, SEEK_END);
			if (pwrite(rd, d.data(), d.size(), end) != (ssize_t)d.size())
				harness_error("pwrite: %s", strerror(errno));
			lseek(rd, pos, SEEK_SET);
			pending += d;
		} else {
			std::string e = d.substr(0, sat_sub(50000, pending.size()));
			if (e.empty())
				return;
			if (write(wr, e.data(), e.size()) != (ssize_t)e.size())
				harness_error("write: %s", strerror(errno));
			pending += e;
		}
	}
	size_t left()
	{
		CHECK(fcntl(rd, F_GETFD) >= 0, "the descriptor was closed");
		if (kind == FILE_)
			return pending.size() - (size_t)(lseek(rd, 0, SEEK_CUR) - pos);
		int n = 0;
		CHECK(ioctl(rd, FIONREAD, &n) == 0, "the descriptor cannot be used any more: %s", strerror(errno));
		return (size_t)n;
	}
	bool data() const { return kind == PIPE || kind == FILE_ || kind == SOCKET; }
};

int Source::zero = -1;
bool Source::number0;

static void on_alarm(int)
{
	fail("filling from the descriptor blocks although bytes (or the end of file) are available");
}

static void c21(Src &s)
{
	cx_reset();
	vt_garbage((uint8_t)s.u(255));
	BufMachine a;
	static const size_t MX[] = {1000000, 50, 300, 5000, (size_t)70 << 20, SSIZE_MAX - 1};
	size_t mx = MX[s.w({3, 2, 2, 2, 1, 1})];
	if (mx < 10000)
		mx = 1 + s.u((uint32_t)mx);
	a.create(s, B_STREAM | B_LIMIT, 2, mx);
	Source src[2];
	for (Source &x : src) {
		x.kind = (Source::Kind)s.w({5, 4, 2, 1, 1, 1});
		x.open_(s);
	}
	signal(SIGALRM, on_alarm);
	unsigned reads = 0, partial = 0, eofs = 0, errors = 0, over = 0, large = 0, waits = 0, giants = 0;
	while (!giants && s.more(25)) { // a giant count ends the history: the buffer may have reserved that much
		Source &f = src[s.chance(1, 3)];
		static const char *const NAME[] = {"pipe", "file", "socket", "closed descriptor", "directory", "write-only descriptor"};
		switch (s.w({6, 6, 2, 2, 1})) {
		case 0: {
			if (!f.data() || (f.closed && f.kind != Source::FILE_))
				break;
			size_t n = s.chance(1, 8) ? s.u(g_thorough ? 2000000 : 300000) : s.chance(1, 2) ? s.u(20) : s.u(600);
			std::string d = a.draw_bytes(s, n);
			s.note("put %zu bytes into the %s", n, NAME[f.kind]);
			f.put(d);
			break;
		}
		case 1: {
			// the count
			size_t n, room = a.max - a.m.size();
			switch (s.w({3, 2, 2, 2, 1, 1})) {
			case 0: n = 1 + s.u(30); break;
			case 1: n = f.pending.size() + s.u(2); n = n ? n - 1 : 0; break;
			case 2: n = room + s.u(4); n = n > 2 ? n - 2 : 0; break;
			case 3: n = 1 + s.u(70000); break;
			case 4: n = 0; break;
			default: n = s.chance(1, 12) ? ((size_t)16 << 20) + s.u(48u << 20) : (size_t)s.u(1 << 20); break;
			}
			if (n > a.max)
				n = a.max;
			if (n > (size_t)64 << 20)
				n = (size_t)64 << 20;
			bool giant = !vt_poisons && a.max > (size_t)1 << 40 && s.chance(1, 20);
			if (giant) {
				// counts around 2^31 and 2^32, if the system has the memory for such requests
				static const size_t G[] = {0x7fffffff, 0x80000000, 0x80000005, 0xffffffff, 0x100000000, 0x100000001, 0x100001000};
				n = G[s.u(6)];
				void *probe = malloc(2 * n + 4096);
				if (!probe)
					break;
				free(probe);
				++giants;
			}
			struct Late { std::thread t; ~Late() { if (t.joinable()) t.join(); } } late;
			if (f.data() && f.pending.empty() && !f.closed && !f.nonblock && n) {
				// would block: the bytes come later
				if (!s.chance(1, 30) || !a.valid)
					break;
				f.pending = a.draw_bytes(s, 1 + s.u(300));
				s.note("%zu bytes will arrive at the %s later", f.pending.size(), NAME[f.kind]);
				late.t = std::thread([&f]() {
					usleep(300);
					if (write(f.wr, f.pending.data(), f.pending.size()) != (ssize_t)f.pending.size())
						harness_error("write: %s", strerror(errno));
				});
				++waits;
			}
			size_t avail = f.data() ? f.pending.size() : 0;
			s.note("fill_from_fd(%s with %zu bytes%s, count %zu) into %zu of %zu", NAME[f.kind], avail, f.closed ? ", end" : "", n, a.m.size(), a.max);
			bool was_valid = a.valid;
			std::string before = a.m;
			int fl = fcntl(f.rd, F_GETFL), fdfl = fcntl(f.rd, F_GETFD);
			alarm(60);
			if (giant)
				vt_allow((size_t)20 << 30); // to the end of the case
			ssize_t got = shim_buffer_fill_from_fd(a.b, f.rd, n);
			alarm(0);
			if (late.t.joinable())
				late.t.join();
			++reads;
			CHECK(fcntl(f.rd, F_GETFD) == fdfl, "fill_from_fd %s the descriptor", fdfl >= 0 ? "closed or changed" : "opened");
			CHECK(fcntl(f.rd, F_GETFL) == fl, "fill_from_fd changed the flags of the descriptor");
			if (n > 1 << 20)
				++large;
			if (!f.data()) {
				++errors;
				if (was_valid) {
					if (n || f.kind != Source::WRONLY)
						CHECK(got == -1 || n == 0, "fill_from_fd of a %s returned %zd", NAME[f.kind], got);
					CHECK(got <= 0, "fill_from_fd of a %s returned %zd", NAME[f.kind], got);
				}
				break;
			}
			size_t left = f.left();
			CHECK(left <= avail, "harness");
			size_t used = avail - left;
			CHECK(used <= n, "%zu bytes were consumed, more than the %zu requested", used, n);
			std::string d = f.pending.substr(0, used);
			f.pending.erase(0, used);
			if (f.kind == Source::FILE_)
				f.pos += (off_t)used;
			if (!was_valid) {
				CHECK(got <= 0, "an invalid buffer took %zd bytes", got);
				break;
			}
			if (avail == 0) {
				if (n == 0 || f.closed) {
					CHECK(got == 0, "fill_from_fd at end of file (or of 0 bytes) returned %zd", got);
					++eofs;
				} else {
					CHECK(got == -1, "fill_from_fd of an empty non-blocking descriptor returned %zd", got);
					++errors;
				}
				break;
			}
			if (n == 0) {
				CHECK(got == 0 && used == 0, "fill_from_fd of 0 bytes returned %zd", got);
				break;
			}
			CHECK(used >= 1, "nothing was read although %zu bytes are available", avail);
			if (used <= room) {
				CHECK(got == (ssize_t)used, "fill_from_fd consumed %zu bytes and returned %zd", used, got);
				a.m += d;
				if (a.m.size() > a.peak)
					a.peak = a.m.size();
				if (used < n || left)
					++partial;
			} else {
				CHECK(got == -1, "%zu bytes do not fit into %zu, but fill_from_fd returned %zd", used, room, got);
				a.valid = false;
				++over;
			}
			break;
		}
		case 2:
			if (f.wr >= 0 && f.kind != Source::FILE_) {
				s.note("close the write end of the %s", NAME[f.kind]);
				close(f.wr);
				f.wr = -1;
				f.closed = true;
			}
			break;
		case 3:
			if (s.chance(1, 2)) {
				a.do_read(s, true);
			} else {
				s.note("fill 10");
				a.do_fill(a.draw_bytes(s, 10));
			}
			break;
		default:
			if (!a.valid || s.chance(1, 4)) {
				s.note("clear");
				a.do_clear();
			}
			break;
		}
		a.check();
		if (a.valid && a.m.size() <= 2000)
			a.do_to_string();
	}
	if (!giants && s.chance(1, 3000)) { // one descriptor and buffer used again and again
		a.do_clear();
		int fd = memfd_create("again", 0);
		std::string d = a.draw_bytes(s, 40 + s.u(200));
		if (fd < 0 || write(fd, d.data(), d.size()) != (ssize_t)d.size())
			harness_error("memfd: %s", strerror(errno));
		uint32_t n = s.u(150000), part = 1 + s.u(50);
		s.note("%u times fill_from_fd of up to %u of %zu bytes of a file", n, part, d.size());
		size_t at = d.size();
		for (uint32_t i = 0; i < n; ++i) {
			if (at >= d.size()) {
				lseek(fd, 0, SEEK_SET);
				at = 0;
			}
			size_t want = std::min<size_t>(1 + i % part, a.max);
			if (a.m.size() + want > std::min<size_t>(a.max, 300)) {
				shim_buffer_clear(a.b);
				a.m.clear();
			}
			size_t have = std::min(want, d.size() - at);
			ssize_t got = shim_buffer_fill_from_fd(a.b, fd, want);
			CHECK(got == (ssize_t)have, "fill_from_fd number %u of %zu bytes of a file with %zu left returned %zd", i, want, d.size() - at, got);
			a.m.append(d, at, have);
			at += have;
			a.check();
			if (i % 64 == 0)
				a.do_to_string();
		}
		close(fd);
		s.label("filled 100000 times");
	}
	a.do_to_string();
	a.check();
	signal(SIGALRM, SIG_DFL);
	for (Source &x : src)
		x.close_();
	if (partial)
		s.label("fewer bytes than asked for or available");
	if (eofs)
		s.label("end of file");
	if (errors)
		s.label("read error");
	if (over)
		s.label("overflow");
	if (giants)
		s.label("count of 2 GiB or more");
	if (waits)
		s.label("waited for bytes");
	if (large)
		s.label("count over 1 MiB");
	if (reads >= 2 && partial >= 1)
		s.nontrivial();
	a.destroy(s);
	vt_check_all();
}

PROPERTY(C17, c17, "a history of allocations and frees on one pool; non-trivial: at least 4 allocations, one of them of a returned chunk", 50000, 1500000, 15000, 600000);
PROPERTY(C18, c18, "a history of allocations and frees on one pool; non-trivial: at least 3 frees and 2 reused chunks", 95000, 2500000, 25000, 900000);
PROPERTY(C19, c19, "a history on one buffer without overflow; non-trivial: at least 2 writes, 1 line read and more than 10 bytes at once", 100000, 3500000, 30000, 1000000);
PROPERTY(C20, c20, "a history on one buffer with overflows; non-trivial: at least 3 writes, 1 overflow and 1 write while invalid", 250000, 7500000, 60000, 2000000);
PROPERTY(C21, c21, "a history of fills from two descriptors; non-trivial: at least 2 fills, one of which got fewer bytes than asked for or than available", 25000, 800000, 5000, 150000);
PROPERTY(C22, c22, "a history of reads into reused destinations; non-trivial: 2 reads into a destination used before and 1 growth", 100000, 4000000, 35000, 1000000);
