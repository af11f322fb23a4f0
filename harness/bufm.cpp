#include "bufm.h"
#include "sim.h"

// ------------------------------------------------------------------ buffer

static std::string show(const std::string &d)
{
	std::string o = "\"";
	for (size_t i = 0; i < d.size() && i < 40; ++i) {
		unsigned char c = d[i];
		char t[8];
		if (c >= 32 && c < 127 && c != '\\' && c != '"')
			o += c;
		else {
			snprintf(t, sizeof t, "\\x%02x", c);
			o += t;
		}
	}
	return o + (d.size() > 40 ? "...\"" : "\"");
}

void BufMachine::create(Src &s, int mask, int storage, size_t max_size)
{
	oracles = mask;
	max = max_size;
	own_storage = storage == 2 ? s.chance(1, 3) : storage;
	if (own_storage) {
		st.create(shim_sizeof_buffer, s);
		b = st.mem;
		shim_buffer_init(b, max);
	} else {
		b = shim_buffer_new(max);
	}
	s.note("buffer = %s(max %zu)", own_storage ? "init" : "new", max);
}

void BufMachine::init_again(Src &s)
{
	shim_buffer_free(b);
	st.check("buffer_free");
	st.refill(s);
	shim_buffer_init(b, max);
	s.note("buffer_free; init again");
	m.clear();
	valid = true;
}

void BufMachine::release_dst()
{
	for (Dst &d : dst) {
		if (d.p)
			vt_free(d.p);
		d = Dst();
	}
}

void BufMachine::destroy(Src &s)
{
	if (own_storage) {
		shim_buffer_free(b);
		st.check("buffer_free");
		st.destroy();
	} else {
		shim_buffer_destroy(b);
	}
	b = nullptr;
	release_dst();
}

size_t BufMachine::draw_size(Src &s)
{
	size_t room = max - m.size();
	size_t n;
	switch (keep ? s.w({5, 0, 1}) : s.w({5, 3, 2, 2, 1})) {
	case 0: n = s.u(12); break;
	case 1: { // around powers of two of the total length
		size_t t = (size_t)64 << s.u(5);
		t = sat_sub(t, m.size()) + s.u(4);
		n = t > 2 ? t - 2 : 0;
		break;
	}
	case 2: n = keep && room > 300 ? s.u(80) : room < 100000 ? room + s.u(2) : s.u(3000); n = n ? n - 1 : 0; break;
	case 3: n = s.u(300); break;
	default: n = s.u(g_thorough ? 140000 : s.chance(1, 30) ? 140000 : 20000); break;
	}
	if (!overflow_allowed && n > room)
		n = room;
	return n;
}

std::string BufMachine::draw_bytes(Src &s, size_t n)
{
	std::string d(n, 'x');
	int mode = (int)s.w({4, 3, 2, 1});
	uint64_t r = s.u64();
	static const uint32_t NL[] = {6, 20, 3, 1000, 0};
	uint32_t nl = NL[s.u(4)];
	for (size_t i = 0; i < n; ++i) {
		r = mix64(r);
		char c;
		switch (mode) {
		case 0: c = (char)('a' + r % 26); break;
		case 1: c = (char)(r & 0xff); break;
		case 2: c = (r & 1) ? '\0' : (char)0xff; break;
		default: c = '\n'; break;
		}
		if (nl && (r >> 16) % nl == 0)
			c = '\n';
		d[i] = c;
	}
	if (n && s.chance(1, 4))
		d[n - 1] = '\n';
	if (n && s.chance(1, 8))
		d[0] = '\n';
	return d;
}

void BufMachine::do_fill(const std::string &d)
{
	bool want = valid && d.size() <= max - m.size();
	// the source ends exactly at the end of its block
	char *src = (char *)malloc(d.size() ? d.size() : 1);
	sim::fresh(src, d.size() + 1);
	memcpy(src, d.data(), d.size());
	bool got = shim_buffer_fill(b, src, d.size());
	free(src);
	if (oracles & (B_LIMIT | B_STREAM))
		CHECK(got == want, "fill of %zu bytes into %s buffer with %zu of %zu bytes %s", d.size(), valid ? "a valid" : "an invalid", m.size(), max,
		      got ? "was accepted" : "was rejected");
	++n_fill;
	if (!valid)
		++n_latched;
	if (want) {
		m += d;
		if (m.size() == max)
			++n_exact;
		if (m.size() > peak)
			peak = m.size();
	} else if (valid) {
		valid = false;
		++n_reject;
	}
}

void BufMachine::do_fill_size(Src &s, size_t n)
{
	std::string d = draw_bytes(s, n);
	s.note("fill %zu %s", n, show(d).c_str());
	do_fill(d);
}

// A size far beyond the maximum; nothing of the source may be read.
void BufMachine::do_huge(Src &s)
{
	size_t room = max - m.size();
	size_t n;
	switch (s.u(4)) {
	case 0: n = SIZE_MAX; break;
	case 1: n = SIZE_MAX - m.size() + s.u(4); if (n < room + 1) n = SIZE_MAX - m.size(); break;
	case 2: n = (size_t)1 << 63; break;
	case 3: n = SIZE_MAX - s.u(200); break;
	default: n = ((size_t)1 << 32) + s.u(100); break;
	}
	if (valid && n <= room)
		return;
	s.note("fill %zu (beyond the maximum)", n);
	char c = 'h';
	bool got = shim_buffer_fill(b, &c, n);
	CHECK(!got || !(oracles & (B_LIMIT | B_STREAM)), "fill of %zu bytes was accepted with %zu of %zu bytes stored", n, m.size(), max);
	if (valid)
		++n_reject;
	valid = false;
}

void BufMachine::do_clear()
{
	shim_buffer_clear(b);
	m.clear();
	valid = true;
	++n_clear;
}

void BufMachine::do_to_string()
{
	char *t = shim_buffer_to_string(b);
	if (!valid) {
		if (oracles & B_LIMIT)
			CHECK(!t, "an invalid buffer yielded a string");
	} else if (!m.empty()) {
		CHECK(t, "to_string yielded nothing from %zu bytes", m.size());
		size_t n = vt_size(t);
		CHECK(n != (size_t)-1 && n >= m.size() + 1, "to_string of %zu bytes returned a block of %zu bytes", m.size(), n);
		if (oracles & B_STREAM) {
			CHECK(!memcmp(t, m.data(), m.size()), "to_string differs from the %zu bytes stored", m.size());
			CHECK(t[m.size()] == 0, "to_string is not terminated");
		}
	} else if (t && (oracles & B_STREAM)) {
		CHECK(*t == 0, "to_string of an empty buffer is not empty");
	}
	if (t)
		vt_free(t);
}

void BufMachine::do_read(Src &s, bool line)
{
	Dst fresh;
	bool shared = (oracles & B_DST) && s.chance(3, 4);
	Dst &d = shared ? dst[s.u(2)] : fresh;
	if (oracles & B_DST) {
		// sometimes a new destination of a drawn size
		if (!shared || s.chance(1, 4)) {
			if (d.p)
				vt_free(d.p);
			d = Dst();
			if (s.chance(3, 4)) {
				size_t nl = m.find('\n');
				size_t need = (line ? (nl == std::string::npos ? m.size() : nl) : m.size()) + 1;
				size_t n;
				switch (s.w({3, 3, 1})) {
				case 0: n = need + s.u(4); n = n > 2 ? n - 2 : 1; break;
				case 1: n = 1 + s.u(40); break;
				default: n = 1 + s.u(2000); break;
				}
				if (giants && !vt_poisons && s.chance(1, 20000)) { // much more than is needed
					static const size_t G[] = {0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001, 0x100000010};
					vt_allow((size_t)20 << 30);
					n = G[s.u(6)];
					s.label("gigabytes");
				}
				d.p = (char *)vt_malloc(n);
				if (!d.p)
					harness_error("no memory for a destination of %zu bytes", n);
				d.len = n > 0x7ffffff ? n : s.chance(1, 6) ? s.u((uint32_t)n) : n;
			} else if (s.chance(1, 2)) {
				d.p = (char *)vt_malloc(1 + s.u(20)); // real memory, stated size 0
			}
		}
	}
	size_t cap = d.p ? vt_size(d.p) : 0;
	std::string before = d.p ? std::string(d.p, std::min<size_t>(cap, 1 << 20)) : std::string();
	char *old = d.p;
	size_t oldlen = d.len;
	bool want = valid && (line ? m.find('\n') != std::string::npos : !m.empty());
	std::string expect;
	if (want)
		expect = line ? m.substr(0, m.find('\n')) : m;
	s.note("%s (destination %zu of %zu bytes)", line ? "read_line" : "flush", oldlen, cap);
	bool got = line ? shim_buffer_read_line(b, &d.p, &d.len) : shim_buffer_flush(b, &d.p, &d.len);
	CHECK(got == want, "%s %s although the buffer %s", line ? "read_line" : "flush", got ? "succeeded" : "failed",
	      !valid ? "is invalid" : want ? (line ? "holds a newline" : "holds bytes") : (line ? "holds no newline" : "is empty"));
	if (!want) {
		if (oracles & B_DST) {
			CHECK(d.p == old && d.len == oldlen, "a failing read changed the destination or its size");
			if (old)
				CHECK(!memcmp(d.p, before.data(), before.size()), "a failing read wrote to the destination");
		}
		++n_noline;
	} else {
		if (line)
			m.erase(0, expect.size() + 1);
		CHECK(d.p, "a successful read left no destination");
		size_t have = vt_size(d.p);
		CHECK(have != (size_t)-1, "the destination is not a live block after the read");
		CHECK(have >= expect.size() + 1, "the destination of %zu bytes cannot hold %zu bytes and the terminator", have, expect.size());
		if (oracles & (B_STREAM | B_DST)) {
			CHECK(!memcmp(d.p, expect.data(), expect.size()), "%s delivered other bytes than the %zu expected", line ? "read_line" : "flush", expect.size());
			CHECK(d.p[expect.size()] == 0, "the destination is not terminated behind %zu bytes", expect.size());
		}
		if (oracles & B_DST) {
			CHECK(d.len <= have, "the reported size is %zu but the destination has %zu bytes", d.len, have);
			if (expect.size() + 1 <= oldlen)
				CHECK(d.p == old, "the destination was replaced although its stated size %zu sufficed for %zu bytes", oldlen, expect.size());
			else
				++n_grown;
			if (shared && old)
				++n_reused;
		}
		if (line)
			++n_line;
		else
			++n_flush;
	}
	if (!shared && d.p)
		vt_free(d.p);
}

void BufMachine::check()
{
	if (valid) {
		if (oracles & (B_STREAM | B_LIMIT)) {
			CHECK(shim_buffer_is_valid(b), "the buffer is invalid although no write exceeded its maximum");
			CHECK(shim_buffer_len(b) == m.size(), "the length is %zu, expected %zu", shim_buffer_len(b), m.size());
			CHECK(shim_buffer_is_empty(b) == m.empty(), "is_empty is wrong for %zu bytes", m.size());
		}
	} else if (oracles & B_LIMIT) {
		CHECK(!shim_buffer_is_valid(b), "the buffer counts as valid after an overflow");
		CHECK(shim_buffer_len(b) == 0, "an invalid buffer reports length %zu", shim_buffer_len(b));
	}
	if (own_storage)
		st.check("buffer");
}

void BufMachine::step(Src &s)
{
	switch (s.w({8, 5, 2, 3, 1, 1})) {
	case 0:
		if (overflow_allowed && !valid && s.chance(1, 2))
			do_fill_size(s, s.u(3));
		else
			do_fill_size(s, draw_size(s));
		break;
	case 1: do_read(s, true); break;
	case 2: do_read(s, false); break;
	case 3:
		s.note("to_string");
		do_to_string();
		break;
	case 4:
		if (overflow_allowed && s.chance(1, 2)) {
			do_huge(s);
			break;
		}
		// fall through
	case 5:
		s.note("clear");
		do_clear();
		break;
	}
	check();
}

// ------------------------------------------------------------------ pool

void PoolMachine::create(Src &s, size_t item_size, size_t block_size)
{
	item = item_size;
	block = block_size;
	base_bytes = vt_live_bytes();
	p = shim_pool_new(item, block);
	s.note("pool = new(item %zu, block %zu)", item, block);
}

void PoolMachine::fill(const Chunk &c)
{
	uint64_t r = c.pat * 0x9E3779B97F4A7C15ull | 1;
	for (size_t i = 0; i < item; ++i) {
		c.p[i] = (char)(r >> 56);
		r = r * 6364136223846793005ull + 1442695040888963407ull;
	}
}

void PoolMachine::verify(const Chunk &c, const char *when)
{
	uint64_t r = c.pat * 0x9E3779B97F4A7C15ull | 1;
	for (size_t i = 0; i < item; ++i) {
		CHECK(c.p[i] == (char)(r >> 56), "byte %zu of an outstanding chunk of %zu bytes changed (%s)", i, item, when);
		r = r * 6364136223846793005ull + 1442695040888963407ull;
	}
}

void PoolMachine::verify_all(const char *when)
{
	for (const Chunk &c : live)
		verify(c, when);
}

void PoolMachine::alloc()
{
	char *c = (char *)shim_pool_alloc(p);
	CHECK(c, "the pool returned NULL");
	++n_alloc;
	uintptr_t a = (uintptr_t)c;
	if (overlap) {
		size_t al = std::min<size_t>(item & -item, alignof(max_align_t));
		CHECK(a % al == 0, "a chunk of the pool is not aligned to %zu bytes (item size %zu)", al, item);
		auto it = at.lower_bound(a);
		if (it != at.end())
			CHECK(it->first >= a + item, "the new chunk overlaps an outstanding one (distance %zu, item size %zu)", (size_t)(it->first - a), item);
		if (it != at.begin()) {
			--it;
			CHECK(it->first + item <= a, "the new chunk overlaps an outstanding one (distance %zu, item size %zu)", (size_t)(a - it->first), item);
		}
	}
	Chunk k{c, next_pat++};
	at[a] = k.pat;
	live.push_back(k);
	fill(k);
	if (live.size() > peak)
		peak = live.size();
	if (!seen.insert(a).second)
		++n_reused;
	if (reuse) {
		CHECK(seen.size() <= peak, "the pool has handed out %zu distinct chunks, but never more than %zu were outstanding", seen.size(), peak);
		if (account) {
			size_t held = vt_live_bytes() - base_bytes;
			size_t bound = 2 * ((item + 8) * (peak + 2 * block) + 96 * (peak / block + 4) + 512);
			CHECK(held <= bound, "the pool holds %zu bytes for at most %zu outstanding chunks of %zu bytes (block size %zu)", held, peak, item, block);
		}
	}
}

void PoolMachine::release(size_t i)
{
	Chunk c = live[i];
	if (overlap)
		verify(c, "before it is given back");
	// the contents are the user's to the last
	memset(c.p, (int)(c.pat & 0xff), item);
	shim_pool_free(p, c.p);
	++n_free;
	at.erase((uintptr_t)c.p);
	if (live.size() > 5000)
		live[i] = live.back(), live.pop_back();
	else
		live.erase(live.begin() + (long)i);
	if (reuse && account) {
		size_t held = vt_live_bytes() - base_bytes;
		size_t bound = 2 * ((item + 8) * (peak + 2 * block) + 96 * (peak / block + 4) + 512);
		CHECK(held <= bound, "the pool holds %zu bytes for at most %zu outstanding chunks of %zu bytes (block size %zu)", held, peak, item, block);
	}
}

void PoolMachine::step(Src &s, size_t max_live)
{
	switch (s.w({5, 4, 2, 2, 1})) {
	case 0:
		if (live.size() < max_live) {
			s.note("alloc");
			alloc();
		}
		break;
	case 1:
		if (!live.empty()) {
			size_t i;
			switch (s.u(2)) {
			case 0: i = live.size() - 1; break;
			case 1: i = 0; break;
			default: i = s.u((uint32_t)live.size() - 1); break;
			}
			s.note("free #%zu of %zu", i, live.size());
			release(i);
		}
		break;
	case 2: { // many allocations, up to around a block boundary
		size_t n = s.chance(1, 2) ? s.u((uint32_t)(max_live / 2)) : block - (live.size() % block) + s.u(2);
		n = std::min(n, sat_sub(max_live, live.size()));
		s.note("alloc x%zu", n);
		for (size_t i = 0; i < n; ++i)
			alloc();
		break;
	}
	case 3: {
		size_t n = live.empty() ? 0 : s.chance(1, 2) ? live.size() : s.chance(1, 2) ? std::min(live.size(), block + s.u(2)) : s.u((uint32_t)live.size());
		int how = (int)s.u(2);
		uint64_t r = how == 2 ? s.u64() : 0;
		s.note("free x%zu (%s)", n, how == 0 ? "newest first" : how == 1 ? "oldest first" : "mixed");
		for (size_t i = 0; i < n; ++i) {
			r = mix64(r);
			release(how == 0 ? live.size() - 1 : how == 1 ? 0 : r % live.size());
		}
		break;
	}
	default: { // short cycles
		size_t n = 1 + s.u(20);
		s.note("alloc and free x%zu", n);
		for (size_t i = 0; i < n && live.size() < max_live; ++i) {
			alloc();
			release(live.size() - 1 - (live.size() > 1 && (i & 1)));
		}
		break;
	}
	}
	if (overlap && live.size() <= 64)
		verify_all("by an operation on other chunks");
}

void PoolMachine::destroy(Src &s)
{
	if (overlap)
		verify_all("at the end");
	shim_pool_destroy(p);
	s.note("destroy with %zu chunks outstanding", live.size());
	p = nullptr;
	if (reuse && account)
		CHECK(vt_live_bytes() == base_bytes, "destroying the pool left %zu bytes allocated", vt_live_bytes() - base_bytes);
	live.clear();
	at.clear();
	seen.clear();
	peak = 0;
}
