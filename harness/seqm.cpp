#include "seqm.h"

void compare_freed(const char *op, std::vector<void *> got, std::vector<void *> want)
{
	for (void *p : got)
		CHECK(p, "%s: the free function was called with NULL", op);
	std::sort(got.begin(), got.end());
	std::sort(want.begin(), want.end());
	for (size_t i = 0, j = 0; i < got.size() || j < want.size();) {
		if (j == want.size() || (i < got.size() && got[i] < want[j]))
			fail("%s: element %s was freed, but is not owned by the container any more or still in it", op, elem_str(got[i]).c_str());
		if (i == got.size() || want[j] < got[i])
			fail("%s: element %s was dropped without being freed", op, elem_str(want[j]).c_str());
		++i;
		++j;
	}
}

// ------------------------------------------------------------------ lists

void SeqMachine::create(Src &s, const SeqOps *o, int mask, bool free_fn, Shared *sh, int storage)
{
	ops = o;
	oracles = mask;
	has_free = free_fn;
	shared = sh;
	own_storage = storage == 2 ? s.chance(1, 3) : storage;
	if (own_storage) {
		st.create(ops->size, s);
		list = st.mem;
		ops->init(list, cx_cmp(), has_free ? elem_free : nullptr, shared ? shared->box.pool : nullptr);
	} else {
		list = ops->make(cx_cmp(), has_free ? elem_free : nullptr, shared ? shared->box.pool : nullptr);
	}
	s.note("%s = %s(%s, pool %s)", ops->name, own_storage ? "init" : "new", has_free ? "free" : "no free",
	       !shared ? "none" : shared->box.type == PoolBox::LIB ? "library" : shared->box.type == PoolBox::TRACK ? "user" : "none");
}

void SeqMachine::end_op(const char *name)
{
	cx.budget = UINT64_MAX;
	check_free(name);
	pool_check();
}

void SeqMachine::check_free(const char *op)
{
	n_freed += expect.size();
	if (!(oracles & O_FREE))
		return;
	if (!has_free)
		expect.clear();
	compare_freed(op, cx.freed, expect);
}

void SeqMachine::pool_check()
{
	if (!(oracles & O_POOL) || !shared || !shared->box.track())
		return;
	TrackPool *t = shared->box.track();
	CHECK(t->live == shared->expected_live, "%s: %zu nodes of the pool are in use for %zu stored elements", ops->name, t->live, shared->expected_live);
}

#define SHARED_ADD(n) do { if (shared) shared->expected_live += (n); } while (0)
#define SHARED_SUB(n) do { if (shared) shared->expected_live -= (n); } while (0)

void SeqMachine::init_again(Src &s)
{
	begin_op();
	for (auto &n : m)
		if (n.data)
			expect.push_back(n.data);
	SHARED_SUB(m.size());
	m.clear();
	if (own_storage) {
		s.note("free + init");
		ops->release(list);
		end_op("free");
		st.check("free");
		st.refill(s);
		ops->init(list, cx_cmp(), has_free ? elem_free : nullptr, shared ? shared->box.pool : nullptr);
	} else {
		s.note("destroy + new");
		ops->destroy(list);
		end_op("destroy");
		list = ops->make(cx_cmp(), has_free ? elem_free : nullptr, shared ? shared->box.pool : nullptr);
	}
}

void SeqMachine::destroy(Src &s)
{
	begin_op();
	for (auto &n : m)
		if (n.data)
			expect.push_back(n.data);
	SHARED_SUB(m.size());
	s.note("%s", own_storage ? "free" : "destroy");
	if (own_storage) {
		ops->release(list);
		end_op("free");
		st.destroy();
	} else {
		ops->destroy(list);
		end_op("destroy");
	}
	m.clear();
	list = nullptr;
}

bool SeqMachine::sorted() const
{
	for (size_t i = 1; i < m.size(); ++i)
		if (mcmp(m[i - 1].data, m[i].data) > 0)
			return false;
	return true;
}

void *SeqMachine::pick_data(Src &s)
{
	switch (s.w({12, !cx.native, has_free ? 0u : 2u})) {
	case 1:
		return nullptr;
	case 2:
		if (!m.empty()) // the same pointer again
			return m[s.u((uint32_t)m.size() - 1)].data;
		return elem_new((int32_t)s.u(12));
	default:
		return elem_new((int32_t)(s.chance(1, 8) ? s.u(1000000) : s.u(12)));
	}
}

void *SeqMachine::probe(Src &s)
{
	if (!m.empty() && !s.chance(1, 4)) {
		void *d = m[pick_index(s)].data;
		if (!d)
			return nullptr;
		// an equal element at another address, or the element itself
		if (has_free || cx.kind == INT || s.chance(3, 4))
			return elem_new(elem_val(d));
		return d;
	}
	return s.chance(1, 8) && !cx.native ? nullptr : elem_new((int32_t)s.u(16));
}

size_t SeqMachine::pick_index(Src &s)
{
	switch (s.w({2, 2, 3})) {
	case 0: return 0;
	case 1: return m.size() - 1;
	default: return s.u((uint32_t)m.size() - 1);
	}
}

void SeqMachine::do_append(void *d)
{
	begin_op();
	void *it = ops->append(list, d);
	CHECK(it, "append returned no item");
	m.push_back({it, d});
	SHARED_ADD(1);
	++n_insert;
	end_op("append");
}

void SeqMachine::do_prepend(void *d)
{
	begin_op();
	void *it = ops->prepend(list, d);
	CHECK(it, "prepend returned no item");
	m.insert(m.begin(), {it, d});
	SHARED_ADD(1);
	++n_insert;
	end_op("prepend");
}

// Requires a sorted list.
void SeqMachine::do_sorted(void *d)
{
	begin_op();
	void *it = ops->insert_sorted(list, d);
	CHECK(it, "sorted insertion returned no item");
	SHARED_ADD(1);
	// where is it?
	size_t pos = 0;
	void *w = ops->head(list);
	while (w && w != it && pos <= m.size()) {
		w = ops->next(w);
		++pos;
	}
	CHECK(w == it, "the item returned by a sorted insertion is not in the list");
	CHECK(pos == 0 || mcmp(m[pos - 1].data, d) <= 0, "sorted insertion placed %s behind the greater %s", elem_str(d).c_str(), elem_str(m[pos - 1].data).c_str());
	CHECK(pos == m.size() || mcmp(d, m[pos].data) <= 0, "sorted insertion placed %s in front of the smaller %s", elem_str(d).c_str(), elem_str(m[pos].data).c_str());
	if (pos > 0 && pos < m.size())
		++n_middle;
	if ((pos > 0 && !mcmp(m[pos - 1].data, d)) || (pos < m.size() && !mcmp(m[pos].data, d)))
		++n_dups;
	m.insert(m.begin() + pos, {it, d});
	++n_insert;
	end_op("insert_sorted");
}

void SeqMachine::do_pop()
{
	begin_op();
	void *d = ops->pop(list);
	if (m.empty()) {
		CHECK(!d, "pop of an empty list returned data");
	} else {
		if (oracles & (O_FORWARD | O_BACKWARD | O_SORTED | O_FREE | O_POOL))
			CHECK(d == m[0].data, "pop returned %s instead of the first element %s", elem_str(d).c_str(), elem_str(m[0].data).c_str());
		if (m.size() == 1)
			++n_tailchange;
		m.erase(m.begin());
		SHARED_SUB(1);
		++n_remove;
	}
	end_op("pop");
}

void SeqMachine::do_remove(size_t i)
{
	begin_op();
	if (m[i].data)
		expect.push_back(m[i].data);
	if (i + 1 == m.size())
		++n_tailchange;
	ops->remove(list, m[i].item);
	m.erase(m.begin() + i);
	SHARED_SUB(1);
	++n_remove;
	end_op("remove");
}

void SeqMachine::do_remove_data(void *d, bool all)
{
	begin_op();
	size_t before = m.size();
	bool stop = false;
	for (size_t i = 0; i < m.size() && !stop;) {
		if (mcmp(m[i].data, d) == 0) {
			if (m[i].data)
				expect.push_back(m[i].data);
			if (i + 1 == m.size())
				++n_tailchange;
			m.erase(m.begin() + i);
			stop = !all;
		} else {
			++i;
		}
	}
	ops->remove_by_data(list, d, all);
	SHARED_SUB(before - m.size());
	n_remove += before != m.size();
	end_op("remove_by_data");
}

void SeqMachine::do_clear()
{
	begin_op();
	for (auto &n : m)
		if (n.data)
			expect.push_back(n.data);
	ops->clear(list);
	SHARED_SUB(m.size());
	m.clear();
	end_op("clear");
}

void SeqMachine::do_find(Src &s)
{
	void *p = probe(s);
	begin_op();
	++n_probe;
	bool from_start = m.empty() || s.chance(1, 3);
	size_t at = from_start ? 0 : pick_index(s);
	void *off = from_start ? nullptr : m[at].item;
	size_t first = at;
	while (first < m.size() && mcmp(m[first].data, p) != 0)
		++first;
	s.note("find %s from %s -> %s", elem_str(p).c_str(), from_start ? "start" : std::to_string(at).c_str(),
	       first < m.size() ? std::to_string(first).c_str() : "nothing");
	void *it = ops->find(list, off, p);
	if (oracles & O_FIND) {
		if (first == m.size()) {
			CHECK(!it, "find returned an item although no element at or after the start equals %s", elem_str(p).c_str());
			s.label("find: miss");
		} else {
			CHECK(it, "find did not find %s, which is at position %zu of %zu (start %zu)", elem_str(p).c_str(), first, m.size(), at);
			if (!ops->is_double) {
				CHECK(it == m[first].item, "find did not return the first match");
			} else {
				size_t i = at;
				while (i < m.size() && m[i].item != it)
					++i;
				CHECK(i < m.size(), "find returned an item in front of its start or outside the list");
				CHECK(mcmp(m[i].data, p) == 0, "find returned an item with different data");
			}
			s.label("find: hit");
		}
	}
	budget(200 + 20 * m.size());
	bool c = ops->contains(list, p);
	if (oracles & O_FIND) {
		bool want = false;
		for (auto &n : m)
			want = want || mcmp(n.data, p) == 0;
		CHECK(c == want, "contains says %d for %s, which %s in the list", (int)c, elem_str(p).c_str(), want ? "is" : "is not");
	}
	end_op("find");
}

void SeqMachine::step(Src &s, int profile)
{
	bool sort_ok = sorted();
	uint32_t ins = m.size() >= max_len ? 0 : 1;
	uint32_t any = !m.empty();
	bool find = oracles & O_FIND;
	size_t op = profile == 1
		? s.w({ins * 10, ins * 1, ins * 1, 2, any * 3, any * 2, any, 1, 1, 1, any * 1, (uint32_t)has_free * any})
		: s.w({ins * (sort_ok && !(oracles & (O_FORWARD | O_FIND)) ? 3 : 0), ins * 6, ins * 5, 3, any * 5, any * 3, any * 2, 1, 1, find ? 14u : 1u, any * 2, any});
	switch (op) {
	case 0: {
		void *d = pick_data(s);
		if (!sort_ok) {
			s.note("append %s", elem_str(d).c_str());
			do_append(d);
			break;
		}
		s.note("insert_sorted %s", elem_str(d).c_str());
		do_sorted(d);
		break;
	}
	case 1: {
		void *d = pick_data(s);
		if (profile == 1 && !m.empty() && mcmp(m.back().data, d) > 0)
			d = m.back().data && cx.kind == OBJ ? elem_new(elem_val(m.back().data)) : m.back().data;
		if (has_free && d && !m.empty() && d == m.back().data)
			d = elem_new(elem_val(d));
		s.note("append %s", elem_str(d).c_str());
		do_append(d);
		break;
	}
	case 2: {
		void *d = pick_data(s);
		if (profile == 1 && !m.empty() && mcmp(d, m[0].data) > 0)
			d = m[0].data && cx.kind == OBJ ? elem_new(elem_val(m[0].data)) : m[0].data;
		if (has_free && d && !m.empty() && d == m[0].data)
			d = elem_new(elem_val(d));
		s.note("prepend %s", elem_str(d).c_str());
		do_prepend(d);
		break;
	}
	case 3:
		s.note("pop");
		do_pop();
		break;
	case 4: {
		size_t i = pick_index(s);
		s.note("remove item %zu of %zu", i, m.size());
		do_remove(i);
		break;
	}
	case 5:
	case 6: {
		void *d = probe(s);
		bool all = op == 6;
		s.note("remove_by_data %s %s", elem_str(d).c_str(), all ? "all" : "first");
		do_remove_data(d, all);
		break;
	}
	case 7:
		if (no_clear)
			break;
		s.note("clear");
		do_clear();
		break;
	case 8:
		if (!keep)
			init_again(s);
		break;
	case 9:
		do_find(s);
		break;
	case 10: {
		size_t i = pick_index(s);
		void *d = profile == 1 ? (m[i].data && cx.kind == OBJ ? elem_new(elem_val(m[i].data)) : m[i].data) : pick_data(s);
		if (has_free && d)
			d = elem_new(elem_val(d)); // owned once only
		s.note("set data of item %zu to %s", i, elem_str(d).c_str());
		begin_op();
		ops->set_data(m[i].item, d);
		m[i].data = d;
		end_op("data update");
		break;
	}
	default: {
		if (cx.native)
			break;
		size_t i = pick_index(s);
		auto fits = [this](size_t k) { // the list stays sorted with NULL there
			return (k == 0 || mcmp(m[k - 1].data, nullptr) <= 0) && (k + 1 == m.size() || mcmp(nullptr, m[k + 1].data) <= 0);
		};
		if (profile == 1 && !fits(i)) {
			i = 0;
			if (!fits(i))
				i = m.size() - 1;
			if (!fits(i))
				break;
		}
		s.note("free data of item %zu", i);
		begin_op();
		if (m[i].data)
			expect.push_back(m[i].data);
		ops->free_data(list, m[i].item);
		m[i].data = nullptr;
		end_op("item_free_data");
	}
	}
}

void SeqMachine::check()
{
	size_t n = m.size();
	if (oracles & (O_FORWARD | O_BACKWARD | O_SORTED | O_POOL)) {
		CHECK(ops->count(list) == n, "count is %zu instead of %zu", ops->count(list), n);
		CHECK(ops->empty(list) == (n == 0), "emptiness is wrong for %zu elements", n);
		CHECK(ops->f_count(list) == n, "the count field is wrong");
		void *it = ops->head(list);
		CHECK(it == ops->f_head(list), "head() and the head field differ");
		for (size_t i = 0; i < n; ++i) {
			CHECK(it, "walking forward ends after %zu of %zu elements", i, n);
			CHECK(it == m[i].item, "walking forward reaches a wrong item at position %zu of %zu", i, n);
			CHECK(ops->data(it) == m[i].data, "position %zu of %zu holds %s instead of %s", i, n, elem_str(ops->data(it)).c_str(), elem_str(m[i].data).c_str());
			it = ops->next(it);
		}
		CHECK(!it, "walking forward does not end after %zu elements", n);
	}
	if ((oracles & (O_BACKWARD | O_SORTED | O_POOL)) && ops->is_double) {
		void *it = ops->tail(list);
		CHECK(it == ops->f_tail(list), "tail() and the tail field differ");
		for (size_t i = n; i-- > 0;) {
			CHECK(it, "walking backward ends after %zu of %zu elements", n - 1 - i, n);
			CHECK(it == m[i].item, "walking backward reaches a wrong item at position %zu of %zu", i, n);
			CHECK(ops->data(it) == m[i].data, "position %zu holds wrong data on the way back", i);
			it = ops->prev(it);
		}
		CHECK(!it, "walking backward does not end after %zu elements", n);
	}
	if (oracles & O_FIND) { // searching changes nothing
		void *it = ops->head(list);
		for (size_t i = 0; i < n; ++i) {
			CHECK(it == m[i].item && ops->data(it) == m[i].data, "the list changed at position %zu", i);
			it = ops->next(it);
		}
		CHECK(!it && ops->count(list) == n, "the list changed");
	}
	if (own_storage)
		st.check(ops->name);
}

// ------------------------------------------------------------------ stack, queue, message queue

void LineMachine::create(Src &s, const LineOps *o, int mask, bool free_fn, Shared *sh, int storage)
{
	ops = o;
	oracles = mask;
	has_free = free_fn;
	shared = sh;
	own_storage = storage == 2 ? s.chance(1, 3) : storage;
	if (own_storage) {
		st.create(ops->size, s);
		q = st.mem;
		ops->init(q, cx_cmp(), has_free ? elem_free : nullptr, shared ? shared->box.pool : nullptr);
	} else {
		q = ops->make(cx_cmp(), has_free ? elem_free : nullptr, shared ? shared->box.pool : nullptr);
	}
	s.note("%s = %s(%s, pool %s)", ops->name, own_storage ? "init" : "new", has_free ? "free" : "no free",
	       !shared ? "none" : shared->box.type == PoolBox::LIB ? "library" : shared->box.type == PoolBox::TRACK ? "user" : "none");
}

void LineMachine::end_op(const char *name)
{
	cx.budget = UINT64_MAX;
	n_freed += expect.size();
	if (oracles & O_FREE) {
		if (!has_free)
			expect.clear();
		compare_freed(name, cx.freed, expect);
	}
	if ((oracles & O_POOL) && shared && shared->box.track())
		CHECK(shared->box.track()->live == shared->expected_live, "%s: %zu nodes of the pool are in use for %zu stored elements",
		      ops->name, shared->box.track()->live, shared->expected_live);
	if (own_storage)
		st.check(ops->name);
}

void LineMachine::init_again(Src &s)
{
	begin_op();
	for (void *d : m)
		if (d)
			expect.push_back(d);
	SHARED_SUB(m.size());
	m.clear();
	if (own_storage) {
		s.note("free + init");
		ops->release(q);
		end_op("free");
		st.refill(s);
		ops->init(q, cx_cmp(), has_free ? elem_free : nullptr, shared ? shared->box.pool : nullptr);
	} else {
		s.note("destroy + new");
		ops->destroy(q);
		end_op("destroy");
		q = ops->make(cx_cmp(), has_free ? elem_free : nullptr, shared ? shared->box.pool : nullptr);
	}
}

void LineMachine::destroy(Src &s)
{
	begin_op();
	for (void *d : m)
		if (d)
			expect.push_back(d);
	SHARED_SUB(m.size());
	m.clear();
	s.note("%s", own_storage ? "free" : "destroy");
	if (own_storage) {
		ops->release(q);
		end_op("free");
		st.destroy();
	} else {
		ops->destroy(q);
		end_op("destroy");
	}
	q = nullptr;
}

void LineMachine::do_push(void *d)
{
	begin_op();
	ops->push(q, d);
	if (ops->fifo)
		m.push_back(d);
	else
		m.insert(m.begin(), d);
	SHARED_ADD(1);
	++n_push;
	if (!d)
		++n_null;
	if (m.size() > max_len)
		max_len = m.size();
	end_op("push");
}

// Where the element goes: a variable with something in it.
void **LineMachine::destination(Src &s, void *&local, void *marker)
{
	void **out = !has_free && s.chance(1, 6) ? &slot : &local;
	*out = marker;
	if (s.chance(1, 10))
		*out = m.empty() || s.chance(1, 2) ? nullptr : m[s.u((uint32_t)m.size() - 1)];
	return out;
}

void LineMachine::do_pop(Src &s)
{
	if (ops->async && m.empty() && !ops->pop_timeout)
		return;
	begin_op();
	int marker;
	void *local, **dst = destination(s, local, &marker);
	bool ok;
	if (ops->async && (m.empty() || s.chance(1, 3)))
		ok = ops->pop_timeout(q, dst, 1 + s.u(2500)); // a blocking pop of an empty queue would never return
	else
		ok = ops->pop(q, dst);
	void *out = *dst;
	if (oracles & (O_LINE | O_FREE | O_POOL)) {
		CHECK(ok == !m.empty(), "pop reported %s with %zu elements stored", ok ? "success" : "failure", m.size());
		if (ok)
			CHECK(out == m[0], "pop returned %s instead of %s", out == &marker ? "nothing" : elem_str(out).c_str(), elem_str(m[0]).c_str());
	}
	if (!m.empty()) {
		m.erase(m.begin());
		SHARED_SUB(1);
		++n_pop;
		if (m.empty())
			++n_wrap;
	} else {
		++n_empty;
	}
	end_op("pop");
}

void LineMachine::do_head(Src &s)
{
	if (!ops->head)
		return;
	s.note("head");
	begin_op();
	int marker;
	void *local, **dst = destination(s, local, &marker);
	bool ok = ops->head(q, dst);
	void *out = *dst;
	if (oracles & O_LINE) {
		CHECK(ok == !m.empty(), "head reported %s with %zu elements stored", ok ? "success" : "failure", m.size());
		if (ok)
			CHECK(out == m[0], "head returned %s instead of %s", out == &marker ? "nothing" : elem_str(out).c_str(), elem_str(m[0]).c_str());
	}
	end_op("head");
}

void LineMachine::do_clear()
{
	begin_op();
	for (void *d : m)
		if (d)
			expect.push_back(d);
	ops->clear(q);
	SHARED_SUB(m.size());
	m.clear();
	end_op("clear");
}

void LineMachine::check()
{
	if (oracles & (O_LINE | O_POOL))
		CHECK(ops->count(q) == m.size(), "count is %zu instead of %zu", ops->count(q), m.size());
}

void LineMachine::step(Src &s)
{
	switch (s.w({9, 8, 3, 1, 1})) {
	case 0: {
		void *d = s.chance(1, 8) ? nullptr : !has_free && !m.empty() && s.chance(1, 8) ? m[s.u((uint32_t)m.size() - 1)] : elem_new((int32_t)s.u(50));
		if (!has_free && (oracles & O_LINE) && s.chance(1, 40))
			d = &slot;
		s.note("push %s", d == &slot ? "the address of a destination" : elem_str(d).c_str());
		do_push(d);
		break;
	}
	case 1:
		s.note("pop (%zu stored)", m.size());
		do_pop(s);
		break;
	case 2:
		do_head(s);
		break;
	case 3:
		if (no_clear)
			break;
		s.note("clear (%zu stored)", m.size());
		do_clear();
		break;
	default:
		if (!keep && s.chance(1, 3))
			init_again(s);
	}
	check();
}
