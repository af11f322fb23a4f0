// C01-C08: lists, stacks and queues.
#include "seqm.h"
#include "mapm.h"

// Beyond 16 bits: more than 65536 elements, then a few operations.
static void seq_scale(Src &s, const SeqOps *ops, int oracles, int profile)
{
	cx_reset();
	cx.kind = s.chance(1, 2) ? OBJ : INT;
	cx.order = (int)s.u(1);
	Shared sh;
	sh.box.draw(s, ops->item_size, {2, 1, 0});
	SeqMachine a;
	a.create(s, ops, oracles, s.chance(1, 2) && cx.kind != INT, &sh, 2);
	a.max_len = SIZE_MAX;
	size_t n = 65500 + s.u(5000);
	s.note("%zu elements", n);
	bool up = cx.order == 0;
	for (size_t i = 0; i < n; ++i)
		a.do_append(elem_new((int32_t)(up ? i : n - i)));
	a.check();
	while (s.more(8)) {
		a.step(s, profile);
		a.check();
	}
	s.label("more than 65500 elements");
	s.nontrivial();
	a.destroy(s);
	sh.box.destroy();
	vt_check_all();
}

// Every size up to a limit is seen, with operations at it.
static void seq_sizes(Src &s, SeqMachine &a, int profile)
{
	uint32_t n = s.range(40, s.chance(1, 8) ? 4200 : 1100);
	s.note("up to %u elements, with operations in between", n);
	size_t len = a.max_len;
	a.max_len = SIZE_MAX;
	a.keep = a.no_clear = true;
	uint32_t often = s.range(1, 4);
	for (uint32_t i = 0; i < 3 * n && a.m.size() < n; ++i) {
		void *d = elem_new((int32_t)(s.u(4) ? s.u(1000) : s.u(40)));
		if (profile == 1)
			a.do_sorted(d);
		else if (i & 7)
			a.do_append(d);
		else
			a.do_prepend(d);
		if (s.chance(1, often)) {
			a.step(s, profile);
			a.check();
		}
	}
	a.check();
	a.keep = a.no_clear = false;
	a.max_len = len;
	s.label("every size up to a limit");
}

static void line_sizes(Src &s, LineMachine &a)
{
	uint32_t n = s.range(40, s.chance(1, 8) ? 4200 : 1100);
	s.note("up to %u elements and down, with operations in between", n);
	a.keep = a.no_clear = true;
	for (uint32_t i = 0; i < 3 * n && a.m.size() < n; ++i) {
		a.do_push(elem_new((int32_t)i));
		if (s.chance(1, 2))
			a.step(s);
	}
	while (a.m.size() > 20) {
		a.do_pop(s);
		if (s.chance(1, 3))
			a.step(s);
	}
	a.keep = a.no_clear = false;
	s.label("every size up to a limit");
}

// Emptied or ended at every size up to a limit.
static void put(SeqMachine &a, void *d) { a.do_append(d); }
static void put(LineMachine &a, void *d) { a.do_push(d); }
template <class M> static void drop_sizes(Src &s, M &a)
{
	uint32_t n = s.range(40, 1100);
	bool clear = s.chance(2, 3);
	s.note("%s at every size up to %u", clear ? "cleared" : "ended and begun again", n);
	std::string *trace = s.trace;
	s.trace = nullptr;
	for (uint32_t k = 0; k < n; ++k) {
		a.do_clear();
		for (uint32_t i = 0; i < k; ++i)
			put(a, elem_new((int32_t)i));
		if (clear)
			a.do_clear();
		else
			a.init_again(s);
		a.check();
	}
	s.trace = trace;
	s.label("dropped at every size");
}

static void run_seq(Src &s, const SeqOps *ops, int oracles, int profile, uint32_t mean, size_t big)
{
	bool long_history = s.chance(1, 25000);
	if (!long_history && s.chance(1, 20000)) {
		seq_scale(s, ops, oracles, profile);
		return;
	}
	cx_reset();
	cx_draw(s, !(oracles & O_SORTED) || s.chance(1, 4));
	Shared sh;
	sh.box.draw(s, ops->item_size, {3, 1, 1});
	SeqMachine a;
	bool free_fn = s.chance(1, 2) && cx.kind != INT;
	a.create(s, ops, oracles, free_fn, &sh, 2);
	a.max_len = s.w({7, 2, 1}) == 2 ? big : 4 + s.u(36);
	// some cases start with many elements
	if (a.max_len == big) {
		size_t n = s.u((uint32_t)big - 1);
		int how = (int)s.w({1, 1, oracles & O_SORTED ? 2u : 0u});
		s.note("%zu elements, %s", n, how == 0 ? "ascending appends" : how == 1 ? "prepends" : "sorted insertions");
		for (size_t i = 0; i < n; ++i) {
			void *d = elem_new(cx.order != (how == 1) ? (int32_t)(n - i) : (int32_t)i);
			if (how == 0)
				a.do_append(d);
			else if (how == 1)
				a.do_prepend(d);
			else
				a.do_sorted(elem_new((int32_t)s.u(60)));
		}
	}
	a.check();
	if (s.chance(1, 4000))
		seq_sizes(s, a, profile);
	if (s.chance(1, 30000))
		drop_sizes(s, a);
	unsigned ops_done = 0;
	while (s.more(mean)) {
		a.step(s, profile);
		a.check();
		++ops_done;
	}
	if (long_history) {
		a.keep = true;
		a.max_len = std::min<size_t>(a.max_len, 30);
		prolong(s, [&](Src &t) {
			a.step(t, profile);
			a.check();
		});
	}
	// the list is still usable at both ends
	if (profile == 0) {
		a.do_append(elem_new(5));
		a.check();
		a.do_prepend(elem_new(6));
		a.check();
	}
	if (a.n_tailchange)
		s.label("last element removed");
	if (sh.box.type != PoolBox::NONE)
		s.label("with pool");
	if (a.own_storage)
		s.label("caller storage");
	if (a.m.size() > 40)
		s.label("over 40 elements at the end");
	if (oracles & O_SORTED) {
		if (a.n_middle)
			s.label("insertion in the middle");
		if (a.n_dups)
			s.label("insertion among equals");
		if (a.n_middle && a.n_insert >= 4)
			s.nontrivial();
	} else if (oracles & O_FIND) {
		if (a.n_probe >= 2 && a.n_insert >= 3)
			s.nontrivial();
	} else if (a.n_remove >= 1 && a.n_insert >= 3 && ops_done >= 5) {
		s.nontrivial();
	}
	a.destroy(s);
	sh.box.destroy();
	vt_check_all();
}

static void c01(Src &s) { run_seq(s, &shim_slist, O_FORWARD, 0, 40, 300); }
static void c02(Src &s) { run_seq(s, &shim_list, O_FORWARD | O_BACKWARD, 0, 40, 300); }
static void c03(Src &s) { run_seq(s, s.chance(1, 2) ? &shim_list : &shim_slist, O_SORTED, 1, 40, 200); }
static void c04(Src &s) { run_seq(s, s.chance(1, 2) ? &shim_list : &shim_slist, O_FIND, 0, 30, 120); }

static void line_scale(Src &s, const LineOps *ops, int oracles)
{
	cx_reset();
	cx.kind = s.chance(1, 2) ? OBJ : INT;
	Shared sh;
	sh.box.draw(s, ops->item_size, {2, 1, 0});
	LineMachine a;
	a.create(s, ops, oracles, s.chance(1, 2) && cx.kind != INT, &sh, 2);
	size_t n = 65500 + s.u(5000);
	s.note("push x%zu", n);
	for (size_t i = 0; i < n; ++i) {
		a.do_push(elem_new((int32_t)i));
		a.check();
	}
	while (s.more(8))
		a.step(s);
	s.note("drain");
	while (!a.m.empty()) {
		a.do_pop(s);
		a.check();
	}
	if (!ops->async)
		a.do_pop(s);
	s.label("more than 65500 elements");
	s.nontrivial();
	a.destroy(s);
	sh.box.destroy();
	vt_check_all();
}

static void run_line(Src &s, const LineOps *ops, int oracles, uint32_t mean)
{
	bool long_history = s.chance(1, 25000);
	if (!long_history && s.chance(1, 20000)) {
		line_scale(s, ops, oracles);
		return;
	}
	cx_reset();
	cx_draw(s, true);
	Shared sh;
	sh.box.draw(s, ops->item_size, {2, 1, 1});
	LineMachine a;
	a.create(s, ops, oracles, s.chance(1, 2) && cx.kind != INT, &sh, 2);
	while (s.more(mean)) {
		a.step(s);
		// phases: drain or fill quickly now and then
		if (s.chance(1, 12)) {
			uint32_t n = s.u(40);
			s.note("push x%u", n);
			for (uint32_t i = 0; i < n; ++i)
				a.do_push(elem_new((int32_t)i));
		} else if (s.chance(1, 12)) {
			size_t n = s.chance(1, 2) ? a.m.size() : s.u((uint32_t)a.m.size());
			s.note("pop x%zu", n);
			for (size_t i = 0; i < n; ++i)
				a.do_pop(s);
		}
	}
	if (long_history) {
		a.keep = true;
		prolong(s, [&](Src &t) {
			while (a.m.size() > 50)
				a.do_pop(t);
			a.step(t);
		});
	}
	if (s.chance(1, 1500))
		line_sizes(s, a);
	if (s.chance(1, 30000))
		drop_sizes(s, a);
	s.note("drain");
	while (!a.m.empty())
		a.do_pop(s);
	a.do_head(s);
	if (!ops->async)
		a.do_pop(s);
	a.check();
	if (a.n_wrap)
		s.label("ran empty");
	if (a.n_null)
		s.label("NULL element");
	if (a.n_empty)
		s.label("pop of empty");
	if (a.max_len >= 10)
		s.label("10 or more elements at once");
	if (a.n_push >= 3 && a.n_pop >= 3 && a.max_len >= 2)
		s.nontrivial();
	a.destroy(s);
	sh.box.destroy();
	vt_check_all();
}

static void c05(Src &s) { run_line(s, &shim_stack, O_LINE, 40); }
static void c06(Src &s) { run_line(s, &shim_queue, O_LINE, 40); }

static void c07(Src &s)
{
	cx_reset();
	cx_draw(s, false);
	cx.kind = s.chance(1, 4) ? STR : OBJ;
	cx_native(s);
	cx.watch_freed = true;
	size_t which = s.w({2, 2, 1, 1, 1});
	bool free_fn = !s.chance(1, 6);
	Shared sh;
	unsigned freed = 0, ins = 0;
	if (which < 2) {
		const SeqOps *ops = which ? &shim_list : &shim_slist;
		sh.box.draw(s, ops->item_size, {3, 1, 1});
		SeqMachine a;
		a.create(s, ops, O_FREE, free_fn, &sh, 2);
		a.max_len = 4 + s.u(30);
		int profile = s.chance(1, 4);
		while (s.more(30))
			a.step(s, profile);
		if (s.chance(1, 25000)) {
			a.keep = true;
			prolong(s, [&](Src &t) { a.step(t, profile); });
		}
		if (s.chance(1, 6000))
			seq_sizes(s, a, profile);
		if (s.chance(1, 30000))
			drop_sizes(s, a);
		ins = a.n_insert;
		a.destroy(s);
		freed = a.n_freed;
		s.label(which ? "doubly-linked list" : "singly-linked list");
	} else {
		const LineOps *ops = which == 2 ? &shim_stack : which == 3 ? &shim_queue : &shim_async;
		sh.box.draw(s, ops->item_size, {3, 1, 1});
		LineMachine a;
		a.create(s, ops, O_FREE, free_fn, &sh, 2);
		while (s.more(30))
			a.step(s);
		if (s.chance(1, 25000)) {
			a.keep = true;
			prolong(s, [&](Src &t) {
				while (a.m.size() > 50)
					a.do_pop(t);
				a.step(t);
			});
		}
		if (s.chance(1, 6000))
			line_sizes(s, a);
		if (s.chance(1, 30000))
			drop_sizes(s, a);
		ins = a.n_push;
		a.destroy(s);
		freed = a.n_freed;
		s.label(ops->name);
	}
	sh.box.destroy();
	vt_check_all();
	if (!free_fn)
		s.label("no free function");
	if (freed >= 2 && ins >= 3)
		s.nontrivial();
}

void c08_tree(Src &s, Shared *sh, unsigned *ops, bool *removed);

static void c08(Src &s)
{
	if (deep_tree(s, 2))
		return;
	cx_reset();
	cx_draw(s, false);
	Shared sh;
	bool tree = s.chance(1, 4);
	if (tree) {
		sh.box.draw(s, shim_rbtree.node_size, {0, 1, 3});
		unsigned n = 0;
		bool removed = false;
		c08_tree(s, &sh, &n, &removed);
		s.label("red-black tree");
		if (n >= 4 && removed)
			s.nontrivial();
	} else {
		size_t item = std::max(shim_slist.item_size, shim_list.item_size);
		bool seq = s.chance(1, 2);
		bool dbl = s.chance(1, 2);
		bool mixed = s.chance(1, 3); // different kinds of containers on one pool
		sh.box.draw(s, mixed ? item : seq && dbl ? shim_list.item_size : shim_slist.item_size, {0, 1, 3});
		SeqMachine a[2];
		LineMachine b[3];
		size_t na = mixed ? 2 : seq ? 1 + s.u(1) : 0, nb = mixed ? 1 + s.u(2) : seq ? 0 : 1 + s.u(1);
		size_t line_kind = s.u(2);
		const LineOps *L[] = {&shim_stack, &shim_queue, &shim_async};
		int mask = O_POOL;
		for (size_t i = 0; i < na; ++i) {
			a[i].create(s, (mixed ? i == 1 : dbl) ? &shim_list : &shim_slist, mask, s.chance(1, 2), &sh, 2);
			a[i].max_len = 4 + s.u(40);
		}
		for (size_t i = 0; i < nb; ++i)
			b[i].create(s, L[(line_kind + (mixed ? i : 0)) % 3], mask, s.chance(1, 2), &sh, 2);
		auto step = [&](Src &t) {
			size_t k = na + nb > 1 ? t.u((uint32_t)(na + nb - 1)) : 0;
			if (na + nb > 1)
				t.note("[%zu]", k);
			if (k < na)
				a[k].step(t, 0);
			else
				b[k - na].step(t);
			for (size_t i = 0; i < na; ++i)
				a[i].check();
			for (size_t i = 0; i < nb; ++i)
				b[i].check();
		};
		while (s.more(40)) {
			step(s);
			if (sh.box.track())
				track_check(sh.box.track());
		}
		if (s.chance(1, 25000)) {
			for (auto &x : a)
				x.keep = true;
			for (auto &x : b)
				x.keep = true;
			prolong(s, [&](Src &t) {
				step(t);
				for (size_t i = 0; i < nb; ++i)
					while (b[i].m.size() > 50)
						b[i].do_pop(t);
			});
			if (sh.box.track())
				track_check(sh.box.track());
		}
		if (na && s.chance(1, 6000)) {
			seq_sizes(s, a[0], 0);
			if (sh.box.track())
				track_check(sh.box.track());
		}
		if (nb && s.chance(1, 6000))
			line_sizes(s, b[0]);
		if (na && s.chance(1, 30000))
			drop_sizes(s, a[0]);
		unsigned ins = 0, rem = 0;
		for (size_t i = 0; i < na; ++i) {
			ins += a[i].n_insert;
			rem += a[i].n_remove;
			a[i].destroy(s);
		}
		for (size_t i = 0; i < nb; ++i) {
			ins += b[i].n_push;
			rem += b[i].n_pop;
			// a queue's remaining elements are popped in order
			b[i].destroy(s);
		}
		if (na + nb > 1)
			s.label("shared pool");
		if (sh.box.track())
			s.label("user-defined pool");
		if (ins >= 3 && rem >= 1)
			s.nontrivial();
	}
	if (sh.box.track()) {
		TrackPool *t = sh.box.track();
		CHECK(t->live == 0, "%zu nodes were not given back to the pool at destruction", t->live);
	}
	sh.box.destroy();
	vt_check_all();
}

PROPERTY(C01, c01, "an operation history on one singly-linked list; non-trivial: at least 3 insertions, 1 removal and 5 operations", 800000, 12000000, 200000, 6000000);
PROPERTY(C02, c02, "an operation history on one doubly-linked list; non-trivial: at least 3 insertions, 1 removal and 5 operations", 800000, 12000000, 200000, 6000000);
PROPERTY(C03, c03, "a history of sorted insertions and order-preserving operations on one list; non-trivial: at least 4 insertions, one of them in the middle", 750000, 12000000, 150000, 5500000);
PROPERTY(C04, c04, "a history on one list with many searches; non-trivial: at least 3 insertions and 2 searches", 800000, 12000000, 250000, 6000000);
PROPERTY(C05, c05, "a history on one stack; non-trivial: at least 3 pushes and 3 pops, 2 elements at once", 800000, 12000000, 150000, 6000000);
PROPERTY(C06, c06, "a history on one queue; non-trivial: at least 3 pushes and 3 pops, 2 elements at once", 800000, 12000000, 150000, 6000000);
PROPERTY(C07, c07, "a history on one container ending in its destruction; non-trivial: at least 3 insertions and 2 elements dropped by the container", 800000, 12000000, 250000, 6000000);
PROPERTY(C08, c08, "a history on one or several containers sharing a pool; non-trivial: at least 3 insertions and 1 removal", 500000, 12000000, 100000, 4500000);
