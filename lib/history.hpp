// Histories: many iterators, ranges and results of several patterns, used in an arbitrary order, against lists of spans.
#pragma once
#include "abi.hpp"
#include <atomic>
#include <cstdio>
#include <list>
#include <memory>
#include <optional>
#include <random>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

namespace hist {

using Items = std::vector<std::vector<VSpan>>;
// driver_history.cpp: subjects of a pattern and what an operation gives on them, by the model
void data(const std::u32string & pattern, VKind kind, int flags, unsigned long seed, int count, unsigned max, std::vector<std::u32string> & subjects, std::vector<Items> & expected);

struct Step { int pool, code, a, b, c; };
constexpr int CODES = 17;

struct Pool {
	virtual ~Pool() = default;
	virtual const char * step(const Step &) = 0;   // null: as expected
	virtual const char * name() const = 0;
	long done = 0, late = 0;       // steps which had something to do; reads of something made at least 20 steps ago
};

struct NoPool: Pool {
	const char * step(const Step &) override { return nullptr; }
	const char * name() const override { return "none"; }
};

template <typename R, typename It, size_t... I> inline bool same_item(const R & r, It base, const std::vector<VSpan> & e, std::index_sequence<I...>) {
	auto one = [&](const auto & c, const VSpan & s) { return static_cast<bool>(c) == s.m && (!s.m || (std::distance(base, c.begin()) == s.b && std::distance(base, c.end()) == s.e)); };
	return (one(r.template get<I>(), e[I]) && ...);
}
template <typename R, typename It> inline bool same_item(const R & r, It base, const std::vector<VSpan> & e) {
	return e.size() == R::count() && same_item(r, base, e, std::make_index_sequence<R::count()>());
}

constexpr int SLOTS = 5;

// F: subject -> range object (by value); T: the subject's container
template <typename C, typename MakeRange> struct IterPool: Pool {
	using Range = decltype(std::declval<MakeRange>()(std::declval<const C &>()));
	using It = decltype(std::declval<const Range &>().begin());
	using Value = std::remove_cv_t<std::remove_reference_t<decltype(*std::declval<const It &>())>>;
	struct At { int subject; int index; };
	const std::vector<C> & subjects;
	const std::vector<Items> & expected;
	MakeRange make;
	const char * nm;
	std::vector<std::optional<std::pair<Range, int>>> ranges;
	std::vector<std::pair<It, At>> its;       // index -1: made by its default constructor
	std::vector<std::optional<std::pair<Value, At>>> values;
	long clock = 0;
	std::vector<long> born;

	IterPool(const std::vector<C> & s, const std::vector<Items> & e, MakeRange m, const char * n): subjects(s), expected(e), make(m), nm(n), ranges(SLOTS), values(SLOTS), born(SLOTS) {
		for (int i = 0; i < SLOTS; ++i) its.emplace_back(It{}, At{0, -1});
	}
	const char * name() const override { return nm; }
	bool over(const At & a) const { return a.index < 0 || a.index >= static_cast<int>(expected[static_cast<size_t>(a.subject)].size()); }
	const char * look(const It & it, const At & a) {
		const auto end = Range(make(subjects[static_cast<size_t>(a.subject)])).end();
		bool o = over(a);
		if ((it == end) != o || (it != end) == o || (end == it) != o || (end != it) == o) return "an iterator is at the end or not, other than expected";
		if (o) return nullptr;
		if (!same_item(*it, subjects[static_cast<size_t>(a.subject)].begin(), expected[static_cast<size_t>(a.subject)][static_cast<size_t>(a.index)])) return "an iterator shows another result";
		return nullptr;
	}
	const char * step(const Step & s) override {
		++clock;
		auto & it = its[static_cast<size_t>(s.a)];
		auto & other = its[static_cast<size_t>(s.b)];
		auto & rg = ranges[static_cast<size_t>(s.c)];
		++done;
		switch (s.code) {
			case 0: { int k = s.a * SLOTS + s.b; rg.emplace(make(subjects[static_cast<size_t>(k) % subjects.size()]), k % static_cast<int>(subjects.size())); return nullptr; }
			case 1: rg.reset(); return nullptr;
			case 2: case 3: if (!rg) { --done; return nullptr; } it = {rg->first.begin(), At{rg->second, 0}}; born[static_cast<size_t>(s.a)] = clock; return look(it.first, it.second);
			case 4: other = it; return look(other.first, other.second);
			case 5: case 6: {
				if (it.second.index < 0) { --done; return nullptr; }
				It & r = ++it.first;
				if (&r != &it.first) return "++it is not it";
				if (!over(it.second)) ++it.second.index;
				return nullptr;
			}
			case 7: {
				if (it.second.index < 0) { --done; return nullptr; }
				const It before = it.first++;
				At was = it.second;
				if (!over(it.second)) ++it.second.index;
				const char * w = look(before, was);
				if (&it != &other) other = {before, was};   // what it gave is used further
				return w;
			}
			case 8: case 9: case 10: if (clock - born[static_cast<size_t>(s.a)] >= 20 && it.second.index >= 0) ++late; return look(it.first, it.second);
			case 11: {
				if (it.second.index < 0 || other.second.index < 0 || it.second.subject != other.second.subject) { --done; return nullptr; }
				bool e = it.second.index == other.second.index;
				if ((it.first == other.first) != e || (it.first != other.first) == e) return "iterators of one range are equal or not, other than expected";
				return nullptr;
			}
			case 12: { using std::swap; swap(it, other); return look(it.first, it.second); }
			case 13: if (over(it.second)) { --done; return nullptr; } values[static_cast<size_t>(s.c)].emplace(*it.first, it.second); return nullptr;
			case 14: {
				auto & v = values[static_cast<size_t>(s.c)];
				if (!v) { --done; return nullptr; }
				++late;
				if (!same_item(v->first, subjects[static_cast<size_t>(v->second.subject)].begin(), expected[static_cast<size_t>(v->second.subject)][static_cast<size_t>(v->second.index)])) return "a copy of a result has changed";
				auto & w = values[static_cast<size_t>(s.a)];
				if (w) w->first = v->first, w->second = v->second;
				return nullptr;
			}
			case 15: it = {It{}, At{0, -1}}; return look(it.first, it.second);
			case 16: { // a whole pass in between, by a range of its own
				size_t k = static_cast<size_t>(s.a * SLOTS + s.b) % subjects.size(), n = 0;
				for (const auto & r: make(subjects[k])) {
					if (n >= expected[k].size() || !same_item(r, subjects[k].begin(), expected[k][n])) return "a pass shows another result";
					++n;
				}
				return n == expected[k].size() ? nullptr : "a pass has another length";
			}
		}
		return nullptr;
	}
};

// single operations: results are kept, copied, assigned and read later
template <typename C, typename Call> struct ResultPool: Pool {
	using Value = decltype(std::declval<Call>()(std::declval<const C &>()));
	const std::vector<C> & subjects;
	const std::vector<Items> & expected;
	Call call;
	const char * nm;
	std::vector<std::pair<Value, int>> values;   // -1: default constructed
	ResultPool(const std::vector<C> & s, const std::vector<Items> & e, Call m, const char * n): subjects(s), expected(e), call(m), nm(n) { for (int i = 0; i < SLOTS; ++i) values.emplace_back(Value{}, -1); }
	const char * name() const override { return nm; }
	const char * look(const Value & v, int k) const {
		if (k < 0) return static_cast<bool>(v) ? "a default constructed result matches" : nullptr;
		return same_item(v, subjects[static_cast<size_t>(k)].begin(), expected[static_cast<size_t>(k)][0]) ? nullptr : "a result is another one";
	}
	const char * step(const Step & s) override {
		auto & v = values[static_cast<size_t>(s.a)];
		auto & w = values[static_cast<size_t>(s.b)];
		++done;
		switch (s.code % 5) {
			case 0: case 1: { int k = (s.b * SLOTS + s.c) % static_cast<int>(subjects.size()); v = {call(subjects[static_cast<size_t>(k)]), k}; return look(v.first, k); }
			case 2: w = v; return look(w.first, w.second);
			case 3: ++late; return look(v.first, v.second);
			case 4: { using std::swap; Value x(std::move(v.first)); v.first = std::move(w.first); w.first = std::move(x); swap(v.second, w.second); return look(v.first, v.second); }
		}
		return nullptr;
	}
};

template <typename C, typename F> std::unique_ptr<Pool> iterations(const std::vector<C> & s, const std::vector<Items> & e, F f, const char * n) { return s.empty() ? std::unique_ptr<Pool>(new NoPool) : std::unique_ptr<Pool>(new IterPool<C, F>(s, e, f, n)); }
template <typename C, typename F> std::unique_ptr<Pool> results(const std::vector<C> & s, const std::vector<Items> & e, F f, const char * n) { return s.empty() ? std::unique_ptr<Pool>(new NoPool) : std::unique_ptr<Pool>(new ResultPool<C, F>(s, e, f, n)); }

template <typename C> inline C to_container(const std::u32string & s) { C c; for (auto x: s) c.push_back(static_cast<typename C::value_type>(x)); return c; }

template <typename C> struct Data {
	std::vector<C> subjects;
	std::vector<Items> expected;
	Data(const std::u32string & pattern, VKind kind, int flags, unsigned long seed, int count) {
		std::vector<std::u32string> s;
		data(pattern, kind, flags, seed, count, sizeof(typename C::value_type) == 1 ? 127 : 0xD7FF, s, expected);
		for (auto & x: s) subjects.push_back(to_container<C>(x));
	}
};

using Pools = std::vector<std::unique_ptr<Pool>>;
struct Fail { int at = -1; const char * what = nullptr; const char * pool = ""; };

template <typename Make> inline Fail run(const Make & make, const std::vector<Step> & h, long * done = nullptr, long * late = nullptr) {
	Pools p = make();
	for (size_t i = 0; i < h.size(); ++i) {
		Pool & x = *p[static_cast<size_t>(h[i].pool) % p.size()];
		if (const char * w = x.step(h[i])) return Fail{static_cast<int>(i), w, x.name()};
	}
	for (auto & x: p) { if (done) *done += x->done; if (late) *late += x->late; }
	return Fail{};
}

inline std::vector<Step> history(uint64_t seed, int n, int pools) {
	std::mt19937_64 g(seed);
	auto below = [&](int k) { return static_cast<int>(g() % static_cast<uint64_t>(k)); };
	std::vector<Step> h;
	int pool = 0;
	for (int i = 0; i < n; ++i) {
		if (below(3) == 0) pool = below(pools);
		h.push_back(Step{pool, below(CODES), below(SLOTS), below(SLOTS), below(SLOTS)});
	}
	return h;
}

// all histories of a program; prints what was found
template <typename Make> inline int explore(const Make & make, uint64_t seed, int histories, int length, int threads, bool only_threads) {
	int pools = static_cast<int>(make().size());
	long steps = 0, done = 0, late = 0;
	if (!only_threads) for (int i = 0; i < histories; ++i) {
		auto h = history(seed * 1000003 + static_cast<uint64_t>(i), length, pools);
		Fail f = run(make, h, &done, &late);
		steps += length;
		if (f.at >= 0) {
			h.resize(static_cast<size_t>(f.at) + 1);
			for (bool again = true; again;) { // fewer steps
				again = false;
				for (size_t len = h.size() / 2; len >= 1 && !again; len /= 2) for (size_t k = 0; k + len <= h.size() && !again; ++k) {
					auto t = h;
					t.erase(t.begin() + static_cast<long>(k), t.begin() + static_cast<long>(k + len));
					Fail g = run(make, t);
					if (g.at >= 0) { t.resize(static_cast<size_t>(g.at) + 1); h = t; f = g; again = true; }
				}
			}
			std::printf("fail %s: %s; history:", f.pool, f.what);
			for (auto & s: h) std::printf(" %d.%d(%d,%d,%d)", s.pool, s.code, s.a, s.b, s.c);
			std::printf("\n");
			return 1;
		}
	}
	if (threads) {
		std::atomic<int> bad{0};
		std::vector<std::thread> ts;
		std::atomic<long> d{0};
		const char * what = nullptr;
		for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] {
			long x = 0, y = 0;
			for (int i = 0; i < histories / 4 + 1 && !bad; ++i) {
				Fail f = run(make, history(seed * 7919 + static_cast<uint64_t>(t * 100000 + i), length, pools), &x, &y);
				if (f.at >= 0 && !bad.exchange(1)) what = f.what;
			}
			d += x;
		});
		for (auto & t: ts) t.join();
		steps += static_cast<long>(threads) * (histories / 4 + 1) * length;
		done += d;
		if (bad) { std::printf("fail threads: %s\n", what); return 1; }
	}
	std::printf("ok %ld %ld %ld\n", steps, done, late);
	return 0;
}

} // namespace hist
