// Iterators which notice each step and each read outside of the subject and count the work.
#pragma once
#include "harness.hpp"
#include <csignal>
#include <iterator>
#include <string_view>

namespace vh {

struct chk_state {
	int bad = 0; const char * text = nullptr; long work = 0; bool wrote = false;
	void fail(int n, const char * t) { if (!bad) { bad = n; text = t; } }
	void tick() { if (++work > 30000000) raise(SIGXCPU); }
};
inline chk_state chk;

template <typename U, typename Tag> struct cit {
	using value_type = U;
	using reference = const U &;
	using pointer = const U *;
	using difference_type = std::ptrdiff_t;
	using iterator_category = Tag;
	const U * p = nullptr; const U * b = nullptr; const U * e = nullptr;
	static const U & none() { static const U x{}; return x; }
	constexpr reference operator*() const {
		chk.tick();
		if (!p || p < b || p >= e) { chk.fail(30, "read outside of the subject"); return none(); }
		return *p;
	}
	constexpr pointer operator->() const { return &**this; }
	constexpr cit & operator++() {
		chk.tick();
		if (!p || p >= e) chk.fail(31, "step behind the end"); else ++p;
		return *this;
	}
	constexpr cit operator++(int) { cit t = *this; ++*this; return t; }
	constexpr cit & back() {
		chk.tick();
		if (!p || p <= b) chk.fail(32, "step before the begin"); else --p;
		return *this;
	}
	template <typename T = Tag, typename = std::enable_if_t<std::is_base_of_v<std::bidirectional_iterator_tag, T>>> constexpr cit & operator--() { return back(); }
	template <typename T = Tag, typename = std::enable_if_t<std::is_base_of_v<std::bidirectional_iterator_tag, T>>> constexpr cit operator--(int) { cit t = *this; back(); return t; }
	constexpr bool same(const cit & o) const {
		chk.tick();
		if (b != o.b || e != o.e) { if (p && o.p) chk.fail(33, "comparison with an iterator of another subject"); return false; }
		return p == o.p;
	}
	friend constexpr bool operator==(const cit & x, const cit & y) { return x.same(y); }
	friend constexpr bool operator!=(const cit & x, const cit & y) { return !x.same(y); }
#define V_RA template <typename T = Tag, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, T>>>
	V_RA constexpr cit & operator+=(std::ptrdiff_t n) { chk.tick(); if (!p || n > e - p || n < b - p) chk.fail(34, "jump outside of the subject"); else p += n; return *this; }
	V_RA constexpr cit & operator-=(std::ptrdiff_t n) { return *this += -n; }
	V_RA constexpr cit operator+(std::ptrdiff_t n) const { cit t = *this; t += n; return t; }
	V_RA constexpr cit operator-(std::ptrdiff_t n) const { cit t = *this; t += -n; return t; }
	V_RA constexpr reference operator[](std::ptrdiff_t n) const { return *(*this + n); }
	template <typename T = Tag, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, T>>> friend constexpr std::ptrdiff_t operator-(const cit & x, const cit & y) { chk.tick(); return x.p - y.p; }
	template <typename T = Tag, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, T>>> friend constexpr bool operator<(const cit & x, const cit & y) { return x.p < y.p; }
	template <typename T = Tag, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, T>>> friend constexpr bool operator>(const cit & x, const cit & y) { return x.p > y.p; }
	template <typename T = Tag, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, T>>> friend constexpr bool operator<=(const cit & x, const cit & y) { return x.p <= y.p; }
	template <typename T = Tag, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, T>>> friend constexpr bool operator>=(const cit & x, const cit & y) { return x.p >= y.p; }
#undef V_RA
};
template <typename U, typename Tag> struct cend { // a sentinel which isn't an iterator
	const U * e;
	friend constexpr bool operator==(const cit<U, Tag> & i, const cend & s) { chk.tick(); return i.p == s.e; }
	friend constexpr bool operator!=(const cit<U, Tag> & i, const cend & s) { return !(i == s); }
	friend constexpr bool operator==(const cend & s, const cit<U, Tag> & i) { return i == s; }
	friend constexpr bool operator!=(const cend & s, const cit<U, Tag> & i) { return !(i == s); }
};
template <typename U, typename Tag> struct csubject {
	const U * b; const U * e;
	auto begin() const { return cit<U, Tag>{b, b, e}; }
	auto end() const { return cit<U, Tag>{e, b, e}; }
};

template <typename R> inline void put_checked(const R & r, const void *, VOut * o) {
	using T = std::remove_cv_t<std::remove_reference_t<R>>;
	constexpr size_t n = T::count();
	o->groups = static_cast<int>(n);
	if ((o->items + 1) * static_cast<int>(n) > static_cast<int>(sizeof(o->s) / sizeof(o->s[0])) || o->items >= V_MAXI) { o->overflow = true; return; }
	VSpan * s = o->s + o->items * static_cast<int>(n);
	auto one = [&](const auto & c, VSpan & x) {
		x.m = static_cast<bool>(c);
		x.b = x.e = -1;
		if (x.m) {
			auto f = c.begin(); auto l = c.end();
			x.b = static_cast<int>(f.p - f.b); x.e = static_cast<int>(l.p - l.b);
			if (f.p < f.b || l.p > l.e || f.p > l.p) chk.fail(35, "result outside of the subject");
		}
	};
	[&]<size_t... I>(std::index_sequence<I...>) { (one(r.template get<I>(), s[I]), ...); }(std::make_index_sequence<n>());
	o->items++;
}
template <typename F> inline void checked(VOut * o, F f) {
	chk = chk_state{};
	f();
	o->work = chk.work;
	if (chk.bad) note(o, chk.bad, chk.text);
}
struct csingle { template <typename R> static void put(const R & r, VOut * o) { put_checked(r, nullptr, o); } };
struct cranged { template <typename R> static void put(const R & r, VOut * o) { for (auto && x: r) { put_checked(x, nullptr, o); if (o->overflow) return; } } };

template <typename Put, typename Tag, typename U, typename F> inline void chk_iters(F f, const U * b, size_t n, VOut * o) {
	checked(o, [&] { Put::put(f(cit<U, Tag>{b, b, b + n}, cit<U, Tag>{b + n, b, b + n}), o); });
}
template <typename Put, typename Tag, typename U, typename F> inline void chk_subject(F f, const U * b, size_t n, VOut * o) {
	checked(o, [&] { csubject<U, Tag> s{b, b + n}; Put::put(f(s), o); });
}
template <typename Put, typename Tag, typename U, typename F> inline void chk_sentinel(F f, const U * b, size_t n, VOut * o) {
	checked(o, [&] { Put::put(f(cit<U, Tag>{b, b, b + n}, cend<U, Tag>{b + n}), o); });
}

// results of a subject of UTF-8 are pointers
template <typename R> inline void put_u8(const R & r, const char8_t * b, size_t n, VOut * o) {
	auto one = [&](const auto & c) {
		if (!c) return;
		const char8_t * f = c.begin(); const char8_t * l = c.end();
		if (f < b || l > b + n || f > l) note(o, 36, "result outside of the subject");
	};
	[&]<size_t... I>(std::index_sequence<I...>) { (one(r.template get<I>()), ...); }(std::make_index_sequence<R::count()>());
	o->items++;
}
template <typename R> inline void put_u8_range(const R & r, const char8_t * b, size_t n, VOut * o) {
	for (auto && x: r) { put_u8(x, b, n, o); if (o->items > 50) return; }
}

} // namespace vh
