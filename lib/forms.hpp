// The same subject in different representations; offsets are distances from the begin.
#pragma once
#include "harness.hpp"
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory_resource>
#include <span>
#include <string>
#include <string_view>
#include <vector>

namespace vh {

// result of a non random access iterator
template <typename R, typename It> inline void put_item_d(const R & r, It base, VOut * o) {
	using T = std::remove_cv_t<std::remove_reference_t<R>>;
	constexpr size_t n = T::count();
	o->groups = static_cast<int>(n);
	if ((o->items + 1) * static_cast<int>(n) > static_cast<int>(sizeof(o->s) / sizeof(o->s[0])) || o->items >= V_MAXI) { o->overflow = true; return; }
	VSpan * s = o->s + o->items * static_cast<int>(n);
	auto one = [&](const auto & c, VSpan & x) {
		x.m = static_cast<bool>(c);
		x.b = x.e = -1;
		if (x.m) { x.b = static_cast<int>(std::distance(base, c.begin())); x.e = static_cast<int>(std::distance(base, c.end())); }
	};
	[&]<size_t... I>(std::index_sequence<I...>) { (one(r.template get<I>(), s[I]), ...); }(std::make_index_sequence<n>());
	o->items++;
}
struct single { template <typename R, typename It> static void put(const R & r, It base, VOut * o) { put_item_d(r, base, o); } };
struct ranged { template <typename R, typename It> static void put(const R & r, It base, VOut * o) { for (auto && x: r) { put_item_d(x, base, o); if (o->overflow) return; } } };

template <typename C, typename Put, typename U, typename F> void by_range(F f, const U * b, size_t n, VOut * o) {
	const C c(b, b + n);
	Put::put(f(c), c.begin(), o);
}
template <typename C, typename Put, typename U, typename F> void by_lvalue(F f, const U * b, size_t n, VOut * o) {
	C c(b, b + n);
	Put::put(f(c), c.begin(), o);
}
template <typename C, typename Put, typename U, typename F> void by_iters(F f, const U * b, size_t n, VOut * o) {
	const C c(b, b + n);
	Put::put(f(c.begin(), c.end()), c.begin(), o);
}
template <typename Put, typename U, typename F> void by_reverse_source(F f, const U * b, size_t n, VOut * o) { // reverse iterators of the reversed subject
	std::vector<U> c(b, b + n);
	std::vector<U> r(c.rbegin(), c.rend());
	Put::put(f(r.rbegin(), r.rend()), r.rbegin(), o);
}
template <typename Put, typename U, typename F> void by_zstring(F f, const U * b, size_t n, VOut * o) {
	std::basic_string<U> s(b, n);
	if (s.find(U(0)) != s.npos) { std::vector<U> c(b, b + n); Put::put(f(c), c.begin(), o); return; }
	const U * p = s.c_str();
	Put::put(f(p), p, o);
}
template <typename Put, typename U, typename F> void by_span(F f, const U * b, size_t n, VOut * o) {
	std::span<const U> s(b, n);
	Put::put(f(s), s.begin(), o);
}
template <typename Put, typename U, typename F> void by_view(F f, const U * b, size_t n, VOut * o) {
	std::basic_string_view<U> s(b, n);
	Put::put(f(s), s.begin(), o);
}
template <typename It> struct stop { // a sentinel of another type
	It at;
	friend constexpr bool operator==(const It & i, const stop & s) { return i == s.at; }
	friend constexpr bool operator!=(const It & i, const stop & s) { return !(i == s.at); }
	friend constexpr bool operator==(const stop & s, const It & i) { return i == s.at; }
	friend constexpr bool operator!=(const stop & s, const It & i) { return !(i == s.at); }
};
template <typename C, typename Put, typename U, typename F> void by_sentinel(F f, const U * b, size_t n, VOut * o) {
	const C c(b, b + n);
	auto e = c.end();
	Put::put(f(c.begin(), stop<decltype(e)>{e}), c.begin(), o);
}
// a user defined string: begin/end only
template <typename U> struct own_string {
	std::list<U> l;
	own_string(const U * b, const U * e): l(b, e) { }
	auto begin() const { return l.begin(); }
	auto end() const { return l.end(); }
};

} // namespace vh
