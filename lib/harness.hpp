// Helpers for generated translation units: run one library call and store what a user can observe of its result.
#pragma once
#include "abi.hpp"
#include <utility>
#include <type_traits>
#include <iterator>

namespace vh {

template <typename It> inline int off(It base, It x) { return static_cast<int>(x - base); }

template <typename Cap, typename It> inline void put_span(const Cap & c, It base, VSpan & s) {
	s.m = static_cast<bool>(c);
	if (s.m) { s.b = off(base, c.begin()); s.e = off(base, c.end()); } else { s.b = s.e = -1; }
}
template <typename R, typename It, size_t... I> inline void put_all(const R & r, It base, VSpan * s, std::index_sequence<I...>) {
	(put_span(r.template get<I>(), base, s[I]), ...);
}
template <typename R, typename It> inline void put_item(const R & r, It base, VOut * o) {
	using T = std::remove_cv_t<std::remove_reference_t<R>>;
	constexpr size_t n = T::count();
	static_assert(n <= V_MAXG);
	o->groups = static_cast<int>(n);
	if ((o->items + 1) * static_cast<int>(n) > static_cast<int>(sizeof(o->s) / sizeof(o->s[0])) || o->items >= V_MAXI) { o->overflow = true; return; }
	put_all(r, base, o->s + o->items * static_cast<int>(n), std::make_index_sequence<n>());
	o->items++;
}
// one result; the conversions of the result itself have to agree with capture 0
template <typename R, typename It> inline void put_result(const R & r, It base, VOut * o) {
	put_item(r, base, o);
	if (static_cast<bool>(r) != static_cast<bool>(r.template get<0>())) { o->note = 1; o->note_text = "bool(result) != bool(get<0>())"; }
	if (r) if (r.begin() != r.template get<0>().begin() || r.end() != r.template get<0>().end()) { o->note = 2; o->note_text = "result begin()/end() != get<0>()"; }
}
// iteration by a range-for
template <typename Range, typename It> inline void put_range(const Range & range, It base, VOut * o) {
	for (auto && r: range) {
		put_item(r, base, o);
		if (o->overflow) return;
	}
}

inline void note(VOut * o, int n, const char * t) { if (!o->note) { o->note = n; o->note_text = t; } }

// iteration by an iterator and a sentinel, with the laws of a forward iterator
template <typename Iterator, typename Sentinel, typename It> inline void put_iter(Iterator it, Sentinel end, It base, VOut * o, int style) {
	const Iterator first = it;
	int guard = 0;
	while (style & 1 ? !(end == it) : it != end) {
		if ((it == end) || !(end != it)) note(o, 10, "iterator is and isn't the end");
		put_item(*it, base, o);
		if (o->overflow) return;
		const Iterator before = it;
		if (!(before == it) || before != it) note(o, 11, "copy of an iterator isn't equal to it");
		if (before < it || before > it || !(before <= it) || !(before >= it)) note(o, 12, "order of equal iterators");
		const auto b0 = (*it).template get<0>();
		if (style & 2) {
			Iterator old = it++;
			if (!(old == before)) note(o, 13, "post-increment doesn't return the previous position");
			if ((*old).template get<0>().begin() != b0.begin() || (*old).template get<0>().end() != b0.end()) note(o, 14, "post-increment doesn't return the previous match");
		} else {
			Iterator & r = ++it;
			if (&r != &it) note(o, 15, "pre-increment doesn't return itself");
		}
		if ((*before).template get<0>().begin() != b0.begin() || (*before).template get<0>().end() != b0.end()) note(o, 16, "increment changes a copy of the iterator");
		if (!(it != end) || (*it).template get<0>().begin() != (*it).template get<0>().end()) if (before == it) note(o, 17, "iterator is equal to its successor");
		if (it < before) note(o, 18, "successor is less than an iterator");
		if (++guard > V_MAXI) return;
	}
	// another pass from the first iterator sees the same
	Iterator again = first;
	int k = 0;
	for (; again != end && k < o->items; ++again, ++k) {
		const VSpan & s = o->s[k * o->groups];
		if (off(base, (*again).template get<0>().begin()) != s.b || off(base, (*again).template get<0>().end()) != s.e) { note(o, 19, "the second pass differs"); return; }
	}
	if (k != o->items || again != end) note(o, 20, "the second pass has another length");
}

} // namespace vh

#define V_CALL(KIND, UNIT, ...) [](const void * p, size_t n, VOut * o) { \
	const UNIT * b = static_cast<const UNIT *>(p); \
	vh::KIND((__VA_ARGS__)(b, b + n), b, o); }
