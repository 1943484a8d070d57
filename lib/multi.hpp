// A range of subjects piped into a regular expression, against the expression applied to each of them.
#pragma once
#include "harness.hpp"
#include "forms.hpp"
#include <array>
#include <deque>
#include <list>
#include <ranges>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace vm {

using vh::note;

template <typename T> struct flat { std::vector<std::pair<bool, std::basic_string<T>>> caps; std::ptrdiff_t b = 0, e = 0; friend bool operator==(const flat &, const flat &) = default; };
template <typename T, typename R, typename It> flat<T> flatten(const R & r, It base) {
	flat<T> f;
	[&]<size_t... I>(std::index_sequence<I...>) { (f.caps.emplace_back(bool(r.template get<I>()), r.template get<I>().to_string()), ...); }(std::make_index_sequence<std::remove_cvref_t<R>::count()>());
	f.b = std::distance(base, r.begin()); f.e = std::distance(base, r.end());
	return f;
}

// the parts of a subject: some of them match
template <typename T> std::vector<std::basic_string<T>> parts(const T * b, size_t n) {
	std::basic_string<T> s(b, n);
	std::vector<std::basic_string<T>> v;
	size_t cut = n ? (static_cast<size_t>(static_cast<unsigned>(b[0])) * 7 + n) % (n + 1) : 0;
	switch (n % 4) {
		case 0: v = {s, s.substr(0, cut), s.substr(cut)}; break;
		case 1: v = {{}, s.substr(cut), s, s}; break;
		case 2: for (size_t i = 0; i < n && i < 6; ++i) v.push_back(s.substr(i)); break;
		case 3: for (size_t i = 0; i < n && i < 6; ++i) v.push_back(s.substr(0, i)); v.push_back(s.substr(cut) + s.substr(0, cut)); v.push_back({}); break;
	}
	return v;
}

template <typename I> bool check_arrow(I & it) { return std::addressof(*it) == it.operator->(); }

template <typename T, bool Ordered = true, typename Range, typename Want> void compare(Range && range, const Want & want, int style, VOut * o) {
	size_t k = 0;
	auto check = [&](const auto & r) {
		if (k >= want.size()) { note(o, 170, "more results than matching subjects"); return false; }
		if (!r) { note(o, 171, "a result which isn't matched"); return false; }
		auto f = flatten<T>(r, r.begin());
		if (f.caps != want[k].caps || f.e != want[k].e - want[k].b) { note(o, 172, "result of another subject"); return false; }
		++k;
		return true;
	};
	if (style == 0) {
		for (auto && r: range) if (!check(r)) return;
	} else {
		auto it = range.begin();
		auto end = range.end();
		const auto first = it;
		while (style & 1 ? it != end : !(end == it)) {
			if (it == end || !(end != it)) note(o, 173, "the iterator is and isn't at the end");
			if (!check(*it)) return;
			if (!check_arrow(it)) note(o, 174, "operator-> differs");
			auto before = it;
			if (!(before == it) || before != it) note(o, 175, "a copy of the iterator isn't equal");
			if (style & 2) {
				auto old = it++;
				if (!(old == before)) note(o, 176, "post-increment doesn't return the previous position");
				if (flatten<T>(*old, (*old).begin()) != flatten<T>(*before, (*before).begin())) note(o, 177, "post-increment doesn't return the previous result");
			} else if (&++it != &it) note(o, 178, "pre-increment doesn't return itself");
			if (it == before || !(it != before)) note(o, 179, "an iterator is equal to its successor");
			if constexpr (Ordered) if (it < before || !(before < it) || before > it || !(before <= it) || before >= it) note(o, 180, "order of the iterators");
		}
		size_t again = 0;
		for (auto j = first; j != end && again <= k; ++j) { if (again < k && flatten<T>(*j, (*j).begin()).caps != want[again].caps) note(o, 181, "the second pass differs"); ++again; }
		if (again != k) note(o, 182, "the second pass has another length");
	}
	if (k != want.size()) note(o, 183, "fewer results than matching subjects");
}

enum { VIEWS, STRINGS, LIST, ARRAY, POINTERS, CONST_STRINGS, TEMPORARY, MOVED, FILTERED, DEQUE, ITERATED };

template <int Kind, typename T, typename Op> void subjects(Op op, const T * b, size_t n, int style, VOut * o) {
	using S = std::basic_string<T>;
	using V = std::basic_string_view<T>;
	std::vector<S> p = parts(b, n);
	std::vector<flat<T>> want;
	auto collect = [&](auto && x) { auto r = op(x); if (r) want.push_back(flatten<T>(r, r.begin())); };
	for (auto & x: p) collect(x);
	std::vector<V> v(p.begin(), p.end());
	if constexpr (Kind == VIEWS) compare<T>(v | op, want, style, o);
	else if constexpr (Kind == STRINGS) compare<T>(p | op, want, style, o);
	else if constexpr (Kind == LIST) { const std::list<V> l(v.begin(), v.end()); compare<T, false>(l | op, want, style, o); }
	else if constexpr (Kind == ARRAY) {
		std::array<V, 3> a{}; std::vector<flat<T>> w; size_t k = 0;
		for (auto & x: v) if (k < 3) a[k++] = x;
		for (auto & x: a) { auto r = op(x); if (r) w.push_back(flatten<T>(r, r.begin())); }
		compare<T>(a | op, w, style, o);
	} else if constexpr (Kind == POINTERS) {
		std::vector<const T *> q; std::vector<flat<T>> w;
		for (auto & x: p) q.push_back(x.c_str());
		for (auto & x: p) { auto r = op(V(x.c_str())); if (r) w.push_back(flatten<T>(r, r.begin())); }
		compare<T>(q | op, w, style, o);
	} else if constexpr (Kind == CONST_STRINGS) { const auto & cp = p; compare<T>(cp | op, want, style, o); }
	else if constexpr (Kind == TEMPORARY) { auto r = std::vector<V>(v) | op; compare<T>(r, want, style, o); }
	else if constexpr (Kind == MOVED) { auto r = std::vector<V>(v) | op; auto t = r; compare<T>(t, want, style, o); }
	else if constexpr (Kind == FILTERED) {
		std::vector<flat<T>> w;
		for (auto & x: v) if (x.size() % 2) { auto r = op(x); if (r) w.push_back(flatten<T>(r, r.begin())); }
		std::vector<V> odd; for (auto & x: v) if (x.size() % 2) odd.push_back(x);
		compare<T>(std::views::all(odd) | op, w, style, o);
	} else if constexpr (Kind == DEQUE) { std::deque<S> d(p.begin(), p.end()); compare<T>(d | op, want, style, o); }
}

// the parts an expression divides a subject into are subjects
template <typename T, typename Div, typename Op> void chain(Div div, Op op, const T * b, size_t n, int style, VOut * o) {
	using V = std::basic_string_view<T>;
	V s(b, n);
	std::vector<flat<T>> want;
	size_t guard = 0;
	auto r = s | div;
	for (auto && x: r) {
		auto q = op(x.to_view());
		if (q) want.push_back(flatten<T>(q, q.begin()));
		if (++guard > 150) return; // an empty match which makes no progress (known finding)
	}
	compare<T, false>(s | div | op, want, style, o); // the last parts may be at the same position
}

} // namespace vm
