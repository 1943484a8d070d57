// UTF-8 subjects: results as offsets of code units.
#pragma once
#include "harness.hpp"
#include <string>
#include <string_view>

namespace vh {

template <typename It> inline const char8_t * u8ptr(It it) { if constexpr (std::is_same_v<It, ctre::utf8_iterator>) return it.ptr; else return it; }
inline long u8count(const char8_t * b, const char8_t * e) { long n = 0; for (; b != e; ++b) n += (*b & 0xC0) != 0x80; return n; }

template <typename R> inline void u8_item(const R & r, const char8_t * b, VOut * o) {
	using T = std::remove_cv_t<std::remove_reference_t<R>>;
	constexpr size_t n = T::count();
	o->groups = static_cast<int>(n);
	if ((o->items + 1) * static_cast<int>(n) > static_cast<int>(sizeof(o->s) / sizeof(o->s[0])) || o->items >= V_MAXI) { o->overflow = true; return; }
	VSpan * s = o->s + o->items * static_cast<int>(n);
	auto one = [&](const auto & c, VSpan & x) {
		x.m = static_cast<bool>(c);
		x.b = x.e = -1;
		if (!x.m) return;
		const char8_t * f = u8ptr(c.begin()); const char8_t * l = u8ptr(c.end());
		x.b = static_cast<int>(f - b); x.e = static_cast<int>(l - b);
		std::u8string_view want(f, static_cast<size_t>(l - f));
		if (c.to_string() != want || c.str() != want) note(o, 50, "to_string of an UTF-8 capture");
		if (c.unit_size() != want.size()) note(o, 51, "unit_size of an UTF-8 capture");
		if constexpr (std::is_same_v<decltype(c.begin()), const char8_t *>) {
			if (c.to_view() != want || std::u8string_view(c) != want || !(c == want) || c.data() != f) note(o, 52, "view of an UTF-8 capture");
			if (c.size() != want.size()) note(o, 54, "size of an UTF-8 capture");
		}
	};
	[&]<size_t... I>(std::index_sequence<I...>) { (one(r.template get<I>(), s[I]), ...); }(std::make_index_sequence<n>());
	o->items++;
}
template <typename R> inline void u8_single(const R & r, const char8_t * b, VOut * o) { u8_item(r, b, o); }
template <typename R> inline void u8_range(const R & rg, const char8_t * b, VOut * o) { for (auto && r: rg) { u8_item(r, b, o); if (o->overflow) return; } }

// the iterator itself: forward, backward and by steps it gives the code points of the subject
inline void u8_walk(const char8_t * b, size_t n, VOut * o) {
	ctre::utf8_range r(std::u8string_view(b, n));
	std::u32string fw;
	std::basic_string<const char8_t *> at;
	auto it = r.begin();
	for (; it != r.end(); ++it) {
		if (it == r.end() || !(r.end() != it) || r.end() == it) note(o, 60, "utf8_iterator is and isn't at the end");
		fw += *it; at += it.ptr;
		if (fw.size() > n) { note(o, 61, "utf8_iterator passes the end"); return; }
	}
	if (it.ptr != b + n) note(o, 62, "utf8_iterator ends at another place");
	// reference decoding (the subject is well formed)
	std::u32string ref;
	for (size_t i = 0; i < n;) {
		unsigned c = b[i];
		size_t k = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
		char32_t v = k == 1 ? c : c & (0x7Fu >> k);
		for (size_t j = 1; j < k; ++j) v = (v << 6) | (b[i + j] & 0x3Fu);
		if (ref.size() < at.size() && at[ref.size()] != b + i) { note(o, 63, "utf8_iterator stops inside of a code point"); return; }
		ref += v; i += k;
	}
	if (fw != ref) { note(o, 64, "utf8_iterator decodes another text"); return; }
	size_t k = fw.size();
	while (it.ptr != b) {
		auto old = it--;
		if (k == 0) { note(o, 65, "utf8_iterator steps back too often"); return; }
		--k;
		if (it.ptr != at[k] || *it != fw[k]) { note(o, 66, "utf8_iterator steps back to another place"); return; }
		auto again = it;
		if (++again != old || !(again == old)) { note(o, 67, "utf8_iterator does not return after a step back"); return; }
		if ((r.begin() + static_cast<unsigned>(k)).ptr != at[k] || (old - 1u).ptr != at[k]) { note(o, 68, "utf8_iterator + n or - n"); return; }
		for (auto q: {at[k], old.ptr}) {
			const bool same = q == at[k];
			if ((it == q) != same || (q == it) != same || (it != q) == same || (q != it) == same) { note(o, 71, "utf8_iterator differs from its pointer"); return; }
		}
		if ((it == old) || !(it != old)) { note(o, 72, "utf8_iterator equals the next one"); return; }
		auto post = it;
		if (post++ != it || post != old) { note(o, 69, "utf8_iterator post-increment"); return; }
	}
	if (k) note(o, 70, "utf8_iterator steps back too rarely");
}

} // namespace vh
