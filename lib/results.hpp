// What a user can do with a result or with one of its captures, against plain copies of the elements between its begin and its end.
#pragma once
#include "harness.hpp"
#include "u8.hpp"
#include <algorithm>
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>

namespace vr {

using vh::note;

// std::from_chars as specified: an optional minus for signed types, digits of the base, nothing is written on an error
template <typename R> R ref_integer(const std::string & s, int base) {
	size_t i = 0;
	bool neg = false;
	if (std::is_signed_v<R> && i < s.size() && s[i] == '-') { neg = true; ++i; }
	__int128 v = 0;
	size_t digits = 0;
	bool over = false;
	for (; i < s.size(); ++i, ++digits) {
		int d = 99;
		char ch = s[i];
		if (ch >= '0' && ch <= '9') d = ch - '0';
		else if (ch >= 'a' && ch <= 'z') d = ch - 'a' + 10;
		else if (ch >= 'A' && ch <= 'Z') d = ch - 'A' + 10;
		if (d >= base) break;
		v = v * base + (neg ? -d : d);
		if (v > static_cast<__int128>(std::numeric_limits<R>::max()) || v < static_cast<__int128>(std::numeric_limits<R>::min())) { over = true; v = 0; }
	}
	return !digits || over ? R{0} : static_cast<R>(v);
}
inline bool ref_double(const std::string & s, double & out) { // false: nothing claimed
	size_t i = 0;
	auto dig = [&] { size_t k = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { ++i; ++k; } return k; };
	if (i < s.size() && s[i] == '-') ++i;
	if (i < s.size() && (s[i] == 'i' || s[i] == 'I' || s[i] == 'n' || s[i] == 'N')) return false;
	size_t d = dig();
	if (i < s.size() && s[i] == '.') { ++i; size_t k = dig(); if (!d && !k) { out = 0; return true; } d += k; }
	if (!d) { out = 0; return true; }
	size_t end = i;
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
		++i;
		if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
		if (dig()) end = i;
	}
	out = std::strtod(s.substr(0, end).c_str(), nullptr);
	return !std::isinf(out) && (out == 0 || std::fabs(out) > 1e-300);
}

template <typename R, typename C> void number(const C & c, const std::string & s, bool m, VOut * o) {
	if (c.template to_number<R>() != ref_integer<R>(s, 10)) note(o, 120, "to_number differs");
	for (int base: {2, 8, 16, 36}) {
		if (c.template to_number<R>(base) != ref_integer<R>(s, base)) note(o, 121, "to_number with a base differs");
		auto x = c.template to_optional_number<R>(base);
		if (x.has_value() != m || (m && *x != ref_integer<R>(s, base))) note(o, 122, "to_optional_number with a base differs");
	}
	auto x = c.template to_optional_number<R>();
	if (x.has_value() != m || (m && *x != ref_integer<R>(s, 10))) note(o, 123, "to_optional_number differs");
}
template <typename C> void numbers(const C & c, const std::string & s, bool m, VOut * o) {
	if (c.to_number() != ref_integer<int>(s, 10)) note(o, 124, "to_number is not that of int");
	if (c.to_optional_number().has_value() != m) note(o, 125, "to_optional_number is there and the capture isn't, or the other way round");
	static_assert(std::is_same_v<decltype(c.to_number()), int> && std::is_same_v<decltype(c.to_optional_number()), std::optional<int>>);
	number<int>(c, s, m, o);
	number<unsigned>(c, s, m, o);
	number<std::int8_t>(c, s, m, o);
	number<std::uint8_t>(c, s, m, o);
	number<short>(c, s, m, o);
	number<std::int64_t>(c, s, m, o);
	number<std::uint64_t>(c, s, m, o);
	double d;
	if (ref_double(s, d)) {
		if (c.template to_number<double>() != d) note(o, 126, "to_number<double> differs");
		auto x = c.template to_optional_number<double>();
		if (x.has_value() != m || (m && *x != d)) note(o, 127, "to_optional_number<double> differs");
	}
}

template <typename C, typename T> void compare(const C & c, const std::basic_string<T> & s, bool m, VOut * o) {
	using V = std::basic_string_view<T>;
	std::basic_string<T> other[7] = {s, s + T('a'), s.substr(0, s.empty() ? 0 : s.size() - 1), std::basic_string<T>(), s, s + T(0), std::basic_string<T>(1, T('a'))};
	if (!s.empty()) other[4][s.size() / 2] = static_cast<T>(other[4][s.size() / 2] ^ 1);
	for (const auto & x: other) {
		bool eq = m && x == s;
		if ((c == V(x)) != eq || (V(x) == c) != eq) note(o, 130, m ? "== with a text differs" : "what isn't matched is equal to a text");
		if ((c != V(x)) == eq || (V(x) != c) == eq) note(o, 131, m ? "!= with a text differs" : "what isn't matched is not unequal to a text");
		if ((c == x) != eq || (x == c) != eq || (c != x) == eq || (x != c) == eq) note(o, 132, "comparison with a string differs");
		if (x.find(T(0)) == x.npos && ((c == x.c_str()) != eq || (x.c_str() != c) == eq)) note(o, 133, "comparison with a literal differs");
	}
}

// c: a capture or a whole result, contiguous: views are available
template <bool Contiguous, bool Result, typename C> void one(const C & c, VOut * o) {
	using It = std::remove_cv_t<std::remove_reference_t<decltype(c.begin())>>;
	using T = typename C::char_type;
	using S = std::basic_string<T>;
	using V = std::basic_string_view<T>;
	static_assert(std::is_same_v<T, typename std::iterator_traits<It>::value_type>);
	const bool m = static_cast<bool>(c);
	S s;
	long steps = 0;
	constexpr bool decoded = std::is_same_v<It, ctre::utf8_iterator>;
	if (m) {
		if constexpr (decoded) {
			for (auto p = vh::u8ptr(c.begin()); p != vh::u8ptr(c.end()); ++p) { s += static_cast<T>(*p); steps += (*p & 0xC0) != 0x80; }
		} else for (It i = c.begin(); i != c.end(); ++i) { s += *i; ++steps; }
	}
	const long n = static_cast<long>(s.size());
	if (static_cast<long>(c.size()) != steps) note(o, 100, m ? "size differs" : "what isn't matched has a size");
	S t = c.to_string();
	if (t != s) note(o, 102, m ? "to_string differs" : "what isn't matched has a string");
	if (c.str() != s) note(o, 103, "str differs");
	if (c.operator S() != s) note(o, 104, "conversion function to a string differs");
	if constexpr (Contiguous) if (static_cast<S>(c) != s || S(c) != s) note(o, 104, "conversion to a string differs");
	auto os = c.to_optional_string();
	static_assert(std::is_same_v<decltype(os), std::optional<S>>);
	if (os.has_value() != m || (m && *os != s)) note(o, 105, "to_optional_string differs");
	if constexpr (!Result) {
		if (static_cast<long>(c.unit_size()) != n) note(o, 101, "unit_size differs");
	}
	if constexpr (Contiguous) {
		V v = c.to_view();
		static_assert(std::is_same_v<decltype(c.to_view()), V> && std::is_same_v<decltype(c.view()), V>);
		if (v != V(s)) note(o, 106, m ? "to_view differs" : "what isn't matched has a view");
		if (c.view() != V(s)) note(o, 107, "view differs");
		V iv = c;
		if (iv != V(s)) note(o, 108, "conversion to a view differs");
		if (m && n && (v.data() != std::addressof(*v.begin()) || c.data() != v.data() || iv.data() != v.data())) note(o, 109, "data and the view are at different places");
		if (m && n) { if constexpr (decoded) { if (v.data() != vh::u8ptr(c.begin())) note(o, 110, "the view begins at another place"); } else if (v.data() != std::addressof(*c.begin())) note(o, 110, "the view begins at another place"); }
		auto ov = c.to_optional_view();
		if (ov.has_value() != m || (m && *ov != V(s))) note(o, 111, "to_optional_view differs");
		std::optional<V> iov = c; // a const object: its conversion function
		if (iov.has_value() != m || (m && *iov != V(s))) note(o, 112, "conversion of a const object to an optional view differs");
		compare(c, s, m, o);
		if constexpr (std::is_same_v<T, char>) {
			std::ostringstream os1;
			os1 << c << '|';
			if (os1.str() != s + "|") note(o, 113, "operator<< differs");
			numbers(c, s, m, o);
		}
	}
}

template <bool Contiguous, typename R> void inspect(const R & r, VOut * o) {
	constexpr size_t n = R::count();
	static_assert(std::tuple_size_v<R> == n);
	one<Contiguous, true>(r, o);
	if (static_cast<bool>(r) != static_cast<bool>(r.template get<0>())) note(o, 140, "bool of the result and of the whole match");
	auto same = [](const auto & a, const auto & b) { return static_cast<bool>(a) == static_cast<bool>(b) && (!a || (a.begin() == b.begin() && a.end() == b.end())); };
	if (!same(r, r.template get<0>())) note(o, 141, "the result isn't its whole match");
	if (r && r.get_end_position() != r.end()) note(o, 142, "get_end_position differs");
	auto cap = [&]<size_t I>(std::integral_constant<size_t, I>) {
		const auto & c = r.template get<I>();
		static_assert(std::remove_reference_t<decltype(c)>::get_id() == I);
		static_assert(std::is_same_v<std::remove_cv_t<std::remove_reference_t<decltype(c)>>, std::remove_cv_t<std::remove_reference_t<std::tuple_element_t<I, R>>>>);
		if (!same(c, ctre::get<I>(r))) note(o, 143, "ctre::get differs");
		if (!r && static_cast<bool>(c)) note(o, 144, "a capture of a failed match");
		one<Contiguous, false>(c, o);
	};
	[&]<size_t... I>(std::index_sequence<I...>) { (cap(std::integral_constant<size_t, I>{}), ...); }(std::make_index_sequence<n>());
}

} // namespace vr
