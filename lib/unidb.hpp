// prints what the character database says, as runs of code points
#pragma once
#include <cstdio>
#include <string>
#include <iterator>
#include <cstdint>

namespace vu {
template <typename F> void runs(const char * name, F f) {
	std::printf("%s\t", name);
	std::string prev;
	bool first = true;
	for (char32_t c = 0; c < 0x110000; ++c) {
		std::string v = f(c);
		if (first || v != prev) { std::printf("%u=%s;", static_cast<unsigned>(c), v.c_str()); prev = v; first = false; }
	}
	std::printf("\n");
}
template <typename F> void bits(const char * name, F f) {
	std::printf("%s\t", name);
	bool prev = false;
	for (char32_t c = 0; c < 0x110000; ++c) {
		bool v = f(c);
		if (v != prev) { std::printf("%u,", static_cast<unsigned>(c)); prev = v; }
	}
	// what is no code point has no property
	unsigned n = 0;
	for (char32_t c = 0x110000; c < 0x118000; ++c) n += f(c);
	for (unsigned k = 0; k < 4096; ++k) n += f(0x120000u + k * 1048343u);
	std::printf("\t%u\n", n);
}
inline std::string num(long long v) { return std::to_string(v); }
template <typename S> std::string scx(char32_t c, int style) {
	std::string out;
	auto v = uni::cp_script_extensions(c);
	auto add = [&](uni::script s) { out += num(static_cast<long long>(s)) + ' '; };
	if (style == 0) { for (auto s: v) add(s); }
	else { auto it = v.begin(); while (it != v.end()) { if (style == 1) add(*it++); else { add(*it); auto j = it; const auto x = *++j; ++it; if (x != *it) out += "-1 "; } if (out.size() > 400) break; } }
	return out;
}
inline std::string numeric(char32_t c) {
	const auto v = uni::cp_numeric_value(c);
	if (!v.is_valid()) return "-";
	if (v.value() != static_cast<double>(v.numerator()) / static_cast<double>(v.denominator())) return "value";
	return num(v.numerator()) + "/" + num(v.denominator());
}
}
