// ctll::fixed_string at run time: every code point in every encoding, alone and in random texts.
#include <ctll.hpp>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <vector>

template <typename T> static std::vector<T> enc(const std::u32string & s) {
	std::vector<T> r;
	for (char32_t c: s) {
		if constexpr (sizeof(T) == 1) {
			auto put = [&](unsigned x) { r.push_back(static_cast<T>(x)); };
			if (c < 0x80) put(c);
			else if (c < 0x800) { put(0xC0 | (c >> 6)); put(0x80 | (c & 63)); }
			else if (c < 0x10000) { put(0xE0 | (c >> 12)); put(0x80 | ((c >> 6) & 63)); put(0x80 | (c & 63)); }
			else { put(0xF0 | (c >> 18)); put(0x80 | ((c >> 12) & 63)); put(0x80 | ((c >> 6) & 63)); put(0x80 | (c & 63)); }
		} else if constexpr (sizeof(T) == 2) {
			if (c < 0x10000) r.push_back(static_cast<T>(c));
			else { r.push_back(static_cast<T>(0xD800 + ((c - 0x10000) >> 10))); r.push_back(static_cast<T>(0xDC00 + ((c - 0x10000) & 0x3FF))); }
		} else r.push_back(static_cast<T>(c));
	}
	return r;
}
static long done = 0;
static void fail(const char * what, const std::u32string & s) {
	printf("FAIL %s:", what);
	for (char32_t c: s) printf(" %x", static_cast<unsigned>(c));
	printf("\n");
	exit(1);
}
template <size_t N, typename T> static void one(const std::vector<T> & u, const std::u32string & s, const char * what) {
	if (u.size() != N) return;
	++done;
	std::array<T, N> a;
	T lit[N + 1];
	for (size_t i = 0; i != N; ++i) lit[i] = a[i] = u[i];
	lit[N] = 0;
	const T (&l)[N + 1] = lit;
	ctll::fixed_string f{a};
	ctll::fixed_string<N> g(l);
	ctll::fixed_string<N> h(f);
	for (const auto * x: {&f, &g, &h}) {
		if (!x->correct() || x->size() != s.size()) fail(what, s);
		for (size_t i = 0; i != s.size(); ++i) if ((*x)[i] != s[i] || x->begin()[i] != s[i]) fail(what, s);
		if (x->end() != x->begin() + s.size() || std::u32string_view(*x) != s || !x->is_same_as(f)) fail(what, s);
	}
	// another text isn't the same
	if (N > 1) { auto v = u; v.pop_back(); std::array<T, (N > 1 ? N - 1 : 1)> b; for (size_t i = 0; i != v.size() && i < b.size(); ++i) b[i] = v[i]; ctll::fixed_string q{b}; if (f.is_same_as(q) && f.size() != q.size()) fail("is_same_as of a shorter text", s); }
	if (sizeof(T) >= 2 && s[0] != U'z') { auto b = a; b[0] = static_cast<T>('z'); ctll::fixed_string q{b}; if (q.correct() && q.is_same_as(f)) fail("is_same_as of another text", s); }
}
template <typename T, size_t... N> static void any(const std::u32string & s, const char * what, std::index_sequence<N...>) {
	auto u = enc<T>(s);
	(one<N + 1>(u, s, what), ...);
}
static void all(const std::u32string & s) {
	using I = std::make_index_sequence<16>;
	any<char8_t>(s, "char8_t", I{});
	any<char16_t>(s, "char16_t", I{});
	any<char32_t>(s, "char32_t", I{});
	any<wchar_t>(s, "wchar_t", I{});
#ifdef CTRE_STRING_IS_UTF8
	any<char>(s, "char as UTF-8", I{});
#else
	bool latin = true;
	for (char32_t c: s) latin = latin && c < 256;
	if (latin) { std::vector<char> u; for (char32_t c: s) u.push_back(static_cast<char>(c)); [&]<size_t... N>(std::index_sequence<N...>) { (one<N + 1>(u, s, "char"), ...); }(I{}); }
#endif
}
int main(int, char ** argv) {
	std::mt19937_64 r(static_cast<unsigned long>(atol(argv[1])));
	for (char32_t c = 0; c <= 0x10FFFF; ++c) {
		if (c >= 0xD800 && c < 0xE000) continue;
		all({c});
		if (c % 97 == 0 || c < 0x900) { all({U'x', c}); all({c, U'a', c}); }
	}
	const char32_t special[] = {0, 1, 'a', 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0xFFFFF};
	for (long i = 0; i < atol(argv[2]); ++i) {
		std::u32string s;
		for (size_t n = r() % 5 + 1; n; --n) { char32_t c = r() % 2 ? special[r() % 18] : static_cast<char32_t>(r() % (r() % 2 ? 0x110000 : r() % 2 ? 256 : 0x10000)); if (c >= 0xD800 && c < 0xE000) c = U'y'; s += c; }
		all(s);
	}
	printf("OK %ld\n", done);
}
