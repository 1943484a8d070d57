// to_number on random texts against the specification of std::from_chars: numbers SEED COUNT
#include <ctre.hpp>
#include "results.hpp"
#include <cstdio>
#include <random>
#include <set>

static std::mt19937_64 rng;
static size_t below(size_t n) { return static_cast<size_t>(rng() % n); }

static std::string make() {
	std::string s;
	static const char junk[] = "-+ .eExX_azfFgzZ0199";
	auto put = [&](unsigned __int128 v, unsigned base) { std::string t; do { unsigned d = static_cast<unsigned>(v % base); t.insert(t.begin(), static_cast<char>(d < 10 ? '0' + d : (below(2) ? 'a' : 'A') + d - 10)); v /= base; } while (v); s += t; };
	static const int bits[] = {7, 8, 15, 16, 31, 32, 63, 64};
	static const unsigned bases[] = {10, 10, 10, 2, 8, 16, 36};
	if (below(10) == 0) s += junk[below(sizeof junk - 1)];
	if (below(3) == 0) s += '-';
	if (below(12) == 0) s.append(below(6), '0');
	switch (below(4)) {
		case 0: put((static_cast<unsigned __int128>(1) << bits[below(8)]) - 2 + below(5), bases[below(7)]); break;
		case 1: put(rng() >> below(64), bases[below(7)]); break;
		case 2: for (size_t k = below(24); k; --k) s += static_cast<char>('0' + below(10)); break;
		case 3: for (size_t k = below(6); k; --k) s += junk[below(sizeof junk - 1)]; break;
	}
	if (below(5) == 0) { s += '.'; for (size_t k = below(5); k; --k) s += static_cast<char>('0' + below(10)); }
	if (below(6) == 0) { s += below(2) ? "e" : "E"; if (below(2)) s += below(2) ? '-' : '+'; for (size_t k = below(3); k; --k) s += static_cast<char>('0' + below(10)); }
	if (below(6) == 0) s += junk[below(sizeof junk - 1)];
	if (below(30) == 0 && !s.empty()) s[below(s.size())] = junk[below(sizeof junk - 1)];
	return s;
}
static const char * fails(const std::string & s) {
	VOut o;
	auto whole = ctre::match<"([\\x00-\\xff]*)">(s);

	std::string host = "12<" + s + ">99";
	auto part = ctre::search<"<([^>]*)>|(never)">(host);

	vr::one<true, true>(whole, &o);
	vr::one<true, false>(whole.get<1>(), &o);
	if (s.find('>') == s.npos) { vr::one<true, false>(part.get<1>(), &o); if (std::string(part.get<1>()) != s) vh::note(&o, 150, "the capture is another text"); }
	vr::one<true, false>(part.get<2>(), &o);
	return o.note ? o.note_text : nullptr;
}
int main(int argc, char ** argv) {
	rng.seed(argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1);
	long count = argc > 2 ? std::atol(argv[2]) : 20000;
	std::set<std::string> seen;
	for (long i = 0; i < count; ++i) {
		std::string s = make();
		seen.insert(s);
		if (!fails(s)) continue;
		for (bool again = true; again;) {
			again = false;
			for (size_t k = 0; k < s.size() && !again; ++k) { std::string t = s; t.erase(k, 1); if (fails(t)) { s = t; again = true; } }
		}
		std::printf("WRONG \"%s\": %s\n", s.c_str(), fails(s));
		return 1;
	}
	std::printf("OK %ld %ld\n", count, static_cast<long>(seen.size()));
}
