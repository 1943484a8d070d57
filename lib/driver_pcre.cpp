// the expectations come from PCRE2 (32 bit units, no UTF mode), for what both dialects mean the same by
#define PCRE2_CODE_UNIT_WIDTH 32
#include <pcre2.h>
#include "driver.hpp"
#include "props.hpp"
#include <map>

using refre::K;
using refre::Node;
using drv::str;

static bool nullable(const Node & n) {
	switch (n.k) {
		case K::Char: case K::Any: case K::Set: return false;
		case K::Seq: for (auto & c: n.c) if (!nullable(*c)) return false; return true;
		case K::Alt: return nullable(*n.c[0]) || nullable(*n.c[1]);
		case K::Rep: return n.lo == 0 || nullable(*n.c[0]);
		case K::Cap: case K::Atomic: return nullable(*n.c[0]);
		default: return true;
	}
}
// what the dialects differ in: repetitions of what may be empty, \Z outside of the multiline mode
static bool apart(const Node & n, bool ml) {
	if (n.k == K::Rep && nullable(*n.c[0])) return true;
	if (n.k == K::SubjEndNl && !ml) return true;
	for (auto & c: n.c) if (apart(*c, ml)) return true;
	return false;
}
static bool has_class(const Node & n) {
	if (n.k == K::Set) for (auto & i: n.items) if (i.cls != refre::Cls::None && i.cls != refre::Cls::Prop) return true;
	for (auto & c: n.c) if (has_class(*c)) return true;
	return false;
}
// \uXXXX and \u{...} are spelled \x{...}, a digit behind a numbered backreference isn't one of its digits, switches of modes are options
static str translate(const str & p) {
	str r;
	for (size_t i = 0; i < p.size(); ++i) {
		if (p[i] != '\\' || i + 1 >= p.size()) { r += p[i]; continue; }
		char32_t c = p[i + 1];
		if (c == 'u') {
			r += U"\\x";
			if (p[i + 2] == '{') ++i;
			else { r += U'{'; r += p.substr(i + 2, 4); r += U'}'; i += 5; }
		} else if (c >= '1' && c <= '9') { r += U"\\g{"; r += c; r += U'}'; ++i; }
		else { r += U'\\'; r += c; ++i; }
	}
	return r;
}
struct Compiled {
	pcre2_code * code = nullptr;
	pcre2_match_data * data = nullptr;
};
static Compiled & compiled(const str & pattern, bool ci, bool ml) {
	static std::map<std::pair<str, int>, Compiled> all;
	auto f = all.find({pattern, ci * 2 + ml});
	if (f != all.end()) return f->second;
	Compiled & r = all[{pattern, ci * 2 + ml}];
	// its optimisations are off: it takes \h and \S for disjoint, which they aren't (U+00A0)
	uint32_t options = PCRE2_NO_AUTO_POSSESS | PCRE2_NO_START_OPTIMIZE | PCRE2_NO_DOTSTAR_ANCHOR | PCRE2_DOLLAR_ENDONLY | PCRE2_ALLOW_EMPTY_CLASS | (ml ? PCRE2_MULTILINE | PCRE2_ALT_CIRCUMFLEX : PCRE2_DOTALL) | (ci ? PCRE2_CASELESS : 0);
	static pcre2_compile_context * context = [] { auto c = pcre2_compile_context_create(nullptr); pcre2_set_newline(c, PCRE2_NEWLINE_LF); return c; }();
	str t = translate(pattern);
	int error; PCRE2_SIZE at;
	r.code = pcre2_compile(reinterpret_cast<PCRE2_SPTR>(t.data()), t.size(), options, &error, &at, context);
	if (r.code) r.data = pcre2_match_data_create_from_pattern(r.code, nullptr);
	return r;
}
struct NoOpinion { };
struct Pcre {
	Compiled & c; const str & s; int groups;
	bool exec(int from, uint32_t options, refre::Caps & out) {
		out.assign(static_cast<size_t>(groups) + 1, refre::Span{});
		int rc = pcre2_match(c.code, reinterpret_cast<PCRE2_SPTR>(s.data()), s.size(), static_cast<size_t>(from), options, c.data, nullptr);
		if (rc < -1) throw NoOpinion{};
		if (rc <= 0) return false;
		PCRE2_SIZE * v = pcre2_get_ovector_pointer(c.data);
		for (int g = 0; g <= groups && g < rc; ++g) if (v[2 * g] != PCRE2_UNSET) out[static_cast<size_t>(g)] = refre::Span{static_cast<int>(v[2 * g]), static_cast<int>(v[2 * g + 1]), true};
		return true;
	}
	bool match(refre::Caps & out) { return exec(0, PCRE2_ANCHORED | PCRE2_ENDANCHORED, out); }
	bool starts_with(int p, refre::Caps & out) { return exec(p, PCRE2_ANCHORED, out); }
	bool search(int from, refre::Caps & out) { return exec(from, 0, out); }
};
static bool same(const drv::Expect & a, const drv::Expect & b) { return a.items == b.items && a.stuck == b.stuck; }
static bool by_pcre(const str & pattern, const refre::Regex & re, const str & s, VKind kind, bool ci, bool ml, const refre::Props & props, drv::Expect & e) {
	if (re.has_mode_elsewhere || re.mode_ci || re.mode_ml) return false;
	if (apart(*re.root, ml)) return false;
	if (has_class(*re.root)) for (char32_t x: s) if (x > 255) return false; // PCRE2 10.42 is wrong about mixtures of classes for larger characters outside of its UTF mode
	Compiled & c = compiled(pattern, ci, ml);
	if (!c.code) return false;
	try {
		long steps;
		if (!same(e, drv::model(re, s, kind, ci, ml, props, steps, true))) return false; // iterations of repetitions are final
		Pcre m{c, s, re.groups};
		drv::Expect r;
		drv::evaluate_with(m, re.groups, static_cast<int>(s.size()), kind, r);
		e = r;
	} catch (const refre::TooLong &) { return false; } catch (const NoOpinion &) { return false; }
	return true;
}

int main(int argc, char ** argv) {
	refre::Props p;
	static PropTable table;
	for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--props") { table.load(argv[i + 1]); table.install(p); }
	drv::oracle = by_pcre;
	return drv::drive(argc, argv, p);
}
