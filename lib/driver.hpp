// Drives the cases of one generated translation unit: generates subjects, runs the reference model next to the library,
// reports differences as JSON lines. Every case runs in a forked worker so that a crash or a hang is attributed to its input.
#pragma once
#include "abi.hpp"
#include "refre.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>

namespace drv {

using refre::cp; using refre::str;

struct Shared { // progress of the worker
	int case_index; int op; int len; int done; cp subject[4096];
	long evals;
};
inline Shared * sh;

struct Guard { // memory which ends (and begins) at an inaccessible page
	unsigned char * base = nullptr; size_t cap = 0; size_t page = 4096;
	void init(size_t bytes) {
		page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
		cap = (bytes + page - 1) / page * page;
		base = static_cast<unsigned char *>(mmap(nullptr, cap + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (base == MAP_FAILED || mprotect(base + page, cap, PROT_READ | PROT_WRITE)) { perror("guard"); exit(3); }
	}
	unsigned char * at_end(size_t n) { return base + page + cap - n; }
	unsigned char * at_begin() { return base + page; }
};

inline std::string json_arr(const str & s) {
	std::string r = "[";
	for (size_t i = 0; i < s.size(); ++i) { if (i) r += ','; r += std::to_string(static_cast<cp>(s[i])); }
	return r + "]";
}
inline std::string json_spans(const std::vector<refre::Span> & v) {
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += v[i].m ? "[" + std::to_string(v[i].b) + "," + std::to_string(v[i].e) + "]" : "null"; }
	return r + "]";
}

struct Options {
	uint64_t seed = 1; int random_subjects = 200; int exhaustive = 364; int only = -1; int max_len = 0;
	bool have_subject = false; str subject; bool verbose = false; long skip_chars = 0;
	int cpu_seconds = 12; int samples = 1;
	bool shrink = true;
	int work_factor = 0; // > 0: the library may do that many operations per step of the model
	bool big = false; // subjects of up to 3000 characters
	bool classes = false; // subjects are all single units
};

struct Expect {
	int groups = 1;
	std::vector<std::vector<refre::Span>> items;
	bool stuck = false; // an empty match makes no progress: only the prefix is specified
};

// the operations on top of a matcher
template <typename M> inline void evaluate_with(M & m, int groups, int n, VKind kind, Expect & e) {
	e.groups = groups + 1;
	refre::Caps out;
	switch (kind) {
		case V_MATCH: m.match(out); e.items.push_back(out); break;
		case V_SEARCH: m.search(0, out); e.items.push_back(out); break;
		case V_STARTS: m.starts_with(0, out); e.items.push_back(out); break;
		case V_SEARCH_ALL: case V_TOKENIZE: {
			int cur = 0;
			bool first = true;
			while (first || cur < n) {
				bool r = kind == V_SEARCH_ALL ? m.search(cur, out) : m.starts_with(cur, out);
				if (!r) break;
				if (static_cast<int>(e.items.size()) >= V_MAXI - 2) { e.stuck = true; break; }
				e.items.push_back(out);
				if (out[0].b == out[0].e && out[0].e == cur && cur < n) { e.stuck = true; break; }
				cur = out[0].e;
				first = false;
			}
			break;
		}
		case V_SPLIT: {
			int cur = 0;
			for (;;) {
				if (static_cast<int>(e.items.size()) >= V_MAXI - 2) { e.stuck = true; break; }
				if (!m.search(cur, out)) {
					refre::Caps rest(static_cast<size_t>(groups) + 1);
					rest[0] = refre::Span{cur, n, true};
					e.items.push_back(rest);
					break;
				}
				int mb = out[0].b, me = out[0].e;
				out[0] = refre::Span{cur, mb, true};
				e.items.push_back(out);
				if (me == cur) { e.stuck = true; break; }
				cur = me;
			}
			break;
		}
	}
}
// what the model says about one operation; throws TooLong
inline Expect model(const refre::Regex & re, const str & s, VKind kind, bool ci, bool ml, const refre::Props & props, long & steps, bool full = false) {
	std::vector<cp> u(s.begin(), s.end());
	int n = static_cast<int>(u.size());
	refre::Matcher m(re, u.data(), n, ci, ml, props);
	m.limit = 300000;
	m.full = full;
	Expect e;
	evaluate_with(m, re.groups, n, kind, e);
	steps = m.steps;
	return e;
}
// something else which says what to expect; false: it has no opinion
using Oracle = bool (*)(const str & pattern, const refre::Regex & re, const str & s, VKind kind, bool ci, bool ml, const refre::Props & props, Expect & e);
inline Oracle oracle = nullptr;

inline bool same(const Expect & e, const VOut & o) {
	if (o.note) return false;
	if (o.items > 0 && o.groups != e.groups) return false;
	size_t n = e.items.size();
	// what doesn't fit into the record: its begin is compared
	const size_t room = e.groups > 0 ? std::min(static_cast<size_t>(V_MAXI), sizeof(o.s) / sizeof(o.s[0]) / static_cast<size_t>(e.groups)) : 0;
	if (n > room) {
		if (!o.overflow || static_cast<size_t>(o.items) != room) return false;
		n = room;
	} else if (e.stuck ? static_cast<size_t>(o.items) < n : (static_cast<size_t>(o.items) != n || o.overflow)) return false;
	for (size_t i = 0; i < n; ++i) for (int g = 0; g < e.groups; ++g) {
		const VSpan & a = o.s[static_cast<int>(i) * o.groups + g];
		if (!(refre::Span{a.b, a.e, a.m} == e.items[i][static_cast<size_t>(g)])) return false;
	}
	return true;
}
inline std::string show(const Expect & e) {
	std::string r = "[";
	for (size_t i = 0; i < e.items.size(); ++i) { if (i) r += ','; r += json_spans(e.items[i]); }
	if (e.stuck) r += ",\"...\"";
	return r + "]";
}
inline std::string show(const VOut & o) {
	std::string r = "[";
	for (int i = 0; i < o.items && i < 40; ++i) {
		std::vector<refre::Span> v;
		for (int g = 0; g < o.groups; ++g) { const VSpan & a = o.s[i * o.groups + g]; v.push_back(refre::Span{a.b, a.e, a.m}); }
		if (i) r += ',';
		r += json_spans(v);
	}
	if (o.overflow) r += ",\"...\"";
	if (o.note) r += std::string(",\"note: ") + (o.note_text ? o.note_text : "") + "\"";
	return r + "]";
}

inline void utf8_append(std::string & s, cp c) {
	if (c < 0x80) s += static_cast<char>(c);
	else if (c < 0x800) { s += static_cast<char>(0xC0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
	else { s += static_cast<char>(0xF0 | (c >> 18)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
}

struct Worker {
	Options opt;
	const refre::Props & props;
	Guard guard;
	VOut * out;
	double max_ratio = 0;
	long evals = 0, nontrivial = 0, matched = 0, skipped = 0, subjects_n = 0, failing_ops = 0;

	Worker(const Options & o, const refre::Props & p): opt(o), props(p) { guard.init(64 * 1024); out = new VOut; }

	std::vector<int> u8off; // byte offset -> code point index

	// run an operation of the library on a subject placed next to the guard page
	void call(const VCase & c, const VOp & op, const str & s, bool front) {
		*out = VOut{};
		auto place = [&](auto unit) {
			using U = decltype(unit);
			size_t bytes = s.size() * sizeof(U);
			U * p = reinterpret_cast<U *>(front ? guard.at_begin() : guard.at_end(bytes));
			for (size_t i = 0; i < s.size(); ++i) p[i] = static_cast<U>(s[i]);
			op.fn(p, s.size(), out);
		};
		if (c.unit == 1 || c.unit == 9) place(static_cast<unsigned char>(0));
		else if (c.unit == 2) place(char16_t(0));
		else if (c.unit == 8) {
			std::string e;
			u8off.clear();
			std::vector<int> start;
			for (size_t i = 0; i < s.size(); ++i) { start.push_back(static_cast<int>(e.size())); utf8_append(e, static_cast<cp>(s[i])); }
			start.push_back(static_cast<int>(e.size()));
			unsigned char * p = front ? guard.at_begin() : guard.at_end(e.size());
			memcpy(p, e.data(), e.size());
			op.fn(p, e.size(), out);
			// back to code points (an offset inside of a code point stays visible)
			auto conv = [&](int b) { auto f = std::lower_bound(start.begin(), start.end(), b); if (f == start.end() || *f != b) return -1000 - b; return static_cast<int>(f - start.begin()); };
			for (int i = 0; i < out->items * out->groups; ++i) if (out->s[i].m) { out->s[i].b = conv(out->s[i].b); out->s[i].e = conv(out->s[i].e); }
		} else place(char32_t(0));
	}
	void progress(int ci, int op, const str & s) {
		sh->case_index = ci; sh->op = op; sh->len = static_cast<int>(std::min<size_t>(s.size(), 4096));
		for (int i = 0; i < sh->len; ++i) sh->subject[i] = static_cast<cp>(s[static_cast<size_t>(i)]);
	}
	void arm(int seconds) {
		itimerval t{};
		t.it_value.tv_sec = seconds;
		setitimer(ITIMER_PROF, &t, nullptr);
	}
	static bool flag_ci(const refre::Regex & re, const VOp & op) { return re.mode_ci ? re.ci : (op.flags & VF_CI) != 0; }
	static bool flag_ml(const refre::Regex & re, const VOp & op) { return re.mode_ml ? re.ml : (op.flags & VF_ML) != 0; }

	// 0 = same, 1 = different, -1 = not decided
	int compare(int ci, const VCase & c, const refre::Regex & re, int opi, const str & s, Expect & e, long & steps, bool front) {
		const VOp & op = c.ops[opi];
		if (c.unit == 9) { // any bytes: no expectation
			e = Expect{}; steps = 0;
			progress(ci, opi, s);
			call(c, op, s, front);
			if (!out->note && s.size() > 1) steps = 1000000;
			return out->note ? 1 : 0;
		}
		try { e = model(re, s, op.kind, flag_ci(re, op), flag_ml(re, op), props, steps); } catch (const refre::TooLong &) { return -1; }
		if (oracle && !oracle(str(c.pattern, static_cast<size_t>(c.pattern_len)), re, s, op.kind, flag_ci(re, op), flag_ml(re, op), props, e)) return -1;
		progress(ci, opi, s);
		call(c, op, s, front);
		if (opt.work_factor && out->work) {
			double ratio = static_cast<double>(out->work) / static_cast<double>(steps + 2 * static_cast<long>(s.size()) + 20);
			if (ratio > max_ratio) max_ratio = ratio;
			if (!e.stuck && ratio > static_cast<double>(opt.work_factor)) { out->note = 40; out->note_text = "more work than plain backtracking needs"; }
		}
		return same(e, *out) ? 0 : 1;
	}
	str shrink(int ci, const VCase & c, const refre::Regex & re, int opi, str s, bool front) {
		Expect e; long st;
		bool again = true; int budget = 600;
		while (again && budget > 0) {
			again = false;
			for (size_t len = s.size(); len >= 1 && !again; len = len / 2) for (size_t i = 0; i + len <= s.size() && !again; ++i) {
				str t = s; t.erase(i, len);
				if (--budget < 0) break;
				if (compare(ci, c, re, opi, t, e, st, front) == 1) { s = t; again = true; }
			}
			for (size_t i = 0; i < s.size() && !again; ++i) for (char32_t r: {U'a', U'b'}) {
				if (s[i] == r || s[i] == U'a' || --budget < 0) continue;
				str t = s; t[i] = r;
				if (compare(ci, c, re, opi, t, e, st, front) == 1) { s = t; again = true; break; }
			}
		}
		return s;
	}

	void run_case(int ci, FILE * f) {
		const VCase & c = v_cases[ci];
		str pat(c.pattern, static_cast<size_t>(c.pattern_len));
		refre::Regex re = refre::parse(pat, props);
		if (!re.ok) { fprintf(f, "{\"t\":\"refreject\",\"case\":%d}\n", c.id); return; }
		uint64_t h = opt.seed * 1099511628211ull + 14695981039346656037ull;
		for (char32_t ch: pat) h = (h ^ ch) * 1099511628211ull;
		refre::Gen gen(h, props);
		if (opt.big) { gen.rep_limit = 2200; gen.size_limit = 3000; }
		bool any_ci = re.ci;
		for (int i = 0; i < c.nops; ++i) if (flag_ci(re, c.ops[i])) any_ci = true;
		gen.init_alphabet(re, any_ci, c.unit == 1 ? 255 : c.unit == 2 ? 0xFFFF : 0x10FFFF);
		if (c.unit == 8 || c.unit == 2) { auto & a = gen.alphabet; a.erase(std::remove_if(a.begin(), a.end(), [](cp x) { return x >= 0xD800 && x < 0xE000; }), a.end()); }

		std::vector<str> subjects;
		if (opt.have_subject) subjects.push_back(opt.subject);
		else if (c.unit == 9) { // bytes: encoded text, damaged
			static const unsigned char special[] = {0x00, 0x41, 0x61, 0x62, 0x7F, 0x80, 0xBF, 0xC0, 0xC2, 0xC3, 0xDF, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF8, 0xFC, 0xFE, 0xFF, 0x0A};
			subjects.push_back(str{});
			for (unsigned char x: special) { subjects.push_back(str(1, x)); for (unsigned char y: special) subjects.push_back(str{static_cast<char32_t>(x), static_cast<char32_t>(y)}); }
			for (int i = 0; i < opt.random_subjects; ++i) {
				str t = gen.random_subject(re, any_ci);
				if (t.size() > 200) t.resize(200);
				std::string enc;
				for (char32_t x: t) utf8_append(enc, static_cast<cp>(x) > 0x10FFFF ? 0x10FFFF : static_cast<cp>(x));
				for (size_t k = gen.below(4) + 1; k; --k) {
					size_t at = enc.empty() ? 0 : gen.below(enc.size());
					unsigned char x = special[gen.below(sizeof special)];
					switch (gen.below(5)) {
						case 0: if (!enc.empty()) enc.erase(at, 1); break;
						case 1: enc.insert(at, 1, static_cast<char>(x)); break;
						case 2: if (!enc.empty()) enc[at] = static_cast<char>(x); break;
						case 3: enc.resize(at); break;
						case 4: enc += static_cast<char>(x); break;
					}
				}
				str s;
				for (char x: enc) s += static_cast<char32_t>(static_cast<unsigned char>(x));
				subjects.push_back(s);
			}
		}
		else if (opt.classes) {
			cp top = c.unit == 1 ? 255 : 0x3100;
			for (cp x = 0; x <= top; ++x) subjects.push_back(str(1, static_cast<char32_t>(x)));
			cp max = c.unit == 1 ? 255 : c.unit == 2 ? 0xFFFF : 0x10FFFF;
			std::set<cp> bounds;
			refre::Gen::collect(*re.root, bounds);
			for (cp b: bounds) for (int d = -1; d <= 1; ++d) if (b + static_cast<cp>(d) <= max) subjects.push_back(str(1, static_cast<char32_t>(b + static_cast<cp>(d))));
			for (int i = 0; i < opt.random_subjects; ++i) subjects.push_back(str(1, static_cast<char32_t>(gen.below(max + 1))));
		} else {
			// all short strings over a few characters of the pattern
			size_t k = std::min<size_t>(3, gen.alphabet.size());
			std::vector<cp> ab(gen.alphabet.begin(), gen.alphabet.begin() + static_cast<long>(k));
			if (gen.chance(50)) {
				// two letters and longer strings
				ab.resize(std::min<size_t>(2, ab.size()));
			}
			std::vector<str> level{str{}};
			subjects.push_back(str{});
			while (static_cast<int>(subjects.size() + level.size() * ab.size()) <= opt.exhaustive) {
				std::vector<str> next;
				for (auto & p: level) for (cp a: ab) next.push_back(p + static_cast<char32_t>(a));
				subjects.insert(subjects.end(), next.begin(), next.end());
				level = std::move(next);
				if (level.empty()) break;
			}
			int longs = opt.random_subjects && !opt.max_len ? std::max(4, opt.random_subjects / 20) : 0;
			for (int i = 0; i < opt.random_subjects + longs; ++i) {
				bool ci_subject = any_ci;
				str s = i < opt.random_subjects ? gen.random_subject(re, ci_subject) : gen.long_subject(re, ci_subject);
				if (opt.max_len && s.size() > static_cast<size_t>(opt.max_len)) s.resize(static_cast<size_t>(opt.max_len));
				if (c.unit == 8 || c.unit == 2) for (auto & x: s) if ((x >= 0xD800 && x < 0xE000) || x > 0x10FFFF) x = U'x';
				if (c.unit == 1) for (auto & x: s) if (x > 255) x = U'x';
				if (c.unit == 2) for (auto & x: s) if (x > 0xFFFF) x = U'x';
				for (auto & x: s) if (!props.usable(static_cast<cp>(x))) x = U'x';
				subjects.push_back(s);
			}
		}
		std::set<str> seen;
		std::vector<int> failures(static_cast<size_t>(c.nops), 0);
		int sampled = 0;
		size_t sample_at = gen.below(subjects.size() ? subjects.size() : 1);
		size_t idx = 0;
		for (const str & s: subjects) {
			++idx;
			if (!seen.insert(s).second && !opt.have_subject) continue;
			++subjects_n;
			bool front = gen.chance(30);
			arm(opt.cpu_seconds);
			for (int o = 0; o < c.nops; ++o) {
				if (failures[static_cast<size_t>(o)] >= 1) continue;
				Expect e; long steps = 0;
				int r = compare(ci, c, re, o, s, e, steps, front);
				if (r < 0) { ++skipped; continue; }
				++evals;
				bool got = !e.items.empty() && e.items[0][0].m;
				bool nt = false;
				for (auto & it: e.items) for (auto & g: it) if (g.m && g.e > g.b) nt = true;
				if (!nt && steps > 3 * static_cast<long>(s.size() + 1) + 6) nt = true;
				if (s.empty()) nt = false;
				if (got) ++matched;
				if (nt) ++nontrivial;
				if (opt.verbose) fprintf(f, "{\"t\":\"eval\",\"case\":%d,\"op\":\"%s\",\"exp\":%s,\"got\":%s,\"ok\":%s}\n", c.id, c.ops[o].name, show(e).c_str(), show(*out).c_str(), r ? "false" : "true");
				if (r == 0 && nt && sampled < opt.samples && idx >= sample_at) {
					++sampled;
					fprintf(f, "{\"t\":\"sample\",\"case\":%d,\"op\":\"%s\",\"subject\":%s,\"result\":%s}\n", c.id, c.ops[o].name, json_arr(s).c_str(), show(*out).c_str());
				}
				if (r == 1) {
					++failures[static_cast<size_t>(o)];
					str t = opt.shrink && !opt.have_subject ? shrink(ci, c, re, o, s, front) : s;
					compare(ci, c, re, o, t, e, steps, front);
					fprintf(f, "{\"t\":\"mismatch\",\"case\":%d,\"op\":\"%s\",\"opi\":%d,\"subject\":%s,\"exp\":%s,\"got\":%s}\n", c.id, c.ops[o].name, o, json_arr(t).c_str(), show(e).c_str(), show(*out).c_str());
					fflush(f);
				}
			}
		}
		arm(0);
		fprintf(f, "{\"t\":\"case\",\"case\":%d,\"subjects\":%ld,\"evals\":%ld,\"nontrivial\":%ld,\"matched\":%ld,\"skipped\":%ld,\"ratio\":%.2f}\n", c.id, subjects_n, evals, nontrivial, matched, skipped, max_ratio);
		max_ratio = 0;
		subjects_n = evals = nontrivial = matched = skipped = 0;
		fflush(f);
	}
};

inline int drive(int argc, char ** argv, const refre::Props & props) {
	Options opt;
	const char * outname = nullptr;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&] { return i + 1 < argc ? argv[++i] : const_cast<char *>(""); };
		if (a == "--seed") opt.seed = strtoull(val(), nullptr, 10);
		else if (a == "--random") opt.random_subjects = atoi(val());
		else if (a == "--exhaustive") opt.exhaustive = atoi(val());
		else if (a == "--only") opt.only = atoi(val());
		else if (a == "--maxlen") opt.max_len = atoi(val());
		else if (a == "--cpu") opt.cpu_seconds = atoi(val());
		else if (a == "--samples") opt.samples = atoi(val());
		else if (a == "--verbose") opt.verbose = true;
		else if (a == "--noshrink") opt.shrink = false;
		else if (a == "--work") opt.work_factor = atoi(val());
		else if (a == "--classes") opt.classes = true;
		else if (a == "--big") opt.big = true;
		else if (a == "--out") outname = val();
		else if (a == "--subject") { opt.have_subject = true; std::string v = val(); const char * p = v.c_str(); while (*p) { char * q; opt.subject += static_cast<char32_t>(strtoul(p, &q, 10)); p = *q == ',' ? q + 1 : q; if (p == q && *p) break; } }
	}
	FILE * f = outname ? fopen(outname, "w") : stdout;
	if (!f) { perror("out"); return 3; }
	rlimit rl{};
	getrlimit(RLIMIT_STACK, &rl);
	rlimit core{0, 0};
	setrlimit(RLIMIT_CORE, &core);
	sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	int from = 0;
	while (from < v_ncases) {
		sh->case_index = from; sh->op = -1; sh->len = 0; sh->done = 0;
		fflush(f);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); return 3; }
		if (pid == 0) {
			Worker w(opt, props);
			for (int i = from; i < v_ncases; ++i) {
				if (opt.only >= 0 && v_cases[i].id != opt.only) continue;
				sh->case_index = i; sh->op = -1; sh->len = 0;
				w.run_case(i, f);
			}
			sh->done = 1;
			fflush(f);
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		if (sh->done) break;
		const VCase & c = v_cases[sh->case_index];
		str s;
		for (int i = 0; i < sh->len; ++i) s += static_cast<char32_t>(sh->subject[i]);
		int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
		fseek(f, 0, SEEK_END);
		fprintf(f, "{\"t\":\"crash\",\"case\":%d,\"op\":\"%s\",\"opi\":%d,\"subject\":%s,\"signal\":%d,\"status\":%d}\n", c.id, sh->op >= 0 ? c.ops[sh->op].name : "", sh->op, json_arr(s).c_str(), sig, st);
		fflush(f);
		if (sh->op < 0) { // not inside of the library: the framework itself failed
			fprintf(f, "{\"t\":\"framework\",\"case\":%d}\n", c.id);
			fflush(f);
		}
		from = sh->case_index + 1;
	}
	fprintf(f, "{\"t\":\"end\"}\n");
	if (outname) fclose(f); else fflush(f);
	return 0;
}

} // namespace drv
