// Independent reference model of the regex dialect: parser + backtracking matcher.
// Written from the documentation / grammar of the dialect; shares no code with the library.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <memory>
#include <set>
#include <map>
#include <functional>
#include <random>
#include <algorithm>

namespace refre {

using cp = uint32_t;
using str = std::u32string;

// ---------------------------------------------------------------- AST
enum class K { Empty, Char, Any, Set, Seq, Alt, Rep, Cap, Bref, Bol, Eol, SubjBegin, SubjEnd, SubjEndNl, WordB, NWordB, Look, Atomic, Mode };
enum class Q { Greedy, Lazy, Possessive };
enum class Cls { None, Digit, Word, Space, HSpace, VSpace, NotNl, Alnum, Alpha, Ascii, Blank, Cntrl, Graph, Lower, Print, Punct, Upper, XDigit, Prop };

struct Item { // of a character set
	Cls cls = Cls::None;
	bool neg = false;
	cp lo = 0, hi = 0;
	std::string prop; // name or name=value
};

struct Node {
	K k = K::Empty;
	std::vector<std::unique_ptr<Node>> c;
	cp ch = 0;
	bool neg = false;          // set, look
	std::vector<Item> items;   // set
	long lo = 0, hi = -1;      // rep (hi == -1: no limit)
	Q q = Q::Greedy;
	int id = 0;                // capture, backreference
	std::string name;          // capture, backreference, mode letters
	bool behind = false;       // look
};
using P = std::unique_ptr<Node>;
inline P mk(K k) { auto p = std::make_unique<Node>(); p->k = k; return p; }

// property callback: known(prop) and member(prop, cp)
struct Props {
	std::function<bool(const std::string &)> known = [](const std::string &) { return false; };
	std::function<bool(const std::string &, cp)> member = [](const std::string &, cp) { return false; };
	std::function<std::vector<cp>(const std::string &, std::mt19937_64 &)> examples = [](const std::string &, std::mt19937_64 &) { return std::vector<cp>(); };
	std::function<bool(cp)> usable = [](cp) { return true; }; // the model speaks for this code point
};

struct Regex {
	P root;
	int groups = 0;
	std::vector<std::string> names; // index = id (0 unused)
	bool ok = false;
	bool ci = false, ml = false, mode_ci = false, mode_ml = false; // leading mode switches
	size_t error_at = 0;
	bool has_mode_elsewhere = false;
};

// ---------------------------------------------------------------- parser
struct Reject { bool semantic = false; }; // semantic: well formed, but it names something which doesn't exist

inline bool is_in(cp c, const char * s) { for (; *s; ++s) if (static_cast<unsigned char>(*s) == c) return true; return false; }
inline bool is_digit(cp c) { return c >= '0' && c <= '9'; }
inline bool is_alpha(cp c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool is_hex(cp c) { return is_digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline bool is_word(cp c) { return is_alpha(c) || is_digit(c) || c == '_'; }
// characters the grammar mentions; everything else is "other"
inline bool is_other(cp c) { return !is_word(c) && !is_in(c, "!$()*+,-./:<=>?[\\\"]^{|}"); }
inline bool is_nonspecial(cp c) { return is_word(c) || is_in(c, "/,:!=\""); }
inline bool is_in_class_special(cp c) { return is_in(c, "/_+*().${}?!=<>|\""); }

struct Parser {
	const str & s;
	const Props & props;
	size_t i = 0;
	int groups = 0;
	std::vector<std::string> names{""};
	bool mode_seen = false;

	Parser(const str & in, const Props & p): s(in), props(p) { }

	static constexpr cp END = 0xFFFFFFFFu;
	cp peek(size_t k = 0) const { return i + k < s.size() ? static_cast<cp>(s[i + k]) : END; }
	void expect(cp c) { if (peek() != c) throw Reject{}; ++i; }
	bool starts_atom() const { cp c = peek(); return c != END && !is_in(c, "*+?{}|)"); }

	P parse() {
		P r;
		if (peek() == END) return mk(K::Empty);
		if (peek() == '|') {
			++i;
			P rest = starts_atom() ? content() : mk(K::Empty);
			r = alt(mk(K::Empty), std::move(rest));
		} else {
			r = content();
		}
		if (peek() != END) throw Reject{};
		return r;
	}
	static P alt(P a, P b) {
		P r = mk(K::Alt);
		r->c.push_back(std::move(a));
		r->c.push_back(std::move(b));
		return r;
	}
	P content() {
		P a = sequence();
		if (peek() == '|') {
			++i;
			P b = starts_atom() ? content() : mk(K::Empty);
			return alt(std::move(a), std::move(b));
		}
		return a;
	}
	P content_in_group() {
		if (peek() == '|') {
			++i;
			P b = starts_atom() ? content() : mk(K::Empty);
			return alt(mk(K::Empty), std::move(b));
		}
		if (peek() == ')') return mk(K::Empty);
		return content();
	}
	P sequence() {
		P r = mk(K::Seq);
		if (!starts_atom()) throw Reject{};
		while (starts_atom()) r->c.push_back(repeat(atom()));
		return r;
	}
	long number() {
		if (!is_digit(peek())) throw Reject{};
		long n = 0;
		while (is_digit(peek())) { n = n * 10 + static_cast<long>(peek() - '0'); ++i; if (n > 100000000) throw Reject{}; }
		return n;
	}
	Q mod() {
		if (peek() == '?') { ++i; return Q::Lazy; }
		if (peek() == '+') { ++i; return Q::Possessive; }
		return Q::Greedy;
	}
	P repeat(P a) {
		long lo, hi; Q q = Q::Greedy;
		switch (peek()) {
			case '+': ++i; lo = 1; hi = -1; q = mod(); break;
			case '*': ++i; lo = 0; hi = -1; q = mod(); break;
			case '?': ++i; lo = 0; hi = 1; q = mod(); break;
			case '{': {
				++i;
				lo = number();
				if (peek() == '}') { ++i; hi = lo; break; }
				expect(',');
				if (peek() == '}') { ++i; hi = -1; q = mod(); break; }
				hi = number();
				expect('}');
				q = mod();
				break;
			}
			default: return a;
		}
		P r = mk(K::Rep);
		r->lo = lo; r->hi = hi; r->q = q;
		r->c.push_back(std::move(a));
		return r;
	}
	P atom() {
		cp c = peek();
		if (c == '(') { ++i; return group(); }
		if (c == '[') { ++i; return set(); }
		if (c == '^') { ++i; return mk(K::Bol); }
		if (c == '$') { ++i; return mk(K::Eol); }
		if (c == '.') { ++i; return mk(K::Any); }
		if (c == '\\') { ++i; return escape(); }
		if (is_other(c) || is_nonspecial(c) || is_in(c, ":]-<>")) { ++i; return chr(c); }
		throw Reject{};
	}
	static P chr(cp c) { P r = mk(K::Char); r->ch = c; return r; }

	std::string name_token() {
		std::string n;
		if (!(is_alpha(peek()) || peek() == '_')) throw Reject{};
		while (is_word(peek())) { n += static_cast<char>(peek()); ++i; }
		return n;
	}
	P group() {
		if (peek() != '?') return capture("");
		++i;
		switch (peek()) {
			case ':': { ++i; P r = content_in_group(); expect(')'); return wrap(std::move(r)); }
			case '>': { ++i; P r = mk(K::Atomic); r->c.push_back(content_in_group()); expect(')'); return r; }
			case '=': case '!': { bool n = peek() == '!'; ++i; return look(false, n); }
			case '<': {
				++i;
				if (peek() == '=' || peek() == '!') { bool n = peek() == '!'; ++i; return look(true, n); }
				std::string n = name_token();
				expect('>');
				return capture(n);
			}
			case 'i': case 'c': case 's': case 'm': {
				P r = mk(K::Mode);
				while (peek() != ')') {
					if (!is_in(peek(), "icsm")) throw Reject{};
					r->name += static_cast<char>(peek());
					++i;
				}
				++i;
				mode_seen = true;
				return r;
			}
			default: throw Reject{};
		}
	}
	static P wrap(P r) { // (?:...) keeps its content as one item
		P w = mk(K::Seq);
		w->c.push_back(std::move(r));
		return w;
	}
	P look(bool behind, bool neg) {
		P r = mk(K::Look);
		r->behind = behind; r->neg = neg;
		r->c.push_back(content_in_group());
		expect(')');
		return r;
	}
	P capture(const std::string & n) {
		P r = mk(K::Cap);
		r->id = ++groups;
		r->name = n;
		names.push_back(n);
		r->c.push_back(content_in_group());
		expect(')');
		return r;
	}
	// an escape which stands for one character; returns false if it isn't one
	bool char_escape(cp & out) {
		cp c = peek();
		if (c == END) throw Reject{};
		if (is_in(c, ".[]{}()\\*+?|^$-/\"<>")) { ++i; out = c; return true; }
		switch (c) {
			case 'n': ++i; out = '\n'; return true;
			case 't': ++i; out = '\t'; return true;
			case 'r': ++i; out = '\r'; return true;
			case '0': ++i; out = 0; return true;
			case 'a': ++i; out = 7; return true;
			case 'e': ++i; out = 27; return true;
			case 'f': ++i; out = 12; return true;
			case 'u': ++i; out = hex(4); return true;
			case 'x': ++i; out = hex(2); return true;
			default: return false;
		}
	}
	cp hexval(cp c) { if (is_digit(c)) return c - '0'; if (c >= 'a') return c - 'a' + 10; return c - 'A' + 10; }
	cp hex(int n) {
		cp v = 0;
		if (peek() == '{') {
			++i;
			int k = 0;
			while (is_hex(peek())) { v = (v << 4) | hexval(peek()); ++i; ++k; }
			if (k == 0) throw Reject{};
			expect('}');
			return v;
		}
		for (int k = 0; k < n; ++k) {
			if (!is_hex(peek())) throw Reject{};
			v = (v << 4) | hexval(peek());
			++i;
		}
		return v;
	}
	bool class_escape(Item & it) {
		cp c = peek();
		it = Item{};
		switch (c) {
			case 'd': case 'D': it.cls = Cls::Digit; it.neg = c == 'D'; ++i; return true;
			case 'w': case 'W': it.cls = Cls::Word; it.neg = c == 'W'; ++i; return true;
			case 's': case 'S': it.cls = Cls::Space; it.neg = c == 'S'; ++i; return true;
			case 'h': case 'H': it.cls = Cls::HSpace; it.neg = c == 'H'; ++i; return true;
			case 'v': case 'V': it.cls = Cls::VSpace; it.neg = c == 'V'; ++i; return true;
			case 'N': it.cls = Cls::NotNl; ++i; return true;
			case 'p': case 'P': {
				it.cls = Cls::Prop; it.neg = c == 'P';
				++i;
				expect('{');
				auto part = [&] {
					std::string n;
					while (is_word(peek()) || peek() == '.') { n += static_cast<char>(peek()); ++i; }
					if (n.empty()) throw Reject{};
					return n;
				};
				it.prop = part();
				if (peek() == '=') { ++i; it.prop += "=" + part(); }
				expect('}');
				if (!props.known(it.prop)) throw Reject{true};
				return true;
			}
			default: return false;
		}
	}
	P escape() {
		cp v;
		if (char_escape(v)) return chr(v);
		Item it;
		if (class_escape(it)) { P r = mk(K::Set); r->items.push_back(it); return r; }
		cp c = peek();
		switch (c) {
			case 'A': ++i; return mk(K::SubjBegin);
			case 'z': ++i; return mk(K::SubjEnd);
			case 'Z': ++i; return mk(K::SubjEndNl);
			case 'b': ++i; return mk(K::WordB);
			case 'B': ++i; return mk(K::NWordB);
			case 'g': {
				++i;
				expect('{');
				P r = mk(K::Bref);
				if (peek() == '-') {
					++i;
					long n = number();
					if (n > groups) throw Reject{true};
					r->id = static_cast<int>(groups + 1 - n);
				} else if (is_digit(peek())) {
					long n = number();
					if (n > groups) throw Reject{true};
					r->id = static_cast<int>(n);
				} else {
					r->name = name_token();
					r->id = -1;
				}
				expect('}');
				return r;
			}
			default:
				if (c >= '1' && c <= '9') {
					++i;
					int n = static_cast<int>(c - '0');
					if (n > groups) throw Reject{true};
					P r = mk(K::Bref);
					r->id = n;
					return r;
				}
				throw Reject{};
		}
	}
	Item named_class() { // behind "[:"
		Item it;
		if (peek() == '^') { ++i; it.neg = true; }
		static const std::map<std::string, Cls> table{
			{"alnum", Cls::Alnum}, {"alpha", Cls::Alpha}, {"ascii", Cls::Ascii}, {"blank", Cls::Blank}, {"cntrl", Cls::Cntrl},
			{"digit", Cls::Digit}, {"graph", Cls::Graph}, {"lower", Cls::Lower}, {"print", Cls::Print}, {"punct", Cls::Punct},
			{"space", Cls::Space}, {"upper", Cls::Upper}, {"word", Cls::Word}, {"xdigit", Cls::XDigit}};
		std::string n;
		while (peek() != ':' && peek() != END) { // the first character which doesn't continue a name is the error
			if (peek() > 127) throw Reject{};
			std::string next = n + static_cast<char>(peek());
			auto f = table.lower_bound(next);
			if (f == table.end() || f->first.compare(0, next.size(), next) != 0) throw Reject{};
			n = next;
			++i;
		}
		if (table.find(n) == table.end()) throw Reject{};
		expect(':');
		expect(']');
		auto f = table.find(n);
		if (f == table.end()) throw Reject{};
		it.cls = f->second;
		return it;
	}
	P set() {
		P r = mk(K::Set);
		bool first = true;
		if (peek() == '^') {
			++i;
			r->neg = true;
			first = false; // a caret is fine as the first item of a negative set
			if (peek() == ']') { ++i; return r; }
		}
		bool any = false;
		while (!any || peek() != ']') {
			if (peek() == END) throw Reject{};
			r->items.push_back(item(first));
			first = false;
			any = true;
		}
		++i;
		return r;
	}
	Item item(bool first) {
		cp c = peek();
		Item it;
		cp lo = 0;
		bool named = false;
		if (c == '[') {
			++i;
			expect(':');
			it = named_class();
			if (peek() != '-') return it;
			named = true; // the syntax knows ranges which begin with a class, but they aren't ranges of characters
		} else
		if (c == '\\') {
			++i;
			if (class_escape(it)) return it;
			if (!char_escape(lo)) throw Reject{};
		} else if (is_other(c) || is_nonspecial(c) || is_in_class_special(c) || (c == '^' && !first)) {
			++i;
			lo = c;
		} else {
			throw Reject{};
		}
		it.lo = it.hi = lo;
		if (peek() == '-') {
			++i;
			cp r = peek();
			if (r == '\\') {
				++i;
				cp v;
				if (!char_escape(v)) throw Reject{};
				it.hi = v;
			} else if (r != END && (is_other(r) || is_nonspecial(r) || is_in_class_special(r) || r == '^')) {
				++i;
				it.hi = r;
			} else {
				throw Reject{};
			}
			if (named) throw Reject{true};
		}
		return it;
	}
};

inline void resolve(Node & n, const std::vector<std::string> & names, bool & ok) {
	if (n.k == K::Bref && n.id == -1) {
		auto f = std::find(names.begin() + 1, names.end(), n.name);
		if (f == names.end()) ok = false; // the name doesn't exist
		else n.id = static_cast<int>(f - names.begin());
	}
	for (auto & c: n.c) resolve(*c, names, ok);
}

inline int count_modes(const Node & n) { int r = n.k == K::Mode; for (auto & c: n.c) r += count_modes(*c); return r; }

inline Regex parse(const str & pattern, const Props & props = {}) {
	Regex r;
	Parser p(pattern, props);
	try {
		r.root = p.parse();
		r.ok = true;
	} catch (const Reject & e) {
		r.error_at = e.semantic ? 1000000 : p.i;
		return r;
	}
	r.groups = p.groups;
	r.names = p.names;
	bool names_ok = true;
	resolve(*r.root, r.names, names_ok);
	// mode switches at the front of the whole regex
	if (r.root->k == K::Seq) {
		auto & c = r.root->c;
		while (!c.empty() && c.front()->k == K::Mode) {
			for (char m: c.front()->name) switch (m) {
				case 'i': r.ci = true; r.mode_ci = true; break;
				case 'c': r.ci = false; r.mode_ci = true; break;
				case 's': r.ml = false; r.mode_ml = true; break;
				case 'm': r.ml = true; r.mode_ml = true; break;
			}
			c.erase(c.begin());
		}
	}
	r.has_mode_elsewhere = count_modes(*r.root) > 0;
	return r;
}

// ---------------------------------------------------------------- character classes
inline cp swap_case(cp c) { return is_alpha(c) ? (c ^ 0x20) : c; }

inline bool in_class(Cls k, cp c) {
	switch (k) {
		case Cls::Digit: return is_digit(c);
		case Cls::Word: return is_word(c);
		case Cls::Space: return c == ' ' || (c >= 9 && c <= 13);
		case Cls::HSpace: return c == 9 || c == 32 || c == 0xA0 || c == 0x1680 || c == 0x180E || (c >= 0x2000 && c <= 0x200A) || c == 0x202F || c == 0x205F || c == 0x3000;
		case Cls::VSpace: return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029;
		case Cls::NotNl: return c != '\n';
		case Cls::Alnum: return is_alpha(c) || is_digit(c);
		case Cls::Alpha: return is_alpha(c);
		case Cls::Ascii: return c <= 0x7F;
		case Cls::Blank: return c == ' ' || c == '\t';
		case Cls::Cntrl: return c <= 0x1F || c == 0x7F;
		case Cls::Graph: return c >= 0x21 && c <= 0x7E;
		case Cls::Lower: return c >= 'a' && c <= 'z';
		case Cls::Print: return c >= 0x20 && c <= 0x7E;
		case Cls::Punct: return (c >= 0x21 && c <= 0x7E) && !is_alpha(c) && !is_digit(c);
		case Cls::Upper: return c >= 'A' && c <= 'Z';
		case Cls::XDigit: return is_hex(c);
		default: return false;
	}
}
inline bool item_match(const Item & it, cp c, bool ci, const Props & props) {
	bool r;
	if (it.cls == Cls::Prop) r = props.member(it.prop, c);
	else if (it.cls == Cls::None) r = (c >= it.lo && c <= it.hi) || (ci && swap_case(c) >= it.lo && swap_case(c) <= it.hi);
	else r = in_class(it.cls, c) || (ci && in_class(it.cls, swap_case(c)));
	return r != it.neg;
}
inline bool set_match(const Node & n, cp c, bool ci, const Props & props) {
	bool r = false;
	for (auto & it: n.items) if (item_match(it, c, ci, props)) { r = true; break; }
	return r != n.neg;
}

// ---------------------------------------------------------------- matcher
struct Span { int b = -1, e = -1; bool m = false; bool operator==(const Span & o) const { return m == o.m && (!m || (b == o.b && e == o.e)); } };
using Caps = std::vector<Span>;

template <typename F> struct fref;
template <typename R, typename... A> struct fref<R(A...)> {
	void * o;
	R (*f)(void *, A...);
	template <typename T> fref(T & t): o(&t), f([](void * p, A... a) -> R { return (*static_cast<T *>(p))(a...); }) { }
	R operator()(A... a) const { return f(o, a...); }
};
using Kont = fref<bool(int, const Caps &)>;

struct TooLong { };

struct Matcher {
	const Regex & re;
	const cp * s;
	int n;
	bool ci, ml;
	const Props & props;
	long steps = 0;
	long limit = 2000000;
	int depth = 0;
	int max_depth = 20000;
	bool full = false; // iterations of repetitions aren't final: plain backtracking

	Matcher(const Regex & r, const cp * subject, int len, bool ci_, bool ml_, const Props & p): re(r), s(subject), n(len), ci(ci_), ml(ml_), props(p) { }

	struct Deep { Matcher & m; Deep(Matcher & x): m(x) { if (++m.depth > m.max_depth || ++m.steps > m.limit) { --m.depth; throw TooLong{}; } } ~Deep() { --m.depth; } };

	bool word_at(int p) const { return p >= 0 && p < n && is_word(s[p]); }

	bool m(const Node & x, int p, const Caps & caps, Kont k) {
		Deep d(*this);
		switch (x.k) {
			case K::Empty: return k(p, caps);
			case K::Char: {
				if (p >= n) return false;
				bool eq = s[p] == x.ch || (ci && swap_case(s[p]) == x.ch);
				return eq && k(p + 1, caps);
			}
			case K::Any: return p < n && !(ml && s[p] == '\n') && k(p + 1, caps);
			case K::Set: return p < n && set_match(x, s[p], ci, props) && k(p + 1, caps);
			case K::Seq: return seq(x, 0, p, caps, k);
			case K::Alt: return m(*x.c[0], p, caps, k) || m(*x.c[1], p, caps, k);
			case K::Cap: {
				auto done = [&](int q, const Caps & cc) {
					Caps nc = cc;
					nc[static_cast<size_t>(x.id)] = Span{p, q, true};
					return k(q, nc);
				};
				return m(*x.c[0], p, caps, done);
			}
			case K::Bref: {
				if (x.id < 0 || x.id >= static_cast<int>(caps.size())) return false;
				const Span g = caps[static_cast<size_t>(x.id)];
				if (!g.m || x.id == 0) return false;
				int len = g.e - g.b;
				if (p + len > n) return false;
				for (int i = 0; i < len; ++i) if (!(s[p + i] == s[g.b + i] || (ci && swap_case(s[p + i]) == s[g.b + i]))) return false;
				return k(p + len, caps);
			}
			case K::Bol: return (p == 0 || (ml && s[p - 1] == '\n')) && k(p, caps);
			case K::Eol: return (p == n || (ml && s[p] == '\n')) && k(p, caps);
			case K::SubjBegin: return p == 0 && k(p, caps);
			case K::SubjEnd: return p == n && k(p, caps);
			case K::SubjEndNl: return (p == n || (ml && p + 1 == n && s[p] == '\n')) && k(p, caps);
			case K::WordB: return word_at(p - 1) != word_at(p) && k(p, caps);
			case K::NWordB: return word_at(p - 1) == word_at(p) && k(p, caps);
			case K::Look: {
				Caps got;
				bool r = false;
				if (!x.behind) {
					auto done = [&](int, const Caps & cc) { got = cc; return true; };
					r = m(*x.c[0], p, caps, done);
				} else {
					for (int b = p; b >= 0 && !r; --b) {
						auto done = [&](int q, const Caps & cc) { if (q != p) return false; got = cc; return true; };
						r = m(*x.c[0], b, caps, done);
					}
				}
				if (x.neg) return !r && k(p, caps);
				return r && k(p, x.behind ? caps : got);
			}
			case K::Atomic: {
				int end = -1; Caps got;
				auto done = [&](int q, const Caps & cc) { end = q; got = cc; return true; };
				return m(*x.c[0], p, caps, done) && k(end, got);
			}
			case K::Rep: {
				if (x.hi != -1 && x.lo > x.hi) return false;
				if (full) {
					if (x.q != Q::Possessive) return again(x, 0, p, caps, k);
					int end = -1; Caps got;
					auto done = [&](int q, const Caps & cc) { end = q; got = cc; return true; };
					return again(x, 0, p, caps, done) && k(end, got);
				}
				int at = p; Caps cur = caps;
				for (long i = 0; i < x.lo; ++i) {
					if (!once(*x.c[0], at, cur, false)) return false;
				}
				if (x.q == Q::Possessive) {
					for (long i = x.lo; x.hi == -1 || i < x.hi; ++i) if (!once(*x.c[0], at, cur, true)) break;
					return k(at, cur);
				}
				return x.q == Q::Lazy ? lazy(x, x.lo, at, cur, k) : greedy(x, x.lo, at, cur, k);
			}
			case K::Mode: return k(p, caps);
		}
		return false;
	}
	// one whole iteration of a repetition (its way through the content is then final)
	bool once(const Node & body, int & at, Caps & caps, bool must_consume) {
		int end = -1; Caps got;
		const int start = at;
		auto done = [&](int q, const Caps & cc) { if (must_consume && q == start) return false; end = q; got = cc; return true; };
		if (!m(body, at, caps, done)) return false;
		at = end; caps = got;
		return true;
	}
	bool again(const Node & x, long i, int p, const Caps & caps, Kont k) {
		Deep d(*this);
		auto next = [&](int q, const Caps & cc) { return q == p && i >= x.lo ? false : again(x, i + 1, q, cc, k); };
		if (i < x.lo) return m(*x.c[0], p, caps, next);
		if (x.q == Q::Lazy && k(p, caps)) return true;
		if ((x.hi == -1 || i < x.hi) && m(*x.c[0], p, caps, next)) return true;
		return x.q != Q::Lazy && k(p, caps);
	}
	bool greedy(const Node & x, long i, int p, const Caps & caps, Kont k) {
		Deep d(*this);
		if (x.hi == -1 || i < x.hi) {
			int at = p; Caps cur = caps;
			if (once(*x.c[0], at, cur, true) && greedy(x, i + 1, at, cur, k)) return true;
		}
		return k(p, caps);
	}
	bool lazy(const Node & x, long i, int p, const Caps & caps, Kont k) {
		Deep d(*this);
		if (k(p, caps)) return true;
		if (x.hi == -1 || i < x.hi) {
			int at = p; Caps cur = caps;
			return once(*x.c[0], at, cur, true) && lazy(x, i + 1, at, cur, k);
		}
		return false;
	}
	bool seq(const Node & x, size_t i, int p, const Caps & caps, Kont k) {
		if (i == x.c.size()) return k(p, caps);
		if (i + 1 == x.c.size()) return m(*x.c[i], p, caps, k);
		auto next = [&](int q, const Caps & cc) { return seq(x, i + 1, q, cc, k); };
		return m(*x.c[i], p, caps, next);
	}

	// result[0] is the whole match
	bool at(int p, bool whole, Caps & out) {
		Caps c(static_cast<size_t>(re.groups) + 1);
		auto done = [&](int q, const Caps & cc) { if (whole && q != n) return false; out = cc; out[0] = Span{p, q, true}; return true; };
		out.assign(static_cast<size_t>(re.groups) + 1, Span{});
		if (m(*re.root, p, c, done)) return true;
		out.assign(static_cast<size_t>(re.groups) + 1, Span{});
		return false;
	}
	bool match(Caps & out) { return at(0, true, out); }
	bool starts_with(int p, Caps & out) { return at(p, false, out); }
	bool search(int from, Caps & out) {
		for (int p = from; p <= n; ++p) if (at(p, false, out)) return true;
		return false;
	}
};

// ---------------------------------------------------------------- generating subjects
struct Gen {
	std::mt19937_64 rng;
	const Props & props;
	std::vector<cp> alphabet; // characters worth using
	cp max_unit = 255;
	size_t rep_limit = 400, size_limit = 600;

	Gen(uint64_t seed, const Props & p): rng(seed), props(p) { }
	uint64_t below(uint64_t n) { return n ? rng() % n : 0; }
	bool chance(unsigned pct) { return below(100) < pct; }

	static void collect(const Node & n, std::set<cp> & out) {
		if (n.k == K::Char) { out.insert(n.ch); }
		if (n.k == K::Any || n.k == K::Bol || n.k == K::Eol || n.k == K::SubjEndNl) out.insert('\n');
		if (n.k == K::WordB || n.k == K::NWordB) { out.insert(' '); out.insert('a'); }
		if (n.k == K::Set) for (auto & it: n.items) {
			if (it.cls == Cls::None) {
				out.insert(it.lo); out.insert(it.hi);
				if (it.lo > 0) out.insert(it.lo - 1);
				out.insert(it.hi + 1);
				if (it.hi > it.lo) out.insert(it.lo + (it.hi - it.lo) / 2);
			} else switch (it.cls) {
				case Cls::Digit: out.insert('7'); break;
				case Cls::Word: out.insert('_'); break;
				case Cls::Space: case Cls::Blank: out.insert(' '); out.insert('\t'); break;
				case Cls::HSpace: out.insert('\t'); out.insert(0xA0); break;
				case Cls::VSpace: out.insert('\v'); out.insert(0x85); break;
				case Cls::NotNl: out.insert('\n'); break;
				case Cls::Alnum: case Cls::XDigit: out.insert('f'); out.insert('3'); break;
				case Cls::Alpha: case Cls::Lower: out.insert('q'); break;
				case Cls::Upper: out.insert('Q'); break;
				case Cls::Cntrl: out.insert(1); break;
				case Cls::Punct: out.insert('!'); break;
				default: out.insert('%');
			}
		}
		for (auto & c: n.c) collect(*c, out);
	}
	void collect_props(const Node & n, std::set<cp> & out) {
		for (auto & it: n.items) if (it.cls == Cls::Prop) for (cp c: props.examples(it.prop, rng)) if (props.usable(c)) out.insert(c);
		for (auto & c: n.c) collect_props(*c, out);
	}
	void init_alphabet(const Regex & re, bool ci, cp max) {
		max_unit = max;
		std::set<cp> a;
		collect(*re.root, a);
		std::vector<cp> base(a.begin(), a.end());
		if (ci) for (cp c: base) a.insert(swap_case(c));
		collect_props(*re.root, a);
		alphabet.clear();
		for (cp c: a) if (c <= max) alphabet.push_back(c);
		std::shuffle(alphabet.begin(), alphabet.end(), rng);
		for (cp c: {cp('a'), cp('b'), cp('z')}) if (alphabet.size() < 3 && std::find(alphabet.begin(), alphabet.end(), c) == alphabet.end()) alphabet.push_back(c);
	}
	cp any_char() {
		if (chance(85) && !alphabet.empty()) return alphabet[below(alphabet.size())];
		static const char misc[] = "abzAZ019_ \n\t-.\r%\0";
		if (max_unit > 255 && chance(35)) {
			// the same low byte (or 16 bits) as something interesting, or a zero there
			cp low = alphabet.empty() || chance(35) ? 0 : alphabet[below(alphabet.size())];
			cp x = max_unit > 0xFFFF && chance(35) ? (low & 0xFFFF) + 0x10000 : (low & 0xFF) + 0x100 * static_cast<cp>(1 + below(5));
			if (x <= max_unit && (x < 0xD800 || x > 0xDFFF)) return x;
		}
		if (chance(80)) return static_cast<unsigned char>(misc[below(sizeof(misc) - 1)]);
		return static_cast<cp>(below(max_unit < 0x3000 ? max_unit + 1 : 0x3000));
	}
	// a string which probably matches (an attempt)
	void sample(const Node & n, str & out, std::vector<str> & groups, bool ci, int fuel = 6) {
		switch (n.k) {
			case K::Char: out += static_cast<char32_t>(ci && chance(50) ? swap_case(n.ch) : n.ch); break;
			case K::Any: out += static_cast<char32_t>(any_char()); break;
			case K::Set: {
				for (int t = 0; t < 24; ++t) {
					cp c;
					if (!n.neg && !n.items.empty() && t < 12) {
						auto & it = n.items[below(n.items.size())];
						if (it.cls == Cls::None) { if (it.hi < it.lo) { c = any_char(); } else { uint64_t w = uint64_t(it.hi) - it.lo + 1; c = chance(50) ? (chance(50) ? it.lo : it.hi) : static_cast<cp>(it.lo + below(w)); } }
						else c = static_cast<cp>(chance(70) ? below(128) : any_char());
					} else c = any_char();
					if (c <= max_unit && set_match(n, c, ci, props)) { if (ci && chance(30) && set_match(n, swap_case(c), ci, props)) c = swap_case(c); out += static_cast<char32_t>(c); break; }
				}
				break;
			}
			case K::Seq: for (auto & c: n.c) sample(*c, out, groups, ci, fuel); break;
			case K::Alt: { // each option of a chain is as likely
				std::vector<const Node *> opts;
				const Node * x = &n;
				for (; x->k == K::Alt; x = x->c[1].get()) opts.push_back(x->c[0].get());
				opts.push_back(x);
				sample(*opts[below(opts.size())], out, groups, ci, fuel);
				break;
			}
			case K::Cap: {
				size_t at = out.size();
				sample(*n.c[0], out, groups, ci, fuel);
				if (groups.size() <= static_cast<size_t>(n.id)) groups.resize(static_cast<size_t>(n.id) + 1);
				groups[static_cast<size_t>(n.id)] = out.substr(at);
				break;
			}
			case K::Bref: if (n.id > 0 && static_cast<size_t>(n.id) < groups.size()) { str g = groups[static_cast<size_t>(n.id)]; if (ci) for (auto & c: g) if (chance(40)) c = static_cast<char32_t>(swap_case(c)); out += g; } break;
			case K::Look: if (!n.neg && chance(15)) sample(*n.c[0], out, groups, ci, fuel - 1); break;
			case K::Atomic: sample(*n.c[0], out, groups, ci, fuel); break;
			case K::Bol: if (chance(10)) out += U'\n'; break;
			case K::Eol: case K::SubjEndNl: if (chance(25)) out += U'\n'; break;
			case K::Rep: {
				long extra = static_cast<long>(below(static_cast<uint64_t>(fuel > 0 ? 4 : 1)));
				long k = n.lo + extra;
				if (n.hi != -1 && k > n.hi && chance(85)) k = n.hi;
				if (n.hi != -1 && chance(15)) k = n.hi;
				if (k > 0 && chance(6)) --k;
				for (long i = 0; i < k && out.size() < rep_limit; ++i) sample(*n.c[0], out, groups, ci, fuel - 2);
				break;
			}
			default: break;
		}
	}
	str random_subject(const Regex & re, bool ci) {
		str s;
		unsigned r = static_cast<unsigned>(below(100));
		auto noise = [&](int maxlen) { int k = static_cast<int>(below(static_cast<uint64_t>(maxlen) + 1)); for (int i = 0; i < k; ++i) s += static_cast<char32_t>(any_char()); };
		std::vector<str> g;
		if (r < 15) { noise(8); return s; }
		if (r < 45) { sample(*re.root, s, g, ci); }
		else if (r < 75) { if (chance(60)) noise(4); sample(*re.root, s, g, ci); if (chance(60)) noise(4); }
		else { int k = 1 + static_cast<int>(below(3)); for (int i = 0; i < k; ++i) { g.clear(); sample(*re.root, s, g, ci); if (chance(50)) noise(2); } }
		if (chance(45) && !s.empty()) { // mutate
			int k = 1 + static_cast<int>(below(2));
			for (int i = 0; i < k && !s.empty(); ++i) {
				size_t at = below(s.size());
				switch (below(5)) {
					case 0: s.erase(at, 1); break;
					case 1: s.insert(at, 1, static_cast<char32_t>(any_char())); break;
					case 2: s[at] = static_cast<char32_t>(any_char()); break;
					case 3: s.insert(at, 1, s[at]); break;
					case 4: { size_t l = 1 + below(4); str part = s.substr(at, l); s.insert(at, part); break; }
				}
			}
		}
		if (s.size() > size_limit) s.resize(size_limit);
		return s;
	}
	// beyond the lengths of a byte: lengths around 128 and 256 remain after (or before) a sample
	str long_subject(const Regex & re, bool ci) {
		static const int lengths[] = {120, 127, 128, 129, 140, 200, 250, 255, 256, 257, 260, 300, 383, 400, 520};
		size_t target = static_cast<size_t>(lengths[below(sizeof lengths / sizeof *lengths)]);
		str front, fill, back;
		std::vector<str> g;
		if (chance(75)) { if (chance(30)) front += static_cast<char32_t>(any_char()); g.clear(); sample(*re.root, front, g, ci); }
		if (front.size() > target) front.resize(target);
		if (chance(50)) { g.clear(); sample(*re.root, back, g, ci); }
		if (back.size() > target) back.resize(target);
		unsigned kind = static_cast<unsigned>(below(4));
		str unit;
		if (kind == 0) unit = str(1, static_cast<char32_t>(any_char()));
		else if (kind == 1) { g.clear(); sample(*re.root, unit, g, ci); }
		else if (kind == 2) { unit += static_cast<char32_t>(any_char()); unit += static_cast<char32_t>(any_char()); }
		while (front.size() + fill.size() < target) {
			if (unit.empty()) fill += static_cast<char32_t>(any_char());
			else fill += unit;
		}
		str s = front + fill + back;
		if (s.size() > 700) s.resize(700);
		return s;
	}
};

} // namespace refre
