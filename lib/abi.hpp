// Interface between the generated translation units (which see the library) and the driver (which doesn't).
#pragma once
#include <cstddef>

struct VSpan { int b, e; bool m; };
constexpr int V_MAXG = 64;    // spans of one result (whole match + captures)
constexpr int V_MAXI = 220;   // items of an iteration

struct VOut {
	int groups = 0;             // spans in one result
	int items = 0;              // results (1 for match/search/starts_with)
	bool overflow = false;      // iteration was cut at V_MAXI
	long work = 0;              // operations on the subject (0: not counted)
	int note = 0;               // != 0: a law checked inside of the wrapper is broken
	const char * note_text = nullptr;
	VSpan s[V_MAXI * 4 + V_MAXG];
	VSpan * item(int i) { return s + i * groups; }
};

enum VKind { V_MATCH, V_SEARCH, V_STARTS, V_SEARCH_ALL, V_TOKENIZE, V_SPLIT };
enum VFlags { VF_CI = 1, VF_ML = 2 };

using VFn = void (*)(const void * subject, size_t n, VOut * out);

struct VOp { VKind kind; int flags; const char * name; VFn fn; };

struct VCase {
	int id;
	const char32_t * pattern; int pattern_len;
	int unit;                  // 1: char, 4: char32_t, 2: char16_t, 8: UTF-8 encoded (driver encodes, offsets in code points)
	const VOp * ops; int nops;
	int extra;                 // check specific
};

extern const VCase v_cases[];
extern const int v_ncases;
