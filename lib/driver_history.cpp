// The model side of history.hpp.
#include "driver.hpp"
#include "history.hpp"

const VCase v_cases[1] = {};
const int v_ncases = 0;

namespace hist {

void data(const std::u32string & pattern, VKind kind, int flags, unsigned long seed, int count, unsigned max, std::vector<std::u32string> & subjects, std::vector<Items> & expected) {
	refre::Props props;
	refre::Regex re = refre::parse(pattern, props);
	if (!re.ok) { std::printf("infra: the model rejects a pattern\n"); exit(3); }
	refre::Gen gen(seed, props);
	bool ci = re.mode_ci ? re.ci : (flags & VF_CI) != 0, ml = re.mode_ml ? re.ml : (flags & VF_ML) != 0;
	gen.init_alphabet(re, ci, max);
	bool single = kind == V_MATCH || kind == V_SEARCH || kind == V_STARTS;
	for (int tries = 0; static_cast<int>(subjects.size()) < count && tries < 400; ++tries) {
		std::u32string s = gen.random_subject(re, ci);
		if (tries & 1) s += gen.random_subject(re, ci);
		if (s.size() > 60) s.resize(60);
		for (auto & x: s) if (x > max) x = U'x';
		long steps = 0;
		drv::Expect e;
		try { e = drv::model(re, s, kind, ci, ml, props, steps); } catch (const refre::TooLong &) { continue; }
		if (e.stuck || (!single && e.items.size() < 2 && tries < 250)) continue;
		subjects.push_back(s);
		Items items;
		for (auto & i: e.items) {
			items.emplace_back();
			for (auto & x: i) items.back().push_back(VSpan{x.b, x.e, x.m});
		}
		expected.push_back(items);
	}
}

} // namespace hist
