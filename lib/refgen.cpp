// reads lines "seed count maxlen unit kind flags | code points of the pattern"; writes subjects and what the model expects
#include "driver.hpp"
#include <iostream>
#include <sstream>
int main() {
	std::string line;
	refre::Props props;
	while (std::getline(std::cin, line)) {
		std::istringstream in(line);
		unsigned long long seed; int count, maxlen, unit, kind, flags; std::string bar;
		in >> seed >> count >> maxlen >> unit >> kind >> flags >> bar;
		refre::str pat;
		unsigned long v;
		while (in >> v) pat += static_cast<char32_t>(v);
		refre::Regex re = refre::parse(pat, props);
		std::string out = "[";
		if (re.ok) {
			drv::cp max = unit == 1 ? 255 : unit == 2 ? 0xFFFF : 0x10FFFF;
			bool ci = re.mode_ci ? re.ci : (flags & VF_CI) != 0, ml = re.mode_ml ? re.ml : (flags & VF_ML) != 0;
			uint64_t h = seed * 1099511628211ull;
			for (char32_t ch: pat) h = (h ^ ch) * 1099511628211ull;
			refre::Gen gen(h, props);
			gen.init_alphabet(re, ci, max);
			std::set<refre::str> seen;
			int matched = 0, unmatched = 0;
			bool first = true;
			for (int i = 0; i < count * 12 && static_cast<int>(seen.size()) < count; ++i) {
				refre::str s = maxlen > 100 ? gen.long_subject(re, ci) : gen.random_subject(re, ci);
				if (static_cast<int>(s.size()) > maxlen) s.resize(static_cast<size_t>(maxlen));
				for (auto & x: s) if (x > max || (unit != 1 && x >= 0xD800 && x < 0xE000)) x = U'x';
				if (seen.count(s)) continue;
				drv::Expect e;
				long steps = 0;
				try { e = drv::model(re, s, static_cast<VKind>(kind), ci, ml, props, steps); } catch (const refre::TooLong &) { continue; }
				if (e.stuck || steps > (maxlen > 100 ? 15000 : 3000) || e.items.size() > 12) continue;
				bool m = !e.items.empty() && e.items[0][0].m;
				if (m ? matched > (count * 2 + 2) / 3 : unmatched > (count + 1) / 2) continue;
				(m ? matched : unmatched)++;
				seen.insert(s);
				if (!first) out += ",";
				first = false;
				out += "{\"s\":" + drv::json_arr(s) + ",\"e\":" + drv::show(e) + "}";
			}
		}
		std::cout << out << "]\n";
	}
}
