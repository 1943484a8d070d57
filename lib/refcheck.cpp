// reads patterns (one per line, code points separated by spaces); prints 1 if the reference grammar accepts the pattern
#include "refre.hpp"
#include <iostream>
#include <sstream>
static int bad_brefs(const refre::Node & n) { int r = n.k == refre::K::Bref && (n.id <= 0); for (auto & c: n.c) r += bad_brefs(*c); return r; }
int main(int argc, char ** argv) {
	std::set<std::string> names;
	for (int i = 1; i < argc; ++i) names.insert(argv[i]);
	std::string line;
	refre::Props props;
	props.known = [&](const std::string & n) { return names.count(n) > 0; };
	while (std::getline(std::cin, line)) {
		std::istringstream in(line);
		refre::str s;
		unsigned long v;
		while (in >> v) s += static_cast<char32_t>(v);
		refre::Regex r = refre::parse(s, props);
		bool resolved = true;
		if (r.ok) resolved = bad_brefs(*r.root) == 0;
		std::cout << (r.ok ? 1 : 0) << ' ' << (resolved ? 1 : 0) << ' ' << r.groups << ' ' << (r.ok ? s.size() : r.error_at) << '\n';
	}
}
