// Unicode properties for the reference model: a file with lines "name<tab>a,b,c.." of inversion lists; the name '!' holds code points nobody speaks for
#pragma once
#include "refre.hpp"
#include <fstream>
#include <sstream>
struct PropTable {
	std::map<std::string, std::vector<refre::cp>> rows;
	void load(const char * file) {
		std::ifstream in(file);
		std::string line;
		while (std::getline(in, line)) {
			size_t t = line.find('\t');
			if (t == std::string::npos) continue;
			auto & v = rows[line.substr(0, t)];
			std::istringstream l(line.substr(t + 1));
			std::string x;
			while (std::getline(l, x, ',')) v.push_back(static_cast<refre::cp>(std::stoul(x)));
		}
	}
	bool in(const std::vector<refre::cp> & v, refre::cp c) const { return (std::upper_bound(v.begin(), v.end(), c) - v.begin()) % 2 == 1; }
	void install(refre::Props & p) {
		p.known = [this](const std::string & n) { return rows.count(n) > 0; };
		p.member = [this](const std::string & n, refre::cp c) { auto i = rows.find(n); return i != rows.end() && in(i->second, c); };
		p.usable = [this](refre::cp c) { return !in(rows["!"], c); };
		p.examples = [this](const std::string & n, std::mt19937_64 & rng) {
			std::vector<refre::cp> out;
			auto & v = rows[n];
			for (int k = 0; k < 3 && !v.empty(); ++k) { refre::cp b = v[rng() % v.size()]; if (b < 0x110000) out.push_back(b); if (b) out.push_back(b - 1); }
			return out;
		};
	}
};
