#include "driver.hpp"
#include "props.hpp"
int main(int argc, char ** argv) {
	refre::Props p;
	static PropTable table;
	for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--props") { table.load(argv[i + 1]); table.install(p); }
	return drv::drive(argc, argv, p);
}
