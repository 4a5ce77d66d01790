// The driver of sequential storage histories: see storage_runner.h (two translation units: they compile side by side).
#include <iostream>
#include "mj.h"
using mj::V;
std::string dir;
V ev;
void RunMem(const V&);
void RunFile(const V&);
int main(int argc, char** argv) {
  dir = argv[1];
  std::string line;
  while (std::getline(std::cin, line)) {
    V p = mj::parse(line);
    ev = V::arr();
    if (p["file"].i) RunFile(p); else RunMem(p);
    std::cout << V::obj().set("ev", ev).str() << std::endl;
  }
}
