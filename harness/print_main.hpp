// main of a drv_print* driver: VT_RUN(prefix, n) calls prefix##0() .. prefix##4()
#include "print.hpp"
namespace vt { out_file* out; rng gen(1); std::string mode; }
#define VT_MAIN(prefix) \
  void prefix##0(); void prefix##1(); void prefix##2(); void prefix##3(); void prefix##4(); \
  int main(int argc, char** argv) { \
    vt::args a(argc, argv); vt::gen = vt::rng(a.seed); vt::out_file f(a.out.c_str()); vt::out = &f; vt::mode = a.mode; \
    while (static_cast<long>(f.count()) < a.n) { \
      switch (vt::gen.below(10)) { case 0: case 1: prefix##1(); break; case 2: prefix##2(); break; case 3: prefix##3(); break; case 4: prefix##4(); break; default: prefix##0(); } f.sync(); } }
