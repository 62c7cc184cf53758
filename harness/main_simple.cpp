#include "print_main.hpp"
VT_MAIN(run_simple_)
