#include "print_main.hpp"
VT_MAIN(run_int_)
