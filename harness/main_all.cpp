#include <string_view>
#include "print_main.hpp"
VT_MAIN(run_all_)
