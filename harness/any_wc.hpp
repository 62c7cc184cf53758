#ifndef ANY_WC_HPP
#define ANY_WC_HPP
#include <strf.hpp>
namespace vt {
// ---- one type for the four width calculators
struct any_wc {
    using category = strf::width_calculator_c; int k;
#define DISPATCH(CALL) switch (k) { case 0: { auto& w = strf::std_width_calc; return CALL; } case 1: { auto& w = strf::fast_width; return CALL; } case 2: { auto& w = strf::width_as_u32len; return CALL; } default: { auto& w = strf::width_as_fast_u32len; return CALL; } }
    template <typename CS, typename C> strf::width_t char_width(CS cs, C c) const { DISPATCH(w.char_width(cs, c)) }
    template <typename CS, typename C> strf::width_t str_width(CS cs, strf::width_t l, const C* b, const C* e) const { DISPATCH(w.str_width(cs, l, b, e)) }
    template <typename CS, typename C> strf::width_and_ptr<C> str_width_and_pos(CS cs, strf::width_t l, const C* b, const C* e) const { DISPATCH(w.str_width_and_pos(cs, l, b, e)) }
};
#undef DISPATCH
} // namespace vt
#endif
