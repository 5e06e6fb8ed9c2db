// Counters and tables at a size at which a narrow counter has wrapped and every container has grown several times.
#pragma once
#include "pipes.hpp"
namespace h
{
    inline int crowd() { static const int sizes[4] = {255, 256, 257, 300}; return sizes[sym_concrete(sym_u64("crowd", 0, 3))]; }
    // counts around the widths of the integer types (2^2-1 .. 2^lim+1), for which a handful of events is few
    inline size_t wide(size_t lim)
    {
        sym_want("widest");
        const size_t bit = (size_t)sym_concrete(sym_u64("bit", 2, lim)), off = (size_t)sym_concrete(sym_u64("off", 0, 2));
        if (bit == lim) sym_cover("widest");
        return (size_t{1} << bit) - 1 + off;
    }
    // what an observer saw, without keeping it
    struct Tally
    {
        int n = 0, term = 0; int64_t last = -1; uint64_t sum = 0;
        void on_next(int64_t v) { sym_check(!term, "a value after the end"); ++n; last = v; sum += (uint64_t)v; }
        template<class O> void on(const O& o, const rpp::composite_disposable_wrapper& d) { o.subscribe(d, [this](const auto& v) { on_next((int)v); }, [this](const std::exception_ptr&) { sym_check(!term, "a second terminal event"); term = ERR; }, [this] { sym_check(!term, "a second terminal event"); term = DONE; }); }
    };
} // namespace h
