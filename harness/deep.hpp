// Things which may come in any number: the stack must not grow with them.
#pragma once
#include "common.hpp"
namespace h
{
    struct Deep
    {
        uint64_t last = 0; int rounds = 0, deeper = 0;
        // called at the same place of every round; a round which runs inside its predecessor is at least one frame deeper
        void round()
        {
            ++rounds;
            const uint64_t d = sym_depth();
            deeper = rounds > 1 && d > last ? deeper + 1 : 0;
            last = d;
            if (rounds > 5) sym_cover("rounds");
            sym_check(deeper < 4, "the stack grows with the number of rounds");
        }
    };
    inline int many(const char* n = "rounds") { return (int)sym_concrete(sym_u64(n, 6, 7)); }
} // namespace h
