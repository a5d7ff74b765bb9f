// Reference segmentation of a line picture into character boxes.
#pragma once
#include "img.hpp"

struct B { unsigned x, y, w, h; bool operator==(B const& o) const { return x == o.x && y == o.y && w == o.w && h == o.h; } };
// first inked column, then columns joined while they touch
inline std::vector<B> box_model(Pic const& p)
{
    std::vector<B> r; unsigned x = 0;
    auto inked = [&](unsigned c) { for (unsigned y = 0; y < p.h; ++y) if (p.ink(c, y)) return true; return false; };
    auto touch = [&](unsigned c) {
        for (unsigned y = 0; y < p.h; ++y) if (p.ink(c, y)) {
            for (int d = -1; d <= 1; ++d) { int yy = int(y) + d; if (yy >= 0 && yy < int(p.h) && p.ink(c + 1, unsigned(yy))) return true; }
        }
        return false;
    };
    for (;;) {
        while (x < p.w && !inked(x)) ++x;
        if (x == p.w) return r;
        unsigned e = x;
        while (e + 1 < p.w && touch(e)) ++e;
        unsigned top = p.h, bot = 0;
        for (unsigned c = x; c <= e; ++c) for (unsigned y = 0; y < p.h; ++y) if (p.ink(c, y)) { top = std::min(top, y); bot = std::max(bot, y); }
        r.push_back({x, top, e - x + 1, bot - top + 1});
        x = e + 1;
    }
}
