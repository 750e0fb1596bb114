#pragma once
// Systems A*x <= b, x >= 0 on which a simplex procedure cycles that departs from choosing the smallest variable index
// somewhere. They were found by simulating such procedures (index order replaced by the largest index, the first or the
// last one in the row or column, or the largest coefficient) on random small systems; see DESIGN.md.
#include <vector>

struct CycleSys {
    std::vector<std::vector<int>> rows;
    std::vector<int> vec; // objective to maximize (b = 0), or b (no objective)
    bool objective;
};

inline std::vector<CycleSys> const &cycle_systems() {
    static std::vector<CycleSys> const res{
        {{{3, -6, -1, 1}, {0, 0, -5, 2}, {-9, 9, 1, -2}}, {3, -12, -1, 2}, true},
        {{{3, 3, 0, 7}, {3, 4, -1, -9}, {8, 3, -9, 8}, {-7, 0, -6, 0}}, {6, -2, 9, 0}, true},
        {{{-1, 3, -6, 1}, {-4, 4, 0, 0}, {1, -9, 9, -2}}, {-1, 3, -12, 2}, true},
        {{{-1, -6, 3, 1}, {-2, 0, 1, 0}, {1, 9, -9, -2}}, {-1, -12, 3, 2}, true},
        {{{-1, 3, -6, 1}, {-3, 3, 0, 0}, {1, -9, 9, -2}}, {-1, 3, -12, 2}, true},
        {{{-9, 9, -2, 1}, {-4, -3, -2, 0}, {3, -6, 1, -1}}, {3, -12, 2, -1}, true},
        {{{5, 2, -1, -2, 0}, {-6, 2, -2, 0, 0}, {-4, 0, -4, 0, 0}, {-4, -6, 4, 3, -4}}, {4, -5, 0, 0, 0}, true},
        {{{9, -9, -2, 1}, {-4, -1, -1, 0}, {-6, 3, 1, -1}}, {-12, 3, 2, -1}, true},
        {{{9, -9, -2, 1}, {-2, -1, -1, 0}, {-6, 3, 1, -1}}, {-12, 3, 2, -1}, true},
        {{{9, -9, 1, -2}, {-6, -3, 0, -2}, {-6, 3, -1, 1}}, {-12, 3, -1, 2}, true},
        {{{-6, 3, -1, 1}, {9, -9, 1, -2}}, {-12, 3, -1, 2}, true},
        {{{-6, 3, 1, -1}, {9, -9, -2, 1}}, {-12, 3, 2, -1}, true},
        {{{3, -6, 1, -1}, {-9, 9, -2, 1}}, {3, -12, 2, -1}, true},
        {{{-6, -1, 3, 1}, {9, 1, -9, -2}}, {-12, -1, 3, 2}, true},
        {{{3, 1, -6, -1}, {-9, -2, 9, 1}}, {3, 2, -12, -1}, true},
        {{{-5, 1, -11, 18}, {0, 0, 1, -6}, {-1, 1, -3, 2}}, {-9, 10, -57, -24}, true},
        {{{0, -5, 5, 5, 6}, {-6, 2, 0, 6, 2}}, {-6, 3, 4, 6, 4}, true},
        {{{-5, 1, 18, -11}, {0, 0, -4, 1}, {-1, 1, 2, -3}}, {-9, 10, -24, -57}, true},
        {{{0, 1, 7, 1, 6}, {4, 6, 6, -1, 2}}, {8, 9, 2, 7, 6}, true},
        {{{1, -5, 18, -11}, {0, 0, -8, 2}, {1, -1, 2, -3}}, {10, -9, -24, -57}, true},
        {{{-2, -9, 1, 9}, {1, 3, -1, -6}}, {2, 3, -1, -12}, true},
        {{{-1, -6, 1, 3}, {0, -2, -2, -2}, {1, 9, -2, -9}}, {-1, -12, 2, 3}, true},
        {{{-5, 18, 1, -11, 0}, {2, 0, 0, 0, -2}, {-1, 2, 1, -3, 0}}, {-9, -24, 10, -57, 0}, true},
        {{{0, 6, -8, 6}, {4, 5, -4, -4}, {-3, 8, 0, -4}}, {1, 7, -4, 0}, true},
        {{{3, 0, 0, 0, -3}, {1, -11, -5, 18, 0}, {1, -3, -1, 2, 0}}, {10, -57, -9, -24, 0}, true},
        {{{2, 3, 1, 0, -1}, {-4, -5, 4, 5, -2}, {-1, 1, 0, 0, -1}, {-3, 0, 5, 2, 4}}, {4, -4, 4, -2, 0}, true},
        {{{6, 0, 0, 0, -1}, {-5, 18, 1, -11, 0}, {-1, 2, 1, -3, 0}}, {-9, -24, 10, -57, 0}, true},
        {{{2, -3, -1, 1}, {18, -11, -5, 1}}, {-24, -57, -9, 10}, true},
        {{{-9, 9, -2, 1}, {3, -6, 1, -1}}, {3, -12, 2, -1}, true},
        {{{3, -6, -1, 1}, {-9, 9, 1, -2}}, {3, -12, -1, 2}, true},
        {{{1, -5, 18, -11}, {1, -1, 2, -3}}, {10, -9, -24, -57}, true},
        {{{-5, 1, -11, 18}, {-1, 1, -3, 2}}, {-9, 10, -57, -24}, true},
        {{{1, -5, -11, 18}, {1, -1, -3, 2}}, {10, -9, -57, -24}, true},
        {{{-5, 1, 18, -11}, {-1, 1, 2, -3}}, {-9, 10, -24, -57}, true},
        {{{1, -5, 18, -11, 0}, {1, -1, 2, -3, 0}}, {10, -9, -24, -57, 0}, true},
        {{{-1, -6, 1, 3}, {1, 9, -2, -9}, {-1, -1, 0, 0}}, {-1, -12, 2, 3}, true},
        {{{-2, 1, 9, -9}, {1, -1, -6, 3}}, {2, -1, -12, 3}, true},
        {{{1, -1, -6, 3}, {-2, 1, 9, -9}}, {2, -1, -12, 3}, true},
        {{{-3, 2, 1, -1}, {-11, 18, 1, -5}, {-1, 0, -4, 0}}, {-57, -24, 10, -9}, true},
        {{{1, 9, -2, -9}, {0, -2, -3, -4}, {-1, -6, 1, 3}}, {-1, -12, 2, 3}, true},
        {{{-6, 3, 1, -1}, {-1, -5, -4, 0}, {9, -9, -2, 1}}, {-12, 3, 2, -1}, true},
        {{{0, -6, -3}, {-3, -1, 5}, {-4, 6, -4}}, {-3, -1, -2}, false},
        {{{-6, -2, 5}, {-4, 5, -6}, {3, -4, -6}}, {-2, -2, -3}, false},
        {{{1, -4, -2}, {-3, -1, 1}, {-1, 2, -2}}, {-3, -1, -1}, false},
        {{{-1, 0, -3, -1}, {0, -3, -1, 3}, {0, -2, 1, -3}}, {-3, -4, -4}, false},
        {{{-2, 0, 5, -4}, {-1, 0, -3, 4}, {5, 2, -2, -5}}, {-3, -2, -3}, false},
        {{{2, 5, 0}, {-1, 4, -3}, {-3, 2, 2}, {5, -2, -1}}, {2, -3, 0, 0}, false},
        {{{-2, -1, -1}, {3, 0, -4}, {1, -2, 2}, {-2, 4, 0}}, {-4, -2, -4, -2}, false},
        {{{-3, -6, -2}, {4, 5, 3}, {5, 1, -6}, {0, -5, -5}}, {-2, 2, -3, -4}, false},
        {{{-3, 0, 3, 1, -2}, {-2, 0, -1, -3, -1}, {3, 1, 1, 2, 0}}, {-2, -3, 2}, false},
        {{{0, -4, 5, 0, 1}, {5, 4, 5, 5, -1}, {1, -1, -2, -1, -3}}, {-1, 1, -1}, false},
        {{{0, 4, -4}, {-2, -2, -1}, {1, -1, 0}, {-3, 1, 2}}, {-1, -4, -1, -4}, false},
        {{{-1, -3, -5}, {6, 0, 5}, {-4, -3, 5}, {-6, 2, 0}}, {-4, 1, -4, -2}, false},
        {{{3, -3, -1}, {-2, 3, -5}, {-4, -3, -1}, {-2, 5, 5}}, {0, -2, -1, 1}, false},
        {{{3, 3, 2}, {1, 4, 4}, {2, 3, -4}, {0, -4, -1}}, {2, 2, -2, -2}, false},
        {{{1, 4, -4}, {1, 2, 1}, {-4, -3, -1}, {1, -4, 2}}, {-2, 1, -3, -3}, false},
        {{{5, -2, 0}, {2, -6, 6}, {2, -2, -5}, {-4, 0, -2}}, {-3, -4, -1, 1}, false},
        {{{1, 1, -1}, {-1, -1, 0}, {-2, -1, -3}, {2, -3, -2}}, {-4, 2, -1, 1}, false},
        {{{2, 4, 6, 5, 0}, {5, -3, 0, 0, -6}, {0, -4, 5, 0, -2}}, {-3, -3, 1}, false},
        {{{-3, 0, 4, -1, -4}, {3, 2, 4, 0, 0}, {-1, 4, 0, -2, -4}}, {2, -4, -2}, false},
        {{{0, -2, 5}, {1, 0, 3}, {0, -1, 6}, {-6, -6, -5}, {3, -4, -1}}, {0, -4, -3, -1, -4}, false},
        {{{-3, 0, -2, -1}, {1, 2, 1, -2}, {-2, 1, -3, -3}}, {1, -2, -1}, false},
        {{{0, -4, -3}, {0, 3, 1}, {4, -4, 1}, {1, -4, 2}, {-2, 1, 0}}, {1, 1, -3, -1, 1}, false},
        {{{2, 3, 1, 4, 3}, {5, 5, 3, 3, 2}, {-3, -4, -4, 1, 0}}, {2, 0, -3}, false},
        {{{0, -3, -3, 3}, {-4, -1, -2, 0}, {3, 0, -1, 0}, {-2, -4, -4, 0}, {3, 0, -3, 2}}, {0, 2, 0, -1, -4}, false},
        {{{6, 0, -2, -3, 4}, {5, 1, -4, -4, 0}, {-1, 0, 4, 2, 0}, {0, -2, 5, 1, 3}}, {0, -2, 1, -4}, false},
        {{{0, 3, 0, 0, 1}, {2, 2, 5, 0, -3}, {-4, 3, -3, -5, -2}, {-1, 3, -3, -3, 1}}, {1, -3, 0, -2}, false},
        {{{2, -1, 2, 4}, {-3, -2, 0, 0}, {-1, -4, 0, 1}, {3, 3, 4, 2}, {0, -3, -1, 0}}, {1, 1, -2, 1, -1}, false},
        {{{-2, 0, -5}, {6, -6, 5}, {0, 3, 1}, {-5, -2, -1}}, {2, -1, 1, -4}, false},
        {{{4, 3}, {-5, -1}, {-1, -5}, {3, 2}}, {1, 2, -1, 0}, false},
        {{{-1, -6}, {-5, -1}, {2, 1}, {2, 6}, {3, -2}}, {1, -3, 2, 0, -3}, false},
        {{{2, 4, 0, 3, -1}, {-1, -3, -3, 3, 0}, {-3, -4, -1, 0, 0}}, {1, -3, 1}, false},
        {{{2, 1, 3, 4}, {0, -4, 2, -4}, {2, -4, -3, 0}, {-3, -2, 0, -4}}, {-1, -4, -2, 1}, false},
        {{{0, -4, 0, 4, -1}, {0, -3, -4, -3, -3}, {4, 4, 3, -1, 0}, {-3, -2, -3, 0, -1}}, {2, -4, 0, 0}, false},
        {{{0, 5, 4, 4, 1}, {-5, 0, 0, -2, 1}, {3, -2, -3, -5, 0}, {4, 0, 4, 5, 4}}, {-3, 1, -1, 0}, false},
        {{{1, 2, -1, 0}, {4, -2, -3, 3}, {-2, 0, 3, 2}, {0, -4, 0, 1}, {0, -1, -2, -3}}, {-1, -1, 2, 1, 0}, false},
        {{{2, 2, 3}, {2, 3, -3}, {-4, -1, -1}}, {0, -2, -4}, false},
        {{{1, 0, -3}, {-3, -1, -3}, {0, -5, 1}, {-4, 3, 0}}, {-2, -4, -1, -1}, false},
        {{{0, 3, 5, 5}, {2, -6, -5, -4}, {0, 3, 6, -2}}, {0, -4, -1}, false},
    };
    return res;
}
