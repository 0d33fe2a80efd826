// Small helpers for generated byte strings.
#pragma once
#include "pbt.hpp"
#include <string>
static inline std::string gen_text(pbt::Ctx &t, size_t max, const char *alphabet) {
    size_t n = t.size(max), k = strlen(alphabet);
    std::string s;
    for (size_t i = 0; i < n; i++) s += alphabet[t.u(k)];
    return s;
}
