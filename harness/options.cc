#include "options.hh"
#include <algorithm>

namespace options {

std::vector<std::string> const keys{"propagate", "propagate-root", "propagate-budget", "add-mutexes", "sort-edges",
                                    "dl-heuristic", "compute-components", "shift-constraints", "rdl"};
std::vector<std::string> const modes{"no", "inverse", "partial", "partial+", "zero", "full"};
std::vector<std::string> const sorts{"no", "weight", "weight-reversed", "potential", "potential-reversed"};
std::vector<std::string> const decs{"no", "min", "max", "none"};

std::string lower(std::string s) {
    for (auto &c : s) { c = static_cast<char>(c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c); }
    return s;
}

//! Decimal number fitting 64 bit.
std::optional<uint64_t> number(std::string const &s) {
    if (s.empty()) { return {}; }
    unsigned __int128 x = 0;
    for (auto c : s) {
        if (c < '0' || c > '9') { return {}; }
        x = 10 * x + static_cast<unsigned>(c - '0');
        if (x > UINT64_MAX) { return {}; }
    }
    return static_cast<uint64_t>(x);
}

//! Split at the first comma.
std::pair<std::string, std::optional<std::string>> split(std::string const &s) {
    auto i = s.find(',');
    if (i == std::string::npos) { return {s, {}}; }
    return {s.substr(0, i), s.substr(i + 1)};
}

int find(std::vector<std::string> const &v, std::string const &s) {
    auto it = std::find(v.begin(), v.end(), lower(s));
    return it != v.end() ? static_cast<int>(it - v.begin()) : -1;
}

//! Apply an option to the model; returns whether the option is well-formed.
bool apply(Model &m, std::string const &key, std::string const &value) {
    auto [a, b] = split(value);
    std::optional<uint64_t> thread;
    if (key == "propagate" || key == "propagate-root" || key == "propagate-budget" || key == "sort-edges") {
        if (b) {
            thread = number(*b);
            if (!thread || *thread >= 64) { return false; }
        }
    }
    if (key == "propagate") {
        int x = find(modes, a);
        if (x < 0) { return false; }
        if (thread) { m.threads[*thread].mode = x; }
        else { m.mode = x; }
        return true;
    }
    if (key == "propagate-root" || key == "propagate-budget") {
        auto x = number(a);
        if (!x) { return false; }
        bool root = key == "propagate-root";
        if (thread) { (root ? m.threads[*thread].root : m.threads[*thread].budget) = *x; }
        else { (root ? m.root : m.budget) = *x; }
        return true;
    }
    if (key == "sort-edges") {
        int x = find(sorts, a);
        if (x < 0) { return false; }
        if (thread) { m.threads[*thread].sort = x; }
        else { m.sort = x; }
        return true;
    }
    if (key == "add-mutexes") {
        auto x = number(a);
        std::optional<uint64_t> y;
        if (!x) { return false; }
        if (b) {
            y = number(*b);
            if (!y) { return false; }
        }
        m.mutex_size = *x;
        m.mutex_cut = y ? *y : *x > UINT64_MAX / 10 ? UINT64_MAX : 10 * *x;
        return true;
    }
    if (key == "dl-heuristic") {
        int x = find(decs, value);
        if (x < 0) { return false; }
        m.decide = x == 3 ? 0 : x;
        return true;
    }
    if (key == "compute-components" || key == "shift-constraints" || key == "rdl") {
        int x = find({"no", "off", "0", "yes", "on", "1"}, value);
        if (x < 0) { return false; }
        (key == "compute-components" ? m.cc : key == "rdl" ? m.rdl : m.shift) = x >= 3;
        return true;
    }
    return false;
}

std::string recase(Src &s, std::string v) {
    switch (s.weighted({6, 1, 1})) {
        case 0: break;
        case 1:
            for (auto &c : v) { c = static_cast<char>(std::toupper(c)); }
            break;
        default:
            for (auto &c : v) {
                if (s.chance(1, 2)) { c = static_cast<char>(std::toupper(c)); }
            }
    }
    return v;
}

std::string gen_number(Src &s, bool big) {
    switch (s.weighted({6, 3, big ? 2 : 0, big ? 1 : 0})) {
        case 0: return std::to_string(s.range(0, 5));
        case 1: return s.pick(std::vector<std::string>{"10", "100", "1000", "007"});
        case 2: return s.pick(std::vector<std::string>{"4294967296", "4294967295", "4294967297", "18446744073709551615",
                                                       "9223372036854775808", "1844674407370955161"});
        default: return std::to_string(s.draw(1u << 31)) + std::to_string(s.draw(1000));
    }
}

//! A well-formed value for a key.
std::string gen_value(Src &s, std::string const &key, bool big) {
    std::string v;
    bool thread = false;
    if (key == "propagate") {
        v = recase(s, s.pick(modes));
        thread = true;
    } else if (key == "propagate-root" || key == "propagate-budget") {
        v = gen_number(s, big);
        thread = true;
    } else if (key == "sort-edges") {
        v = recase(s, s.pick(sorts));
        thread = true;
    } else if (key == "add-mutexes") {
        v = gen_number(s, big);
        if (s.chance(1, 2)) { v += "," + gen_number(s, big); }
    } else if (key == "dl-heuristic") {
        v = recase(s, s.pick(decs));
    } else {
        v = recase(s, s.pick(std::vector<std::string>{"no", "off", "0", "yes", "on", "1"}));
    }
    if (thread && s.chance(1, 2)) {
        v += "," + s.pick(std::vector<std::string>{"0", "0", "0", "1", "2", "63", "7", "00"});
    }
    return v;
}

//! Damage a value.
std::string mutate(Src &s, std::string v) {
    static std::vector<std::string> const bits{",",  " ", "x", "-", "+", "1", "0", "64", ",64", ",0", ",1", ",0,0", "a",
                                               "no", "e", ".", "99999999999999999999", ",-1", ",x", ", 1", ",999", "\t",
                                               "18446744073709551616", "yes", "full", "=", "partial", "min"};
    int n = s.range(1, 2);
    for (int i = 0; i < n; ++i) {
        auto p = s.draw(static_cast<uint32_t>(v.size() + 1));
        switch (s.weighted({4, 3, 2, 1})) {
            case 0: v.insert(s.chance(1, 2) ? v.size() : p, s.pick(bits)); break;
            case 1:
                if (p < v.size()) { v.erase(p, 1); }
                break;
            case 2:
                if (p < v.size()) { v[p] = s.pick(bits)[0]; }
                break;
            default: v = s.chance(1, 2) ? "" : v.substr(0, p); break;
        }
    }
    return v;
}

} // namespace options
