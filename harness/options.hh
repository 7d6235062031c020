// Model of the options of the theory, generators for option values.
#pragma once
#include "core.hh"
#include <map>
#include <optional>
#include <vector>

namespace options {

using pbt::Src;

//! Model of the configuration of a theory.
struct PerThread {
    std::optional<int> mode;
    std::optional<uint64_t> root;
    std::optional<uint64_t> budget;
    std::optional<int> sort;
};

struct Model {
    int mode{0};
    uint64_t root{0};
    uint64_t budget{0};
    int sort{1};
    int decide{0};
    uint64_t mutex_size{0};
    uint64_t mutex_cut{10};
    bool cc{true};
    bool rdl{false};
    bool shift{false};
    std::map<uint64_t, PerThread> threads;

    int mode_of(uint64_t t) const {
        auto it = threads.find(t);
        return it != threads.end() && it->second.mode ? *it->second.mode : mode;
    }
    uint64_t root_of(uint64_t t) const {
        auto it = threads.find(t);
        return it != threads.end() && it->second.root ? *it->second.root : root;
    }
    uint64_t budget_of(uint64_t t) const {
        auto it = threads.find(t);
        return it != threads.end() && it->second.budget ? *it->second.budget : budget;
    }
    int sort_of(uint64_t t) const {
        auto it = threads.find(t);
        return it != threads.end() && it->second.sort ? *it->second.sort : sort;
    }
};

extern std::vector<std::string> const keys;
extern std::vector<std::string> const modes;
extern std::vector<std::string> const sorts;
extern std::vector<std::string> const decs;

std::string lower(std::string s);
//! Decimal number fitting 64 bit.
std::optional<uint64_t> number(std::string const &s);
//! Apply an option to the model; returns whether the option is well-formed.
bool apply(Model &m, std::string const &key, std::string const &value);
std::string gen_number(Src &s, bool big);
//! A well-formed value for a key.
std::string gen_value(Src &s, std::string const &key, bool big);
//! Damage a value.
std::string mutate(Src &s, std::string v);

} // namespace options
