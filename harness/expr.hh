// Generator for linear expressions in the surface syntax.
#pragma once
#include "gen.hh"
#include <algorithm>

namespace expr {

using namespace pbt;
using namespace gen;

//! A linear form: coefficients of variables (index 0 is unused) and a constant.
struct Form {
    std::vector<int64_t> co;
    int64_t k{0};
    bool constant() const {
        return std::all_of(co.begin(), co.end(), [](int64_t x) { return x == 0; });
    }
};

inline Form add(Form a, Form const &b, int64_t f = 1) {
    for (size_t i = 0; i < a.co.size(); ++i) { a.co[i] += f * b.co[i]; }
    a.k += f * b.k;
    return a;
}

//! Generator for expressions.
struct Gen {
    Src &s;
    std::vector<Var> const &vars;
    int budget{12};             // remaining operators
    std::string bind{};         // body atoms binding variables
    std::set<int64_t> consts{}; // constants bound in bodies or by const statements
    std::set<int64_t> defs{};
    int ops{0};
    bool used[6]{}; // + - * / unary nested
    bool plain{false}; // without constants given elsewhere
    int big{0};        // if not zero, magnitude of some constants that cancel each other
    int inner{0};      // nesting in products
    int64_t offset(int64_t k) {
        if (big > 0 && inner == 0 && std::abs(k) < (1 << 20) && s.chance(1, 3)) { return s.sym(big); }
        return s.sym(9);
    }

    //! An expression together with its precedence: 0 sum, 1 product, 2 unary minus, 3 atomic.
    struct E {
        std::string t;
        int prec;
    };

    std::string paren(E const &e, int min) {
        // (redundant parentheses are allowed everywhere)
        if (e.prec >= min && !s.chance(1, 8)) { return e.t; }
        return "(" + e.t + ")";
    }
    std::string sp() { return s.chance(1, 4) ? "" : " "; }
    E bin(E const &a, char op, E const &b) {
        ++ops;
        int p = op == '+' || op == '-' ? 0 : 1;
        auto l = paren(a, p);
        auto r = paren(b, p + 1);
        auto x = sp();
        // operators must not merge with a following minus
        std::string y = r[0] == '-' ? " " : x;
        return {l + x + op + y + r, p};
    }
    E neg(E const &a) {
        ++ops;
        used[4] = true;
        auto r = paren(a, 3);
        return {"-" + r, 2};
    }

    E number(int64_t k) {
        if (k < 0) {
            if (!plain && s.chance(1, 5)) { return bound(k); }
            auto a = std::to_string(-k);
            return {"-" + a, 2};
        }
        int q = big > 0 ? 4 : 1;
        switch (s.weighted({16, q, q, q, plain ? 0 : 3})) {
            case 1: return {"\"" + std::to_string(k) + "\"", 3};
            case 2: return {"\"" + std::to_string(k) + ".0\"", 3};
            case 3: return {"\"+" + std::to_string(k) + "\"", 3};
            case 4: return bound(k);
            default: return {std::to_string(k), 3};
        }
    }

    static std::string cname(int64_t k) {
        return k < 0 ? "m" + std::to_string(-k) : "p" + std::to_string(k);
    }
    //! A constant given by a const statement or a variable.
    E bound(int64_t k) {
        if (s.chance(1, 2)) {
            defs.insert(k);
            return {"c" + cname(k), 3};
        }
        auto v = "C" + cname(k);
        consts.insert(k);
        auto atom = "k(" + v + "," + std::to_string(k) + ")";
        atom = "k_" + cname(k) + "(" + v + ")";
        if (bind.find(atom) == std::string::npos) { bind += (bind.empty() ? "" : ", ") + atom; }
        return {v, 3};
    }

    //! Factor in a product that is equal to k (products are distributed over sums and must not overflow).
    E factor(int64_t d, int64_t k) { return std::abs(k) > 500 ? number(d) : constant(d); }

    E constant(int64_t k) {
        if (budget <= 0 || s.chance(1, 2) || std::abs(k) > (1 << 27)) { return number(k); }
        --budget;
        switch (s.weighted({9, 9, 9, 12, 6, 1})) {
            case 5: {
                // numbers at the bounds of the integer range given as strings
                // (operands of divisions are added up before anything else)
                used[3] = true;
                int64_t max = 2147483647;
                if (k >= 0) { return {"(\"2147483647\" - " + std::to_string(max - k) + ") / 1", 1}; }
                return {"(\"-2147483648\" + " + std::to_string(max + 1 + k) + ") / 1", 1};
            }
            case 0: {
                used[0] = true;
                auto a = offset(k);
                auto l = constant(k - a);
                return bin(l, '+', constant(a));
            }
            case 1: {
                used[1] = true;
                auto a = offset(k);
                auto l = constant(k + a);
                return bin(l, '-', constant(a));
            }
            case 2: {
                used[2] = true;
                int64_t d = s.pick(divs);
                if (d == 0 || k % d != 0) { d = 1; }
                ++inner;
                if (k == 0 && s.chance(1, 2)) {
                    auto l = constant(0);
                    auto r = constant(s.sym(9));
                    --inner;
                    return bin(l, '*', r);
                }
                auto l = constant(k / d);
                auto r = factor(d, k);
                --inner;
                return s.chance(1, 2) ? bin(l, '*', r) : bin(r, '*', l);
            }
            case 3: {
                used[3] = true;
                // truncated division
                int64_t d = s.pick(divs);
                auto m = s.range(0, static_cast<int>(std::abs(d)) - 1);
                int64_t q = k * d;
                if (k != 0) { q += (q < 0 ? -m : m); }
                else { q = s.chance(1, 2) ? m : -m; }
                auto l = constant(q);
                return bin(l, '/', constant(d));
            }
            default: return neg(constant(-k));
        }
    }

    E form(Form const &f) {
        if (f.constant()) { return constant(f.k); }
        size_t n = 0;
        size_t last = 0;
        for (size_t i = 0; i < f.co.size(); ++i) {
            if (f.co[i] != 0) {
                ++n;
                last = i;
            }
        }
        if (n == 1 && f.k == 0 && f.co[last] == 1 && (budget <= 0 || s.chance(2, 3))) {
            return {vars[last].text, 3};
        }
        if (budget > 0 && s.chance(3, 5)) {
            --budget;
            switch (s.weighted({3, 3, 3, 2})) {
                case 0: {
                    used[0] = true;
                    auto b = random();
                    auto l = form(add(f, b, -1));
                    return bin(l, '+', form(b));
                }
                case 1: {
                    used[1] = true;
                    auto b = random();
                    auto l = form(add(f, b));
                    return bin(l, '-', form(b));
                }
                case 2: {
                    used[2] = true;
                    int64_t d = s.pick(divs);
                    bool ok = f.k % d == 0;
                    for (auto x : f.co) { ok = ok && x % d == 0; }
                    if (!ok) { d = s.chance(1, 2) ? 1 : -1; }
                    auto g = f;
                    for (auto &x : g.co) { x /= d; }
                    g.k /= d;
                    ++inner;
                    auto r = factor(d, f.k);
                    auto l = form(g);
                    --inner;
                    return s.chance(1, 2) ? bin(l, '*', r) : bin(r, '*', l);
                }
                default: {
                    Form z;
                    z.co.assign(f.co.size(), 0);
                    return neg(form(add(z, f, -1)));
                }
            }
        }
        // split off the last variable or the constant
        Form g = f;
        Form t;
        t.co.assign(f.co.size(), 0);
        if (f.k != 0) {
            g.k = 0;
            auto l = form(g);
            return f.k < 0 && s.chance(1, 2) ? bin(l, '-', constant(-f.k)) : bin(l, '+', constant(f.k));
        }
        auto c = f.co[last];
        auto a = std::abs(c);
        ++inner;
        E v = a == 1 ? E{vars[last].text, 3} : bin(constant(a), '*', E{vars[last].text, 3});
        --inner;
        if (n == 1) { return c < 0 ? neg(v) : v; }
        g.co[last] = 0;
        auto l = form(g);
        return bin(l, c < 0 ? '-' : '+', v);
    }

    //! A random linear form.
    Form random() {
        Form r;
        r.co.assign(vars.size(), 0);
        if (s.chance(1, 2)) { r.co[1 + s.draw(static_cast<uint32_t>(vars.size() - 1))] = s.sym(2); }
        if (s.chance(1, 4)) { r.co[1 + s.draw(static_cast<uint32_t>(vars.size() - 1))] = s.sym(3); }
        r.k = s.chance(1, 2) ? s.sym(12) : 0;
        return r;
    }
    std::vector<int64_t> divs{1, -1, 2, 3, -2, 5, 7, -4};
};

} // namespace expr
