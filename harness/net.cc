#include "net.hh"

namespace net {

using pbt::Case;
using pbt::Src;
using ref::Con;

Net gen_net(Src &s, NetParams const &q) {
    Net n;
    std::ostringstream o;
    int nodes = s.range(q.min_nodes, q.nodes);
    int cons = s.range(q.min_cons, q.cons);
    bool zero = s.chance(2, 3);
    int groups = s.weighted({3, 1, 1}) + 1;
    auto vars = gen::gen_vars(s, nodes);
    std::vector<Con> prev;
    std::vector<int> hidden(static_cast<size_t>(nodes) + 1, 0);
    int hubs = 0;
    int nozero = 1; // how rarely the origin is used
    if (q.slack >= 0) {
        for (int i = 1; i <= nodes; ++i) { hidden[i] = s.sym(q.weight); }
    }
    if (q.hubs) {
        hubs = s.range(0, 3);
        nozero = s.chance(1, 2) ? 4 : 1;
    }
    int e = 0;
    for (int i = 0; i < cons; ++i) {
        Con c;
        if (q.parallel && !prev.empty() && s.chance(1, 5)) {
            // parallel or inverse constraint
            c = prev[s.draw(static_cast<uint32_t>(prev.size()))];
            if (s.chance(1, 2)) { std::swap(c.u, c.v); }
            c.k += s.sym(2);
        } else {
            int lo = zero && (nozero == 1 || s.chance(1, nozero)) ? 0 : 1;
            c.u = hubs > 0 && s.chance(1, 3) ? s.range(1, hubs) : s.range(lo, nodes);
            c.v = s.range(lo, nodes - 1);
            if (c.v >= c.u) { ++c.v; }
            if (groups > 1 && c.u != 0 && c.v != 0 && c.u % groups != c.v % groups) {
                // stay within a component
                c.v = zero ? 0 : c.u;
                if (c.v == c.u) {
                    c.v = c.u + groups <= nodes ? c.u + groups : c.u - groups;
                    if (c.v < lo) { continue; }
                }
            }
            if (q.slack < 0) {
                c.k = s.sym(q.weight);
            } else {
                c.k = hidden[c.u] - hidden[c.v] + s.range(0, q.slack);
                if (s.chance(1, 10)) { c.k -= s.range(0, 2 * q.slack + 2); }
                if (hubs > 0 && s.chance(1, 2)) {
                    std::swap(c.u, c.v);
                    c.k = hidden[c.u] - hidden[c.v] + s.range(0, q.slack);
                }
            }
        }
        c.rel = static_cast<ref::Rel>(q.slack < 0 ? s.weighted({8, 3, 2, 2, q.eq ? 2 : 0}) : s.weighted({20, 1, 1, 1, q.eq ? 1 : 0}));
        prev.push_back(c);
        std::string text =
            "&diff { " + vars[c.u].text + " - " + vars[c.v].text + " } " + rel_str(c.rel) + " " + std::to_string(c.k);
        int kind = s.weighted({8, q.strict && c.rel != ref::EQ ? 4 : 0, q.facts ? 1 : 0});
        if (kind == 0) {
            int body = s.weighted({8, 2, e > 0 ? 2 : 0});
            if (body == 2) {
                o << text << " :- e(" << s.range(0, e - 1) << ").\n";
            } else {
                o << "{ e(" << e << ") }.\n" << text << " :- " << (body == 1 ? "not " : "") << "e(" << e << ").\n";
                ++e;
            }
        } else if (kind == 1) {
            o << "d(" << i << ") :- " << text << ".\n";
        } else {
            o << text << ".\n";
        }
        ++n.constraints;
    }
    if (e >= 2) {
        int k = s.range(0, 3);
        for (int i = 0; i < k; ++i) {
            o << ":- " << (s.chance(1, 2) ? "not " : "") << "e(" << s.range(0, e - 1) << "), "
              << (s.chance(1, 2) ? "not " : "") << "e(" << s.range(0, e - 1) << ").\n";
        }
    }
    n.text = o.str();
    return n;
}

NetParams net_params(Case &c, int &limit) {
    NetParams q;
    limit = 30;
    switch (c.s.weighted({40, 30, 20, 10, 4})) {
        case 0: break;
        case 1:
            q.nodes = 3;
            q.cons = 8;
            q.weight = 2;
            break;
        case 2:
            q.nodes = 9;
            q.cons = 26;
            q.weight = 6;
            limit = 15;
            break;
        case 4:
            // large networks with long propagation queues
            q.min_nodes = 20;
            q.nodes = 60;
            q.min_cons = 40;
            q.cons = 220;
            q.weight = 100;
            q.slack = c.s.pick(std::vector<int>{0, 2, 10, 40});
            q.hubs = true;
            q.parallel = c.s.chance(1, 2);
            limit = 4;
            c.label("large networks");
            break;
        default:
            q.nodes = 16;
            q.cons = 60;
            q.weight = 20;
            limit = 8;
            break;
    }
    return q;
}

} // namespace net
