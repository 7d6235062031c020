// Random constraint networks for observing the search.
#pragma once
#include "gen.hh"

namespace net {

//! A constraint network controlled by choices; every literal is a plain difference constraint.
struct Net {
    std::string text;
    int constraints{0};
};

struct NetParams {
    int nodes{5};
    int cons{10};
    int weight{4};
    bool strict{true};
    bool eq{true};
    bool facts{true};
    bool parallel{true};
    int min_nodes{2};
    int min_cons{2};
    int slack{-1}; // if not negative, most constraints leave room for a hidden solution
    bool hubs{false};
};

Net gen_net(pbt::Src &s, NetParams const &q);
//! Draw parameters and an answer limit suitable for them.
NetParams net_params(pbt::Case &c, int &limit);

} // namespace net
