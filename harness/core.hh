// Property based testing core: choice sequences, case context, registry.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

//! A violated property (thrown by oracles).
struct Failure : std::runtime_error {
    using std::runtime_error::runtime_error;
};
//! The harness decided that the generated case is outside the domain.
struct Discard : std::runtime_error {
    using std::runtime_error::runtime_error;
};

//! Shared memory the case writes its draws to, so that they survive a crash.
struct Shared {
    static constexpr uint32_t cap = 1u << 18;
    volatile uint64_t index;    // index of the current case
    volatile uint32_t ndraws;   // number of draws so far
    volatile uint32_t descLen;  // length of description
    volatile uint32_t running;  // 1 while a case runs
    uint32_t draws[cap];
    char desc[1u << 16];
};

//! Source of choices: every random decision of a case goes through draw.
class Src {
  public:
    enum class Mode { Random, Replay, Bytes };
    Src(uint64_t seed, uint64_t idx, Shared *sh) : mode_{Mode::Random}, sh_{sh} {
        uint64_t z = seed * 0x9E3779B97F4A7C15ull + idx * 0xD1B54A32D192ED03ull + 0x8CB92BA72F3D8DD7ull;
        for (auto &x : s_) {
            z += 0x9E3779B97F4A7C15ull;
            uint64_t y = z;
            y = (y ^ (y >> 30)) * 0xBF58476D1CE4E5B9ull;
            y = (y ^ (y >> 27)) * 0x94D049BB133111EBull;
            x = y ^ (y >> 31);
        }
    }
    Src(std::vector<uint32_t> draws, Shared *sh) : mode_{Mode::Replay}, in_(std::move(draws)), sh_{sh} {}
    Src(uint8_t const *data, size_t size, Shared *sh) : mode_{Mode::Bytes}, data_{data}, size_{size}, sh_{sh} {}

    //! Uniform choice in [0,n).
    uint32_t draw(uint32_t n) {
        uint32_t v = 0;
        if (n > 1) {
            switch (mode_) {
                case Mode::Random: v = static_cast<uint32_t>(next_() >> 32) % n; break;
                case Mode::Replay: v = pos_ < in_.size() ? in_[pos_] % n : 0; break;
                case Mode::Bytes: {
                    unsigned bytes = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
                    for (unsigned i = 0; i < bytes; ++i) {
                        v = v * 256 + (off_ < size_ ? data_[off_++] : 0);
                    }
                    v %= n;
                    break;
                }
            }
        }
        ++pos_;
        if (sh_ != nullptr) {
            auto k = sh_->ndraws;
            if (k < Shared::cap) {
                sh_->draws[k] = v;
                sh_->ndraws = k + 1;
            }
        }
        return v;
    }
    //! Uniform in [lo,hi].
    int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1))); }
    //! True with probability num/den; false is the simple choice.
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
    //! Integer around zero: 0 is simplest; magnitude <= m.
    int sym(int m) {
        auto x = static_cast<int>(draw(static_cast<uint32_t>(2 * m + 1)));
        return (x & 1) != 0 ? -((x + 1) / 2) : x / 2;
    }
    template <class T> T const &pick(std::vector<T> const &v) { return v[draw(static_cast<uint32_t>(v.size()))]; }
    //! Weighted choice of an index.
    int weighted(std::initializer_list<int> w) {
        int sum = 0;
        for (auto x : w) { sum += x; }
        int r = static_cast<int>(draw(static_cast<uint32_t>(sum)));
        int i = 0;
        for (auto x : w) {
            if (r < x) { return i; }
            r -= x;
            ++i;
        }
        return 0;
    }
    size_t position() const { return pos_; }
    //! Whether choices are derived from the bytes of a fuzzer.
    bool bytes() const { return mode_ == Mode::Bytes; }

  private:
    uint64_t next_() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t result = rotl(s_[1] * 5, 7) * 9;
        uint64_t t = s_[1] << 17;
        s_[2] ^= s_[0];
        s_[3] ^= s_[1];
        s_[1] ^= s_[2];
        s_[0] ^= s_[3];
        s_[2] ^= t;
        s_[3] = rotl(s_[3], 45);
        return result;
    }
    Mode mode_;
    uint64_t s_[4]{};
    std::vector<uint32_t> in_;
    size_t pos_{0};
    uint8_t const *data_{nullptr};
    size_t size_{0};
    size_t off_{0};
    Shared *sh_;
};

//! Context of one generated case.
struct Case {
    Src &s;
    Shared *sh{nullptr};
    std::string tier{"quick"};
    std::string python;   // compiled part of the Python module
    std::string bindir;   // directory with further executables (command line tool)
    std::string scratch;  // private scratch directory of the worker
    std::ostringstream desc; // human readable description of the case
    bool nontrivial{false};
    std::map<std::string, uint64_t> labels;

    explicit Case(Src &src) : s(src) {}
    void label(std::string const &l, uint64_t n = 1) { labels[l] += n; }
    //! Publish the description so that it survives a crash.
    void publish() {
        if (sh != nullptr) {
            auto str = desc.str();
            auto n = std::min(str.size(), sizeof(sh->desc) - 1);
            std::memcpy(sh->desc, str.data(), n);
            sh->descLen = static_cast<uint32_t>(n);
        }
    }
    [[noreturn]] void fail(std::string const &msg) { throw Failure(msg); }
};

using Prop = std::function<void(Case &)>;

struct PropInfo {
    Prop run;
    std::string rule;    // generation rule and non-triviality
};

std::map<std::string, PropInfo> &registry();

struct Register {
    Register(char const *id, char const *rule, Prop run) { registry()[id] = PropInfo{std::move(run), rule}; }
};

#define PBT_CHECK(c, cond, msg)                                                                                        \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            std::ostringstream pbt_oss;                                                                                \
            pbt_oss << msg;                                                                                            \
            (c).fail(pbt_oss.str());                                                                                   \
        }                                                                                                              \
    } while (false)

} // namespace pbt
