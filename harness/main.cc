// Worker executable: runs generated cases of a property, or replays one.
#include "core.hh"

#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
std::map<std::string, PropInfo> &registry() {
    static std::map<std::string, PropInfo> r;
    return r;
}
} // namespace pbt

using namespace pbt;

namespace {

int cpu_limit = 40;

void on_prof(int) {
    static char const msg[] = "HANG: cpu limit for one case exceeded\n";
    (void)!write(2, msg, sizeof(msg) - 1);
    _exit(77);
}

void arm(int sec) {
    itimerval it{};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}

uint64_t fnv(std::string const &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

std::string esc(std::string const &s) {
    std::string r;
    for (unsigned char c : s) {
        switch (c) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\t': r += "\\t"; break;
            default:
                if (c < 32 || c >= 127) {
                    char b[8];
                    std::snprintf(b, sizeof(b), "\\u%04x", c);
                    r += b;
                } else {
                    r += static_cast<char>(c);
                }
        }
    }
    return r;
}

Shared *map_shared(char const *path) {
    int fd = -1;
    int flags = MAP_SHARED;
    if (path != nullptr) {
        fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
            std::perror("status file");
            std::exit(3);
        }
    } else {
        flags |= MAP_ANONYMOUS;
    }
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, flags, fd, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(3);
    }
    return static_cast<Shared *>(p);
}

enum class Outcome { Ok, Discarded, Failed };

Outcome run_case(PropInfo &prop, Case &c, std::string &msg) {
    try {
        prop.run(c);
        return Outcome::Ok;
    } catch (Failure const &e) {
        msg = e.what();
        return Outcome::Failed;
    } catch (Discard const &e) {
        msg = e.what();
        return Outcome::Discarded;
    } catch (std::exception const &e) {
        msg = std::string("unexpected exception: ") + e.what();
        return Outcome::Failed;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        return Outcome::Failed;
    }
}

} // namespace

int main(int argc, char **argv) {
    std::map<std::string, std::string> opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0 && a.find('=') != std::string::npos) {
            opt[a.substr(2, a.find('=') - 2)] = a.substr(a.find('=') + 1);
        } else {
            opt[a] = "1";
        }
    }
    if (opt.count("list") != 0) {
        for (auto &[k, v] : registry()) { std::cout << k << "\t" << v.rule << "\n"; }
        return 0;
    }
    auto it = registry().find(opt["prop"]);
    if (it == registry().end()) {
        std::cerr << "unknown property\n";
        return 3;
    }
    auto &prop = it->second;
    if (opt.count("cpu") != 0) { cpu_limit = std::atoi(opt["cpu"].c_str()); }
    std::signal(SIGPROF, on_prof);
    std::signal(SIGPIPE, SIG_IGN);
    Shared *sh = map_shared(opt.count("status") != 0 ? opt["status"].c_str() : nullptr);
    std::string tier = opt.count("tier") != 0 ? opt["tier"] : "quick";
    uint64_t seed = opt.count("seed") != 0 ? std::strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
    auto setup = [&](Case &c) {
        c.sh = sh;
        c.tier = tier;
        c.bindir = opt["bindir"];
        c.python = opt["python"];
        c.scratch = opt["scratch"];
        sh->ndraws = 0;
        sh->descLen = 0;
        sh->running = 1;
    };
    if (opt.count("replay") != 0) {
        // file with whitespace separated draws on lines starting with "draws:"
        std::ifstream in(opt["replay"]);
        std::vector<uint32_t> draws;
        std::string line;
        while (std::getline(in, line)) {
            if (line.rfind("draws:", 0) == 0) {
                std::istringstream iss(line.substr(6));
                uint32_t x;
                while (iss >> x) { draws.push_back(x); }
            }
        }
        Src src(draws, sh);
        Case c(src);
        setup(c);
        arm(cpu_limit);
        std::string msg;
        auto r = run_case(prop, c, msg);
        sh->running = 0;
        if (opt.count("quiet") == 0) {
            std::cout << c.desc.str() << "\n";
            for (auto &[l, n] : c.labels) { std::cout << "label " << l << " " << n << "\n"; }
        }
        if (r == Outcome::Failed) {
            std::cout << "FAIL: " << msg << std::endl;
            return 10;
        }
        std::cout << (r == Outcome::Ok ? "OK" : "DISCARD: " + msg) << std::endl;
        return 0;
    }
    uint64_t from = std::strtoull(opt["from"].c_str(), nullptr, 10);
    uint64_t to = std::strtoull(opt["to"].c_str(), nullptr, 10);
    uint64_t stride = opt.count("stride") != 0 ? std::strtoull(opt["stride"].c_str(), nullptr, 10) : 1;
    double budget = opt.count("budget") != 0 ? std::atof(opt["budget"].c_str()) : 1e9;
    bool verbose = opt.count("verbose") != 0;
    timeval t0{};
    gettimeofday(&t0, nullptr);
    uint64_t evals = 0;
    uint64_t discards = 0;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    int ret = 0;
    std::string failMsg;
    uint64_t idx = from;
    for (; idx < to; idx += stride) {
        timeval t1{};
        gettimeofday(&t1, nullptr);
        if (static_cast<double>(t1.tv_sec - t0.tv_sec) > budget) { break; }
        Src src(seed, idx, sh);
        Case c(src);
        setup(c);
        sh->index = idx;
        arm(cpu_limit);
        std::string msg;
        auto r = run_case(prop, c, msg);
        arm(0);
        sh->running = 0;
        ++evals;
        if (verbose) { std::cout << "--- " << idx << "\n" << c.desc.str() << "\n"; }
        if (r == Outcome::Failed) {
            c.publish();
            failMsg = msg;
            ret = 10;
            break;
        }
        if (r == Outcome::Discarded) {
            ++discards;
            labels["discard: " + msg]++;
            continue;
        }
        for (auto &[l, n] : c.labels) { labels[l] += n; }
        if (c.nontrivial) {
            labels["nontrivial"]++;
            auto d = c.desc.str();
            if (seen.insert(fnv(d)).second && samples.size() < 3 && (samples.empty() || d.size() < 1500)) {
                samples.emplace_back(d);
            }
        }
    }
    if (opt.count("out") != 0) {
        std::ofstream out(opt["out"]);
        out << "{\"evaluations\":" << evals << ",\"discards\":" << discards << ",\"last\":" << idx
            << ",\"finished\":" << (idx >= to ? "true" : "false") << ",\"fail\":\"" << esc(failMsg) << "\",\"labels\":{";
        bool first = true;
        for (auto &[l, n] : labels) {
            out << (first ? "" : ",") << "\"" << esc(l) << "\":" << n;
            first = false;
        }
        out << "},\"samples\":[";
        first = true;
        for (auto &s : samples) {
            out << (first ? "" : ",") << "\"" << esc(s.substr(0, 3000)) << "\"";
            first = false;
        }
        out << "],\"rule\":\"" << esc(prop.rule) << "\"}\n";
        std::ofstream hs(opt["out"] + ".hashes", std::ios::binary);
        for (auto h : seen) { hs.write(reinterpret_cast<char const *>(&h), sizeof(h)); }
    }
    if (ret == 10) { std::cout << "FAIL idx=" << idx << ": " << failMsg << std::endl; }
    std::fflush(nullptr);
    _exit(ret);
}
