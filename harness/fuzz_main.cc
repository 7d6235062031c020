// Coverage guided search: the bytes chosen by libFuzzer are the choices of the generators.
#include "core.hh"

#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>

namespace pbt {
std::map<std::string, PropInfo> &registry() {
    static std::map<std::string, PropInfo> r;
    return r;
}
} // namespace pbt

using namespace pbt;

namespace {

PropInfo *prop = nullptr;
Shared *sh = nullptr;
uint64_t nontrivial = 0;
uint64_t total = 0;
char const *counts = nullptr;

void save_counts() {
    if (counts != nullptr) {
        if (auto *f = std::fopen(counts, "w"); f != nullptr) {
            std::fprintf(f, "%llu %llu\n", static_cast<unsigned long long>(total), static_cast<unsigned long long>(nontrivial));
            std::fclose(f);
        }
    }
}

} // namespace

extern "C" int LLVMFuzzerInitialize(int * /*argc*/, char *** /*argv*/) {
    auto const *name = std::getenv("PBT_PROP");
    auto it = registry().find(name != nullptr ? name : "");
    if (it == registry().end()) {
        std::cerr << "unknown property\n";
        std::exit(3);
    }
    prop = &it->second;
    std::signal(SIGPIPE, SIG_IGN);
    int fd = -1;
    int flags = MAP_SHARED;
    if (auto const *path = std::getenv("PBT_STATUS"); path != nullptr) {
        fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { std::exit(3); }
    } else {
        flags |= MAP_ANONYMOUS;
    }
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, flags, fd, 0);
    if (p == MAP_FAILED) { std::exit(3); }
    sh = static_cast<Shared *>(p);
    counts = std::getenv("PBT_COUNTS");
    std::atexit(save_counts);
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(uint8_t const *data, size_t size) {
    Src src(data, size, sh);
    Case c(src);
    c.sh = sh;
    c.tier = "quick";
    auto const *scr = std::getenv("PBT_SCRATCH");
    c.scratch = scr != nullptr ? scr : "";
    sh->ndraws = 0;
    sh->descLen = 0;
    sh->running = 1;
    sh->index = total++;
    std::string msg;
    bool failed = false;
    try {
        prop->run(c);
    } catch (Failure const &e) {
        msg = e.what();
        failed = true;
    } catch (Discard const &) {
        return -1;
    } catch (std::exception const &e) {
        msg = std::string("unexpected exception: ") + e.what();
        failed = true;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        failed = true;
    }
    if (failed) {
        c.publish();
        std::cerr << "FAIL: " << msg << std::endl;
        save_counts();
        _exit(10);
    }
    sh->running = 0;
    nontrivial += c.nontrivial ? 1 : 0;
    if (total % 64 == 0) { save_counts(); }
    return 0;
}
