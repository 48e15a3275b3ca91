// Native driver: runs one harness call per record of a case file and prints the buffers afterwards.
//   case <harness> / p <n> ints... / b <size> <align> <hex>   ... / run
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <csignal>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" std::int64_t vh_pick(std::int64_t v) { return v; }

int main(int, char** argv)
{
    FILE* f = std::fopen(argv[1], "r");
    if (f == nullptr) { return 90; }
#if !defined(__SANITIZE_ADDRESS__) && !(defined(__has_feature) && __has_feature(address_sanitizer))
    auto const lim = rlimit{std::size_t(8) << 30, std::size_t(8) << 30};
    setrlimit(RLIMIT_AS, &lim);
#endif
    char word[256];
    std::string name;
    std::vector<std::int64_t> params;
    std::vector<unsigned char*> bufs;
    std::vector<void*> raw;
    std::vector<std::size_t> sizes;
    while (std::fscanf(f, "%255s", word) == 1) {
        if (std::strcmp(word, "case") == 0) {
            std::fscanf(f, "%255s", word);
            name = word;
            params.clear(); bufs.clear(); sizes.clear(); raw.clear();
        } else if (std::strcmp(word, "p") == 0) {
            long long v = 0;
            std::fscanf(f, "%lld", &v);
            params.push_back(v);
        } else if (std::strcmp(word, "b") == 0) {
            std::size_t n = 0, al = 0;
            std::fscanf(f, "%zu %zu", &n, &al);
            void* mem = nullptr;
            if (posix_memalign(&mem, 64, n + al) != 0) { return 91; }
            auto* p = static_cast<unsigned char*>(mem) + al;
            for (std::size_t i = 0; i < n; ++i) {
                unsigned v = 0;
                std::fscanf(f, "%2x", &v);
                p[i] = static_cast<unsigned char>(v);
            }
            bufs.push_back(p); sizes.push_back(n); raw.push_back(mem);
        } else if (std::strcmp(word, "run") == 0) {
            // a process of its own for every case: no state is carried over
            std::fflush(stdout);
            if (auto const pid = fork(); pid != 0) {
                int st = 0;
                if (pid < 0 or waitpid(pid, &st, 0) != pid) { return 93; }
                if (WIFSIGNALED(st)) {
                    std::signal(WTERMSIG(st), SIG_DFL);
                    std::raise(WTERMSIG(st));
                }
                if (WEXITSTATUS(st) != 0) { return WEXITSTATUS(st); }
                for (auto* r : raw) { std::free(r); }
                continue;
            }
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            auto* fn = reinterpret_cast<void (*)(std::int64_t const*, void**)>(dlsym(nullptr, name.c_str()));
            if (fn == nullptr) { std::printf("nofn %s\n", name.c_str()); return 92; }
            std::vector<void*> ptrs(bufs.begin(), bufs.end());
            fn(params.data(), ptrs.data());
            std::printf("done %s\n", name.c_str());
            for (std::size_t k = 0; k < bufs.size(); ++k) {
                std::string s;
                s.reserve(sizes[k] * 2 + 2);
                char t[3];
                for (std::size_t i = 0; i < sizes[k]; ++i) { std::snprintf(t, 3, "%02x", bufs[k][i]); s += t; }
                std::printf("b %s\n", s.empty() ? "-" : s.c_str());
                std::free(raw[k]);
            }
            std::fflush(stdout);
            _exit(0);
        }
    }
    return 0;
}
