// Native driver: runs harness() on recorded inputs against the real code (built with sanitizers for replays).
//   native FILE...          each FILE: line 1 hex input, line 2 "p name=value ..."
//   exit 0 = ran to completion, 1 = property failed, 77 = an assumption failed, other = crash
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <fstream>
#include <iostream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <csignal>
#include <exception>
extern "C" void harness();
static std::vector<unsigned char> input; static size_t pos;
static std::map<std::string, int64_t> prm;
static std::vector<uint64_t> obs;
extern "C" {
    void vf_sym(void* p, size_t n, const char*) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = pos < input.size() ? input[pos] : 0, pos++; }
    void vf_assume(int c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(77); } }
    void vf_check(int c, const char* w) { if (!c) { printf("CHECK-FAILED %s\n", w); fflush(stdout); _exit(1); } }
    void vf_fail(const char* w) { vf_check(0, w); }
    void vf_reach(const char*) { }
    void vf_observe(uint64_t v) { obs.push_back(v); }
    uint64_t vf_concrete(uint64_t v) { return v; }
    int64_t vf_param(const char* n, int64_t d) { auto i = prm.find(n); return i == prm.end() ? d : i->second; }
    void vf_note(const char* s) { if (getenv("VF_NOTES")) printf("NOTE %s\n", s); }
}
static int runOne() {
    pos = 0; obs.clear();
    try { harness(); }
    catch (std::exception& e) { printf("UNCAUGHT %s\n", e.what()); return 3; }
    catch (...) { printf("UNCAUGHT ?\n"); return 3; }
    printf("OK"); for (auto o : obs) printf(" %llu", (unsigned long long)o); printf("\n");
    return 0;
}
static std::vector<unsigned char> unhex(const std::string& s) { std::vector<unsigned char> v; for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((unsigned char)strtol(s.substr(i, 2).c_str(), nullptr, 16)); return v; }
int main(int argc, char** argv) {
    // batch mode: stdin lines "hex|name=value name=value"; one result line each
    if (argc > 1 && !strcmp(argv[1], "--batch")) {
        std::string l; setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
        while (std::getline(std::cin, l)) {
            auto k = l.find('|'); input = unhex(l.substr(0, k)); prm.clear();
            std::string r = l.substr(k + 1); size_t a = 0;
            while (a < r.size()) { size_t b = r.find(' ', a); if (b == std::string::npos) b = r.size(); auto t = r.substr(a, b - a); auto e = t.find('='); if (e != std::string::npos) prm[t.substr(0, e)] = strtoll(t.c_str() + e + 1, nullptr, 0); a = b + 1; }
            fflush(stdout);
            pid_t p = fork();
            if (!p) { alarm(20); struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); int rc = runOne(); fflush(stdout); _exit(rc); }
            int s; waitpid(p, &s, 0);
            if (WIFSIGNALED(s)) printf("SIGNAL %d\n", WTERMSIG(s)); else if (WEXITSTATUS(s) && WEXITSTATUS(s) != 1 && WEXITSTATUS(s) != 77 && WEXITSTATUS(s) != 3) printf("EXIT %d\n", WEXITSTATUS(s));
            fflush(stdout);
        }
        return 0;
    }
    if (argc < 2) return 2;
    std::ifstream f(argv[1]); std::string h, p; std::getline(f, h); std::getline(f, p);
    input = unhex(h);
    size_t a = 0;
    while (a < p.size()) { size_t b = p.find(' ', a); if (b == std::string::npos) b = p.size(); auto t = p.substr(a, b - a); auto e = t.find('='); if (e != std::string::npos) prm[t.substr(0, e)] = strtoll(t.c_str() + e + 1, nullptr, 0); a = b + 1; }
    int rc = runOne(); fflush(stdout);
    _exit(rc);
}
