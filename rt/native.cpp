// Native runtime: runs the same harness, compiled from the same sources by the project's own compiler, on concrete bytes.
//   exe ENTRY FILE          one input file (hex, '#' comments)
//   exe --batch ENTRY FILE  one hex line per input; prints "<exit status>|<trace>" per line
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/wait.h>
static std::vector<unsigned char> g_in; static size_t g_pos; static bool g_trace; static std::string g_tr;
static void flushTrace() { if (g_trace) { if (!g_tr.empty()) (void)!write(1, g_tr.data(), g_tr.size()); g_tr.clear(); } }
static uint64_t g_live = 0, g_fail = 0;
extern "C" {
void sym_bytes(void* p, size_t n, const char*) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = g_pos < g_in.size() ? g_in[g_pos] : 0, g_pos++; }
void sym_assume(bool c) { if (!c) { flushTrace(); fprintf(stderr, "REPLAY: assumption violated\n"); _exit(77); } }
void sym_assert(bool c, const char* id) { if (!c) { flushTrace(); fprintf(stderr, "REPLAY: ASSERTION FAILED: %s\n", id); _exit(42); } }
void sym_reach(const char* l) { if (g_trace) { g_tr += l; g_tr += ';'; } }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_fail_new(uint64_t n) { g_fail = n; }
uint64_t sym_live(void) { return g_live; }
int sym_engine(void) { return 0; }
void sym_print(const char* t, uint64_t v) { if (g_trace) { g_tr += t; g_tr += '='; g_tr += std::to_string((unsigned long long)v); g_tr += ';'; } }
[[noreturn]] void sym_end(void) { flushTrace(); _exit(0); }
}
#include <new>
#ifndef SYM_NO_COUNT
static void* cnt(size_t n) { if (g_fail && --g_fail == 0) throw std::bad_alloc(); g_live++; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void dcnt(void* p) { if (p) { g_live--; free(p); } }
void* operator new(size_t n) { return cnt(n); }
void* operator new[](size_t n) { return cnt(n); }
void operator delete(void* p) noexcept { dcnt(p); }
void operator delete[](void* p) noexcept { dcnt(p); }
void operator delete(void* p, size_t) noexcept { dcnt(p); }
void operator delete[](void* p, size_t) noexcept { dcnt(p); }
#endif
static void hexin(const char* s) { g_in.clear(); g_pos = 0; for (; *s; s++) { if (*s == '#') { while (*s && *s != '\n') s++; if (!*s) break; continue; } if (*s <= ' ') continue; unsigned v; char b[3] = { s[0], s[1], 0 }; if (!s[1]) break; sscanf(b, "%x", &v); g_in.push_back((unsigned char)v); s++; } }
int main(int argc, char** argv) {
  bool batch = argc > 3 && !strcmp(argv[1], "--batch"); if (batch) { argv++; argc--; }
  if (argc < 3) return 3;
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  FILE* f = fopen(argv[2], "r"); if (!f) return 3; std::string all; char buf[4096]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, k); fclose(f);
  if (!batch) { g_trace = getenv("SYM_TRACE"); hexin(all.c_str()); fn(); flushTrace(); fflush(stdout); _exit(0); }
  g_trace = true; size_t p = 0; while (p < all.size()) { size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size(); std::string line = all.substr(p, e - p); p = e + 1;
    int fd[2]; if (pipe(fd)) return 3; pid_t c = fork(); if (c == 0) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); alarm(20); hexin(line.c_str()); fn(); flushTrace(); _exit(0); }
    close(fd[1]); std::string out; while ((k = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, k); close(fd[0]); int st; waitpid(c, &st, 0); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    printf("%d|%s\n", rc, out.c_str()); }
  fflush(stdout); return 0; }
