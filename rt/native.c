// Native definitions of the harness interface: used to replay solver models
// against the compiled real code.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
static unsigned char in[4096];
static int n = -1;
static void load(void) {
    const char *h = getenv("SYM_INPUT");
    n = 0;
    if (!h) return;
    size_t l = strlen(h) / 2;
    for (size_t i = 0; i < l && i < sizeof in; i++) {
        unsigned v;
        sscanf(h + 2 * i, "%2x", &v);
        in[n++] = (unsigned char)v;
    }
}
uint8_t sym_u8(uint32_t id) {
    if (n < 0) load();
    return (int)id < n ? in[id] : 0;
}
uint8_t sym_choose(uint32_t id, uint8_t k) {
    uint8_t v = sym_u8(id);
    if (v >= k) { printf("ASSUME\n"); fflush(stdout); _Exit(77); }
    return v;
}
void sym_assume(_Bool c) {
    if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(77); }
}
void sym_assert(_Bool c, uint32_t code) {
    if (!c) { printf("ASSERT %u\n", code); fflush(stdout); _Exit(42); }
}
void sym_fail(uint32_t code) { printf("ASSERT %u\n", code); fflush(stdout); _Exit(42); }
void sym_observe(uint64_t v) { printf("O %llu\n", (unsigned long long)v); }
void sym_cover(uint32_t c) { printf("C %u\n", c); }
void sym_note(const char *p, uint64_t l) { printf("N %.*s\n", (int)l, p); }
static void on_abort(int sig) {
    (void)sig;
    static const char m[] = "END\n";
    if (write(1, m, sizeof m - 1)) {}
    _exit(0);
}
void sym_expect_panic(void) { fflush(stdout); signal(SIGABRT, on_abort); }
uint64_t sym_file(const char *p, uint64_t n, char *buf, uint64_t cap) {
    char path[4096];
    if (n >= sizeof path) return (uint64_t)-1;
    memcpy(path, p, n);
    path[n] = 0;
    struct stat st;
    if (stat(path, &st) || !S_ISREG(st.st_mode)) return (uint64_t)-1;
    FILE *f = fopen(path, "rb");
    if (!f) return (uint64_t)-1;
    uint64_t k = 0;
    int c;
    while ((c = fgetc(f)) != EOF) {
        if (k < cap) buf[k] = (char)c;
        k++;
    }
    fclose(f);
    return k;
}
void sym_stderr(void) {
    int f = open("STDERR", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (f < 0 || dup2(f, 2) < 0) abort();
    close(f);
}
uint64_t sym_concrete(uint64_t v) { return v; }
// leaving the program is for the harness to judge, if it cares
extern void sym_exit_hook(int) __attribute__((weak));
void __real_exit(int);
void __wrap_exit(int code) {
    static int inside;
    if (sym_exit_hook && !inside) {
        inside = 1;
        sym_exit_hook(code);
    }
    __real_exit(code);
}
extern void SYM_ENTRY(void);
int main(void) {
    setvbuf(stdout, 0, _IOLBF, 0);
    SYM_ENTRY();
    printf("END\n");
    return 0;
}
