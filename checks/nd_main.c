/* native replay driver: prog CASE file-with-inputs */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
long long ND_I[512]; double ND_D[512];
void nd_assume(int c, const char *t) { if (!c) { printf("ASSUMPTION-NOT-MET %s\n", t); fflush(stdout); _Exit(77); } }
void nd_check(int c, const char *t, int line) { if (!c) { printf("CHECK-FAILED line %d: %s\n", line, t); fflush(stdout); _Exit(3); } }
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[2], "r"); char k[8]; int i; char v[64];
    while (f && fscanf(f, "%7s %d %63s", k, &i, v) == 3) {
        if (i < 0 || i >= 512) continue;
        if (k[0] == 'I') ND_I[i] = strtoll(v, 0, 10); else if (k[0] == 'D') { unsigned long long b = strtoull(v, 0, 16); memcpy(&ND_D[i], &b, 8); }
    }
    if (f) fclose(f);
    void (*fn)(void) = (void (*)(void)) dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { printf("NO-CASE\n"); return 78; }
    fn();
    printf("END\n"); fflush(stdout);
    return 0;
}
