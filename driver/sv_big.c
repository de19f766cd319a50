/* Views longer than any int: over memory of zeroes which is never written. Input: pairs of lengths, in pieces of 2^30 and bytes */
#include <dnmx/bits/sv.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
int main(void) {
    size_t all = ((size_t)5 << 30) + 4096;
    char* m = (char*)mmap(NULL, all, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { printf("nomem\n"); return 0; }
    long h1, l1, h2, l2;
    while (scanf("%ld %ld %ld %ld", &h1, &l1, &h2, &l2) == 4) {
        dnmx_sv a = dnmx_make_sv_len(m, ((size_t)h1 << 30) + l1), b = dnmx_make_sv_len(m, ((size_t)h2 << 30) + l2);
        int c = dnmx_sv_cmp(a, b);
        const char* last = dnmx_sv_find_last(a, 0);
        size_t len = dnmx_sv_len(a), at = last ? last - m + 1 : 0;
        printf("%d %d %ld %ld %ld %ld %d\n", c < 0 ? -1 : c > 0, dnmx_sv_eq(a, b), (long)(len >> 30), (long)(len & 0x3fffffff), (long)(at >> 30), (long)(at & 0x3fffffff), dnmx_sv_starts_with(a, ""));
    }
    return 0;
}
