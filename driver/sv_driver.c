/* Observes string views. Compiled as C and as C++.
 * Input, numbers: length of the memory, bytes; number of views, begin end each (-1 -1 is null);
 * number of bytes to look for, bytes; number of prefixes, length and bytes each. Output: a line of JSON each. */
#include <dnmx/bits/sv.h>
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#if defined(__cplusplus)
#include <vector>
#include <functional>
#include <algorithm>
#endif
static int num(void) { int x; if (scanf("%d", &x) != 1) exit(3); return x; }
/* exactly as many bytes as asked for, so that reading past them is noticed */
static char* mem(size_t n) { char* p = (char*)malloc(n ? n : 1); if (!n) { free(p); p = (char*)malloc(0); } return p; }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
#define MATRIX(name, expr) do { printf(",\"%s\":[", name); for (int i = 0; i < nv; ++i) { printf("%s[", i ? "," : ""); \
    for (int j = 0; j < nv; ++j) printf("%s%d", j ? "," : "", (int)(expr)); printf("]"); } printf("]"); } while (0)
#define LIST(name, n, expr) do { printf(",\"%s\":[", name); for (int i = 0; i < n; ++i) printf("%s%d", i ? "," : "", (int)(expr)); printf("]"); } while (0)
static void observe(int nv, const dnmx_sv* a, const dnmx_sv* b, int nq, const char* qs, int np, char** ps) {
    LIST("len", nv, dnmx_sv_len(a[i]));
    LIST("empty", nv, dnmx_sv_is_empty(a[i]));
    LIST("null", nv, dnmx_sv_is_null(a[i]));
    MATRIX("cmp", sgn(dnmx_sv_cmp(a[i], b[j])));
    MATRIX("eq", dnmx_sv_eq(a[i], b[j]));
    printf(",\"starts\":[");
    for (int i = 0; i < nv; ++i) {
        printf("%s[", i ? "," : "");
        for (int j = 0; j < np; ++j) printf("%s%d", j ? "," : "", dnmx_sv_starts_with(a[i], ps[j]));
        printf("]");
    }
    printf("],\"first\":[");
    for (int i = 0; i < nv; ++i) {
        printf("%s[", i ? "," : "");
        for (int j = 0; j < nq; ++j) { const char* p = dnmx_sv_find_first(a[i], qs[j]); printf("%s%ld", j ? "," : "", p ? (long)(p - a[i].begin) : -1L); }
        printf("]");
    }
    printf("],\"last\":[");
    for (int i = 0; i < nv; ++i) {
        printf("%s[", i ? "," : "");
        for (int j = 0; j < nq; ++j) { const char* p = dnmx_sv_find_last(a[i], qs[j]); printf("%s%ld", j ? "," : "", p ? (long)(p - a[i].begin) : -1L); }
        printf("]");
    }
    printf("]");
#if defined(__cplusplus)
    std::vector<std::string_view> sb;
    for (int i = 0; i < nv; ++i) sb.push_back(b[i].begin ? std::string_view(b[i].begin, dnmx_sv_len(b[i])) : std::string_view());
    LIST("mempty", nv, a[i].empty());
    LIST("to_std", nv, a[i].to_std().data() == a[i].begin && a[i].to_std().data() + a[i].to_std().size() == a[i].end);
    LIST("from_std", nv, dnmx_sv::from_std(sb[i]).begin == sb[i].data() && dnmx_sv::from_std(sb[i]).end == sb[i].data() + sb[i].size());
    MATRIX("eq1", a[i] == b[j]); MATRIX("eq2", a[i] == sb[j]); MATRIX("eq3", sb[i] == a[j]);
    MATRIX("ne1", a[i] != b[j]); MATRIX("ne2", a[i] != sb[j]); MATRIX("ne3", sb[i] != a[j]);
    MATRIX("lt", a[i] < b[j]);
    MATRIX("lt2", std::less<dnmx_sv>()(a[i], b[j]));
#endif
}
int main(void) {
    int n;
    /* literals and null first: what they cover is fixed by the language */
    dnmx_sv l[] = { dnmx_make_sv_lit(""), dnmx_make_sv_lit("a"), dnmx_make_sv_lit("ab\0c"), dnmx_make_sv_lit("abcdefgh"), dnmx_make_sv_str(""), dnmx_make_sv_str("abc"),
        dnmx_make_sv_str("ab\0c"), dnmx_make_sv_str(NULL) };
    printf("{\"fixed\":{\"_\":0");
    LIST("len", 8, dnmx_sv_len(l[i]));
    LIST("empty", 8, dnmx_sv_is_empty(l[i]));
    LIST("null", 8, dnmx_sv_is_null(l[i]));
    printf("}}\n");
    while (scanf("%d", &n) == 1) {
        char* m = mem(n);
        char* z = mem(n + 1);
        for (int i = 0; i < n; ++i) m[i] = z[i] = (char)num();
        z[n] = 0;
        int nv = num();
        dnmx_sv* a = (dnmx_sv*)calloc(nv + 1, sizeof(dnmx_sv));
        dnmx_sv* b = (dnmx_sv*)calloc(nv + 1, sizeof(dnmx_sv));
        for (int i = 0; i < nv; ++i) {
            int x = num(), y = num();
            if (x < 0) { a[i] = dnmx_make_sv_be(NULL, NULL); b[i] = dnmx_make_sv_len(NULL, 0); continue; }
            a[i] = dnmx_make_sv_be(m + x, m + y);
            char* c = mem(y - x);
            memcpy(c, m + x, y - x);
            b[i] = dnmx_make_sv_len(c, y - x);
        }
        int nq = num();
        char* qs = mem(nq);
        for (int i = 0; i < nq; ++i) qs[i] = (char)num();
        int np = num();
        char** ps = (char**)calloc(np + 1, sizeof(char*));
        for (int i = 0; i < np; ++i) {
            int k = num();
            ps[i] = mem(k + 1);
            for (int j = 0; j < k; ++j) ps[i][j] = (char)num();
            ps[i][k] = 0;
        }
        printf("{\"shared\":{\"_\":0");
        observe(nv, a, a, nq, qs, np, ps);
        printf("},\"apart\":{\"_\":0");
        observe(nv, b, a, nq, qs, np, ps);
        printf("},\"str\":[");
        for (int i = 0; i <= n; ++i) { dnmx_sv s = dnmx_make_sv_str(z + i); printf("%s%ld", i ? "," : "", s.begin == z + i ? (long)(s.end - z) : -1L); }
        printf("]}\n");
        for (int i = 0; i < nv; ++i) if (b[i].begin) free((void*)b[i].begin);
        for (int i = 0; i < np; ++i) free(ps[i]);
        free(a); free(b); free(ps); free(qs); free(m); free(z);
    }
    fflush(stdout);
    return 0;
}
