/* C19: the C surface, used from C. One request per line, one answer per line. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "c_bindings/c_wrapper.h"
static char line[1 << 22];
static uint8_t* unhex(const char* s, size_t* n) { size_t l = strcmp(s, "-") ? strlen(s) / 2 : 0; uint8_t* p = malloc(l ? l : 1); for (size_t i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); p[i] = (uint8_t)v; } *n = l; return p; }
static void put(const uint8_t* p, size_t n) { printf("ok:"); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
int main(void) {
    while (fgets(line, sizeof line, stdin)) {
        char* t[8]; int k = 0; for (char* p = strtok(line, " \n"); p && k < 8; p = strtok(NULL, " \n")) t[k++] = p;
        if (!k) continue;
        if (!strcmp(t[0], "create")) { size_t n, bits = strtoull(t[2], 0, 10); uint8_t* s = unhex(t[1], &n); size_t m = bits <= 65536 ? (bits + 7) / 8 : 8; uint8_t* out = calloc(m + 16, 1); memset(out + m, 0x5a, 16);
            bool ok = create_discriminant_wrapper(s, n, bits, out); int bad = 0; for (int i = 0; i < 16; i++) bad |= out[m + i] != 0x5a;
            if (bad) printf("overrun\n"); else if (ok) put(out, m); else printf("fail\n"); free(s); free(out);
        } else if (!strcmp(t[0], "prove")) { size_t n, xn; uint8_t *s = unhex(t[1], &n), *x = unhex(t[2], &xn); ByteArray b = prove_wrapper(s, n, x, xn, strtoull(t[3], 0, 10), strtoull(t[4], 0, 10));
            if (b.data) put(b.data, b.length); else if (b.length) printf("badfail\n"); else printf("fail\n"); delete_byte_array(b); free(s); free(x);
        } else if (!strcmp(t[0], "verify")) { size_t n, xn, pn; uint8_t *d = unhex(t[1], &n), *x = unhex(t[2], &xn), *p = unhex(t[3], &pn);
            printf(verify_n_wesolowski_wrapper(d, n, x, p, pn, strtoull(t[4], 0, 10), strtoull(t[5], 0, 10)) ? "true\n" : "false\n"); free(d); free(x); free(p);
        } else printf("?\n");
        fflush(stdout);
    }
    return 0;
}
