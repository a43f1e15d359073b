/* Replays concrete inputs on the natively built code.  Line protocol on stdin:
 *   {C|E|S} <fn> <nargs> {i<hex>|b<k>}... <nbuf> <hexbytes>...
 *   (E, S: every buffer ends, starts at an inaccessible page)
 * reply: <rax hex> <canary: 0 ok, else 1> <regs: bitmask of clobbered callee-saved> <hexbytes>...
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
extern void *driver_table[];
uint64_t tramp(void *fn, uint64_t *args, uint64_t *clob);
#define GAP 128
static char line[1 << 22];
static unsigned char arena[1 << 20] __attribute__((aligned(64)));
static int hx(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
int main(void) {
    setvbuf(stdout, NULL, _IOFBF, 1 << 20);
    while (fgets(line, sizeof line, stdin)) {
        char *p = strtok(line, " \n");
        if (!p) continue;
        int mode = p[0];
        int fn = atoi(strtok(NULL, " \n"));
        int na = atoi(strtok(NULL, " \n"));
        uint64_t args[6] = {0}; int isb[6] = {0};
        for (int i = 0; i < na; i++) {
            char *a = strtok(NULL, " \n");
            isb[i] = a[0] == 'b';
            args[i] = strtoull(a + 1, NULL, isb[i] ? 10 : 16);
        }
        int nb = atoi(strtok(NULL, " \n"));
        unsigned char *bp[16]; size_t bl[16];
        memset(arena, 0xA5, sizeof arena);
        unsigned char *w = arena + GAP;
        for (int i = 0; i < nb; i++) {
            char *h = strtok(NULL, " \n");
            size_t n = strlen(h + 1) / 2;        /* leading 'x' */
            unsigned char *w0 = w;
            bl[i] = n;
            if (mode != 'C') {
                static unsigned char *gp[16];
                if (!gp[i]) {
                    gp[i] = mmap(0, 12288, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                    mprotect(gp[i], 4096, PROT_NONE);
                    mprotect(gp[i] + 8192, 4096, PROT_NONE);
                }
                memset(gp[i] + 4096, 0xA5, 4096);
                w = mode == 'E' ? gp[i] + 8192 - n : gp[i] + 4096;
            }
            bp[i] = w;
            for (size_t k = 0; k < n; k++) w[k] = hx(h[1 + 2 * k]) << 4 | hx(h[2 + 2 * k]);
            w = mode == 'C' ? w0 + (n + 15) / 16 * 16 + GAP : w0;
        }
        for (int i = 0; i < na; i++) if (isb[i]) args[i] = (uint64_t)bp[args[i]];
        uint64_t clob = 0;
        alarm(20);
        uint64_t r = tramp(driver_table[fn], args, &clob);
        alarm(0);
        int bad = 0; unsigned char *q = arena;
        if (mode != 'C')
            for (int i = 0; i < nb; i++) {
                unsigned char *g = (unsigned char *)((uint64_t)(mode == 'E' ? bp[i] + bl[i] - 1 : bp[i]) & ~4095UL);
                for (unsigned char *x = g; x < g + 4096; x++)
                    if ((x < bp[i] || x >= bp[i] + bl[i]) && *x != 0xA5) bad = 1;
            }
        else
        for (int i = 0; i <= nb; i++) {
            unsigned char *e = i < nb ? bp[i] : w + GAP;
            for (; q < e; q++) if (*q != 0xA5) bad = 1;
            if (i < nb) q = bp[i] + bl[i];
        }
        printf("%llx %d %llx", (unsigned long long)r, bad, (unsigned long long)clob);
        for (int i = 0; i < nb; i++) {
            printf(" x");
            for (size_t k = 0; k < bl[i]; k++) printf("%02x", bp[i][k]);
        }
        printf("\n"); fflush(stdout);
    }
    return 0;
}
