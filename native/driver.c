/* Calls one Fortran subroutine on exactly sized heap buffers described by a file.
   file: int64 nargs, int64 repeats, then per argument int64 kind (0 in, 1 out), int64 bytes, and the bytes. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifndef SYM
#error define SYM
#endif
extern void SYM(void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *,
                void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *,
                void *, void *, void *, void *, void *, void *);

static int64_t word(FILE *f) {
    int64_t v;
    if (fread(&v, 8, 1, f) != 1) { fprintf(stderr, "driver: short input\n"); exit(90); }
    return v;
}

int main(int argc, char **argv) {
    if (argc != 3) return 91;
    FILE *f = fopen(argv[1], "rb"), *o = fopen(argv[2], "wb");
    if (!f || !o) return 92;
    int64_t n = word(f), reps = word(f), kind[32], bytes[32];
    void *p[32] = {0}, *copy[32] = {0};
    for (int i = 0; i < n; i++) {
        kind[i] = word(f);
        bytes[i] = word(f);
        p[i] = malloc(bytes[i] ? bytes[i] : 1);
        copy[i] = malloc(bytes[i] ? bytes[i] : 1);
        if (bytes[i] && fread(copy[i], bytes[i], 1, f) != 1) return 93;
    }
    for (int64_t r = 0; r < reps; r++) {
        for (int i = 0; i < n; i++) memcpy(p[i], copy[i], bytes[i]);
        SYM(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16],
            p[17], p[18], p[19], p[20], p[21], p[22], p[23], p[24], p[25], p[26], p[27], p[28], p[29], p[30], p[31]);
        for (int i = 0; i < n; i++) {
            if (kind[i] == 1) { if (bytes[i]) fwrite(p[i], bytes[i], 1, o); }
            else if (memcmp(p[i], copy[i], bytes[i])) {
                fprintf(stderr, "driver: input argument %d was written\n", i + 1);
                return 77;
            }
        }
    }
    fclose(o);
    for (int i = 0; i < n; i++) { free(p[i]); free(copy[i]); }
    return 0;
}
