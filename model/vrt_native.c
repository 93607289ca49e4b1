/* native side of vrt.h: feeds a recorded counterexample to the harness */
#include <stdio.h>
#include <stdlib.h>
#include <inttypes.h>
#include "vrt.h"
static FILE *vrt_f;
size_t vtrack;   /* the tracked index of model/vstr.c; natively memcpy is exact */
uint64_t vrt_next(void)
{
    uint64_t v = 0;
    /* values not constrained by the counterexample default to 0 */
    if ((vrt_f == NULL) || (fscanf(vrt_f, "%" SCNu64, &v) != 1)) return 0;
    return v;
}
void vrt_assume_failed(const char *file, int line)
{
    fprintf(stderr, "REPLAY-ASSUMPTION-NOT-MET %s:%d\n", file, line);
    exit(77);
}
void vrt_assert_failed(const char *msg, const char *file, int line)
{
    fprintf(stderr, "REPLAY-VIOLATION: %s (%s:%d)\n", msg, file, line);
    exit(99);
}
int main(int argc, char **argv)
{
    vrt_f = (argc > 1) ? fopen(argv[1], "r") : NULL;
    harness();
    fprintf(stderr, "REPLAY-OK\n");
    return 0;
}
