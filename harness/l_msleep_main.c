#include <stdio.h>
#include <stdlib.h>
#include <time.h>
static struct timespec q; static int calls;
static int fake(const struct timespec *a, struct timespec *b) { q = *a; calls++; return 0; }
#define nanosleep fake
#include "coda/gmtime.h"
int main(int c, char **v) { coda_msleep(atoi(v[1])); printf("%ld %ld %d\n", (long)q.tv_sec, (long)q.tv_nsec, calls); return 0; }
