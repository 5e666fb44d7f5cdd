#include <stdio.h>
#include <stdlib.h>
#include "coda/gmtime.h"
int main(int c, char **v) { struct tm m; long t = atol(v[1]); coda_gmtime(t, &m); printf("%d %d %d %d %d %d %d\n", m.tm_year, m.tm_mon, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, m.tm_wday); return 0; }
