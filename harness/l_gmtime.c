#include "coda/gmtime.h"
void h_gmtime(time_t t, struct tm *tp) { coda_gmtime(t, tp); }
int h_msleep(int ms) { return coda_msleep(ms); }
