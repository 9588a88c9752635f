/* native judge: in out status */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "r_mac.h"
static long rd(const char *f, char *b){ FILE *h = fopen(f, "rb"); return h ? (long)fread(b, 1, 4096, h) : 0; }
int main(int c, char **v){ static char a[4096], b[4096]; long n = rd(v[1], a), m = rd(v[2], b); const char *r = mac_check(a, n, b, m, atoi(v[3])); if(r) puts(r); else if(c > 4){ tl o; printf("%d\n", mref(a, n, &o)); } return r != 0; }
