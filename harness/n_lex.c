/* native judge: in out status trigraphs */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "r_lex.h"
static long rd(const char *f, char *b){ FILE *h = fopen(f, "rb"); long n = h ? (long)fread(b, 1, 4096, h) : 0; return n; }
int main(int c, char **v){ static char a[4096], b[4096]; long n = rd(v[1], a), m = rd(v[2], b); const char *r = lex_check(a, n, b, m, atoi(v[3]), atoi(v[4])); if(r) puts(r); return r != 0; }
