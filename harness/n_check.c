/* replay: the same judgement over the output of the natively built cc1.
 * args: template, output file, exit status, values */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include "cx.h"
#include "h_cc1.h"
ul V[16]; int cc1_status, cx_rawints; cx_ul cx_raw[1]; unsigned cx_nraw;
static char *out; static cx_ul nout;
#include "h_asm.c"
void __cx_fail(const char *m){ printf("FAIL %s\n", m); exit(1); }
void __cx_assume(int c){ if(!c){ printf("outside the bounds\n"); exit(3); } }
void __cx_done(void){ exit(0); }
void __cx_notesym(const char *m){ (void)m; }
int main(int ac, char **av){
	FILE *f = fopen(av[2], "rb"); int i;
	out = calloc(1, 1 << 24);
	if(f) nout = fread(out, 1, (1 << 24) - 1, f);
	cc1_status = atoi(av[3]);
	for(i = 4; i < ac; i++) V[i - 4] = strtoul(av[i], 0, 10);
	gen_pre(atoi(av[1]), V);
	gen_check(atoi(av[1]), V, cc1_status);
	return 0;
}
