/* cpp on a generated source whose literals 9990NN stand for symbolic 64-bit values V[NN];
 * arg: index of the template; then further arguments of cpp */
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include "util/escape.h"
#include "cx.h"
#include "h_cc1.h"
int prog_main(int, char **);
ul V[16]; int cc1_status = -1;
static int k, used;
#ifdef DIGITS
extern const char HDR[];
#include "h_digits.h"
#else
#define source gen_src
#endif
#ifndef REAL_DIGITS
unsigned long long char_seq_to_ullong(char *s, char **const end, int lim, enum base m, int *const of){
	static const int bs[] = { 2, 8, 10, 16 }; unsigned long long r = 0; int b = bs[m], n = 0;
	*of = 0;
	if(!strncmp(s, "9990", 4) && isdigit(s[4]) && isdigit(s[5]) && !isdigit(s[6])){
		int i = (s[4] - '0') * 10 + s[5] - '0';
		*end = s + 6;
		used |= 1 << i;
		return V[i];
	}
	for(; isxdigit((unsigned char)*s); s++, n++){
		int d = isdigit((unsigned char)*s) ? *s - '0' : tolower((unsigned char)*s) - 'a' + 10;
		if(d >= b || (lim && b == 8 && n >= 3)) break;
		r = r * b + d;
	}
	*end = s;
	return r;
}
#endif
static char *out; static cx_ul nout;
#include "h_asm.c"
void cx_abort(const char *m){ __cx_fail(m); }
void cx_exit(int st){
	char nm[8];
	cc1_status = st;
	out = cx_out(0, &nout);
	strcpy(nm, "v0");
	for(int i = 0; i < 16; i++) if(used >> i & 1){ nm[1] = i < 10 ? '0' + i : 'a' + i - 10; __cx_note(nm, &V[i], 8); }
	if(__cx_replaying()){ cx_ul ne; char *e = cx_out("2", &ne); __cx_note("out", out, nout); __cx_note("err", e, ne); }
	gen_check(k, V, st);
	__cx_done();
}
void cx_harness(void){
	static char *av[16]; int n = 0, i;
	k = atoi(cx_argv[0]);
	for(i = 0; i < gen_nv(k); i++){ char nm[3] = { 'v', i < 10 ? '0' + i : 'a' + i - 10, 0 }; __cx_sym(&V[i], 8, nm); }
	gen_pre(k, V);
	{ const char *s = source(k); cx_file("in.c", s, strlen(s)); }
#ifdef DIGITS
	cx_file("h.h", HDR, strlen(HDR));
	cx_rawints = 1;
#endif
	av[n++] = "cpp";
	for(i = 1; i < cx_argc; i++) av[n++] = cx_argv[i];
	av[n++] = "in.c"; av[n] = 0;
	cx_exit(prog_main(n, av));
}
