/* cc1 on a generated source whose literals 9990NN stand for symbolic 64-bit values v[NN].
 * arg: index of the template; the generated file supplies the templates and what must hold. */
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include "util/escape.h"
#include "cx.h"
#include "h_cc1.h"
int prog_main(int, char **);
ul V[16]; int cc1_status = -1;
static int k, used;
#ifdef DIGITS
#include "h_digits.h"
#else
#define source gen_src
#endif
unsigned long long char_seq_to_ullong(char *s, char **const end, int lim, enum base m, int *const of){
	static const int bs[] = { 2, 8, 10, 16 }; unsigned long long r = 0; int b = bs[m], n = 0;
	*of = 0;
	if(!strncmp(s, "9990", 4) && isdigit(s[4]) && isdigit(s[5]) && !isdigit(s[6])){
		int i = (s[4] - '0') * 10 + s[5] - '0';
		*end = s + 6;
		used |= 1 << i;
		return V[i];
	}
	for(; isxdigit((unsigned char)*s); s++, n++){
		int d = isdigit((unsigned char)*s) ? *s - '0' : tolower((unsigned char)*s) - 'a' + 10;
		if(d >= b || (lim && b == 8 && n >= 3)) break;
		r = r * b + d;
	}
	*end = s;
	return r;
}
#ifndef REAL_HIGH_BIT
/* summary of the bit-counting loop (explored itself by C05), without a path per bit */
int type_is_signed(void *); unsigned type_size(void *, void *); unsigned long long integral_truncate(unsigned long long, unsigned, long long *);
int integral_high_bit(unsigned long long v, void *ty){
	int r = -1;
	if(type_is_signed(ty) && (long long)v < 0) v = integral_truncate(v, type_size(ty, 0), 0);
	for(int i = 0; i < 64; i++) r = (v >> i & 1) ? i : r;
	return r;
}
#endif
static char *out; static cx_ul nout;
#include "h_asm.c"
void cx_abort(const char *m){ __cx_fail(m); }
void cx_exit(int st){
	char nm[8];
	cc1_status = st;
	out = cx_out("out.s", &nout);
	strcpy(nm, "v0");
	for(int i = 0; i < 16; i++) if(used >> i & 1){ nm[1] = i < 10 ? '0' + i : 'a' + i - 10; __cx_note(nm, &V[i], 8); }
	if(__cx_replaying()) __cx_note("asm", out, nout);
	gen_check(k, V, st);
	__cx_done();
}
void cx_harness(void){
	static char *av[16]; int n = 0, i;
	k = atoi(cx_argv[0]);
	for(i = 0; i < gen_nv(k); i++){ char nm[3] = { 'v', i < 10 ? '0' + i : 'a' + i - 10, 0 }; __cx_sym(&V[i], 8, nm); }
	gen_pre(k, V);
	{ const char *s = source(k); cx_file("in.c", s, strlen(s)); }
	av[n++] = "cc1"; av[n++] = "-o"; av[n++] = "out.s"; av[n++] = "-w";
	for(i = 1; i < cx_argc; i++) av[n++] = cx_argv[i];
	av[n++] = "in.c"; av[n] = 0;
	cx_rawints = 1;
	cx_exit(prog_main(n, av));
}
