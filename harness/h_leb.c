/* leb128_out / leb128_length over every 64-bit value: args: U|S */
#include <stdio.h>
#include "cx.h"
#include "cc1/out/leb.c"
void cx_harness(void){
	int sig = cx_argv[0][0] == 'S';
	unsigned long long v = 0; cx_ul n, i; char *o;
	unsigned char by[64]; unsigned nb = 0, ret, len;
	unsigned long long d = 0; unsigned sh = 0;
	__cx_sym(&v, 8, "v");
	__cx_notesym("v");
	cx_rawints = 1;
	ret = leb128_out(stdout, v, sig);
	cx_rawints = 0;
	len = leb128_length(v, sig);
	o = cx_out(0, &n);
	/* ints separated by ", " */
	for(i = 0; i < n;){
		if(o[i] == 14){
			unsigned long long x = cx_raw[(o[i + 1] & 63) * 64 + (o[i + 2] & 63)];
			if(o[i + 3] != 15) __cx_fail("output not a list of bytes");
			i += 4;
			if(x > 255) __cx_fail("not a byte");
			if(nb >= 20) __cx_fail("more than 20 bytes");
			by[nb++] = x;
		}else{
			if(o[i] != ',' || o[i + 1] != ' ') __cx_fail("separator");
			i += 2;
		}
	}
	if(!nb) __cx_fail("no bytes");
	for(i = 0; i < nb; i++){
		if(!(by[i] & 0x80) != (i == nb - 1)) __cx_fail("continuation bit wrong");
		if(sh < 64) d |= (unsigned long long)(by[i] & 0x7f) << sh;
		sh += 7;
	}
	if(sig && sh < 64 && by[nb - 1] & 0x40) d |= ~0ull << sh;
	if(d != v) __cx_fail("decodes to another value");
	if(sh >= 70 && !sig && by[9] > 1) __cx_fail("bits beyond 64");
	if(ret != nb) __cx_fail("returned length differs from the bytes written");
	if(len != nb) __cx_fail("leb128_length differs from the bytes written");
	if(nb > 10) __cx_fail("longer than needed");
	if(nb > 1){ /* minimal */
		if(!sig && by[nb - 1] == 0) __cx_fail("excess bytes");
		if(sig && ((by[nb - 1] == 0 && !(by[nb - 2] & 0x40)) || (by[nb - 1] == 0x7f && by[nb - 2] & 0x40))) __cx_fail("excess bytes");
	}
	__cx_done();
}
