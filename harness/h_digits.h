/* each run of '@' in the source: symbolic decimal digits, their value in V[8], V[9].. */
static char srcbuf[8192];
static const char *source(int k){
	int run = 8; char *p;
	strcpy(srcbuf, gen_src(k));
	for(p = srcbuf; *p; p++) if(*p == '@'){
		char nm[3] = { 'd', '0' + run - 8, 0 }; char *e = p; ul v = 0;
		while(*e == '@') e++;
		__cx_sym(p, e - p, nm);
		for(char *q = p; q < e; q++){ __cx_assume(*q >= '0' && *q <= '9'); v = v * 10 + (unsigned char)*q - '0'; }
		__cx_assume(v >= 1);
		V[run] = v; used |= 1 << run; run++;
		p = e - 1;
	}
	return srcbuf;
}
