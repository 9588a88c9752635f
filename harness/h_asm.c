/* reading cc1's output */
static int num(const char **p, ul *v){
	const char *s = *p; int neg = 0;
	*v = 0;
	if(*s == '-') neg = 1, s++;
	if(*s == 14){
		if(s[3] != 15) return 0;
		*v = cx_raw[(s[1] & 63) * 64 + (s[2] & 63)];
		s += 4;
	}else{
		if(!isdigit((unsigned char)*s)) return 0;
		for(; isdigit((unsigned char)*s); s++) *v = *v * 10 + *s - '0';
	}
	if(neg) *v = -*v;
	*p = s; return 1;
}
const char *asm_find(const char *pat){
	cx_ul n = strlen(pat);
	for(cx_ul i = 0; i + n <= nout; i++) if(!memcmp(out + i, pat, n)) return out + i + n;
	return 0;
}
int asm_num(const char *p, ul *v){ return num(&p, v); }
/* k-th element (all of `size` bytes) of the data item `label`, 0 if none */
int asm_arr(const char *label, int idx, unsigned size, ul *v){
	char b[64]; const char *p, *e = out + nout; ul left = 0;
	strcpy(b, "\n"); strcat(b, label); strcat(b, ":\n");
	p = asm_find(b);
	*v = 0;
	if(!p){
		strcpy(b, "\n.comm "); strcat(b, label); strcat(b, ",");
		if((p = asm_find(b))){ ul n; return num(&p, &n) && n >= size * (idx + 1ul); }
		return 0;
	}
	for(; p < e; p++){
		static const struct { const char *d; unsigned n; } D[] = { { ".byte ", 1 }, { ".word ", 2 }, { ".long ", 4 }, { ".quad ", 8 }, { ".zero ", 0 }, { ".space ", 0 } };
		unsigned i;
		while(p < e && (*p == ' ' || *p == '\t')) p++;
		if(*p == '#'){ while(p < e && *p != '\n') p++; continue; }
		for(i = 0; i < 6; i++) if(e - p > 7 && !memcmp(p, D[i].d, strlen(D[i].d))) break;
		if(i < 6){
			p += strlen(D[i].d);
			if(!num(&p, v)) return 0;
			if(i >= 4){
				if(*v % size) return 0;
				if((ul)idx < *v / size){ *v = 0; return 1; }
				idx -= *v / size;
				while(p < e && *p != '\n') p++;
				continue;
			}
			if(D[i].n != size) return 0;
			if(idx--){ while(p < e && *p != '\n') p++; continue; }
			if(size < 8) *v &= (1ul << 8 * size) - 1;
			return 1;
		}
		if(*p != '\n') return 0;
	}
	return 0;
}
int asm_val(const char *label, unsigned size, ul *v){ return asm_arr(label, 0, size, v); }
const char *asm_out(ul *n){ *n = nout; return out; }
int asm_numend(const char **p, ul *v){ return num(p, v); }
