/* reads .debug_info / .debug_abbrev back from assembly text: every DIE must parse by its abbreviation,
 * every reference must name the start of a DIE, and the unit must end where its length says */
struct del { ul v; unsigned char sz; unsigned off; };
static struct del inf[8192], abb[8192]; static int ninf, nabb;
struct dat { unsigned at, form; ul v; int b0, bn; };
struct die { unsigned off, tag; int parent, na; struct dat a[16]; };
static struct die D[300]; static int nD; static int dend = -1;
static void dpush(int s, ul v, int sz){
	struct del *e = s ? &abb[nabb++] : &inf[ninf++];
	if(ninf >= 8190 || nabb >= 8190) __cx_fail("debug info too large for the harness");
	e->v = v; e->sz = sz; e->off = e == (s ? abb : inf) ? 0 : e[-1].off + e[-1].sz;
}
static int pfx(const char *p, const char *e, const char *w){ ul n = strlen(w); return (ul)(e - p) >= n && !memcmp(p, w, n); }
static void dread(void){
	ul n; const char *p = asm_out(&n), *e = p + n; int sec = -1;
	while(p < e){
		const char *q = p; ul v;
		while(q < e && (*q == ' ' || *q == '\t')) q++;
		if(pfx(q, e, ".section ")) sec = pfx(q, e, ".section .debug_info") ? 0 : pfx(q, e, ".section .debug_abbrev") ? 1 : -1;
		else if(sec >= 0 && *q == '.' && q != p){
			int sz = 0;
			if(pfx(q, e, ".byte ")) sz = 1, q += 6; else if(pfx(q, e, ".word ")) sz = 2, q += 6; else if(pfx(q, e, ".short ")) sz = 2, q += 7;
			else if(pfx(q, e, ".long ")) sz = 4, q += 6; else if(pfx(q, e, ".quad ")) sz = 8, q += 6;
			if(sz) for(;;){
				if(asm_numend(&q, &v)) ;
				else { v = 0; while(q < e && *q != '\n' && *q != '#' && *q != ',') q++; }   /* a label */
				dpush(sec, v, sz);
				while(q < e && *q == ' ') q++;
				if(q < e && *q == ','){ q++; while(*q == ' ') q++; continue; }
				break;
			}
			else if(pfx(q, e, ".ascii \"")){
				for(q += 8; q < e && *q != '"'; q++){
					int c = (unsigned char)*q;
					if(c == '\\'){
						q++;
						if(*q >= '0' && *q <= '7'){ int k; for(c = 0, k = 0; k < 3 && *q >= '0' && *q <= '7'; k++) c = c * 8 + *q++ - '0'; q--; }
						else c = *q == 'n' ? '\n' : (unsigned char)*q;
					}
					dpush(sec, c & 255, 1);
				}
			}else __cx_fail("unknown directive in debug info");
		}else if(sec == 0 && pfx(p, e, ".Lsection_end_dbg_info:")) dend = ninf;
		while(p < e && *p != '\n') p++;
		p++;
	}
}
static ul du(struct del *s, int n, int *i, int sz){
	if(*i >= n) __cx_fail("debug info ends early");
	if(s[*i].sz != sz) __cx_fail("debug info field of another size than its form");
	return s[(*i)++].v;
}
static ul dleb(struct del *s, int n, int *i, int sg){
	ul r = 0, b; int sh = 0;
	do { b = du(s, n, i, 1); if(sh < 64) r |= (b & 0x7f) << sh; sh += 7; } while(b & 0x80);
	if(sg && sh < 64 && b & 0x40) r |= ~0ul << sh;
	return r;
}
static void dw_parse(void){
	int i, k, lvl[32], nl = 0; struct { ul code; unsigned tag; int ch, at; } A[300]; int nA = 0;
	dread();
	for(i = 0; i < nabb;){
		ul c = dleb(abb, nabb, &i, 0);
		if(!c) break;
		if(nA >= 300) __cx_fail("too many abbreviations for the harness");
		A[nA].code = c; A[nA].tag = dleb(abb, nabb, &i, 0); A[nA].ch = du(abb, nabb, &i, 1); A[nA++].at = i;
		for(;;){ ul a = dleb(abb, nabb, &i, 0), f = dleb(abb, nabb, &i, 0); if(!a && !f) break; }
	}
	i = 0;
	du(inf, ninf, &i, 4); if(du(inf, ninf, &i, 2) != 2) __cx_fail("version"); du(inf, ninf, &i, 4); if(du(inf, ninf, &i, 1) != 8) __cx_fail("address size");
	do {
		unsigned off = inf[i].off; ul c = dleb(inf, ninf, &i, 0); int j;
		struct die *d;
		if(!c){ if(!nl) __cx_fail("end of children without children"); nl--; continue; }
		for(k = 0; k < nA && A[k].code != c; k++) ;
		if(k == nA) __cx_fail("unknown abbreviation");
		if(nD >= 300) __cx_fail("too many DIEs for the harness");
		d = &D[nD]; d->off = off; d->tag = A[k].tag; d->parent = nl ? lvl[nl - 1] : -1; d->na = 0;
		for(j = A[k].at;;){
			unsigned at = dleb(abb, nabb, &j, 0), f = dleb(abb, nabb, &j, 0); struct dat *a = &d->a[d->na++];
			if(!at && !f){ d->na--; break; }
			a->at = at; a->form = f; a->v = 0;
			switch(f){
				case 0x01: a->v = du(inf, ninf, &i, 8); break;
				case 0x0b: case 0x0c: a->v = du(inf, ninf, &i, 1); break;
				case 0x05: a->v = du(inf, ninf, &i, 2) & 0xffff; break;
				case 0x06: a->v = du(inf, ninf, &i, 4); break;
				case 0x07: a->v = du(inf, ninf, &i, 8); break;
				case 0x08: a->b0 = i; while(du(inf, ninf, &i, 1)) ; a->bn = i - a->b0 - 1; break;
				case 0x0a: { unsigned e; a->bn = du(inf, ninf, &i, 1); a->b0 = i; e = inf[i].off + a->bn; while(i < ninf && inf[i].off < e) i++; if(i < ninf && inf[i].off != e) __cx_fail("block ends inside a field"); a->bn = i - a->b0; break; }
				case 0x0d: a->v = dleb(inf, ninf, &i, 1); break;
				case 0x0f: a->v = dleb(inf, ninf, &i, 0); break;
				case 0x13: a->v = du(inf, ninf, &i, 4); break;
				default: __cx_fail("unknown form");
			}
		}
		if(A[k].ch){ if(nl == 32) __cx_fail("nesting"); lvl[nl++] = nD; }
		nD++;
	} while(nl);
	if(i != ninf || dend != ninf) __cx_fail("bytes after the compilation unit");
	for(i = 0; i < nD; i++) for(k = 0; k < D[i].na; k++) if(D[i].a[k].form == 0x13){
		int j;
		for(j = 0; j < nD && D[j].off != D[i].a[k].v; j++) ;
		if(j == nD) __cx_fail("reference to no DIE");
	}
}
static struct dat *dw_at(int d, unsigned at){ int k; for(k = 0; d >= 0 && k < D[d].na; k++) if(D[d].a[k].at == at) return &D[d].a[k]; return 0; }
static int dw_find(unsigned tag, const char *name, int parent){
	int i, k;
	for(i = 0; i < nD; i++) if(D[i].tag == tag && (parent < 0 || D[i].parent == parent)){
		struct dat *a = dw_at(i, 3);
		if(!name) return i;
		if(!a || a->bn != (int)strlen(name)) continue;
		for(k = 0; k < a->bn && inf[a->b0 + k].v == (unsigned char)name[k]; k++) ;
		if(k == a->bn) return i;
	}
	__cx_fail("DIE missing");
	return -1;
}
static int dw_type(int d){ struct dat *a = dw_at(d, 0x49); int j; if(!a) __cx_fail("no type"); for(j = 0; j < nD; j++) if(D[j].off == a->v) return j; return -1; }
static ul dw_val(int d, unsigned at){ struct dat *a = dw_at(d, at); if(!a) __cx_fail("attribute missing"); return a->form == 0x06 ? a->v & 0xffffffff : a->v; }
/* a block of one operator with one LEB operand */
static ul dw_loc(int d, unsigned at, unsigned op, int sg){
	struct dat *a = dw_at(d, at); int i; ul v;
	if(!a || a->form != 0x0a) __cx_fail("location missing");
	i = a->b0;
	if(du(inf, ninf, &i, 1) != op) __cx_fail("location operator");
	v = dleb(inf, ninf, &i, sg);
	if(i != a->b0 + a->bn) __cx_fail("block length differs from its content");
	return v;
}
