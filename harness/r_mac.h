/* macro replacement (6.10.3) over a file of #define lines and text lines, by tokens */
enum { KID = 1, KNUM, KSTR, KP, KEND, KOTHER };
typedef struct { char t[28]; short n; char k, ws, paint; int m; } tok;
typedef struct { tok t[120]; int n; } tl;
typedef struct { char nm[12]; int fn, va, np; char p[4][12]; tl body; int off; } mac;
static mac M[12]; static int NM, OVER, UNDEF, ERR, NEST;     /* NEST: a call completed past the end of a replacement counts as nested in it (either is allowed) */
static int isid(int c){ return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '$'; }
static int isdg(int c){ return c >= '0' && c <= '9'; }
static void tput(tl *l, const tok *t){ if(l->n < 120) l->t[l->n++] = *t; else OVER = 1; }
static int eq(const tok *t, const char *s){ int i; for(i = 0; i < t->n; i++) if(t->t[i] != s[i] || !s[i]) return 0; return !s[i]; }
/* one line into tokens */
static void lex(const char *s, int n, tl *l){
	int i = 0, ws = 0;
	while(i < n){
		tok t; int j = i; char c = s[i];
		if(c == ' ' || c == '\t' || c == '\n'){ ws = 1; i++; continue; }
		t.paint = 0; t.m = 0; t.ws = ws; ws = 0;
		if(isid(c)){ while(j < n && (isid(s[j]) || isdg(s[j]))) j++; t.k = KID; if(j < n && j == i + 1 && c == 'L' && (s[j] == '"' || s[j] == '\'')){ UNDEF = 1; } }
		else if(isdg(c) || (c == '.' && i + 1 < n && isdg(s[i + 1]))){
			for(j++; j < n; j++){ if((s[j] == '+' || s[j] == '-') && (s[j - 1] == 'e' || s[j - 1] == 'E' || s[j - 1] == 'p' || s[j - 1] == 'P')) continue; if(!isid(s[j]) && !isdg(s[j]) && s[j] != '.') break; }
			t.k = KNUM;
		}else if(c == '"' || c == '\''){
			for(j++; j < n && s[j] != c; j++) if(s[j] == '\\') j++;
			if(j >= n){ UNDEF = 1; return; }
			j++; t.k = KSTR;
		}else{
			static const char *const ps[] = { "...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##" };
			j = i + 1; t.k = KP;
			for(int k = 0; k < 23; k++){ int m = 0; while(ps[k][m] && i + m < n && s[i + m] == ps[k][m]) m++; if(!ps[k][m]){ j = i + m; break; } }
		}
		if(j - i > 27){ OVER = 1; return; }
		t.n = j - i;
		for(int k = 0; k < t.n; k++) t.t[k] = s[i + k];
		tput(l, &t);
		i = j;
	}
	if(ws){ tok t; t.k = 0; t.n = 0; t.ws = 1; (void)t; }
}
static int find(const tok *t){ if(t->k != KID) return -1; for(int i = 0; i < NM; i++) if(eq(t, M[i].nm)) return i; return -1; }
static void expd(tl *l, int base);
static int act[40], nact;
static void app(tl *o, const tl *a, int ws){ for(int i = 0; i < a->n; i++){ tok t = a->t[i]; if(!i) t.ws = ws; tput(o, &t); } }
static void strz(const tl *a, tok *o){
	int n = 0; char b[64];
	b[n++] = '"';
	for(int i = 0; i < a->n; i++){
		const tok *t = &a->t[i];
		if(i && t->ws) b[n++] = ' ';
		if(t->k == KP && t->t[0] == '\\') UNDEF = 1;
		for(int k = 0; k < t->n; k++){ if(t->k == KSTR && (t->t[k] == '"' || t->t[k] == '\\')) b[n++] = '\\'; b[n++] = t->t[k]; if(n > 50){ OVER = 1; return; } }
	}
	b[n++] = '"';
	if(n > 27){ OVER = 1; return; }
	o->k = KSTR; o->n = n; o->paint = 0; o->m = 0; memcpy(o->t, b, n);
}
static int par(const mac *m, const tok *t){ if(!m->fn || t->k != KID) return -1; for(int i = 0; i < m->np; i++) if(eq(t, m->p[i])) return i; if(m->va && eq(t, "__VA_ARGS__")) return m->np; return -1; }
/* the spacing around the commas of a stringised __VA_ARGS__ is ucc's own (its tests say so): not judged */
static void hascomma(const tl *a){ for(int i = 0; i < a->n; i++) if(a->t[i].k == KP && eq(&a->t[i], ",")) UNDEF = 1; }
static void subst(mac *m, tl *args, tl *o){
	tl *b = &m->body;
	o->n = 0;
	for(int i = 0; i < b->n && !UNDEF && !OVER && !ERR; i++){
		tok *t = &b->t[i]; int p = par(m, t), join = i + 1 < b->n && eq(&b->t[i + 1], "##") && b->t[i + 1].k == KP;
		tl cur; cur.n = 0;
		if(m->fn && eq(t, "#") && t->k == KP){
			tok s = *t;
			if(i + 1 >= b->n || (p = par(m, &b->t[i + 1])) < 0){ UNDEF = 1; return; }
			strz(&args[p], &s); if(p == m->np) hascomma(&args[p]); i++; tput(&cur, &s);
			join = i + 1 < b->n && eq(&b->t[i + 1], "##") && b->t[i + 1].k == KP;
		}else if(p >= 0){
			if(join) app(&cur, &args[p], t->ws);
			else { app(&cur, &args[p], t->ws); int sb = nact; expd(&cur, sb); if(cur.n) cur.t[0].ws = t->ws; app(o, &cur, t->ws); continue; }
		}else tput(&cur, t);
		while(join){
			tl r; r.n = 0; tok *u; int q;
			i += 2;
			if(i >= b->n){ UNDEF = 1; return; }
			u = &b->t[i]; q = par(m, u);
			if(m->fn && eq(u, "#") && u->k == KP){
				tok s = *u;
				if(i + 1 >= b->n || (q = par(m, &b->t[i + 1])) < 0){ UNDEF = 1; return; }
				strz(&args[q], &s); if(q == m->np) hascomma(&args[q]); i++; tput(&r, &s);
			}else if(q >= 0) app(&r, &args[q], u->ws);
			else tput(&r, u);
			if(!cur.n){ app(&cur, &r, t->ws); }
			else if(r.n){
				tok x = cur.t[cur.n - 1]; char s[60]; int n = 0; tl one; one.n = 0;
				for(int k = 0; k < x.n; k++) s[n++] = x.t[k];
				for(int k = 0; k < r.t[0].n; k++) s[n++] = r.t[0].t[k];
				if(n > 27){ OVER = 1; return; }
				if(x.k == KP && r.t[0].k == KP && x.n == 1 && r.t[0].n == 1 && x.t[0] == '/' && (s[1] == '/' || s[1] == '*')){ UNDEF = 1; return; }
				lex(s, n, &one);
				if(one.n != 1 || UNDEF){ UNDEF = 1; return; }          /* not a valid token: undefined */
				one.t[0].ws = x.ws;
				cur.t[cur.n - 1] = one.t[0];
				for(int k = 1; k < r.n; k++) tput(&cur, &r.t[k]);
			}
			join = i + 1 < b->n && eq(&b->t[i + 1], "##") && b->t[i + 1].k == KP;
		}
		app(o, &cur, t->ws);
	}
}
static void del(tl *l, int i, int n){ for(int k = i; k + n < l->n; k++) l->t[k] = l->t[k + n]; l->n -= n; }
static void expd(tl *l, int base){
	int i = 0;
	while(i < l->n && !UNDEF && !OVER && !ERR){
		tok *t = &l->t[i]; int k;
		if(t->k == KEND){ M[act[--nact]].off--; del(l, i, 1); continue; }
		if(t->paint || (k = find(t)) < 0){ i++; continue; }
		if(M[k].off){ t->paint = 1; i++; continue; }
		tl rep, after; int j = i + 1; static tl args[6][5]; static int dep; int na = 0, ws = t->ws, cross = 0, cr[8];
		if(M[k].fn){
			int nest = 0, e; mac *m = &M[k];
			while(j < l->n && l->t[j].k == KEND) j++;
			if(j >= l->n || !(l->t[j].k == KP && eq(&l->t[j], "("))){ i++; continue; }
			for(e = j; e < l->n; e++){ if(l->t[e].k != KP) continue; if(eq(&l->t[e], "(")) nest++; else if(eq(&l->t[e], ")") && !--nest) break; }
			if(e >= l->n){ ERR = 1; break; }
			if(dep >= 6){ OVER = 1; break; }
			tl *av = args[dep];
			na = 1; av[0].n = 0; nest = 0;
			for(int q = i + 1; q < e; q++){
				tok *u = &l->t[q];
				if(u->k == KEND){ if(cross >= 8){ OVER = 1; break; } if(NEST) cr[cross++] = 1; else M[act[--nact]].off--; continue; }
				if(q <= j) continue;
				if(u->k == KP && eq(u, "(")) nest++;
				if(u->k == KP && eq(u, ")")) nest--;
				if(u->k == KP && !nest && eq(u, ",") && !(m->va && na == m->np + 1)){ if(na >= 5){ OVER = 1; break; } av[na++].n = 0; continue; }
				tput(&av[na - 1], u);
			}
			if(OVER) break;
			if(m->np == 0 && !m->va && na == 1 && !av[0].n) na = 0;
			if(m->va){ if(na == m->np && m->np) { av[na++].n = 0; } if(na != m->np + 1){ ERR = 1; break; } }
			else if(na != m->np){ ERR = 1; break; }
			dep++;
			subst(m, av, &rep);
			dep--;
			j = e + 1;
		}else subst(&M[k], 0, &rep);
		if(rep.n) rep.t[0].ws = ws;
		after.n = 0;
		for(int q = j; q < l->n; q++) tput(&after, &l->t[q]);
		l->n = i;
		app(l, &rep, ws);
		{ tok e; e.k = KEND; e.n = 0; e.ws = 0; e.paint = 0; e.m = k; tput(l, &e); }
		while(cross){ tok e; e.k = KEND; e.n = 0; e.ws = 0; e.paint = 0; e.m = 0; cross--; tput(l, &e); }
		for(int q = 0; q < after.n; q++) tput(l, &after.t[q]);
		if(nact >= 39){ OVER = 1; break; }
		act[nact++] = k; M[k].off++;
	}
	(void)base;
}
/* 0 judged text in o, 1 not judged, 2 must be rejected */
static int mref(const char *s, int n, tl *o){
	tl txt; int i = 0;
	NM = OVER = UNDEF = ERR = nact = 0;  txt.n = 0; o->n = 0;
	while(i < n){
		int j = i, b = i;
		while(j < n && s[j] != '\n') j++;
		while(b < j && s[b] == ' ') b++;
		if(b < j && s[b] == '#'){
			tl d; mac *m; int p = 1, q;
			d.n = 0;
			if(txt.n) return 1;
			lex(s + b + 1, j - b - 1, &d);
			if(UNDEF || OVER) return 1;
			if(d.n < 2 || !eq(&d.t[0], "define") || d.t[1].k != KID || NM >= 12) return 1;
			m = &M[NM++];
			if(d.t[1].n > 11) return 1;
			for(q = 0; q < d.t[1].n; q++) m->nm[q] = d.t[1].t[q];
			m->nm[q] = 0; m->fn = m->va = m->np = m->off = 0; m->body.n = 0;
			if(d.n > 2 && eq(&d.t[2], "(") && !d.t[2].ws){
				m->fn = 1;
				for(p = 3; p < d.n && !eq(&d.t[p], ")"); p++){
					if(m->va) return 2;
					if((p & 1) == (eq(&d.t[p], ",") != 0)) return 2;
					if(eq(&d.t[p], "...")) m->va = 1;
					else if(d.t[p].k == KID && m->np < 4 && d.t[p].n < 12){ for(q = 0; q < d.t[p].n; q++) m->p[m->np][q] = d.t[p].t[q]; m->p[m->np++][q] = 0; }
					else if(!eq(&d.t[p], ",")) return 1;
				}
				if(p >= d.n || (p > 3 && eq(&d.t[p - 1], ","))) return 2;
			}else if(d.n > 2 && !d.t[2].ws) return 1;
			for(p++; p < d.n; p++) tput(&m->body, &d.t[p]);
			if(m->body.n && (eq(&m->body.t[0], "##") || eq(&m->body.t[m->body.n - 1], "##"))) return 1;
		}else{ tl x; x.n = 0; lex(s + i, j - i, &x); if(x.n) x.t[0].ws = 1; for(int q = 0; q < x.n; q++) tput(&txt, &x.t[q]); }
		i = j + 1;
	}
	if(UNDEF || OVER) return 1;
	expd(&txt, 0);
	if(UNDEF || OVER) return 1;
	if(ERR) return 2;
	for(i = 0; i < txt.n; i++) if(txt.t[i].k != KEND) tput(o, &txt.t[i]);
	return OVER;
}
static const char *mac_check1(const char *in, long n, const char *out, long nout, int st){
	static tl a, b; int r = mref(in, n, &a);
	if(r == 1) return 0;
	if(r == 2) return st ? 0 : "invalid macro call accepted";
	if(st) return "valid macro use rejected";
	b.n = 0; OVER = UNDEF = 0;
	for(long i = 0; i < nout;){ long j = i; while(j < nout && out[j] != '\n') j++; if(!(out[i] == '#' && i + 1 < j && out[i + 1] == ' ' && i + 2 < j && isdg(out[i + 2]))) lex(out + i, j - i, &b); i = j + 1; }
	if(OVER) return 0;
	if(UNDEF) return "bad literal in the output";
	if(a.n != b.n) return "other number of tokens";
	for(int i = 0; i < a.n; i++){ if(a.t[i].n != b.t[i].n) return "other token"; for(int k = 0; k < a.t[i].n; k++) if(a.t[i].t[k] != b.t[i].t[k]) return "other token"; }
	return 0;
}
static const char *mac_check(const char *in, long n, const char *out, long nout, int st){
	const char *m; NEST = 0;
	m = mac_check1(in, n, out, nout, st);
	if(m){ NEST = 1; m = mac_check1(in, n, out, nout, st); }
	return m;
}
