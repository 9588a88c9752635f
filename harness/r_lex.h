/* translation phases 1-3 over the bytes of one file, and what cpp's output must show: the same characters outside
 * comments, white space only where the source has some, each character on its own line */
#define LMAX 600
typedef struct { char c[LMAX]; short lo[LMAX], hi[LMAX]; int n; } ltext;      /* text, blanks collapsed to ' ' */
static void lput(ltext *t, int c, int lo, int hi){
	if(c == ' ' && (!t->n || t->c[t->n - 1] == ' ')) return;
	if(t->n < LMAX){ t->c[t->n] = c; t->lo[t->n] = lo; t->hi[t->n] = hi; t->n++; }
}
static void lraw(ltext *t, int c, int lo, int hi){ if(t->n < LMAX){ t->c[t->n] = c; t->lo[t->n] = lo; t->hi[t->n] = hi; t->n++; } }
/* 0 ok, 1 undefined or a directive (not judged), 2 must be rejected */
static int lref(const char *in, long n, int tri, int keep, ltext *o){
	static char c[LMAX]; static short lo[LMAX], hi[LMAX];
	int m = 0, line = 1, first = 1, i, bol = 1;
	for(long p = 0; p < n;){
		int k = 1, x = in[p];
		if(tri && x == '?' && p + 2 < n && in[p + 1] == '?'){
			static const char f[] = "()<>=/'!-", t[] = "[]{}#\\^|~";
			for(int j = 0; j < 9; j++) if(in[p + 2] == f[j]){ x = t[j]; k = 3; break; }
		}
		if(x == '\\'){
			long q = p + k;
			while(q < n && (in[q] == ' ' || in[q] == '\t')) q++;
			if(q < n && in[q] == '\n'){ p = q + 1; line++; continue; }
			if(q >= n) return 1;
		}
		c[m] = x; lo[m] = first; hi[m] = line; m++;
		p += k;
		if(x == '\n') first = ++line;
	}
	for(i = 0; i < m;){
		int x = c[i];
		if(x == '"' || x == '\''){
			int j = i + 1;
			while(j < m && c[j] != x && c[j] != '\n') j += c[j] == '\\' && j + 1 < m && c[j + 1] != '\n' ? 2 : 1;
			if(j >= m || c[j] != x) return 1;
			for(; i <= j; i++) lraw(o, c[i], lo[i], hi[i]);
			bol = 0;
		}else if(x == '/' && i + 1 < m && c[i + 1] == '/'){
			int k = i;
			while(i < m && c[i] != '\n') i++;
			if(keep){ for(; k < i; k++) if(c[k] == ' ' || c[k] == '\t') lput(o, ' ', lo[k], hi[k]); else lraw(o, c[k] == '/' && k && c[k - 1] == '/' && 0 ? '*' : c[k], lo[k], hi[k]); }
			else lput(o, ' ', 0, 0);
		}else if(x == '/' && i + 1 < m && c[i + 1] == '*'){
			int j = i + 2;
			while(j + 1 < m && !(c[j] == '*' && c[j + 1] == '/')) j++;
			if(j + 1 >= m) return 2;
			i = j + 2;
			lput(o, ' ', 0, 0);
		}else{
			if(x == '#' && bol) return 1;
			if(x == '\n') bol = 1; else if(x != ' ' && x != '\t') bol = 0;
			if(x == ' ' || x == '\t' || x == '\n') lput(o, ' ', 0, 0); else lraw(o, x, lo[i], hi[i]);
			i++;
		}
	}
	return 0;
}
static void lread(const char *p, long n, ltext *o){
	int line = 1; long i = 0;
	while(i < n){
		if(p[i] == '#' && i + 2 < n && p[i + 1] == ' ' && p[i + 2] >= '0' && p[i + 2] <= '9'){
			line = 0;
			for(i += 2; i < n && p[i] >= '0' && p[i] <= '9'; i++) line = line * 10 + p[i] - '0';
			while(i < n && p[i] != '\n') i++;
			i++;
			continue;
		}
		int q = 0;
		for(; i < n && p[i] != '\n'; i++){
			if(q){ lraw(o, p[i], line, line); if(p[i] == '\\' && i + 1 < n && p[i + 1] != '\n'){ i++; lraw(o, p[i], line, line); } else if(p[i] == q) q = 0; continue; }
			if(p[i] == '"' || p[i] == '\'') q = p[i];
			if(p[i] == ' ' || p[i] == '\t') lput(o, ' ', 0, 0); else lraw(o, p[i], line, line);
		}
		lput(o, ' ', 0, 0);
		line++; i++;
	}
}
static const char *lex_check(const char *in, long n, const char *out, long nout, int st, int tri){
	static ltext a, b; int r;
	a.n = b.n = 0;
	r = lref(in, n, tri, 0, &a);
	if(r == 1) return 0;
	if(r == 2) return st ? 0 : "unterminated comment accepted";
	if(st) return "valid text rejected";
	lread(out, nout, &b);
	while(a.n && a.c[a.n - 1] == ' ') a.n--;
	while(b.n && b.c[b.n - 1] == ' ') b.n--;
	if(a.n != b.n) return "text lost or added";
	for(int i = 0; i < a.n; i++) if(a.c[i] != b.c[i]) return "text changed";
	for(int i = 0; i < a.n; i++) if(a.c[i] != ' ' && (b.lo[i] < a.lo[i] || b.lo[i] > a.hi[i])) return "text on another line";
	return 0;
}
