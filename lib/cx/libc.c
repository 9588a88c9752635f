/* The C library the explored programs see: ordinary code, instrumented with
 * them, over an in-memory file system.  Names get a __w_ prefix (see WRAP). */
#include <stdarg.h>
#include <stddef.h>
#include "cx.h"
typedef unsigned long ul; typedef long sl; typedef unsigned char uc;
/* --- ctype --- */
int __w_isdigit(int c){ return (unsigned)(c - '0') < 10; }
int __w_isupper(int c){ return (unsigned)(c - 'A') < 26; }
int __w_islower(int c){ return (unsigned)(c - 'a') < 26; }
int __w_isalpha(int c){ return (unsigned)((c | 32) - 'a') < 26; }
int __w_isalnum(int c){ return ((unsigned)((c | 32) - 'a') < 26) | ((unsigned)(c - '0') < 10); }
int __w_isspace(int c){ return (c == ' ') | ((unsigned)(c - 9) < 5); }
int __w_isxdigit(int c){ return ((unsigned)((c | 32) - 'a') < 6) | ((unsigned)(c - '0') < 10); }
int __w_ispunct(int c){ return ((unsigned)(c - 33) < 94) & !__w_isalnum(c); }
int __w_isprint(int c){ return (unsigned)(c - 32) < 95; }
int __w_isgraph(int c){ return (unsigned)(c - 33) < 94; }
int __w_isblank(int c){ return (c == ' ') | (c == 9); }
int __w_iscntrl(int c){ return ((unsigned)c < 32) | (c == 127); }
int __w_tolower(int c){ return c + ((unsigned)(c - 'A') < 26) * 32; }
int __w_toupper(int c){ return c - ((unsigned)(c - 'a') < 26) * 32; }
/* --- string --- */
ul __w_strlen(const char *s){ ul n = 0; while(s[n]) n++; return n; }
ul __w_strnlen(const char *s, ul m){ ul n = 0; while(n < m && s[n]) n++; return n; }
int __w_strcmp(const char *a, const char *b){ for(;; a++, b++){ if(*a != *b) return (uc)*a < (uc)*b ? -1 : 1; if(!*a) return 0; } }
int __w_strncmp(const char *a, const char *b, ul n){ for(; n; n--, a++, b++){ if(*a != *b) return (uc)*a < (uc)*b ? -1 : 1; if(!*a) return 0; } return 0; }
int __w_strcasecmp(const char *a, const char *b){ for(;; a++, b++){ int x = __w_tolower((uc)*a), y = __w_tolower((uc)*b); if(x != y) return x < y ? -1 : 1; if(!x) return 0; } }
int __w_memcmp(const void *p, const void *q, ul n){ const uc *a = p, *b = q; for(; n; n--, a++, b++) if(*a != *b) return *a < *b ? -1 : 1; return 0; }
int __w_bcmp(const void *p, const void *q, ul n){ return __w_memcmp(p, q, n); }
char *__w_strchr(const char *s, int c){ for(;; s++){ if(*s == (char)c) return (char *)s; if(!*s) return 0; } }
char *__w_strchrnul(const char *s, int c){ for(;; s++){ if(*s == (char)c) return (char *)s; if(!*s) return (char *)s; } }
char *__w_strrchr(const char *s, int c){ char *r = 0; for(;; s++){ if(*s == (char)c) r = (char *)s; if(!*s) return r; } }
void *__w_memchr(const void *p, int c, ul n){ const uc *s = p; for(; n; n--, s++) if(*s == (uc)c) return (void *)s; return 0; }
char *__w_strstr(const char *h, const char *n){ ul l = __w_strlen(n); for(;; h++){ if(!__w_strncmp(h, n, l)) return (char *)h; if(!*h) return 0; } }
char *__w_strpbrk(const char *s, const char *a){ for(; *s; s++) if(__w_strchr(a, *s)) return (char *)s; return 0; }
ul __w_strspn(const char *s, const char *a){ ul n = 0; while(s[n] && __w_strchr(a, s[n])) n++; return n; }
ul __w_strcspn(const char *s, const char *a){ ul n = 0; while(s[n] && !__w_strchr(a, s[n])) n++; return n; }
void *__w_memcpy(void *d, const void *s, ul n){ char *a = d; const char *b = s; while(n--) *a++ = *b++; return d; }
void *__w_memmove(void *d, const void *s, ul n){ char *a = d; const char *b = s; if(a < b) while(n--) *a++ = *b++; else while(n--) a[n] = b[n]; return d; }
void *__w_memset(void *d, int c, ul n){ char *a = d; while(n--) *a++ = c; return d; }
char *__w_strcpy(char *d, const char *s){ char *r = d; while((*d++ = *s++)); return r; }
char *__w_stpcpy(char *d, const char *s){ while((*d = *s)) d++, s++; return d; }
char *__w_strncpy(char *d, const char *s, ul n){ ul i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
char *__w_strcat(char *d, const char *s){ __w_strcpy(d + __w_strlen(d), s); return d; }
char *__w_strncat(char *d, const char *s, ul n){ char *e = d + __w_strlen(d); while(n-- && *s) *e++ = *s++; *e = 0; return d; }
static char *tokp;
char *__w_strtok(char *s, const char *dl){ if(!s) s = tokp; if(!s) return 0; s += __w_strspn(s, dl); if(!*s){ tokp = 0; return 0; } char *e = s + __w_strcspn(s, dl); if(*e){ *e = 0; tokp = e + 1; } else tokp = 0; return s; }
/* --- memory --- */
void *__w_malloc(ul n){ return __cx_malloc(n); }
void *__w_calloc(ul a, ul b){ ul n = a * b; void *p = __cx_malloc(n); char *q = p; __cx_zero(q, n); return p; }
void *__w_realloc(void *p, ul n){ return __cx_realloc(p, n); }
void __w_free(void *p){ __cx_free(p); }
char *__w_strdup(const char *s){ ul n = __w_strlen(s) + 1; return __w_memcpy(__w_malloc(n), s, n); }
/* --- numbers --- */
static ul str2u(const char *s, char **e, int base, int *neg, int *ovf){
	const char *o = s; ul v = 0; int any = 0; *neg = *ovf = 0;
	while(__w_isspace((uc)*s)) s++;
	if(*s == '-'){ *neg = 1; s++; } else if(*s == '+') s++;
	if((base == 0 || base == 16) && *s == '0' && (s[1] | 32) == 'x' && __w_isxdigit((uc)s[2])){ base = 16; s += 2; }
	else if(base == 0) base = *s == '0' ? 8 : 10;
	for(;; s++){ int c = (uc)*s, d; if((unsigned)(c - '0') < 10) d = c - '0'; else if((unsigned)((c | 32) - 'a') < 26) d = (c | 32) - 'a' + 10; else break; if(d >= base) break; any = 1; ul lim = ~0ul / base; if(v > lim || (v == lim && (ul)d > ~0ul % base)) *ovf = 1; v = v * base + d; }
	if(e) *e = (char *)(any ? s : o);
	return v;
}
int *__errno_location(void);
ul __w_strtoul(const char *s, char **e, int b){ int n, o; ul v = str2u(s, e, b, &n, &o); if(o){ *__errno_location() = 34; return ~0ul; } return n ? -v : v; }
ul __w_strtoull(const char *s, char **e, int b){ return __w_strtoul(s, e, b); }
sl __w_strtol(const char *s, char **e, int b){ int n, o; ul v = str2u(s, e, b, &n, &o); if(o || v > 0x7ffffffffffffffful + n){ *__errno_location() = 34; return n ? (-0x7fffffffffffffffl - 1) : 0x7fffffffffffffffl; } return n ? -v : v; }
sl __w_strtoll(const char *s, char **e, int b){ return __w_strtol(s, e, b); }
int __w_atoi(const char *s){ return __w_strtol(s, 0, 10); }
double __cx_strtod(const char *, char **); float __cx_strtof(const char *, char **); long double __cx_strtold(const char *, char **);
static void pinstr(const char *s){ __cx_pinmem(s, __w_strlen(s) + 1); }
double __w_strtod(const char *s, char **e){ pinstr(s); double r = __cx_strtod(s, e); if(e) __cx_clear(e, 8); return r; }
float __w_strtof(const char *s, char **e){ pinstr(s); float r = __cx_strtof(s, e); if(e) __cx_clear(e, 8); return r; }
long double __w_strtold(const char *s, char **e){ pinstr(s); long double r = __cx_strtold(s, e); if(e) __cx_clear(e, 8); return r; }
void __w_qsort(void *b, ul n, ul sz, int (*cmp)(const void *, const void *)){ char *a = b; for(ul i = 1; i < n; i++) for(ul j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--) for(ul k = 0; k < sz; k++){ char t = a[j * sz + k]; a[j * sz + k] = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = t; } }
/* --- files --- */
struct cxf { char *buf; ul len, cap, pos; int wr, eof, err, own, fd, open, unget; const char *name; };
static struct cxf f_in = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, -1, "<stdin>" }, f_out = { 0, 0, 0, 0, 1, 0, 0, 0, 1, 1, -1, "<stdout>" }, f_err = { 0, 0, 0, 0, 1, 0, 0, 0, 2, 1, -1, "<stderr>" };
struct cxf *__w_stdin = &f_in, *__w_stdout = &f_out, *__w_stderr = &f_err;
static struct { char name[256]; struct cxf *f; } vfs[64]; static int nvfs;
__attribute__((weak)) int cx_io_fault(int op, struct cxf *f){ (void)op; (void)f; return 0; }   /* op: 0 open 1 write 2 flush 3 close 4 read */
__attribute__((weak)) int cx_nofile;
static struct cxf *vfind(const char *n){ while(n[0] == 0x2e && n[1] == 0x2f) { n += 2; while(n[0] == 0x2f) n++; } for(int i = 0; i < nvfs; i++) if(!__w_strcmp(vfs[i].name, n)) return vfs[i].f; return 0; }
static struct cxf *vnew(const char *n){ struct cxf *f = vfind(n); if(f) return f; f = __w_calloc(1, sizeof *f); f->unget = -1; __w_strncpy(vfs[nvfs].name, n, 255); vfs[nvfs++].f = f; f->name = vfs[nvfs - 1].name; return f; }
void cx_file(const char *n, const char *b, ul len){ struct cxf *f = vnew(n); f->buf = __w_malloc(len + 1); __w_memcpy(f->buf, b, len); f->len = len; f->cap = len + 1; }
char *cx_out(const char *n, ul *len){ struct cxf *f = !n ? &f_out : n[0] == '2' && !n[1] ? &f_err : vfind(n); if(!f){ *len = 0; return 0; } *len = f->len; return f->buf; }
int cx_exists(const char *n){ struct cxf *f = vfind(n); return f && f->open >= 0; }
void cx_stdin(const char *b, ul len){ f_in.buf = (char *)b; f_in.len = len; f_in.pos = 0; }
struct cxf *__w_fopen(const char *n, const char *m){
	pinstr(n);
	struct cxf *f = vfind(n);
	if(m[0] == 'r'){
		if(!f){ if(!__cx_readfile(n, &f)) { *__errno_location() = 2; return 0; } }
		if(cx_io_fault(0, f)) { *__errno_location() = 13; return 0; }
		struct cxf *g = __w_calloc(1, sizeof *g); g->buf = f->buf; g->len = f->len; g->name = f->name; g->unget = -1; g->open = 1; g->fd = 3; return g;
	}
	f = vnew(n);
	if(cx_io_fault(0, f)) { *__errno_location() = 13; return 0; }
	f->len = f->pos = 0; f->wr = 1; f->open = 1; f->fd = 4; return f;
}
/* readfile helper calls back */
struct cxf *cx_mkfile(const char *n, char *b, ul len){ struct cxf *f = vnew(n); f->buf = b; f->len = len; f->cap = len; return f; }
struct cxf *__w_freopen(const char *n, const char *m, struct cxf *o){
	struct cxf *f = __w_fopen(n, m); if(!f) return 0;
	*o = *f; if(m[0] != 'r'){ for(int i = 0; i < nvfs; i++) if(vfs[i].f == f) vfs[i].f = o; } return o;
}
struct cxf *__w_fdopen(int fd, const char *m){ (void)m; struct cxf *f = __w_calloc(1, sizeof *f); f->fd = fd; f->wr = m[0] != 'r'; f->unget = -1; f->open = 1; return f; }
static int put1(struct cxf *f, int c){
	if(f->len == f->cap){ f->cap = f->cap * 2 + 4096; f->buf = f->buf ? __w_realloc(f->buf, f->cap) : __w_malloc(f->cap); }
	f->buf[f->len++] = c; return (uc)c;
}
static int wr(struct cxf *f){ if(cx_io_fault(1, f)){ f->err = 1; *__errno_location() = 28; return 1; } return 0; }
int __w_fputc(int c, struct cxf *f){ if(wr(f)) return -1; return put1(f, c); }
int __w_putc(int c, struct cxf *f){ return __w_fputc(c, f); }
int __w_putchar(int c){ return __w_fputc(c, &f_out); }
int __w_fputs(const char *s, struct cxf *f){ if(wr(f)) return -1; for(; *s; s++) put1(f, *s); return 1; }
int __w_puts(const char *s){ if(wr(&f_out)) return -1; for(; *s; s++) put1(&f_out, *s); put1(&f_out, '\n'); return 1; }
ul __w_fwrite(const void *p, ul a, ul n, struct cxf *f){ if(wr(f)) return 0; for(ul i = 0; i < a * n; i++) put1(f, ((char *)p)[i]); return n; }
int __w_fgetc(struct cxf *f){ if(f->unget >= 0){ int c = f->unget; f->unget = -1; return c; } if(cx_io_fault(4, f)){ f->err = 1; *__errno_location() = 5; return -1; } if(f->pos >= f->len){ f->eof = 1; return -1; } return (uc)f->buf[f->pos++]; }
int __w_getc(struct cxf *f){ return __w_fgetc(f); }
int __w_getchar(void){ return __w_fgetc(&f_in); }
int __w_ungetc(int c, struct cxf *f){ f->unget = c; f->eof = 0; return c; }
char *__w_fgets(char *s, int n, struct cxf *f){ int i = 0; while(i < n - 1){ int c = __w_fgetc(f); if(c < 0) break; s[i++] = c; if(c == '\n') break; } if(!i) return 0; s[i] = 0; return s; }
ul __w_fread(void *p, ul a, ul n, struct cxf *f){ ul i; if(cx_io_fault(4, f)){ f->err = 1; *__errno_location() = 5; return 0; } for(i = 0; i < a * n; i++){ if(f->pos >= f->len){ f->eof = 1; break; } ((char *)p)[i] = f->buf[f->pos++]; } return a ? i / a : 0; }
int __w_feof(struct cxf *f){ return f->eof; }
int __w_ferror(struct cxf *f){ return f->err; }
void __w_clearerr(struct cxf *f){ f->err = f->eof = 0; }
int __w_fflush(struct cxf *f){ if(f && cx_io_fault(2, f)){ f->err = 1; *__errno_location() = 28; return -1; } return 0; }
int __w_fclose(struct cxf *f){ f->open = 0; if(cx_io_fault(3, f)){ *__errno_location() = 28; return -1; } return 0; }
int __w_setvbuf(struct cxf *f, char *b, int m, ul n){ (void)f; (void)b; (void)m; (void)n; return 0; }
int __w_fileno(struct cxf *f){ return f->fd; }
sl __w_ftell(struct cxf *f){ return f->wr ? f->len : f->pos; }
int __w_fseek(struct cxf *f, sl o, int w){ f->pos = w == 0 ? (ul)o : w == 1 ? f->pos + o : f->len + o; return 0; }
void __w_rewind(struct cxf *f){ f->pos = 0; }
int __w_remove(const char *n){ struct cxf *f = vfind(n); if(f) f->open = -1; return f ? 0 : -1; }
int __w_isatty(int fd){ (void)fd; return 0; }
/* --- printf --- */
int cx_rawints; ul cx_raw[4096]; unsigned cx_nraw; void cx_abort(const char *);
struct sink { struct cxf *f; char *s; ul n, cap; };
static void so(struct sink *k, int c){ if(k->f) put1(k->f, c); else if(k->n + 1 < k->cap) k->s[k->n] = c; k->n++; }
static int fmtv(struct sink *k, const char *f, va_list ap){
	for(; *f; f++){
		if(*f != '%'){ so(k, *f); continue; }
		const char *st = f++; int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, w = 0, pr = -1, lg = 0, big = 0;
		for(;; f++){ if(*f == '-') left = 1; else if(*f == '0') zero = 1; else if(*f == '+') plus = 1; else if(*f == ' ') sp = 1; else if(*f == '#') alt = 1; else break; }
		if(*f == '*'){ w = va_arg(ap, int); if(w < 0){ left = 1; w = -w; } f++; } else while(__w_isdigit(*f)) w = w * 10 + *f++ - '0';
		if(*f == '.'){ f++; pr = 0; if(*f == '*'){ pr = va_arg(ap, int); f++; } else while(__w_isdigit(*f)) pr = pr * 10 + *f++ - '0'; }
		for(;; f++){ if(*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lg++; else if(*f == 'h') lg--; else if(*f == 'L') big = 1; else break; }
		char nb[80]; int nl = 0; const char *s = nb; int c = *f;
		switch(c){
			case '%': so(k, '%'); continue;
			case 'c': { int ch = va_arg(ap, int); nb[0] = ch; nl = 1; zero = 0; break; }
			case 's': { s = va_arg(ap, const char *); if(!s) s = "(null)"; ul m = pr >= 0 ? __w_strnlen(s, pr) : __w_strlen(s); nl = m; zero = 0; for(int i = nl; !left && i < w; i++) so(k, ' '); for(ul i = 0; i < m; i++) so(k, s[i]); for(int i = nl; left && i < w; i++) so(k, ' '); continue; }
			case 'p': { ul v = (ul)va_arg(ap, void *); char t[20]; int n = 0; nb[nl++] = '0'; nb[nl++] = 'x'; do t[n++] = "0123456789abcdef"[v & 15]; while(v >>= 4); while(n) nb[nl++] = t[--n]; break; }
			case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
				ul v; int neg = 0;
				if(c == 'd' || c == 'i'){ sl q = lg > 0 ? va_arg(ap, sl) : va_arg(ap, int); if(lg == -1) q = (short)q; if(lg == -2) q = (signed char)q; v = q;
					if(cx_rawints && __cx_issym(&v, 8)) goto raw;
					neg = q < 0; if(neg) v = -v; }
				else { v = lg > 0 ? va_arg(ap, ul) : va_arg(ap, unsigned); if(lg == -1) v = (unsigned short)v; if(lg == -2) v = (uc)v; if(cx_rawints && __cx_issym(&v, 8)) goto raw; }
				if(0){ raw: if(cx_nraw == 4096) cx_abort("too many raw integers"); cx_raw[cx_nraw] = v; so(k, '\016'); so(k, 128 | cx_nraw >> 6); so(k, 128 | (cx_nraw & 63)); so(k, '\017'); cx_nraw++; continue; }
				char t[70]; int n = 0; unsigned b = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
				ul o = v;
				while(v){ unsigned d; if(b == 16) d = v & 15, v >>= 4; else if(b == 8) d = v & 7, v >>= 3; else { d = v % 10; v /= 10; } t[n++] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; }
				while(n < (pr < 0 ? 1 : pr)) t[n++] = '0';
				if(alt && b == 8 && (!n || t[n - 1] != '0')) t[n++] = '0';
				if(neg) nb[nl++] = '-'; else if(plus && c != 'u' && b == 10) nb[nl++] = '+'; else if(sp && c != 'u' && b == 10) nb[nl++] = ' ';
				if(alt && b == 16 && o){ nb[nl++] = '0'; nb[nl++] = c; }
				if(zero && !left && pr < 0) while(n + nl < w) t[n++] = '0';
				while(n) nb[nl++] = t[--n];
				break; }
			case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': case 'a': case 'A': {
				char fb[32]; int i = 0; for(; st <= f && i < 30; st++) fb[i++] = *st; fb[i] = 0; char big_[400];
				nl = big ? __cx_fmt_ld(big_, sizeof big_, fb, w, pr, va_arg(ap, long double)) : __cx_fmt_d(big_, sizeof big_, fb, w, pr, va_arg(ap, double));
				for(int j = 0; j < nl; j++) so(k, big_[j]); continue; }
			case 'n': *va_arg(ap, int *) = k->n; continue;
			default: so(k, '%'); so(k, c); continue;
		}
		for(int i = nl; !left && i < w; i++) so(k, ' ');
		for(int i = 0; i < nl; i++) so(k, s[i]);
		for(int i = nl; left && i < w; i++) so(k, ' ');
	}
	return k->n;
}
int __w_vfprintf(struct cxf *f, const char *fmt, va_list ap){ struct sink k = { f, 0, 0, 0 }; if(wr(f)) return -1; return fmtv(&k, fmt, ap); }
int __w_fprintf(struct cxf *f, const char *fmt, ...){ va_list ap; va_start(ap, fmt); int r = __w_vfprintf(f, fmt, ap); va_end(ap); return r; }
int __w_vprintf(const char *fmt, va_list ap){ return __w_vfprintf(&f_out, fmt, ap); }
int __w_printf(const char *fmt, ...){ va_list ap; va_start(ap, fmt); int r = __w_vfprintf(&f_out, fmt, ap); va_end(ap); return r; }
int __w_vsnprintf(char *b, ul n, const char *fmt, va_list ap){ struct sink k = { 0, b, 0, n }; int r = fmtv(&k, fmt, ap); if(n) b[k.n < n ? k.n : n - 1] = 0; return r; }
int __w_snprintf(char *b, ul n, const char *fmt, ...){ va_list ap; va_start(ap, fmt); int r = __w_vsnprintf(b, n, fmt, ap); va_end(ap); return r; }
int __w_sprintf(char *b, const char *fmt, ...){ va_list ap; va_start(ap, fmt); int r = __w_vsnprintf(b, 1ul << 40, fmt, ap); va_end(ap); return r; }
int __w_vsprintf(char *b, const char *fmt, va_list ap){ return __w_vsnprintf(b, 1ul << 40, fmt, ap); }
char *__w_strerror(int e){ (void)e; return "some error"; }
void __w_perror(const char *s){ __w_fprintf(&f_err, "%s: some error\n", s ? s : ""); }
int __cx_sscanf(const char *, const char *, void *);
int __w_sscanf(const char *s, const char *f, ...){ va_list ap; va_start(ap, f); void *p = va_arg(ap, void *); va_end(ap); pinstr(s); int r = __cx_sscanf(s, f, p); __cx_clear(p, f[__w_strlen(f) - 1] == 'd' ? 4 : 1); return r; }
int __w___isoc99_sscanf(const char *s, const char *f, ...){ va_list ap; va_start(ap, f); void *p = va_arg(ap, void *); va_end(ap); pinstr(s); int r = __cx_sscanf(s, f, p); __cx_clear(p, f[__w_strlen(f) - 1] == 'd' ? 4 : 1); return r; }
long __w_labs(long a){ return a < 0 ? -a : a; }
long long __w_llabs(long long a){ return a < 0 ? -a : a; }
/* --- the rest --- */
char *__w_getenv(const char *n){ (void)n; return 0; }
long __w_time(long *t){ if(t) *t = 1000000000; return 1000000000; }
int __w_uname(char *u){ __w_memset(u, 0, 390); __w_strcpy(u, "Linux"); __w_strcpy(u + 65, "host"); __w_strcpy(u + 130, "5"); __w_strcpy(u + 195, "5"); __w_strcpy(u + 260, "x86_64"); return 0; }
char *__w_getcwd(char *b, ul n){ if(n < 5) return 0; return __w_strcpy(b, "/cwd"); }
int __w_stat(const char *n, void *st){ (void)n; (void)st; *__errno_location() = 2; return -1; }
double pow(double, double); float powf(float, float);
/* hooks */
__attribute__((weak)) void cx_exit(int st){ (void)st; }
__attribute__((weak)) void cx_abort(const char *m){ __cx_fail(m); }
void __w_exit(int st){ cx_exit(st); __cx_done(); }
void __w__exit(int st){ cx_exit(st); __cx_done(); }
void __w_abort(void){ cx_abort("abort"); __cx_done(); }
void __w___assert_fail(const char *e, const char *f, unsigned l, const char *fn){ static char m[512]; (void)fn; __w_snprintf(m, sizeof m, "assertion %s at %s:%u", e, f, l); cx_abort(m); __cx_done(); }
int __w_mkstemp(char *t){ (void)t; *__errno_location() = 13; return -1; }
