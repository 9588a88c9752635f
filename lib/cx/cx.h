#ifndef CX_H
#define CX_H
typedef unsigned long cx_ul;
#ifdef __cplusplus
extern "C" {
#endif
void __cx_sym(void *, unsigned, const char *); void __cx_assume(int); void __cx_fail(const char *); void __cx_done(void);
void __cx_note(const char *, const void *, cx_ul); unsigned __cx_issym(const void *, cx_ul); void __cx_pinmem(const void *, cx_ul);
void __cx_clear(const void *, cx_ul); void *__cx_malloc(cx_ul); void *__cx_realloc(void *, cx_ul); void __cx_free(void *); void __cx_zero(void *, cx_ul);
struct cxf; int __cx_readfile(const char *, struct cxf **); int __cx_fmt_d(char *, cx_ul, const char *, int, int, double); int __cx_fmt_ld(char *, cx_ul, const char *, int, int, long double);
int __cx_replaying(void); void __cx_raw(const char *); void __cx_notesym(const char *);
void cx_file(const char *, const char *, cx_ul); char *cx_out(const char *, cx_ul *); int cx_exists(const char *); void cx_stdin(const char *, cx_ul);
extern int cx_rawints; extern cx_ul cx_raw[]; extern unsigned cx_nraw; extern int cx_argc; extern char **cx_argv;
#ifdef __cplusplus
}
#endif
#endif
