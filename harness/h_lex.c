/* cpp on prefix + symbolic bytes of an alphabet + suffix, judged by r_lex.h; args: prefix suffix alphabet count trigraphs [cpp options] */
#include <stdlib.h>
#include <string.h>
#include "cx.h"
#include "r_lex.h"
int prog_main(int, char **);
static char buf[1024]; static int n; static const char *msg;
void cx_abort(const char *m){ __cx_fail(m); }
void cx_exit(int st){
	cx_ul no; char *o = cx_out(0, &no); const char *m;
	if(__cx_replaying()){ __cx_note("in", buf, n); __cx_note("out", o, no); }
	m = lex_check(buf, n, o, no, st, atoi(cx_argv[4]));
	if(m) __cx_fail(m);
	__cx_done();
}
void cx_harness(void){
	static char *av[16]; int a = 0, i, ns = atoi(cx_argv[3]), np = strlen(cx_argv[0]); unsigned char *s = (unsigned char *)buf + np;
	strcpy(buf, cx_argv[0]);
	__cx_sym(s, ns, "s");
	for(i = 0; i < ns; i++){ int ok = 0; for(const char *p = cx_argv[2]; *p; p++) ok |= s[i] == (unsigned char)*p; __cx_assume(ok); }
	strcpy(buf + np + ns, cx_argv[1]);
	n = np + ns + strlen(cx_argv[1]);
	cx_file("in.c", buf, n);
	av[a++] = "cpp";
	for(i = 5; i < cx_argc; i++) av[a++] = cx_argv[i];
	av[a++] = "in.c"; av[a] = 0;
	cx_exit(prog_main(a, av));
}
