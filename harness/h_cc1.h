typedef unsigned long ul;
extern int cc1_status;
const char *asm_out(ul *); int asm_numend(const char **, ul *);
const char *asm_find(const char *); int asm_num(const char *, ul *); int asm_arr(const char *, int, unsigned, ul *); int asm_val(const char *, unsigned, ul *);
const char *gen_src(int); int gen_nv(int); void gen_pre(int, ul *); void gen_check(int, ul *, int);
