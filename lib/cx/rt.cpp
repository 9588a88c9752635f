/* Run-time half: expressions over the symbolic input bytes, byte-wise shadow
 * memory, the path condition, and the search that negates every branch of it.
 * Each path runs in a forked child; z3 decides every negation. */
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <cerrno>
#include <vector>
#include <deque>
#include <string>
#include <bitset>
#include <unordered_map>
#include <unordered_set>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <time.h>
#include <malloc.h>
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t s64; typedef uint8_t u8;
#define MAXV 512
typedef std::bitset<MAXV> VS;
enum { CONST_, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, SLT, ITE, ZEXT, SEXT, EXTR, CAT };
struct Ex { u8 op, bits; u32 a, b, c; u64 k; u64 val; u32 vs; };
static std::vector<Ex> X; static std::vector<VS> VSets;
struct KeyH { size_t operator()(const Ex &e) const { u64 h = e.op * 31 + e.bits; h = h * 0x9E3779B97F4A7C15ull + e.a; h = h * 0x9E3779B97F4A7C15ull + e.b; h = h * 0x9E3779B97F4A7C15ull + e.c; h = h * 0x9E3779B97F4A7C15ull + e.k; return h ^ h >> 31; } };
struct KeyE { bool operator()(const Ex &x, const Ex &y) const { return x.op == y.op && x.bits == y.bits && x.a == y.a && x.b == y.b && x.c == y.c && x.k == y.k; } };
static std::unordered_map<Ex, u32, KeyH, KeyE> H; static std::unordered_map<VS, u32> VH;
static u64 M(unsigned b){ return b >= 64 ? ~0ull : (1ull << b) - 1; }
static s64 S(u64 v, unsigned b){ return b >= 64 ? (s64)v : (s64)(v << (64 - b)) >> (64 - b); }
struct Con { u32 e; bool t; u8 kind; };   /* kind: 0 branch 1 assumption */
static std::vector<Con> PC; static std::unordered_set<u64> PCset;
static std::vector<u8> input; static unsigned nvars; static std::vector<std::string> vname;
static int outfd = -1; static unsigned bound; static bool active, finishing;
static u64 npins, q_n, q_sat, q_unsat, q_unk; static double q_s; static u64 nsteps;
static unsigned qto = 20000; static bool replay; static std::string notes;
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u32 vsid(const VS &v){ auto it = VH.find(v); if(it != VH.end()) return it->second; u32 i = VSets.size(); VSets.push_back(v); VH[v] = i; return i; }
static void emit(const std::string &s){ size_t o = 0; while(o < s.size()){ ssize_t n = write(outfd, s.data() + o, s.size() - o); if(n <= 0) { if(errno == EINTR) continue; _exit(3); } o += n; } }
static void die(const char *m){ emit(std::string("E ") + m + "\n"); _exit(4); }
static u64 ev(unsigned op, unsigned bits, u64 a, u64 b, unsigned ab){
	u64 m = M(bits);
	switch(op){
		case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
		case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
		case SDIV: if(!b) return (S(a, bits) < 0 ? 1 : m); if(S(b, bits) == -1) return (0 - a) & m; return (u64)(S(a, bits) / S(b, bits)) & m;
		case SREM: if(!b) return a; if(S(b, bits) == -1) return 0; return (u64)(S(a, bits) % S(b, bits)) & m;
		case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
		case SHL: return b >= bits ? 0 : (a << b) & m; case LSHR: return b >= bits ? 0 : a >> b; case ASHR: return (u64)(S(a, bits) >> (b >= bits ? bits - 1 : b)) & m;
		case EQ: return a == b; case ULT: return a < b; case SLT: return S(a, ab) < S(b, ab);
	}
	return 0;
}
static u32 node(Ex e){
	auto it = H.find(e); if(it != H.end()) return it->second;
	if(e.op >= ADD && e.op <= ASHR && (X[e.a].bits != e.bits || X[e.b].bits != e.bits)){ char b[99]; sprintf(b, "width %d: %d %d %d", e.op, e.bits, X[e.a].bits, X[e.b].bits); die(b); }
	if(e.op >= EQ && e.op <= SLT && X[e.a].bits != X[e.b].bits){ char b[99]; sprintf(b, "width %d: %d %d %d", e.op, e.bits, X[e.a].bits, X[e.b].bits); die(b); }
	if(e.op == ITE && (X[e.a].bits != 1 || X[e.b].bits != X[e.c].bits)) die("width ite");
	VS v; if(e.op == VAR) v[e.k] = 1; else { if(e.a) v |= VSets[X[e.a].vs]; if(e.b) v |= VSets[X[e.b].vs]; if(e.c) v |= VSets[X[e.c].vs]; }
	e.vs = vsid(v);
	if(X.size() > 30000000) die("too many expressions");
	X.push_back(e); H[e] = X.size() - 1; return X.size() - 1;
}
static u32 K(u64 v, unsigned bits){ Ex e = {CONST_, (u8)bits, 0, 0, 0, v & M(bits), v & M(bits), 0}; return node(e); }
static bool isK(u32 a){ return X[a].op == CONST_; }
static u32 mk(unsigned op, unsigned bits, u32 a, u32 b);
static u32 mkext(u32 a, unsigned lo, unsigned n);
static u32 mkcast(unsigned k, u32 a, unsigned to){
	unsigned f = X[a].bits; if(f == to) return a; if(to < f) return mkext(a, 0, to);
	if(isK(a)) return K(k == SEXT ? (u64)S(X[a].k, f) : X[a].k, to);
	if(X[a].op == ZEXT) return mkcast(ZEXT, X[a].a, to);
	if(k == SEXT && X[a].op == SEXT) return mkcast(SEXT, X[a].a, to);
	Ex e = {(u8)k, (u8)to, a, 0, 0, 0, (k == SEXT ? (u64)S(X[a].val, f) & M(to) : X[a].val), 0}; return node(e);
}
static u32 mkite(u32 c, u32 a, u32 b){
	if(isK(c)) return X[c].k ? a : b; if(a == b) return a;
	if(X[a].bits == 1 && isK(a) && isK(b)) return X[a].k ? c : mk(XOR, 1, c, K(1, 1));
	Ex e = {ITE, X[a].bits, c, a, b, 0, X[c].val ? X[a].val : X[b].val, 0}; return node(e);
}
static u32 mkcat(u32 hi, u32 lo){
	unsigned n = X[hi].bits + X[lo].bits;
	if(isK(hi) && isK(lo)) return K(X[hi].k << X[lo].bits | X[lo].k, n);
	if(X[hi].op == EXTR && X[lo].op == EXTR && X[hi].a == X[lo].a && X[hi].k == X[lo].k + X[lo].bits) return mkext(X[hi].a, X[lo].k, n);
	if(X[hi].op == EXTR && X[hi].a == lo && X[hi].k == X[lo].bits) return mkext(lo, 0, n);
	if(X[hi].op == EXTR && X[hi].k >= X[lo].bits && X[X[hi].a].op == SEXT){ u32 sx = X[hi].a; unsigned k = X[hi].k - X[lo].bits; if(mkext(sx, k, X[lo].bits) == lo) return mkext(sx, k, n); }
	if(isK(hi) && !X[hi].k) return mkcast(ZEXT, lo, n);
	Ex e = {CAT, (u8)n, hi, lo, 0, 0, X[hi].val << X[lo].bits | X[lo].val, 0}; return node(e);
}
static u32 mkext(u32 a, unsigned lo, unsigned n){
	if(!lo && n == X[a].bits) return a;
	Ex A = X[a];
	if(A.op == CONST_) return K(A.k >> lo, n);
	if(A.op == EXTR) return mkext(A.a, A.k + lo, n);
	if(A.op == ZEXT || A.op == SEXT){ unsigned f = X[A.a].bits; if(lo + n <= f) return mkext(A.a, lo, n); if(A.op == ZEXT && lo >= f) return K(0, n); if(lo == 0) return mkcast(A.op, A.a, n); }
	if(A.op == CAT){ unsigned lb = X[A.b].bits; if(lo + n <= lb) return mkext(A.b, lo, n); if(lo >= lb) return mkext(A.a, lo - lb, n); return mkcat(mkext(A.a, 0, lo + n - lb), mkext(A.b, lo, lb - lo)); }
	if(A.op == ITE && (isK(A.b) || isK(A.c))) return mkite(A.a, mkext(A.b, lo, n), mkext(A.c, lo, n));
	if(lo == 0 && (A.op == ADD || A.op == SUB || A.op == MUL)) return mk(A.op, n, mkext(A.a, 0, n), mkext(A.b, 0, n));
	if(A.op == AND || A.op == OR || A.op == XOR) return mk(A.op, n, mkext(A.a, lo, n), mkext(A.b, lo, n));
	Ex e = {EXTR, (u8)n, a, 0, 0, lo, A.val >> lo & M(n), 0}; return node(e);
}
static u32 mk(unsigned op, unsigned bits, u32 a, u32 b){
	u64 v = ev(op, bits, X[a].val, X[b].val, X[a].bits);
	if(isK(a) && isK(b)) return K(v, bits);
	bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
	if(comm && (isK(a) || (!isK(b) && a > b))) std::swap(a, b);
	if(op == SUB && isK(b)) return mk(ADD, bits, a, K(0 - X[b].k, bits));
	Ex A = X[a];
	if(isK(b)){
		u64 k = X[b].k;
		if(k == 0 && (op == ADD || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR)) return a;
		if(k == 0 && (op == MUL || op == AND || op == ULT)) return K(0, bits);
		if(k == 1 && (op == MUL || op == UDIV || op == SDIV)) return a;
		if(k == M(bits) && op == AND) return a;
		if(op == ADD && A.op == ADD && isK(A.b)) return mk(ADD, bits, A.a, K(X[A.b].k + k, bits));
		if(op == AND && (A.op == OR || A.op == XOR) && isK(A.b) && !(X[A.b].k & k)) return mk(AND, bits, A.a, b);
		if(op == AND && A.op == ZEXT){ unsigned f = X[A.a].bits; if((k & M(f)) == M(f)) return a; return mkcast(ZEXT, mk(AND, f, A.a, K(k, f)), bits); }
		if(op == XOR && A.op == XOR && isK(A.b)) return mk(XOR, bits, A.a, K(X[A.b].k ^ k, bits));
		if((op == SHL || op == LSHR) && k >= bits) return K(0, bits);
		/* constant shifts and low masks as extractions: what was taken apart is recognised when put together */
		if(op == SHL) return mkcat(mkext(a, 0, bits - k), K(0, k));
		if(op == LSHR) return mkcast(ZEXT, mkext(a, k, bits - k), bits);
		if(op == ASHR) return k >= bits ? mkcast(SEXT, mkext(a, bits - 1, 1), bits) : mkcast(SEXT, mkext(a, k, bits - k), bits);
		if(op == AND && !(k & (k + 1))) return mkcast(ZEXT, mkext(a, 0, __builtin_popcountll(k)), bits);
		if(op == AND && A.op == AND && isK(A.b)) return mk(AND, bits, A.a, K(X[A.b].k & k, bits));
		if(op == OR && A.op == OR && isK(A.b)) return mk(OR, bits, A.a, K(X[A.b].k | k, bits));
		if((op == OR || op == XOR || op == AND) && A.op == CAT){ unsigned lb = X[A.b].bits; return mkcat(mk(op, bits - lb, A.a, K(k >> lb, bits - lb)), mk(op, lb, A.b, K(k, lb))); }
		if(op == EQ || op == ULT || op == SLT){
			unsigned n = A.bits;
			if(A.op == ZEXT){ unsigned f = X[A.a].bits; if(k & ~M(f)) return K(op == EQ ? 0 : op == ULT ? 1 : S(k, n) > 0, 1); return mk(op == SLT ? ULT : op, 1, A.a, K(k, f)); }
			if(op == EQ && A.op == SEXT){ unsigned f = X[A.a].bits; if((u64)(S(k & M(f), f) & M(n)) != k) return K(0, 1); return mk(EQ, 1, A.a, K(k, f)); }
			if(op == SLT && A.op == SEXT){ unsigned f = X[A.a].bits; s64 t = S(k, n), lo = -(1ll << (f - 1)), hi = 1ll << (f - 1); if(t <= lo) return K(0, 1); if(t >= hi) return K(1, 1); return mk(SLT, 1, A.a, K(k, f)); }
			if(op == EQ && A.op == ADD && isK(A.b)) return mk(EQ, 1, A.a, K(k - X[A.b].k, n));
			if(op == EQ && A.op == XOR && isK(A.b)) return mk(EQ, 1, A.a, K(k ^ X[A.b].k, n));
			if(A.op == ITE && isK(A.b) && isK(A.c)) return mkite(A.a, mk(op, 1, A.b, b), mk(op, 1, A.c, b));
			if(op == EQ && n == 1) return k ? a : mk(XOR, 1, a, K(1, 1));
			if(op == EQ && A.op == CAT && isK(A.a)){ unsigned lb = X[A.b].bits; if(X[A.a].k != k >> lb) return K(0, 1); return mk(EQ, 1, A.b, K(k, lb)); }
		}
	}
	if(isK(a)){
		u64 k = A.k;
		if(k == 0 && (op == SHL || op == LSHR || op == ASHR || op == UDIV || op == UREM)) return a;
		if(op == ULT || op == SLT){
			Ex B = X[b]; unsigned n = B.bits;
			if(B.op == ZEXT){ unsigned f = X[B.a].bits; if(op == SLT && S(k, n) < 0) return K(1, 1); if(k & ~M(f)) return K(0, 1); return mk(ULT, 1, K(k, f), B.a); }
			if(op == SLT && B.op == SEXT){ unsigned f = X[B.a].bits; s64 t = S(k, n), lo = -(1ll << (f - 1)), hi = 1ll << (f - 1); if(t < lo) return K(1, 1); if(t >= hi - 1) return K(0, 1); return mk(SLT, 1, K(k, f), B.a); }
			if(B.op == ITE && isK(B.b) && isK(B.c)) return mkite(B.a, mk(op, 1, a, B.b), mk(op, 1, a, B.c));
		}
	}
	if(a == b){ if(op == SUB || op == XOR) return K(0, bits); if(op == EQ) return K(1, 1); if(op == ULT || op == SLT) return K(0, 1); if(op == AND || op == OR) return a; }
	if((op == EQ || op == ULT || op == SLT) && !isK(b)){
		Ex B = X[b];
		if(A.op == ZEXT && B.op == ZEXT && X[A.a].bits == X[B.a].bits) return mk(op == SLT ? ULT : op, 1, A.a, B.a);
		if(op != ULT && A.op == SEXT && B.op == SEXT && X[A.a].bits == X[B.a].bits) return mk(op, 1, A.a, B.a);
	}
	/* arithmetic on extended values, in as few bits as hold the result */
	if(op == UDIV || op == UREM || op == SDIV || op == SREM || op == MUL){
		auto eff = [&](u32 x, bool sg) -> unsigned {   /* bits that carry the value, as (un)signed number; 0: all */
			if(isK(x)){ s64 k = S(X[x].k, bits); unsigned n = 0; if(sg){ for(n = 1; n < bits; n++) if(k >= -(1ll << (n - 1)) && k < (1ll << (n - 1))) break; } else for(n = 1; n < bits; n++) if(!(X[x].k >> n)) break; return n; }
			if(X[x].op == ZEXT) return X[X[x].a].bits + sg;
			if(X[x].op == SEXT && sg) return X[X[x].a].bits;
			return bits; };
		bool sg = op == SDIV || op == SREM; unsigned na, nb, m;
		if(op == MUL){
			bool u = (X[a].op == ZEXT || isK(a)) && (X[b].op == ZEXT || isK(b)) && !(isK(b) && S(X[b].k, bits) < 0);
			na = eff(a, !u); nb = eff(b, !u); m = na + nb; sg = !u;
		}else { na = eff(a, sg); nb = eff(b, sg); m = (na > nb ? na : nb) + (sg && op == SDIV); }
		if(m + 1 < bits && m <= 64) return mkcast(sg ? SEXT : ZEXT, mk(op, m, mkext(a, 0, m), mkext(b, 0, m)), bits);
	}
	if(op == OR || op == XOR || op == ADD) for(int k = 0; k < 2; k++){ /* byte assembly */
		u32 w = k ? b : a, h = k ? a : b;
		if(X[w].op == ZEXT && X[h].op == CAT && isK(X[h].b) && !X[X[h].b].k && X[X[w].a].bits <= X[X[h].b].bits) return mkcat(X[h].a, mkcast(ZEXT, X[w].a, X[X[h].b].bits));
	}
	Ex e = {(u8)op, (u8)(op >= EQ && op <= SLT ? 1 : bits), a, b, 0, 0, v, 0}; return node(e);
}
static u32 lift(u32 id, u64 v, unsigned bits){ return id ? id : K(v, bits); }
static u32 simp(u32 e){ return isK(e) ? 0 : e; }
/* ---- z3 ---- */
static Z3_context Z; static std::vector<Z3_ast> ZA;
static Z3_ast zt(u32 root){
	std::vector<u32> st{root}; if(ZA.size() < X.size()) ZA.resize(X.size());
	while(!st.empty()){
		u32 e = st.back(); if(ZA[e]){ st.pop_back(); continue; }
		Ex &x = X[e]; bool ok = true; u32 ch[3] = {x.a, x.b, x.c};
		for(u32 c : ch) if(c && !ZA[c]){ st.push_back(c); ok = false; }
		if(!ok) continue;
		st.pop_back();
		Z3_ast a = x.a ? ZA[x.a] : 0, b = x.b ? ZA[x.b] : 0, r = 0; Z3_sort s = Z3_mk_bv_sort(Z, x.bits);
		auto B = [&](Z3_ast c){ Z3_sort s1 = Z3_mk_bv_sort(Z, 1); return Z3_mk_ite(Z, c, Z3_mk_unsigned_int64(Z, 1, s1), Z3_mk_unsigned_int64(Z, 0, s1)); };
		switch(x.op){
			case CONST_: r = Z3_mk_unsigned_int64(Z, x.k, s); break;
			case VAR: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, x.k), s); break;
			case ADD: r = Z3_mk_bvadd(Z, a, b); break; case SUB: r = Z3_mk_bvsub(Z, a, b); break; case MUL: r = Z3_mk_bvmul(Z, a, b); break;
			case UDIV: r = Z3_mk_bvudiv(Z, a, b); break; case SDIV: r = Z3_mk_bvsdiv(Z, a, b); break; case UREM: r = Z3_mk_bvurem(Z, a, b); break; case SREM: r = Z3_mk_bvsrem(Z, a, b); break;
			case AND: r = Z3_mk_bvand(Z, a, b); break; case OR: r = Z3_mk_bvor(Z, a, b); break; case XOR: r = Z3_mk_bvxor(Z, a, b); break;
			case SHL: r = Z3_mk_bvshl(Z, a, b); break; case LSHR: r = Z3_mk_bvlshr(Z, a, b); break; case ASHR: r = Z3_mk_bvashr(Z, a, b); break;
			case EQ: r = B(Z3_mk_eq(Z, a, b)); break; case ULT: r = B(Z3_mk_bvult(Z, a, b)); break; case SLT: r = B(Z3_mk_bvslt(Z, a, b)); break;
			case ITE: r = Z3_mk_ite(Z, Z3_mk_eq(Z, a, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))), b, ZA[x.c]); break;
			case ZEXT: r = Z3_mk_zero_ext(Z, x.bits - X[x.a].bits, a); break; case SEXT: r = Z3_mk_sign_ext(Z, x.bits - X[x.a].bits, a); break;
			case EXTR: r = Z3_mk_extract(Z, x.k + x.bits - 1, x.k, a); break; case CAT: r = Z3_mk_concat(Z, a, b); break;
		}
		ZA[e] = r;
	}
	return ZA[root];
}
static Z3_ast zc(u32 e, bool t){ return Z3_mk_eq(Z, zt(e), Z3_mk_unsigned_int64(Z, t, Z3_mk_bv_sort(Z, 1))); }
static void zerr(Z3_context c, Z3_error_code e){ die(Z3_get_error_msg(c, e)); }
static void zinit(){
	if(Z) return;
	Z3_config cf = Z3_mk_config(); Z = Z3_mk_context(cf); Z3_set_error_handler(Z, zerr);
}
/* decide PC[0..n) with e == t; on sat writes the model over in */
static int solve(unsigned n, u32 e, bool t, std::vector<u8> &in){
	zinit();
	VS v = VSets[X[e].vs]; std::vector<char> use(n, 0);
	for(bool ch = true; ch;){ ch = false; for(unsigned i = 0; i < n; i++) if(!use[i]){ const VS &w = VSets[X[PC[i].e].vs]; if((w & v).any()){ use[i] = 1; if((w & ~v).any()){ v |= w; ch = true; } } } }
	Z3_solver s = 0; Z3_lbool r = Z3_L_UNDEF; q_n++;
	for(int round = 0; round < 2 && r == Z3_L_UNDEF; round++){
		/* the incremental core is quick for the usual query, the bit-blasting tactic for arithmetic */
		if(s) Z3_solver_dec_ref(Z, s);
		if(round){ Z3_tactic tc = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, tc); s = Z3_mk_solver_from_tactic(Z, tc); Z3_solver_inc_ref(Z, s); Z3_tactic_dec_ref(Z, tc); }
		else { s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s); }
		Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), round ? qto : qto < 1000 ? qto : 1000); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
		for(unsigned i = 0; i < n; i++) if(use[i]) Z3_solver_assert(Z, s, zc(PC[i].e, PC[i].t));
		Z3_solver_assert(Z, s, zc(e, t));
		double t0 = now(); r = Z3_solver_check(Z, s); q_s += now() - t0;
	}
	int res = 0;
	if(r == Z3_L_TRUE){
		q_sat++; res = 1; Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
		for(unsigned i = 0; i < nvars; i++) if(v[i]){
			Z3_ast a = Z3_mk_const(Z, Z3_mk_int_symbol(Z, i), Z3_mk_bv_sort(Z, 8)), o; u64 x;
			if(Z3_model_eval(Z, m, a, 1, &o) && Z3_get_numeral_uint64(Z, o, (uint64_t *)&x)) { if(in.size() <= i) in.resize(i + 1); in[i] = x; }
		}
		Z3_model_dec_ref(Z, m);
	}else if(r == Z3_L_FALSE) q_unsat++; else { q_unk++; res = -1; }
	Z3_solver_dec_ref(Z, s);
	return res;
}
static void show(u32 e, int d){
	static const char *nm[] = {"", "v", "+", "-", "*", "/u", "/", "%u", "%", "&", "|", "^", "<<", ">>u", ">>", "==", "<u", "<", "?", "zx", "sx", "ex", "cat"};
	Ex &x = X[e]; if(isK(e)){ fprintf(stderr, "%llx", (unsigned long long)x.k); return; } if(x.op == VAR){ fprintf(stderr, "v%d", (int)x.k); return; }
	fprintf(stderr, "(%s%d", nm[x.op], x.bits); if(x.op == EXTR) fprintf(stderr, "@%d", (int)x.k);
	if(!d) fprintf(stderr, " .."); else { u32 c[3] = {x.a, x.b, x.c}; for(u32 y : c) if(y){ fputc(' ', stderr); show(y, d - 1); } } fputc(')', stderr);
}
static std::string hex(const void *p, size_t n){ std::string s; char b[3]; for(size_t i = 0; i < n; i++){ sprintf(b, "%02x", ((const u8 *)p)[i]); s += b; } return s; }
static void finish(const char *what, const std::string &msg){
	if(finishing) _exit(5);
	finishing = true; active = false;
	struct itimerval it = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &it, 0);
	if(replay){ printf("%s %s\n%s", what, msg.c_str(), notes.c_str()); fflush(stdout); _exit(0); }
	if(input.size() < nvars) input.resize(nvars);
	emit(std::string("R ") + what + " " + hex(input.data(), nvars) + " " + hex(msg.data(), msg.size()) + "\n");
	if(!strcmp(what, "V") || !strcmp(what, "C") || !strcmp(what, "T")) emit(notes);
	for(unsigned i = bound; i < PC.size(); i++){
		if(PC[i].kind == 1) continue;
		std::vector<u8> in = input;
		int r = solve(i, PC[i].e, !PC[i].t, in);
		if(r == 1) emit("N " + std::to_string(i + 1) + " " + hex(in.data(), in.size()) + "\n");
		else if(r < 0){ emit("U\n"); if(getenv("CX_DEBUG")){ show(PC[i].e, 12); fputc('\n', stderr); } }
	}
	char b[200]; snprintf(b, sizeof b, "S %llu %llu %llu %llu %f %u %llu %zu\n", (unsigned long long)q_n, (unsigned long long)q_sat, (unsigned long long)q_unsat, (unsigned long long)q_unk, q_s, nvars, (unsigned long long)npins, PC.size());
	emit(b); _exit(0);
}
static void cons(u32 e, bool t, u8 kind){
	if(!active || isK(e)) return;
	while(X[e].op == XOR && X[e].bits == 1 && isK(X[e].b)){ if(X[X[e].b].k) t = !t; e = X[e].a; }
	if(X[e].bits != 1) die("width of a condition");
	if((X[e].val != 0) != t) die("divergence between expression and run");
	if(!PCset.insert((u64)e << 1 | t).second) return;
	PC.push_back({e, t, kind});
	if(PC.size() > 20000) finish("T", "too many branches");
}
static u32 args[32], rets[8];
/* ---- shadow memory ---- */
struct Pg { u32 e[4096]; unsigned live; };
static std::unordered_map<u64, Pg *> PT; static u64 lastp = ~0ull; static Pg *lastg; static u64 filt[1024];
static Pg *pg(u64 a, bool mkit){
	u64 p = a >> 12; if(p == lastp && lastg) return lastg;
	if(!mkit && !(filt[p >> 6 & 1023] >> (p & 63) & 1)) return 0;
	auto it = PT.find(p); Pg *g;
	if(it == PT.end()){ if(!mkit) return 0; g = (Pg *)calloc(1, sizeof *g); PT[p] = g; filt[p >> 6 & 1023] |= 1ull << (p & 63); } else g = it->second;
	lastp = p; lastg = g; return g;
}
static inline u32 sget(u64 a){ Pg *g = pg(a, 0); return g ? g->e[a & 4095] : 0; }
static inline void sset(u64 a, u32 e){ Pg *g = pg(a, e != 0); if(g) g->e[a & 4095] = e; }
extern "C" {
void cx_harness(void);
u32 __cx_bin(u32 op, u32 bits, u32 a, u32 b, u64 va, u64 vb){
	if(!(a | b)) return 0;
	/* LLVM opcodes: Add 13 Sub 15 Mul 17 UDiv 19 SDiv 20 URem 22 SRem 23 Shl 25 LShr 26 AShr 27 And 28 Or 29 Xor 30 */
	static const signed char T[32] = {-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1, ADD, -1, SUB, -1, MUL, -1, UDIV, SDIV, -1, UREM, SREM, -1, SHL, LSHR, ASHR, AND, OR, XOR, -1};
	int o = op < 32 ? T[op] : -1; if(o < 0) die("binop");
	u32 x = lift(a, va, bits), y = lift(b, vb, bits);
	if((o == SHL || o == LSHR || o == ASHR) && !isK(y) && bits >= 32) y = mk(AND, bits, y, K(bits - 1, bits));
	return simp(mk(o, bits, x, y));
}
u32 __cx_cmp(u32 p, u32 bits, u32 a, u32 b, u64 va, u64 vb){
	if(!(a | b)) return 0;
	u32 x = lift(a, va, bits), y = lift(b, vb, bits), t = K(1, 1);
	switch(p){   /* eq 32 ne 33 ugt 34 uge 35 ult 36 ule 37 sgt 38 sge 39 slt 40 sle 41 */
		case 32: return simp(mk(EQ, 1, x, y)); case 33: return simp(mk(XOR, 1, mk(EQ, 1, x, y), t));
		case 34: return simp(mk(ULT, 1, y, x)); case 35: return simp(mk(XOR, 1, mk(ULT, 1, x, y), t));
		case 36: return simp(mk(ULT, 1, x, y)); case 37: return simp(mk(XOR, 1, mk(ULT, 1, y, x), t));
		case 38: return simp(mk(SLT, 1, y, x)); case 39: return simp(mk(XOR, 1, mk(SLT, 1, x, y), t));
		case 40: return simp(mk(SLT, 1, x, y)); case 41: return simp(mk(XOR, 1, mk(SLT, 1, y, x), t));
	}
	die("icmp"); return 0;
}
u32 __cx_sel(u32 bits, u32 c, u32 cv, u32 a, u32 b, u64 va, u64 vb){
	if(!(a | b | c)) return 0;
	if(!c) return cv ? a : b;
	return simp(mkite(c, lift(a, va, bits), lift(b, vb, bits)));
}
u32 __cx_cast(u32 k, u32 f, u32 to, u32 a, u64 v){ if(!a) return 0; return simp(mkcast(k ? SEXT : ZEXT, a, to)); }
u32 __cx_gep(u32 b, u64 bv, u32 i, u64 iv, u64 sc){
	if(!(b | i)) return 0;
	u32 x = lift(b, bv, 64), y = lift(i, iv, 64);
	return simp(mk(ADD, 64, x, mk(MUL, 64, y, K(sc, 64))));
}
u32 __cx_minmax(u32 k, u32 bits, u32 a, u32 b, u64 va, u64 vb){
	if(!(a | b)) return 0;
	u32 x = lift(a, va, bits), y = k == 4 ? K(0, bits) : lift(b, vb, bits);
	switch(k){
		case 0: return simp(mkite(mk(SLT, 1, x, y), y, x)); case 1: return simp(mkite(mk(SLT, 1, x, y), x, y));
		case 2: return simp(mkite(mk(ULT, 1, x, y), y, x)); case 3: return simp(mkite(mk(ULT, 1, x, y), x, y));
		case 4: return simp(mkite(mk(SLT, 1, x, y), mk(SUB, bits, y, x), x));
		default: return simp(mkite(mk(ULT, 1, x, y), K(0, bits), mk(SUB, bits, x, y)));
	}
}
u32 __cx_ovf(u32 k, u32 bits, u32 a, u32 b, u64 va, u64 vb){
	if(!(a | b)) return 0;
	u32 x = lift(a, va, bits), y = lift(b, vb, bits); unsigned w = (k & 3) == 2 ? 2 * bits : bits + 1;
	if(w > 64){
		if((k & 3) == 2) { /* 64-bit multiply: by division */ 
			if(k & 4){ u32 r = mk(MUL, bits, x, y); return simp(mk(AND, 1, mk(XOR, 1, mk(EQ, 1, x, K(0, bits)), K(1, 1)), mk(XOR, 1, mk(EQ, 1, mk(UDIV, bits, r, x), y), K(1, 1)))); }
			die("mul overflow"); }
		u32 r = mk((k & 3) ? SUB : ADD, bits, x, y);
		if(k & 4) return simp((k & 3) ? mk(ULT, 1, x, y) : mk(ULT, 1, r, x));
		u32 xs = mkext(x, bits - 1, 1), ys = mkext(y, bits - 1, 1), rs = mkext(r, bits - 1, 1);
		u32 d = mk(XOR, 1, xs, ys); if(!(k & 3)) d = mk(XOR, 1, d, K(1, 1));
		return simp(mk(AND, 1, d, mk(XOR, 1, xs, rs)));
	}
	int c = k & 4 ? ZEXT : SEXT; u32 r = mk((k & 3) == 0 ? ADD : (k & 3) == 1 ? SUB : MUL, w, mkcast(c, x, w), mkcast(c, y, w));
	return simp(mk(XOR, 1, mk(EQ, 1, r, mkcast(c, mkext(r, 0, bits), w)), K(1, 1)));
}
void __cx_pin(u32 e, u64 v){
	if(!e || !active) return;
	npins++; cons(mk(EQ, 1, e, K(X[e].val, X[e].bits)), true, 0);
}
u32 __cx_load(u32 pi, void *p, u32 n, u32 bits){
	if(pi) __cx_pin(pi, (u64)p);
	u64 a = (u64)p; u32 first = 0; bool any = false;
	if((a & 4095) + n <= 4096){ Pg *g = pg(a, 0); if(!g) return 0; for(u32 i = 0; i < n; i++) if(g->e[(a & 4095) + i]) { any = true; break; } }
	else for(u32 i = 0; i < n; i++) if(sget(a + i)) any = true;
	if(!any) return 0;
	if(!bits){ for(u32 i = 0; i < n; i++) if(u32 e = sget(a + i)) __cx_pin(e, 0); return 0; }
	u32 r = 0;
	for(u32 i = 0; i < n; i++){ u32 e = sget(a + i); if(!e) e = K(((u8 *)p)[i], 8); r = i ? mkcat(e, r) : e; }
	(void)first;
	if(bits < n * 8) r = mkext(r, 0, bits);
	return simp(r);
}
void __cx_store(u32 pi, void *p, u32 n, u32 e, u64 v){
	if(pi) __cx_pin(pi, (u64)p);
	u64 a = (u64)p;
	if(!e){ if((a & 4095) + n <= 4096){ Pg *g = pg(a, 0); if(g) memset(&g->e[a & 4095], 0, n * 4); } else for(u32 i = 0; i < n; i++) sset(a + i, 0); return; }
	if(X[e].bits < n * 8) e = mkcast(ZEXT, e, n * 8);
	for(u32 i = 0; i < n; i++) sset(a + i, simp(mkext(e, i * 8, 8)));
}
void __cx_clear(const void *p, u64 n){
	u64 a = (u64)p; while(n){ u64 k = 4096 - (a & 4095); if(k > n) k = n; Pg *g = pg(a, 0); if(g) memset(&g->e[a & 4095], 0, k * 4); a += k; n -= k; }
}
void __cx_copy(void *d, const void *s, u64 n){
	u64 a = (u64)d, b = (u64)s; bool any = false;
	for(u64 p = b >> 12; p <= (b + n) >> 12; p++) if(pg(p << 12, 0)) any = true;
	if(!any){ __cx_clear(d, n); return; }
	if(a <= b) for(u64 i = 0; i < n; i++) sset(a + i, sget(b + i)); else for(u64 i = n; i-- > 0;) sset(a + i, sget(b + i));
}
void __cx_memcpy(u32 di, void *d, u32 si, void *s, u32 ni, u64 n){ if(ni) __cx_pin(ni, n); if(di) __cx_pin(di, 0); if(si) __cx_pin(si, 0); __cx_copy(d, s, n); }
void __cx_memset(u32 di, void *d, u32 vi, u32 v, u32 ni, u64 n){ if(ni) __cx_pin(ni, n); if(di) __cx_pin(di, 0); if(!vi){ __cx_clear(d, n); return; } for(u64 i = 0; i < n; i++) sset((u64)d + i, vi); }
void __cx_br(u32 e, u32 t, u32 site){ if(e) cons(e, t, 0); }
void __cx_sw(u32 e, u32 bits, u64 v, const u64 *cs, u32 n){
	if(!e || !active) return;
	for(u32 i = 0; i < n; i++){ u32 c = mk(EQ, 1, e, K(cs[i], bits)); cons(c, v == cs[i], 0); if(v == cs[i]) return; }
}
static void *byv[32]; static u32 nargs_; static u64 cls_;
void __cx_arg(u32 k, u32 e){ if(k < 32) args[k] = e; }
u32 __cx_getarg(u32 k){ return k < 32 ? args[k] : 0; }
void __cx_call(u32 n, u64 cls){ nargs_ = n; cls_ = cls; for(int i = 0; i < 8; i++) rets[i] = 0; }
void __cx_ret(u32 k, u32 e){ rets[k] = e; }
u32 __cx_getret(u32 k){ return rets[k]; }
void __cx_byval(u32 k, void *p){ byv[k] = p; }
void __cx_byval_get(u32 k, void *p, u64 n){ __cx_copy(p, byv[k], n); }
void __cx_alloca(void *p, u64 n){ __cx_clear(p, n); }
struct VE { u32 n, a[32]; u64 cls; };
void *__cx_va_entry(void){ static VE ring[4096]; static unsigned r; VE *v = &ring[r++ & 4095]; v->n = nargs_; v->cls = cls_; memcpy(v->a, args, sizeof args); return v; }
void __cx_va_start(void *h, void *ap, u32 nfix){
	VE *v = (VE *)h; char *ov = *(char **)((char *)ap + 8), *rs = *(char **)((char *)ap + 16); unsigned gp = 0, stk = 0;
	__cx_clear(ap, 24); __cx_clear(rs, 176);
	for(u32 i = 0; i < v->n; i++){
		int c = v->cls >> 2 * i & 3;
		if(c == 1) continue;
		if(c != 0){ if(i >= nfix) die("variadic aggregate"); continue; }
		if(gp < 6){ if(i >= nfix) __cx_store(0, rs + 8 * gp, 8, v->a[i], 0); gp++; }
		else if(i >= nfix) __cx_store(0, ov + 8 * stk++, 8, v->a[i], 0);
	}
}
/* ---- services for harnesses and the C library ---- */
void __cx_sym(void *p, u32 n, const char *name){
	for(u32 i = 0; i < n; i++){
		u32 k = nvars++; if(nvars > MAXV) die("too many variables");
		if(k >= input.size()) input.push_back(((u8 *)p)[i]);
		((u8 *)p)[i] = input[k]; vname.push_back(name);
		Ex e = {VAR, 8, 0, 0, 0, k, input[k], 0}; sset((u64)p + i, node(e));
	}
}
void __cx_assume(int c){
	u32 e = args[0]; if(!e){ if(!c) finish("A", ""); return; }
	if(X[e].bits != 1) e = mk(XOR, 1, mk(EQ, 1, e, K(0, X[e].bits)), K(1, 1));
	if(isK(e)){ if(!c) finish("A", ""); return; }
	if(X[e].val) { cons(e, true, 1); return; }
	/* the assumption does not hold for this input: move to one for which it does */
	std::vector<u8> in = input; in.resize(nvars); int r = solve(PC.size(), e, true, in);
	if(r == 1 && !replay) emit("N " + std::to_string(bound) + " " + hex(in.data(), in.size()) + "\n");
	if(r < 0) emit("U\n");
	/* branches before the assumption are still explored by the new input's path */
	finishing = true; emit("R A - -\n"); char b[160]; snprintf(b, sizeof b, "S %llu %llu %llu %llu %f %u 0 0\n", (unsigned long long)q_n, (unsigned long long)q_sat, (unsigned long long)q_unsat, (unsigned long long)q_unk, q_s, nvars); emit(b);
	if(r == 1) _exit(0);
	finishing = false; /* infeasible here: explore the alternatives of this prefix */
	finish("A", "");
}
void __cx_fail(const char *msg){ finish("V", msg); }
void __cx_done(void){ finish("O", ""); }
void __cx_note(const char *name, const void *p, u64 n){ notes += std::string("T ") + name + " " + (n ? hex(p, n) : "-") + "\n"; }
u32 __cx_issym(const void *p, u64 n){ for(u64 i = 0; i < n; i++) if(sget((u64)p + i)) return 1; return 0; }
void __cx_pinmem(const void *p, u64 n){ for(u64 i = 0; i < n; i++) if(u32 e = sget((u64)p + i)) __cx_pin(e, 0); }
void __cx_raw(const char *s){ if(replay || getenv("CX_DEBUG")) fputs(s, stderr); }
void *__cx_malloc(u64 n){ __cx_pin(args[0], n); void *p = malloc(n); __cx_clear(p, n); return p; }
void *__cx_realloc(void *o, u64 n){ __cx_pin(args[1], n); void *p = malloc(n); __cx_clear(p, n); if(o){ u64 m = malloc_usable_size(o); if(m > n) m = n; __cx_copy(p, o, m); memcpy(p, o, m); free(o); } return p; }
void __cx_free(void *p){ free(p); }
void __cx_zero(void *p, u64 n){ __cx_clear(p, n); memset(p, 0, n); }
struct cxf; struct cxf *cx_mkfile(const char *, char *, u64);
int __cx_readfile(const char *n, struct cxf **f){ if(getenv("CX_NOFILES")) return 0; FILE *h = fopen(n, "r"); if(!h) return 0; std::string s; char b[4096]; size_t k; while((k = fread(b, 1, sizeof b, h)) > 0) s.append(b, k); fclose(h); char *d = (char *)malloc(s.size() + 1); memcpy(d, s.data(), s.size()); __cx_clear(d, s.size() + 1); memset(args, 0, sizeof args); *f = cx_mkfile(n, d, s.size()); rets[0] = 0; __cx_clear(f, 8); return 1; }
int __cx_fmt_d(char *b, u64 n, const char *f, int w, int p, double d){ bool sw = false, sp = false; for(const char *q = f; *q; q++) if(*q == '*') { if(q > f && q[-1] == '.') sp = true; else sw = true; } __cx_clear(b, n); return sw && sp ? snprintf(b, n, f, w, p, d) : sw ? snprintf(b, n, f, w, d) : sp ? snprintf(b, n, f, p, d) : snprintf(b, n, f, d); }
int __cx_fmt_ld(char *b, u64 n, const char *f, int w, int p, long double d){ bool sw = false, sp = false; for(const char *q = f; *q; q++) if(*q == '*') { if(q > f && q[-1] == '.') sp = true; else sw = true; } __cx_clear(b, n); return sw && sp ? snprintf(b, n, f, w, p, d) : sw ? snprintf(b, n, f, w, d) : sp ? snprintf(b, n, f, p, d) : snprintf(b, n, f, d); }
double __cx_strtod(const char *s, char **e){ return strtod(s, e); }
float __cx_strtof(const char *s, char **e){ return strtof(s, e); }
long double __cx_strtold(const char *s, char **e){ return strtold(s, e); }
int __cx_sscanf(const char *s, const char *f, void *p){ return sscanf(s, f, p); }
void __cx_notesym(const char *m){ notes += std::string("T ") + m + " -\n"; }
int __cx_replaying(void){ return replay; }
void __cx_asan(void){ }
}
static void onsig(int s){ finish(s == SIGPROF ? "T" : "C", s == SIGPROF ? "does not end" : std::string("signal ") + strsignal(s)); }
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" int __asan_report_present(void) __attribute__((weak));
extern "C" const char *__asan_get_report_description(void) __attribute__((weak));
static void asandeath(){ finish("C", std::string("memory error: ") + (__asan_get_report_description ? __asan_get_report_description() : "")); }
struct Ch { pid_t pid; int fd; std::string buf; double t; };
int main(int ac, char **av){
	double tmax = 60; unsigned jobs = 8; u64 maxpaths = 1ull << 40; std::string rep; unsigned cpu = 10; int i = 1; unsigned maxviol = 10;
	for(; i < ac; i++){
		std::string a = av[i];
		if(a == "-t") tmax = atof(av[++i]); else if(a == "-j") jobs = atoi(av[++i]); else if(a == "-p") maxpaths = atoll(av[++i]); else if(a == "-c") cpu = atoi(av[++i]); else if(a == "-q") qto = atoi(av[++i]); else if(a == "-v") maxviol = atoi(av[++i]);
		else if(a == "-r") { replay = true; rep = av[++i]; } else break;
	}
	extern int cx_argc; extern char **cx_argv; cx_argc = ac - i; cx_argv = av + i;
	X.push_back({CONST_, 0, 0, 0, 0, 0, 0, 0}); vsid(VS());
	auto unhex = [](const std::string &h){ std::vector<u8> v; for(size_t k = 0; k + 1 < h.size(); k += 2) v.push_back(strtol(h.substr(k, 2).c_str(), 0, 16)); return v; };
	auto child = [&](const std::vector<u8> &in, unsigned b){
		stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, 0);
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
		for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGPROF}) sigaction(s, &sa, 0);
		if(__asan_set_death_callback) __asan_set_death_callback(asandeath);
		struct itimerval it = {{0, 0}, {(long)cpu, 0}}; setitimer(ITIMER_PROF, &it, 0);
		input = in; bound = b; active = true;
		cx_harness();
		finish("O", "");
	};
	if(replay){ outfd = 1; child(unhex(rep), 0); }
	signal(SIGPIPE, SIG_IGN);
	struct W { std::vector<u8> in; unsigned b; };
	std::deque<W> q; q.push_back({{}, 0});
	std::vector<Ch> run; u64 paths = 0, viol = 0, unk = 0, err = 0, ass = 0, st[4] = {0}, pins = 0, maxpc = 0; double qs = 0, t0 = now(); unsigned nv = 0; bool stop = false; u64 crashed = 0;
	while(!q.empty() || !run.empty()){
		if(now() - t0 > tmax || paths >= maxpaths || viol >= maxviol){ stop = stop || !q.empty() || !run.empty(); if(viol >= maxviol || now() - t0 > tmax + 5) break; }
		while(!stop && run.size() < jobs && !q.empty()){
			W w = q.front(); q.pop_front();
			int fd[2]; if(pipe(fd)) return 2;
			fflush(stdout);
			pid_t p = fork();
			if(!p){ close(fd[0]); for(auto &c : run) close(c.fd); outfd = fd[1]; child(w.in, w.b); _exit(0); }
			close(fd[1]); run.push_back({p, fd[0], "", now()});
		}
		if(run.empty()) break;
		std::vector<pollfd> pf; for(auto &c : run) pf.push_back({c.fd, POLLIN, 0});
		poll(pf.data(), pf.size(), 1000);
		for(size_t k = run.size(); k-- > 0;){
			Ch &c = run[k]; bool end = false;
			if(pf[k].revents){ char b[65536]; ssize_t n = read(c.fd, b, sizeof b); if(n > 0) c.buf.append(b, n); else if(n == 0 || errno != EINTR) end = true; }
			if(!end) continue;
			close(c.fd); int ws; waitpid(c.pid, &ws, 0); paths++;
			bool sawS = false; size_t o = 0;
			while(o < c.buf.size()){
				size_t e = c.buf.find('\n', o); if(e == std::string::npos) break; std::string l = c.buf.substr(o, e - o); o = e + 1;
				if(l[0] == 'N'){ size_t s = l.find(' ', 2); q.push_back({unhex(l.substr(s + 1)), (unsigned)atoi(l.c_str() + 2)}); }
				else if(l[0] == 'U') unk++;
				else if(l[0] == 'E'){ err++; printf("%s\n", l.c_str()); sawS = true; }
				else if(l[0] == 'S'){ sawS = true; unsigned long long a, b, d, f, pn; double g; unsigned v; size_t np; sscanf(l.c_str() + 2, "%llu %llu %llu %llu %lf %u %llu %zu", &a, &b, &d, &f, &g, &v, &pn, &np); st[0] += a; st[1] += b; st[2] += d; st[3] += f; qs += g; if(v > nv) nv = v; pins += pn; if(np > maxpc) maxpc = np; }
				else if(l[0] == 'R'){ if(l[2] == 'A') ass++; else if(l[2] != 'O'){ viol++; printf("%s\n", l.c_str()); } }
				else if(l[0] == 'T') printf("%s\n", l.c_str());
			}
			if(!sawS){ crashed++; printf("E child ended with %d\n", ws); }
			run.erase(run.begin() + k);
		}
	}
	for(auto &c : run) { kill(c.pid, SIGKILL); waitpid(c.pid, 0, 0); }
	printf("Z complete=%d paths=%llu viol=%llu unknown=%llu errors=%llu assumed=%llu queries=%llu sat=%llu unsat=%llu solver=%.2f time=%.2f vars=%u pins=%llu pending=%zu maxbranches=%llu\n", !stop && !unk && !err && !crashed && q.empty(), (unsigned long long)paths, (unsigned long long)viol, (unsigned long long)unk, (unsigned long long)(err + crashed), (unsigned long long)ass, (unsigned long long)st[0], (unsigned long long)st[1], (unsigned long long)st[2], qs, now() - t0, nv, (unsigned long long)pins, q.size() + run.size(), (unsigned long long)maxpc);
	return 0;
}
int cx_argc; char **cx_argv;
