// vgsym runtime: symbolic execution of instrumented LLVM code.
//  * Booleans / bit-vectors are z3 terms; floating-point values are interpreted as exact reals and kept
//    as rational functions over the inputs (plus algebraic atoms such as square roots), so that the solver
//    receives canonical polynomial constraints.
//  * every decision on a symbolic value is put to the solver; when both outcomes are possible the process
//    forks and each copy continues the real code under the corresponding path condition.
#include <z3.h>
#include <gmpxx.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <algorithm>
#include <functional>
#include <exception>
#include <typeinfo>
#include <iostream>
#include <iomanip>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <time.h>
#include <errno.h>
#include <malloc.h>
#include <dirent.h>
typedef mpq_class Q; typedef mpz_class Z;

// ------------------------------------------------------------------ shared statistics
enum EndKind { END_DONE, END_ASSUME, END_DIV0, END_NAN, END_UNSUP, END_CUT, END_INFEAS, END_CRASH, END_N };
static const char *endName[END_N] = {"completed","assumption_excluded","division_by_zero_excluded","nan_domain_excluded","unsupported","cut_by_budget","infeasible","crash"};
struct MsgStat { char msg[160]; long execd, norm, solver, undecided, cand; };
struct Shared {
  volatile long live, tokens, paths, ends[END_N], forks, queries, unknownBranch, candidates, witnesses, asserts, assertNorm, assertSolver, assertUndecided, modelless, maxpc, hard;
  volatile long long solver_us;
  volatile int stop, lock; volatile int nmsg; MsgStat msgs[400];
  volatile int nuns; char uns[40][200]; long unsc[40];
  long siteForks[1];
};
static Shared *S; static long nsitesAlloc;
static void lockS() { while (__sync_lock_test_and_set(&S->lock,1)) usleep(20); }
static void unlockS() { __sync_lock_release(&S->lock); }
#define INC(f) __sync_fetch_and_add(&S->f,1)
extern "C" { void *__vs_args[128]; void *__vs_ret[32]; void *__vs_callee; extern const char *const __vs_sites[]; extern const unsigned __vs_nsites; }

static const char *outdir="."; static const char *curH=""; static double deadline; static long maxPaths=20000; static int jobs=8, tier=0;
static long rlBranch=3000000, rlAssert=30000000; static int msBranch=4000, msAssert=20000; static bool verbose=false; static bool strict_fp=false;
static char tmpd[64]; static pid_t tmpOwner;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

// ------------------------------------------------------------------ polynomials
typedef std::vector<uint32_t> Mono; // (var<<8)|exp, var ascending
static inline int mdeg(const Mono &m) { int d=0; for (uint32_t x : m) d+=x&255; return d; }
static int mcmp(const Mono &a, const Mono &b) { // deglex
  int da=mdeg(a), db=mdeg(b); if (da!=db) return da<db?-1:1;
  size_t n=std::min(a.size(),b.size());
  for (size_t i=0;i<n;++i) { if (a[i]==b[i]) continue; uint32_t va=a[i]>>8, vb=b[i]>>8; if (va!=vb) return va<vb?1:-1; return (a[i]&255)<(b[i]&255)?-1:1; }
  return a.size()==b.size()?0:(a.size()<b.size()?-1:1);
}
struct MGreater { bool operator()(const Mono&a,const Mono&b) const { return mcmp(a,b)>0; } };
typedef std::map<Mono,Q,MGreater> Poly;
static Mono mmul(const Mono&a,const Mono&b) { Mono r; r.reserve(a.size()+b.size()); size_t i=0,j=0; while (i<a.size()||j<b.size()) { if (j>=b.size()||(i<a.size()&&(a[i]>>8)<(b[j]>>8))) r.push_back(a[i++]); else if (i>=a.size()||(b[j]>>8)<(a[i]>>8)) r.push_back(b[j++]); else { r.push_back(a[i]+(b[j]&255)); i++; j++; } } return r; }
static bool mdiv(const Mono&a,const Mono&b,Mono&r) { r.clear(); size_t j=0; for (size_t i=0;i<a.size();++i) { if (j<b.size() && (b[j]>>8)<(a[i]>>8)) return false; if (j<b.size() && (b[j]>>8)==(a[i]>>8)) { int e=(int)(a[i]&255)-(int)(b[j]&255); if (e<0) return false; if (e) r.push_back((a[i]&~255u)|e); j++; } else r.push_back(a[i]); } return j==b.size(); }
static Poly pconst(const Q &q) { Poly p; if (q!=0) p[Mono()]=q; return p; }
static Poly pvar(int v) { Poly p; p[Mono(1,((uint32_t)v<<8)|1)]=1; return p; }
static bool pIsConst(const Poly&p) { return p.empty() || (p.size()==1 && p.begin()->first.empty()); }
static Q pC(const Poly&p) { return p.empty()?Q(0):p.begin()->second; }
static void paddm(Poly&r,const Mono&m,const Q&c) { auto it=r.find(m); if (it==r.end()) { if (c!=0) r.emplace(m,c); } else { it->second+=c; if (it->second==0) r.erase(it); } }
static Poly padd(const Poly&a,const Poly&b,const Q&f=Q(1)) { Poly r=a; for (auto&t:b) paddm(r,t.first,t.second*f); return r; }
static Poly pscale(const Poly&a,const Q&f) { Poly r; if (f==0) return r; for (auto&t:a) r.emplace_hint(r.end(),t.first,t.second*f); return r; }
// atoms
enum AK { A_INPUT, A_SQRT, A_COS, A_SIN, A_OTHER };
struct BX; struct Rat;
struct Atom { AK kind; std::string name; Poly rad; /*SQRT: s^2=rad*/ int partner=-1; /*COS: sin var*/ Q lo,hi; bool hasB=false; int occ=0; bool isInt=false; int bw=0; Z3_ast z=nullptr; std::vector<int> deps; int fn=0; Rat *arg=nullptr,*arg2=nullptr; double initial=0; };
static std::vector<Atom> atoms;
static Poly pmulRaw(const Poly&a,const Poly&b) { Poly r; for (auto&x:a) for (auto&y:b) paddm(r,mmul(x.first,y.first),x.second*y.second); return r; }
static bool reducible(const Poly&p,int&v) { for (auto&t:p) for (uint32_t x:t.first) if ((x&255)>=2) { AK k=atoms[x>>8].kind; if (k==A_SQRT||k==A_COS) { v=x>>8; return true; } } return false; }
static Poly preduce(Poly p) { int v; while (reducible(p,v)) { Poly r; Poly rep; if (atoms[v].kind==A_SQRT) rep=atoms[v].rad; else { rep=pconst(1); Poly s=pvar(atoms[v].partner); rep=padd(rep,pmulRaw(s,s),Q(-1)); }
    for (auto&t:p) { int e=0; Mono m; for (uint32_t x:t.first) { if ((int)(x>>8)==v) { e=x&255; if (e&1) m.push_back((x&~255u)|1); } else m.push_back(x); }
      if (e<2) { paddm(r,t.first,t.second); continue; } Poly q; q[m]=t.second; for (int i=0;i<e/2;++i) q=pmulRaw(q,rep); for (auto&u:q) paddm(r,u.first,u.second); }
    p=r; } return p; }
static size_t polyLimit=60000;
[[noreturn]] static void endPath(EndKind k,const char*why=nullptr);
static void noteUnsup(const char*w);
static Poly pmul(const Poly&a,const Poly&b) { if (a.empty()||b.empty()) return Poly(); if (a.size()*b.size()>4*polyLimit) { noteUnsup("polynomial too large"); endPath(END_UNSUP); } Poly r=preduce(pmulRaw(a,b)); if (r.size()>polyLimit) { noteUnsup("polynomial too large"); endPath(END_UNSUP);} return r; }
static bool pdivExact(const Poly&a,const Poly&b,Poly&q) { q.clear(); if (b.empty()) return false; Poly r=a; const Mono lm=b.begin()->first; const Q lc=b.begin()->second; Mono m; size_t it=0; while (!r.empty()) { if (!mdiv(r.begin()->first,lm,m)) return false; Q c=r.begin()->second/lc; q[m]=c; for (auto&t:b) paddm(r,mmul(t.first,m),-c*t.second); if (++it>4000) return false; } return true; }
// canonical: primitive integer, positive leading coeff. returns content c (p = c*prim)
static Q pcanon(Poly&p) { if (p.empty()) return 0; Z g=0,l=1; for (auto&t:p) { mpz_gcd(g.get_mpz_t(),g.get_mpz_t(),t.second.get_num_mpz_t()); mpz_lcm(l.get_mpz_t(),l.get_mpz_t(),t.second.get_den_mpz_t()); } Q c(g,l); c.canonicalize(); if (p.begin()->second<0) c=-c; for (auto&t:p) t.second/=c; return c; }
static std::string pstr(const Poly&p) { std::string s; for (auto&t:p) { s+=t.second.get_str(); for (uint32_t x:t.first) { s+='*'; s+=std::to_string(x>>8); s+='^'; s+=std::to_string(x&255);} s+=' '; } return s; }
static void pvars(const Poly&p,std::vector<int>&v) { for (auto&t:p) for (uint32_t x:t.first) v.push_back(x>>8); std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); }
struct PolyT { Poly p; std::string key; std::vector<int> vars; Z3_ast z=nullptr; int deg=0; };
static std::vector<PolyT*> ptab; static std::unordered_map<std::string,int> pidx;
static int intern(const Poly&p) { std::string k=pstr(p); auto it=pidx.find(k); if (it!=pidx.end()) return it->second; PolyT*t=new PolyT; t->p=p; t->key=k; pvars(p,t->vars); t->deg=p.empty()?0:mdeg(p.begin()->first); ptab.push_back(t); pidx[k]=ptab.size()-1; return ptab.size()-1; }
// perfect square test: p = q^2 ?
static bool psqrt(const Poly&p,Poly&q) { q.clear(); if (p.empty()) return true; Poly r=p; const Mono lm=p.begin()->first; const Q lc=p.begin()->second; if (lc<0) return false; Mono hm; for (uint32_t x:lm) { if (x&1) return false; hm.push_back((x&~255u)|((x&255)/2)); }
  Z n,d; if (!mpz_perfect_square_p(lc.get_num_mpz_t())||!mpz_perfect_square_p(lc.get_den_mpz_t())) return false; mpz_sqrt(n.get_mpz_t(),lc.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(),lc.get_den_mpz_t()); Q h(n,d); h.canonicalize();
  q[hm]=h; paddm(r,lm,-lc); size_t it=0; Mono m; while (!r.empty()) { if (!mdiv(r.begin()->first,hm,m)) return false; if (mcmp(m,hm)>=0) return false; Q c=r.begin()->second/(2*h); // r -= 2*c*m*q + c^2 m^2
    for (auto&t:q) paddm(r,mmul(t.first,m),-2*c*t.second); paddm(r,mmul(m,m),-c*c); q[m]=c; if (++it>400) return false; }
  return true; }

// ------------------------------------------------------------------ rational functions
struct Rat { Poly num; std::vector<std::pair<int,int>> den; };
static Rat rconst(const Q&q) { Rat r; r.num=pconst(q); return r; }
static bool rIsConst(const Rat&r) { return r.den.empty() && pIsConst(r.num); }
static void rcancel(Rat&r) { if (r.num.empty()) { r.den.clear(); return; } for (auto&f:r.den) { Poly q; while (f.second>0 && pdivExact(r.num,ptab[f.first]->p,q)) { r.num=q; f.second--; } } r.den.erase(std::remove_if(r.den.begin(),r.den.end(),[](std::pair<int,int>&x){return x.second==0;}),r.den.end()); }
static Poly denPoly(const std::vector<std::pair<int,int>>&d) { Poly p=pconst(1); for (auto&f:d) for (int i=0;i<f.second;++i) p=pmul(p,ptab[f.first]->p); return p; }
static Rat radd(const Rat&a,const Rat&b,int sg=1) { Rat r; if (a.den==b.den) { r.num=padd(a.num,b.num,Q(sg)); r.den=a.den; if (!r.den.empty()) rcancel(r); return r; }
  std::map<int,int> m; for (auto&f:a.den) m[f.first]=f.second; for (auto&f:b.den) m[f.first]=std::max(m[f.first],f.second);
  auto lift=[&](const Rat&x){ Poly p=x.num; std::map<int,int> k=m; for (auto&f:x.den) k[f.first]-=f.second; for (auto&f:k) for (int i=0;i<f.second;++i) p=pmul(p,ptab[f.first]->p); return p; };
  r.num=padd(lift(a),lift(b),Q(sg)); for (auto&f:m) r.den.push_back(f); rcancel(r); return r; }
static Rat rmul(const Rat&a,const Rat&b) { Rat x=a,y=b; // cross-cancel first
  auto cross=[&](Rat&n,Rat&d){ for (auto&f:d.den) { Poly q; while (f.second>0 && pdivExact(n.num,ptab[f.first]->p,q)) { n.num=q; f.second--; } } };
  if (!y.den.empty()) cross(x,y); if (!x.den.empty()) cross(y,x);
  Rat r; r.num=pmul(x.num,y.num); std::map<int,int> m; for (auto&f:x.den) if (f.second) m[f.first]+=f.second; for (auto&f:y.den) if (f.second) m[f.first]+=f.second; for (auto&f:m) r.den.push_back(f); if (!r.den.empty()) rcancel(r); return r; }
static Rat rneg(const Rat&a) { Rat r=a; r.num=pscale(a.num,Q(-1)); return r; }
static void addFactor(std::map<int,int>&m, Poly f, Q&content, int e) { // f^e into denominator
  Q c=pcanon(f); for (int i=0;i<e;++i) content*=c; if (pIsConst(f)) return;
  // monomial factors
  Mono g=f.begin()->first; for (auto&t:f) { Mono h; size_t j=0; for (uint32_t x:g) { while (j<t.first.size()&&(t.first[j]>>8)<(x>>8)) j++; if (j<t.first.size()&&(t.first[j]>>8)==(x>>8)) h.push_back((x&~255u)|std::min(x&255,t.first[j]&255)); } g=h; if (g.empty()) break; }
  if (!g.empty()) { Poly rest; for (auto&t:f) { Mono q; mdiv(t.first,g,q); rest[q]=t.second; } for (uint32_t x:g) m[intern(pvar(x>>8))]+=e*(int)(x&255); if (!pIsConst(rest)) m[intern(rest)]+=e; }
  else m[intern(f)]+=e; }
static Rat rdivNZ(const Rat&a,const Rat&b) { // b known nonzero
  Rat bi; bi.num=pconst(1); for (auto&f:b.den) for (int i=0;i<f.second;++i) bi.num=pmul(bi.num,ptab[f.first]->p);
  std::map<int,int> m; Q c=1; addFactor(m,b.num,c,1);
  // rationalise pure sqrt denominators: 1/s = s/rad
  std::vector<std::pair<int,int>> todo(m.begin(),m.end()); std::map<int,int> m2;
  for (auto&f:todo) { PolyT*t=ptab[f.first]; if (t->p.size()==1 && t->p.begin()->first.size()==1 && atoms[t->p.begin()->first[0]>>8].kind==A_SQRT) { int v=t->p.begin()->first[0]>>8; for (int i=0;i<f.second;++i) { bi.num=pmul(bi.num,pvar(v)); addFactor(m2,atoms[v].rad,c,1); } } else m2[f.first]+=f.second; }
  bi.num=pscale(bi.num,Q(1)/c); for (auto&f:m2) bi.den.push_back(f); rcancel(bi); return rmul(a,bi); }
static std::string rstr(const Rat&r) { std::string s=pstr(r.num); for (auto&f:r.den) s+="/"+std::to_string(f.first)+"^"+std::to_string(f.second); return s; }

// ------------------------------------------------------------------ z3
static Z3_context ctx; static Z3_sort sReal,sBool; static volatile int inCheck=0;
static volatile int idleTicks=0;   // seconds of CPU time since the last event of this path
static void onAlarm(int) { if (inCheck) Z3_interrupt(ctx); }
static bool zfail=false;
static void zerr(Z3_context c, Z3_error_code e) { zfail=true; fprintf(stderr,"z3 error: %s\n", Z3_get_error_msg(c,e)); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx,a); return a; }
static Z3_ast zq(const Q&q) { return keep(Z3_mk_numeral(ctx,q.get_str().c_str(),sReal)); }
static Z3_ast zatom(int v) { Atom&a=atoms[v]; if (!a.z) { std::string n="v"+std::to_string(v); Z3_sort s = a.bw? Z3_mk_bv_sort(ctx,a.bw):sReal; a.z=keep(Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n.c_str()),s)); } return a.z; }
static Z3_ast zpolyOf(const Poly&p) { std::vector<Z3_ast> ts; for (auto&t:p) { std::vector<Z3_ast> fs; if (t.second!=1||t.first.empty()) fs.push_back(zq(t.second)); for (uint32_t x:t.first) for (unsigned i=0;i<(x&255);++i) fs.push_back(zatom(x>>8)); ts.push_back(fs.size()==1?fs[0]:keep(Z3_mk_mul(ctx,fs.size(),fs.data()))); } if (ts.empty()) return zq(0); return ts.size()==1?ts[0]:keep(Z3_mk_add(ctx,ts.size(),ts.data())); }
static Z3_ast zpoly(int id) { PolyT*t=ptab[id]; if (!t->z) t->z=zpolyOf(t->p); return t->z; }

// ------------------------------------------------------------------ Boolean expressions
enum BK { B_CONST, B_ATOM, B_Z3, B_AND, B_OR, B_NOT, B_XOR };
struct BX { BK k; bool c; int poly; int mask; /*1:<0 2:=0 4:>0*/ Z3_ast z; BX *a,*b; std::vector<int> vars; };
static BX bTrue={B_CONST,true}, bFalse={B_CONST,false};
static std::vector<int> uni(const std::vector<int>&a,const std::vector<int>&b) { std::vector<int> r; std::set_union(a.begin(),a.end(),b.begin(),b.end(),std::back_inserter(r)); return r; }
static BX*bconst(bool c) { return c?&bTrue:&bFalse; }
static BX*batomP(int poly,int mask) { if (mask==7) return &bTrue; if (mask==0) return &bFalse; BX*b=new BX; b->k=B_ATOM; b->poly=poly; b->mask=mask; b->z=nullptr; b->a=b->b=nullptr; b->vars=ptab[poly]->vars; return b; }
static BX*bz3(Z3_ast z,const std::vector<int>&v) { BX*b=new BX; b->k=B_Z3; b->z=keep(z); b->a=b->b=nullptr; b->vars=v; return b; }
static BX*bnot(BX*x) { if (x->k==B_CONST) return bconst(!x->c); if (x->k==B_ATOM) return batomP(x->poly,7^x->mask); if (x->k==B_NOT) return x->a; BX*b=new BX; b->k=B_NOT; b->a=x; b->b=nullptr; b->z=nullptr; b->vars=x->vars; return b; }
static BX*bbin(BK k,BX*x,BX*y) {
  if (k==B_AND) { if (x->k==B_CONST) return x->c?y:x; if (y->k==B_CONST) return y->c?x:y; }
  if (k==B_OR) { if (x->k==B_CONST) return x->c?x:y; if (y->k==B_CONST) return y->c?y:x; }
  if (k==B_XOR) { if (x->k==B_CONST) return x->c?bnot(y):y; if (y->k==B_CONST) return y->c?bnot(x):x; }
  if (x->k==B_ATOM&&y->k==B_ATOM&&x->poly==y->poly) { if (k==B_AND) return batomP(x->poly,x->mask&y->mask); if (k==B_OR) return batomP(x->poly,x->mask|y->mask); }
  if (x==y) return k==B_XOR?&bFalse:x;
  BX*b=new BX; b->k=k; b->a=x; b->b=y; b->z=nullptr; b->vars=uni(x->vars,y->vars); return b; }
static Z3_ast zb(BX*b) { if (b->z) return b->z; Z3_ast r=nullptr; switch (b->k) { case B_CONST: r=b->c?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
  case B_ATOM: { Z3_ast p=zpoly(b->poly), z=zq(0); switch (b->mask) { case 1: r=Z3_mk_lt(ctx,p,z); break; case 2: r=Z3_mk_eq(ctx,p,z); break; case 3: r=Z3_mk_le(ctx,p,z); break; case 4: r=Z3_mk_gt(ctx,p,z); break; case 5: r=Z3_mk_not(ctx,Z3_mk_eq(ctx,p,z)); break; case 6: r=Z3_mk_ge(ctx,p,z); break; } break; }
  case B_NOT: r=Z3_mk_not(ctx,zb(b->a)); break; case B_AND: { Z3_ast v[2]={zb(b->a),zb(b->b)}; r=Z3_mk_and(ctx,2,v); break; } case B_OR: { Z3_ast v[2]={zb(b->a),zb(b->b)}; r=Z3_mk_or(ctx,2,v); break; } case B_XOR: r=Z3_mk_xor(ctx,zb(b->a),zb(b->b)); break; default: break; }
  b->z=keep(r); return b->z; }

// ------------------------------------------------------------------ expressions
enum EK { E_BOOL, E_BV, E_REAL };
struct Expr { EK k; int w; /*bits*/ BX*b; bool isC; uint64_t cv; Z3_ast z; Expr*boolSrc; std::vector<int> vars; Rat r; bool nn=false; };
static Expr*mkBool(BX*b) { Expr*e=new Expr; e->k=E_BOOL; e->w=1; e->b=b; e->isC=b->k==B_CONST; e->cv=e->isC&&b->c; e->z=nullptr; e->boolSrc=nullptr; e->vars=b->vars; return e; }
static uint64_t maskw(int w) { return w>=64?~0ull:((1ull<<w)-1); }
static Expr*mkBVc(uint64_t v,int w) { Expr*e=new Expr; e->k=E_BV; e->w=w; e->isC=true; e->cv=v&maskw(w); e->z=nullptr; e->boolSrc=nullptr; e->b=nullptr; return e; }
static Z3_ast zbv(Expr*e) { if (e->z) return e->z; if (e->isC) { e->z=keep(Z3_mk_unsigned_int64(ctx,e->cv,Z3_mk_bv_sort(ctx,e->w))); } else if (e->boolSrc) { Z3_sort s=Z3_mk_bv_sort(ctx,e->w); e->z=keep(Z3_mk_ite(ctx,zb(e->boolSrc->b),Z3_mk_unsigned_int64(ctx,1,s),Z3_mk_unsigned_int64(ctx,0,s))); } return e->z; }
static Expr*mkBVz(Z3_ast z,int w,const std::vector<int>&v) { z=keep(Z3_simplify(ctx,keep(z))); uint64_t c; if (Z3_is_numeral_ast(ctx,z) && Z3_get_numeral_uint64(ctx,z,&c)) return mkBVc(c,w); Expr*e=new Expr; e->k=E_BV; e->w=w; e->isC=false; e->z=z; e->boolSrc=nullptr; e->b=nullptr; e->vars=v; return e; }
static Expr*mkBoolZ(Z3_ast z,const std::vector<int>&v) { z=Z3_simplify(ctx,keep(z)); Z3_inc_ref(ctx,z); Z3_lbool l=Z3_get_bool_value(ctx,z); if (l!=Z3_L_UNDEF) return mkBool(bconst(l==Z3_L_TRUE)); return mkBool(bz3(z,v)); }
static Expr*mkReal(const Rat&r) { Expr*e=new Expr; e->k=E_REAL; e->w=64; e->r=r; e->isC=rIsConst(r); e->z=nullptr; e->boolSrc=nullptr; e->b=nullptr; return e; }
static std::vector<int> rvars(const Rat&r) { std::vector<int> v; pvars(r.num,v); for (auto&f:r.den) v=uni(v,ptab[f.first]->vars); return v; }

// ------------------------------------------------------------------ path state
static std::vector<BX*> pc; static std::unordered_map<int,int> known; // poly -> possible sign mask
static std::vector<Q> model; static std::vector<char> modelExact; static bool modelValid=true;
static std::map<std::string,int> occ;
static const char*siteName(unsigned s) { return s<__vs_nsites?__vs_sites[s]:"?"; }
static void noteUnsup(const char*w) { lockS(); int i; for (i=0;i<S->nuns;++i) if (!strncmp(S->uns[i],w,199)) break; if (i==S->nuns && i<40) { strncpy(S->uns[i],w,199); S->nuns=i+1; } if (i<40) S->unsc[i]++; unlockS(); if (verbose) fprintf(stderr,"[%d] unsupported: %s\n",getpid(),w); }

static long double evalL(int v); static std::unordered_map<int,long double> evCache;
static long double polyL(const Poly&p) { long double s=0; for (auto&t:p) { long double x=mpq_get_d(t.second.get_mpq_t()); for (uint32_t m:t.first) { long double b=evalL(m>>8); for (unsigned i=0;i<(m&255);++i) x*=b; } s+=x; } return s; }
static long double polyAbsL(const Poly&p) { long double s=0; for (auto&t:p) { long double x=mpq_get_d(t.second.get_mpq_t()); for (uint32_t m:t.first) { long double b=evalL(m>>8); for (unsigned i=0;i<(m&255);++i) x*=b; } s+=fabsl(x); } return s; }
static long double ratL(const Rat&r) { long double n=polyL(r.num); for (auto&f:r.den) for (int i=0;i<f.second;++i) n/=polyL(ptab[f.first]->p); return n; }
static long double fnL(int fn,long double a,long double b) { switch (fn) { case 1: return sqrtl(a<0&&a>-1e-15L?0:a); case 3: return sinl(a); case 4: return cosl(a); case 5: return acosl(a>1?1:a<-1?-1:a); case 6: return atan2l(a,b); case 7: return tanl(a); case 8: return asinl(a); case 9: return atanl(a); case 11: return expl(a); case 12: return logl(a); case 13: return floorl(a); default: return NAN; } }
static long double evalL(int v) { Atom&a=atoms[v]; if (a.kind==A_INPUT) return mpq_get_d(model[v].get_mpq_t()); auto it=evCache.find(v); if (it!=evCache.end()) return it->second; long double r; if (a.kind==A_SQRT) r=fnL(1,polyL(a.rad),0); else r=fnL(a.fn,a.arg?ratL(*a.arg):0,a.arg2?ratL(*a.arg2):0); evCache[v]=r; return r; }
static bool onlyInputs(const std::vector<int>&v) { for (int x:v) if (atoms[x].kind!=A_INPUT || !modelExact[x]) return false; return true; }
static Q polyQ(const Poly&p) { Q s=0; for (auto&t:p) { Q x=t.second; for (uint32_t m:t.first) for (unsigned i=0;i<(m&255);++i) x*=model[m>>8]; s+=x; } return s; }
// sign of poly under the model: -1,0,1; 2 = uncertain
static int polySign(int id) { PolyT*t=ptab[id]; if (onlyInputs(t->vars)) { Q q=polyQ(t->p); return sgn(q); } long double x=polyL(t->p); if (std::isnan(x)) return 2; if (fabsl(x)<1e-9L*(1e-3L+polyAbsL(t->p))) return 2; return x<0?-1:1; }
static Z3_model buildEvalModel() { Z3_model m=Z3_mk_model(ctx); Z3_model_inc_ref(ctx,m); for (size_t i=0;i<atoms.size();++i) if (atoms[i].kind==A_INPUT && atoms[i].z) { Z3_ast v; if (atoms[i].bw) v=Z3_mk_numeral(ctx,model[i].get_num().get_str().c_str(),Z3_mk_bv_sort(ctx,atoms[i].bw)); else v=zq(model[i]); Z3_func_decl d=Z3_get_app_decl(ctx,Z3_to_app(ctx,atoms[i].z)); Z3_add_const_interp(ctx,m,d,v); } return m; }
// truth of b under the model: 0,1, 2 uncertain
static int bEval(BX*b) { switch (b->k) { case B_CONST: return b->c; case B_ATOM: { int s=polySign(b->poly); if (s==2) return 2; int bit=s<0?1:s==0?2:4; return (b->mask&bit)?1:0; }
  case B_NOT: { int x=bEval(b->a); return x==2?2:1-x; } case B_AND: { int x=bEval(b->a),y=bEval(b->b); if (x==0||y==0) return 0; return x==2||y==2?2:1; } case B_OR: { int x=bEval(b->a),y=bEval(b->b); if (x==1||y==1) return 1; return x==2||y==2?2:0; } case B_XOR: { int x=bEval(b->a),y=bEval(b->b); return x==2||y==2?2:(x^y); }
  case B_Z3: { if (!onlyInputs(b->vars)) return 2; Z3_model m=buildEvalModel(); Z3_ast o=nullptr; int r=2; if (Z3_model_eval(ctx,m,b->z,true,&o)) { Z3_inc_ref(ctx,o); Z3_lbool l=Z3_get_bool_value(ctx,o); r=l==Z3_L_TRUE?1:l==Z3_L_FALSE?0:2; Z3_dec_ref(ctx,o);} Z3_model_dec_ref(ctx,m); return r; } } return 2; }

enum Res { UNSAT, SAT, UNK }; static int soleAtom(const Rat&);
static void closeVars(std::set<int>&vs) { std::vector<int> st(vs.begin(),vs.end()); while (!st.empty()) { int v=st.back(); st.pop_back(); for (int d:atoms[v].deps) if (vs.insert(d).second) st.push_back(d); } }
static bool isLinear(BX*b) { if (b->k==B_ATOM) return ptab[b->poly]->deg<=1; if (b->k==B_CONST) return true; if (b->k==B_Z3) return false; return isLinear(b->a)&&(!b->b||isLinear(b->b)); }
static Z3_ast zrat(const Rat&r) { Z3_ast n=zpolyOf(r.num); if (r.den.empty()) return n; return keep(Z3_mk_div(ctx,n,zpolyOf(denPoly(r.den)))); }
// linear abstraction: every monomial is an independent real (with its range and, for even powers, its sign); unsatisfiable means the original is
static bool monoRange(const Mono&,Q&,Q&); static bool hasZ3(BX*b) { if (b->k==B_Z3) return true; if (b->k==B_ATOM||b->k==B_CONST) return false; return hasZ3(b->a)||(b->b&&hasZ3(b->b)); }
static std::map<Mono,Z3_ast> linMono; static Z3_ast zlinMono(const Mono&m,std::set<Mono>&used) { used.insert(m); auto it=linMono.find(m); if (it!=linMono.end()) return it->second; std::string n="m"+std::to_string(linMono.size()); return linMono[m]=keep(Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n.c_str()),sReal)); }
static Z3_ast zlin(BX*b,std::set<Mono>&used) { switch (b->k) { case B_CONST: return b->c?Z3_mk_true(ctx):Z3_mk_false(ctx);
  case B_ATOM: { std::vector<Z3_ast> ts; for (auto&t:ptab[b->poly]->p) { if (t.first.empty()) { ts.push_back(zq(t.second)); continue; } Z3_ast f[2]={zq(t.second),zlinMono(t.first,used)}; ts.push_back(keep(Z3_mk_mul(ctx,2,f))); } if (ts.empty()) ts.push_back(zq(0)); Z3_ast p=ts.size()==1?ts[0]:keep(Z3_mk_add(ctx,ts.size(),ts.data())), z=zq(0); switch (b->mask) { case 1: return keep(Z3_mk_lt(ctx,p,z)); case 2: return keep(Z3_mk_eq(ctx,p,z)); case 3: return keep(Z3_mk_le(ctx,p,z)); case 4: return keep(Z3_mk_gt(ctx,p,z)); case 5: return keep(Z3_mk_not(ctx,Z3_mk_eq(ctx,p,z))); case 6: return keep(Z3_mk_ge(ctx,p,z)); } return Z3_mk_true(ctx); }
  case B_NOT: return keep(Z3_mk_not(ctx,zlin(b->a,used))); case B_AND: { Z3_ast v[2]={zlin(b->a,used),zlin(b->b,used)}; return keep(Z3_mk_and(ctx,2,v)); } case B_OR: { Z3_ast v[2]={zlin(b->a,used),zlin(b->b,used)}; return keep(Z3_mk_or(ctx,2,v)); } case B_XOR: return keep(Z3_mk_xor(ctx,zlin(b->a,used),zlin(b->b,used))); default: return Z3_mk_true(ctx); } }
static bool linUnsat(const std::vector<BX*>&a,const std::vector<BX*>&b) { Z3_solver s=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,s); Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),300000u); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p); std::set<Mono> used;
  for (BX*x:a) if (!hasZ3(x)) Z3_solver_assert(ctx,s,zlin(x,used)); for (BX*x:b) if (!hasZ3(x)) Z3_solver_assert(ctx,s,zlin(x,used));
  for (const Mono&m:used) { Q lo,hi; if (monoRange(m,lo,hi)) { Z3_solver_assert(ctx,s,keep(Z3_mk_ge(ctx,linMono[m],zq(lo)))); Z3_solver_assert(ctx,s,keep(Z3_mk_le(ctx,linMono[m],zq(hi)))); } else { bool even=true; for (uint32_t x:m) if ((x&1)&&atoms[x>>8].kind!=A_SQRT) even=false; if (even) Z3_solver_assert(ctx,s,keep(Z3_mk_ge(ctx,linMono[m],zq(0)))); } }
  Z3_lbool r=Z3_solver_check(ctx,s); Z3_solver_dec_ref(ctx,s); return r==Z3_L_FALSE; }
struct Fix { int v; Q q; };
static Res check(const std::vector<BX*>&extra, long rl, int ms, bool updateModel, bool usePC=true, const std::vector<Fix>*fix=nullptr) { idleTicks=0;
  double t0=now(); INC(queries); zfail=false;
  std::set<int> vs; for (BX*b:extra) vs.insert(b->vars.begin(),b->vars.end()); closeVars(vs);
  std::vector<BX*> cs; std::vector<char> used(pc.size(),0); bool ch=true;
  if (usePC) while (ch) { ch=false; for (size_t i=0;i<pc.size();++i) if (!used[i]) { bool hit=extra.empty(); if (!hit) { std::set<int> cv(pc[i]->vars.begin(),pc[i]->vars.end()); closeVars(cv); for (int v:cv) if (vs.count(v)) { hit=true; break; } } if (hit) { used[i]=1; cs.push_back(pc[i]); size_t n=vs.size(); vs.insert(pc[i]->vars.begin(),pc[i]->vars.end()); closeVars(vs); if (vs.size()!=n) ch=true; } } if (extra.empty()) break; }
  // derived atoms whose dependencies intersect are only needed when they occur
  bool lin=true, bv=false, hasReal=false; for (BX*b:cs) lin&=isLinear(b); for (BX*b:extra) lin&=isLinear(b); for (int v:vs) { if (atoms[v].bw) bv=true; else hasReal=true; if (atoms[v].kind!=A_INPUT) lin=false; }
  if (!bv&&!lin&&!fix&&linUnsat(cs,extra)) { double dt=now()-t0; __sync_fetch_and_add(&S->solver_us,(long long)(dt*1e6)); return UNSAT; }
  Z3_solver s; Z3_tactic tac=nullptr;
  if (bv || lin) s=Z3_mk_simple_solver(ctx); else { tac=Z3_mk_tactic(ctx,"qfnra-nlsat"); Z3_tactic_inc_ref(ctx,tac); s=Z3_mk_solver_from_tactic(ctx,tac); }
  (void)hasReal;
  Z3_solver_inc_ref(ctx,s);
  Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),(unsigned)rl); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p);
  for (int v:vs) { Atom&a=atoms[v]; Z3_ast z=zatom(v);
    if (a.hasB) { if (a.bw) { Z3_sort so=Z3_mk_bv_sort(ctx,a.bw); Z3_solver_assert(ctx,s,Z3_mk_bvsge(ctx,z,Z3_mk_numeral(ctx,a.lo.get_str().c_str(),so))); Z3_solver_assert(ctx,s,Z3_mk_bvsle(ctx,z,Z3_mk_numeral(ctx,a.hi.get_str().c_str(),so))); }
      else { Z3_solver_assert(ctx,s,Z3_mk_ge(ctx,z,zq(a.lo))); Z3_solver_assert(ctx,s,Z3_mk_le(ctx,z,zq(a.hi))); } }
    if (a.kind==A_SQRT) { Z3_ast zz[2]={z,z}; Z3_solver_assert(ctx,s,Z3_mk_ge(ctx,z,zq(0))); Z3_solver_assert(ctx,s,Z3_mk_eq(ctx,Z3_mk_mul(ctx,2,zz),zpolyOf(a.rad))); }
    if (a.kind==A_COS) { Z3_ast y=zatom(a.partner); Z3_ast zz[2]={z,z},yy[2]={y,y}; Z3_ast sum[2]={Z3_mk_mul(ctx,2,zz),Z3_mk_mul(ctx,2,yy)}; Z3_solver_assert(ctx,s,Z3_mk_eq(ctx,Z3_mk_add(ctx,2,sum),zq(1))); }
  }
  if (fix) for (auto&f:*fix) if (vs.count(f.v)) { Z3_ast val=atoms[f.v].bw?Z3_mk_numeral(ctx,f.q.get_str().c_str(),Z3_mk_bv_sort(ctx,atoms[f.v].bw)):zq(f.q); Z3_solver_assert(ctx,s,Z3_mk_eq(ctx,zatom(f.v),val)); }
  for (BX*b:cs) Z3_solver_assert(ctx,s,zb(b)); for (BX*b:extra) Z3_solver_assert(ctx,s,zb(b));
  itimerval it={{0,0},{ms/1000,(ms%1000)*1000}}; inCheck=1; setitimer(ITIMER_REAL,&it,nullptr);
  Z3_lbool r=Z3_solver_check(ctx,s);
  itimerval z0={{0,0},{0,0}}; setitimer(ITIMER_REAL,&z0,nullptr); inCheck=0;
  Res res=r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNK; if (zfail) res=UNK;
  if (res==SAT && updateModel) { Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
    for (int v:vs) if (atoms[v].kind==A_INPUT) { Z3_ast o=nullptr; if (!Z3_model_eval(ctx,m,zatom(v),true,&o)) continue; Z3_inc_ref(ctx,o);
      if (atoms[v].bw) { uint64_t u=0; Z3_get_numeral_uint64(ctx,o,&u); if (atoms[v].bw<64 && (u>>(atoms[v].bw-1)&1)) model[v]=Q(Z((long)(int64_t)(u|~maskw(atoms[v].bw)))); else model[v]=Q(Z((long)u)); modelExact[v]=1; }
      else if (Z3_is_numeral_ast(ctx,o)) { model[v]=Q(Z3_get_numeral_string(ctx,o)); model[v].canonicalize(); modelExact[v]=1; }
      else if (Z3_is_algebraic_number(ctx,o)) { Z3_ast l=Z3_get_algebraic_number_lower(ctx,o,15); Z3_inc_ref(ctx,l); model[v]=Q(Z3_get_numeral_string(ctx,l)); model[v].canonicalize(); modelExact[v]=0; }
      Z3_dec_ref(ctx,o); }
    // angles: recover the input from the solver's sine/cosine pair
    for (int v:vs) if (atoms[v].kind==A_COS&&atoms[v].partner>=0) { int in=soleAtom(*atoms[v].arg); if (in<0||atoms[in].kind!=A_INPUT) continue; double sc[2]; int w[2]={atoms[v].partner,v}; for (int i=0;i<2;++i) { Z3_ast o=nullptr; Z3_model_eval(ctx,m,zatom(w[i]),true,&o); if (o&&Z3_is_algebraic_number(ctx,o)&&!Z3_is_numeral_ast(ctx,o)) o=Z3_get_algebraic_number_lower(ctx,o,15); if (o&&Z3_is_numeral_ast(ctx,o)) { Q q(Z3_get_numeral_string(ctx,o)); sc[i]=mpq_get_d(q.get_mpq_t()); } else sc[i]=0; } model[in]=Q(std::atan2(sc[0],sc[1])); modelExact[in]=0; }
    Z3_model_dec_ref(ctx,m); evCache.clear(); }
  Z3_solver_dec_ref(ctx,s); if (tac) Z3_tactic_dec_ref(ctx,tac);
  double dt=now()-t0; __sync_fetch_and_add(&S->solver_us,(long long)(dt*1e6)); if (dt>2) INC(hard);
  if (verbose && dt>0.5) { fprintf(stderr,"[%d] query %.2fs res=%d vars=%zu cs=%zu lin=%d\n",getpid(),dt,res,vs.size(),cs.size(),lin); }
  return res; }

// sign knowledge: per polynomial, plus an interval for every polynomial without its constant term (so that p>1/16 also decides p>0)
struct Ivl { bool hl=false,hh=false,sl=false,sh=false; Q lo,hi; };
static std::unordered_map<int,Ivl> ivl; static std::unordered_map<int,std::pair<int,Q>> baseCache;
static const std::pair<int,Q>&baseOf(int pid) { auto it=baseCache.find(pid); if (it!=baseCache.end()) return it->second; Poly q=ptab[pid]->p; Q c0=0; auto ct=q.find(Mono()); if (ct!=q.end()) { c0=ct->second; q.erase(ct); } int b=-1; Q c=0; if (!q.empty()) { Q k=pcanon(q); if (k>0) { b=intern(q); c=c0/k; } } return baseCache[pid]=std::make_pair(b,c); }
static void setKnown(int pid,int mask) { auto it=known.find(pid); int k=it==known.end()?7:it->second; if (k&mask) known[pid]=k&mask; auto bc=baseOf(pid); if (bc.first<0) return; Ivl&v=ivl[bc.first]; Q t=-bc.second;
  if (!(mask&1)) { bool st=!(mask&2); if (!v.hl||t>v.lo||(t==v.lo&&st)) { v.hl=true; v.lo=t; v.sl=st; } } if (!(mask&4)) { bool st=!(mask&2); if (!v.hh||t<v.hi||(t==v.hi&&st)) { v.hh=true; v.hi=t; v.sh=st; } } }
static bool monoRange(const Mono&m,Q&lo,Q&hi) { lo=1; hi=1; for (uint32_t x:m) { int a=x>>8; Q l,h; if (atoms[a].kind==A_INPUT&&atoms[a].hasB) { l=atoms[a].lo; h=atoms[a].hi; } else return false; int e=x&255; Q pl=1,ph=1; for (int i=0;i<e;++i) { pl*=l; ph*=h; } Q a1,b1; if (e%2==0) { if (l>=0) { a1=pl; b1=ph; } else if (h<=0) { a1=ph; b1=pl; } else { a1=0; b1=pl>ph?pl:ph; } } else { a1=pl; b1=ph; }
    Q c[4]={lo*a1,lo*b1,hi*a1,hi*b1}; lo=c[0]; hi=c[0]; for (int i=1;i<4;++i) { if (c[i]<lo) lo=c[i]; if (c[i]>hi) hi=c[i]; } } return true; }
static std::unordered_map<int,int> rangeCache;
static int rangeMask(int pid) { auto it=rangeCache.find(pid); if (it!=rangeCache.end()) return it->second; int r=7; const Poly&p=ptab[pid]->p; if (p.size()<=40) { Q lo=0,hi=0; bool ok=true; for (auto&t:p) { Q l,h; if (!monoRange(t.first,l,h)) { ok=false; break; } if (t.second>0) { lo+=t.second*l; hi+=t.second*h; } else { lo+=t.second*h; hi+=t.second*l; } } if (ok) { if (lo>0) r=4; else if (lo==0) r=6; if (hi<0) r&=1; else if (hi==0) r&=3; if (!r) r=2; } } return rangeCache[pid]=r; }
static int knownOf(int pid) { auto it=known.find(pid); int k=it==known.end()?7:it->second; k=(k&rangeMask(pid))?k&rangeMask(pid):k; auto bc=baseOf(pid); if (bc.first<0) return k; auto iv=ivl.find(bc.first); if (iv==ivl.end()) return k; Ivl&v=iv->second; Q t=-bc.second; int m=7; if (v.hl) { if (v.lo>t||(v.lo==t&&v.sl)) m&=4; else if (v.lo==t) m&=6; } if (v.hh) { if (v.hi<t||(v.hi==t&&v.sh)) m&=1; else if (v.hi==t) m&=3; } return (k&m)?k&m:k; }
static void addPC(BX*b) { if (b->k==B_CONST) return; if (b->k==B_AND) { addPC(b->a); addPC(b->b); return; } if (b->k==B_NOT && b->a->k==B_OR) { addPC(bnot(b->a->a)); addPC(bnot(b->a->b)); return; }
  if (b->k==B_ATOM) { int k=knownOf(b->poly); if ((k&b->mask)==k) return; setKnown(b->poly,b->mask); }
  pc.push_back(b); if ((long)pc.size()>S->maxpc) S->maxpc=pc.size(); }
static void learn(BX*b) { if (b->k==B_ATOM) setKnown(b->poly,b->mask); }

// ------------------------------------------------------------------ candidates / path end
static std::string qdec(const Q&q) { char b[64]; snprintf(b,sizeof b,"%.17g",mpq_get_d(q.get_mpq_t())); return b; }
static void writeInputs(FILE*f) { for (size_t i=0;i<atoms.size();++i) if (atoms[i].kind==A_INPUT) fprintf(f,"%s#%d=%s\n",atoms[i].name.c_str(),atoms[i].occ,atoms[i].bw?model[i].get_num().get_str().c_str():qdec(model[i]).c_str()); }
static void dump(const char*kind,long n,const char*msg) { char fn[512]; snprintf(fn,sizeof fn,"%s/%s_%s_%ld.in",outdir,curH,kind,n); FILE*f=fopen(fn,"w"); if (!f) return; fprintf(f,"# harness: %s\n# %s: %s\n",curH,kind,msg); writeInputs(f); fclose(f); }
static MsgStat*mstat(const char*m) { char b[160]; strncpy(b,m,159); b[159]=0; for (int i=0;i<S->nmsg;++i) if (!strcmp(S->msgs[i].msg,b)) return &S->msgs[i]; lockS(); int i; for (i=0;i<S->nmsg;++i) if (!strcmp(S->msgs[i].msg,b)) break; if (i==S->nmsg) { if (i<399) { strcpy(S->msgs[i].msg,b); S->nmsg=i+1; } else i=399; } unlockS(); return &S->msgs[i]; }
static void candidate(const char*msg) { MsgStat*m=mstat(msg); long k=__sync_fetch_and_add(&m->cand,1); if (k<6) { long n=INC(candidates); dump("cand",n,msg); } }
static bool ensureModel() { if (modelValid) return true; Res r=check({},rlAssert,msAssert,true); if (r==SAT) { modelValid=true; return true; } return false; }
static bool inEnd=false; static long pathsHere=0; static bool holdsToken=false;
static void cleanTmp() { if (tmpd[0] && tmpOwner==getpid()) { char c[128]; snprintf(c,sizeof c,"rm -rf %s",tmpd); if (chdir("/")) {} if (system(c)) {} tmpd[0]=0; } }
[[noreturn]] static void endPath(EndKind k,const char*why) { inEnd=true; __sync_fetch_and_add(&S->ends[k],1); if (why&&verbose) fprintf(stderr,"[%d] end %s %s\n",getpid(),endName[k],why);
  if (k==END_DONE||k==END_UNSUP||k==END_CUT) { if (modelValid) { long n=INC(witnesses); bool w=false; for (long p=1;;p*=2) { if (n<12||n==p) { w=true; break; } if (p>n) break; } if (k==END_UNSUP||k==END_CUT) w|= n<60; if (w) { char kk[40]; snprintf(kk,sizeof kk,"wit-%s",endName[k]); dump(kk,n,endName[k]); } } else INC(modelless); }
  cleanTmp(); if (holdsToken) __sync_fetch_and_add(&S->tokens,1); _exit(0); }
static void onCrash(int s) { if (inEnd) _exit(1); inEnd=true; char b[64]; snprintf(b,sizeof b,"crash: signal %d",s); candidate(b); signal(s,SIG_DFL); __sync_fetch_and_add(&S->ends[END_CRASH],1); cleanTmp(); if (holdsToken) __sync_fetch_and_add(&S->tokens,1); _exit(0); }
static void budget() { if (S->stop || now()>deadline || S->paths>maxPaths) { endPath(END_CUT); } }
static void onTerm(int) { }
// a path that runs on without ever reaching the solver, a check or an input again: report it as not terminating (replay decides)
static void onProf(int) { if (inCheck||inEnd) { idleTicks=0; return; } if (++idleTicks<(tier?150:25)) return; inEnd=true; if (modelValid) candidate("no termination"); __sync_fetch_and_add(&S->ends[END_CUT],1); cleanTmp(); if (holdsToken) __sync_fetch_and_add(&S->tokens,1); _exit(0); }
static void armProf() { idleTicks=0; itimerval t; t.it_interval.tv_sec=t.it_value.tv_sec=1; t.it_interval.tv_usec=t.it_value.tv_usec=0; setitimer(ITIMER_PROF,&t,nullptr); }
// files of the scratch directory that are open while a path splits: the new path continues with its own copy
struct OpenFile { int fd,flags; off_t off; std::string rel; };
static std::vector<OpenFile> openFiles() { std::vector<OpenFile> v; DIR*d=opendir("/proc/self/fd"); if (!d) return v; std::string pre=std::string(tmpd)+"/"; while (dirent*e=readdir(d)) { char b[600]; ssize_t n=readlinkat(dirfd(d),e->d_name,b,sizeof b-1); if (n<=0) continue; b[n]=0; if (strncmp(b,pre.c_str(),pre.size())) continue; OpenFile o; o.fd=atoi(e->d_name); o.flags=fcntl(o.fd,F_GETFL)&~(O_CREAT|O_TRUNC|O_EXCL); o.off=lseek(o.fd,0,SEEK_CUR); o.rel=b+pre.size(); v.push_back(o); } closedir(d); return v; }
static void reopen(const std::vector<OpenFile>&v) { for (auto&o:v) { int f=open(o.rel.c_str(),o.flags); if (f<0) endPath(END_UNSUP,"no scratch file"); lseek(f,o.off,SEEK_SET); dup2(f,o.fd); close(f); } }
// fork: returns true in the child
static bool doFork() { idleTicks=0; INC(forks); INC(paths); budget();
  bool par=false; long t; while ((t=S->tokens)>0) if (__sync_bool_compare_and_swap(&S->tokens,t,t-1)) { par=true; break; }
  fflush(stdout); fflush(stderr);
  // scratch files belong to the path: the new path gets a copy of the directory, and is in it
  char nd[64]; nd[0]=0; if (tmpd[0]&&tmpOwner==getpid()) { char c[192]; strcpy(nd,"/tmp/vssymXXXXXX"); if (!mkdtemp(nd)) endPath(END_UNSUP,"no scratch directory"); snprintf(c,sizeof c,"cp -a %s/. %s",tmpd,nd); if (system(c)) endPath(END_UNSUP,"no scratch directory"); }
  std::vector<OpenFile> of; if (nd[0]) of=openFiles();
  pid_t p=fork(); if (p<0) { if (par) __sync_fetch_and_add(&S->tokens,1); endPath(END_CUT,"fork failed"); }
  if (p==0) { armProf(); holdsToken=par; tmpd[0]=0; if (nd[0]) { strcpy(tmpd,nd); tmpOwner=getpid(); if (chdir(nd)) endPath(END_UNSUP,"no scratch directory"); reopen(of); } return true; }
  if (!par) { int st; while (waitpid(p,&st,0)<0 && errno==EINTR) {} if (WIFSIGNALED(st)) { INC(ends[END_CRASH]); } }
  return false; }

// known-sign lookup; returns 0/1 decided, 2 open
static int quick(BX*b) { switch (b->k) { case B_CONST: return b->c; case B_ATOM: { int k=knownOf(b->poly); if ((k&b->mask)==k) return 1; if (!(k&b->mask)) return 0; return 2; }
  case B_NOT: { int x=quick(b->a); return x==2?2:1-x; } case B_AND: { int x=quick(b->a); if (!x) return 0; int y=quick(b->b); if (!y) return 0; return x==1&&y==1?1:2; } case B_OR: { int x=quick(b->a); if (x==1) return 1; int y=quick(b->b); if (y==1) return 1; return x==0&&y==0?0:2; } default: return 2; } }
static BX*narrow(BX*b) { if (b->k==B_ATOM) { int m=b->mask&knownOf(b->poly); if (m&&m!=b->mask) return batomP(b->poly,m); } return b; }
static long siteFork=-1;
static bool decide(BX*b) {
  int q=quick(b); if (q!=2) return q; budget();
  BX*nb=bnot(b); b=narrow(b); nb=narrow(nb);
  int cur=modelValid?bEval(b):2;
  if (cur==2) { // no usable model side: ask for both
    std::vector<Q> m0=model; std::vector<char> e0=modelExact; bool mv0=modelValid;
    Res r1=check({b},rlBranch,msBranch,true); if (r1==UNSAT) { learn(nb); model=m0; modelExact=e0; evCache.clear(); modelValid=mv0; return false; }
    std::vector<Q> m1=model; std::vector<char> e1=modelExact; model=m0; modelExact=e0; evCache.clear();
    Res r2=check({nb},rlBranch,msBranch,true); if (r2==UNSAT) { learn(b); if (r1==SAT) { model=m1; modelExact=e1; } else { model=m0; modelExact=e0; } modelValid=mv0; evCache.clear(); return true; }
    if (r1==UNK||r2==UNK) INC(unknownBranch);
    std::vector<Q> m2=model; std::vector<char> e2=modelExact; if (siteFork>=0&&siteFork<nsitesAlloc) __sync_fetch_and_add(&S->siteForks[siteFork],1);
    // a slice model only validates the whole path condition when the rest was valid before
    if (doFork()) { addPC(nb); model=m2; modelExact=e2; evCache.clear(); modelValid=mv0&&r2==SAT; return false; }
    addPC(b); model=m1; modelExact=e1; evCache.clear(); modelValid=mv0&&r1==SAT; return true; }
  BX*other=cur?nb:b; std::vector<Q> m0=model; std::vector<char> e0=modelExact;
  Res r=check({other},rlBranch,msBranch,true);
  if (r==UNSAT) { learn(cur?b:nb); return cur; }
  if (r==UNK) INC(unknownBranch);
  std::vector<Q> m2=model; std::vector<char> e2=modelExact; if (siteFork>=0&&siteFork<nsitesAlloc) __sync_fetch_and_add(&S->siteForks[siteFork],1);
  if (doFork()) { addPC(other); model=m2; modelExact=e2; evCache.clear(); modelValid=r==SAT; return !cur; }
  model=m0; modelExact=e0; evCache.clear(); addPC(cur?b:nb); return cur; }

// ------------------------------------------------------------------ building conditions on reals
static BX*atomOf(const Rat&r,int mask) { if (pIsConst(r.num)&&r.den.empty()) { int s=sgn(pC(r.num)); return bconst(mask&(s<0?1:s==0?2:4)); }
  Poly n=r.num; bool flip=false; if (mask!=2&&mask!=5) for (auto&f:r.den) if (f.second&1) { int k=knownOf(f.first); k&=5; if (k==4) continue; if (k==1) { flip=!flip; continue; } n=pmul(n,ptab[f.first]->p); }
  if (pIsConst(n)) { int s=sgn(pC(n)); if (flip) s=-s; return bconst(mask&(s<0?1:s==0?2:4)); }
  // drop common variables with known sign (and even powers of nonzero ones): only the sign matters
  { Mono g=n.begin()->first; for (auto&t:n) { Mono h; size_t i=0,j=0; while (i<g.size()&&j<t.first.size()) { if ((g[i]>>8)<(t.first[j]>>8)) ++i; else if ((g[i]>>8)>(t.first[j]>>8)) ++j; else { h.push_back((g[i]&~255u)|std::min(g[i]&255u,t.first[j]&255u)); ++i; ++j; } } g=h; if (g.empty()) break; }
    Mono dv; for (uint32_t x:g) { int k=knownOf(intern(pvar(x>>8))); if (k&2) continue; if (k==5) { if ((x&255)&~1u) dv.push_back((x&~255u)|((x&255)&~1u)); continue; } dv.push_back(x); if (k==1&&(x&1)) flip=!flip; }
    if (!dv.empty()) { Poly q; for (auto&t:n) { Mono r2; mdiv(t.first,dv,r2); q[r2]=t.second; } n=q; if (pIsConst(n)) { int s=sgn(pC(n)); if (flip) s=-s; return bconst(mask&(s<0?1:s==0?2:4)); } } }
  // a*S - b*T with S,T products of non-negative atoms, at least one a square root: compare the squares
  if (n.size()==2&&sgn(n.begin()->second)*sgn(n.rbegin()->second)<0) { bool ok=true,sq=false; for (auto&t:n) for (uint32_t x:t.first) { if (atoms[x>>8].kind==A_SQRT&&(x&1)) sq=true; if (knownOf(intern(pvar(x>>8)))&1) ok=false; }
    if (ok&&sq) { auto t1=*n.begin(),t2=*n.rbegin(); Poly p1,p2; p1[t1.first]=abs(t1.second); p2[t2.first]=abs(t2.second); Poly q=padd(pmul(p1,p1),pmul(p2,p2),Q(-1)); if (t1.second<0) flip=!flip; Rat rr; rr.num=q; if (flip) rr.num=pscale(q,Q(-1)); if (rr.num.empty()) return bconst(mask&2); return atomOf(rr,mask); } }
  Q c=pcanon(n); if (c<0) flip=!flip; if (flip) mask=(mask&2)|((mask&1)?4:0)|((mask&4)?1:0);
  return batomP(intern(n),mask); }
static BX*cmp0(const Rat&r,int mask) { return atomOf(r,mask); }
static bool isNZ(const Rat&r) { if (rIsConst(r)) return pC(r.num)!=0; return false; }

static Q snap(double v) { { double a=std::fabs(v); if (a==6.123233995736766e-17||a==1.2246467991473532e-16||a==1.8369701987210297e-16||a==2.4492935982947064e-16) return Q(0); } // rounding residue of sin/cos at multiples of pi/2
  if (v==std::floor(v) && std::fabs(v)<1e15) return Q(v);
  static std::unordered_map<double,Q> cache; auto it=cache.find(v); if (it!=cache.end()) return it->second;
  Q ex(v); double av=std::fabs(v); Q res=ex; bool found=false;
  if (mpz_sizeinbase(ex.get_den_mpz_t(),2)<=12) found=true;
  if (!found) { double ulp=std::nextafter(av,INFINITY)-av; for (int q=2;q<=720&&!found;++q) { double p=std::nearbyint(av*q); if (p<1||p>1e6) continue; if (std::fabs(p/q-av)<=2*ulp) { res=Q(Z(p),Z(q)); res.canonicalize(); if (v<0) res=-res; found=true; } } }
  if (!found) { for (int digs=1;digs<=15&&!found;++digs) { char b[64]; snprintf(b,sizeof b,"%.*e",digs-1,v); if (std::strtod(b,nullptr)==v) { int e=atoi(strchr(b,'e')+1); std::string m; bool neg=false; for (char*c=b;*c!='e';++c) { if (*c=='-') neg=true; else if (*c!='.') m+=*c; } int sh=e-(int)(m.size()-1); Z mm(m,10); Z p10; mpz_ui_pow_ui(p10.get_mpz_t(),10,std::abs(sh)); res=sh>=0?Q(mm*p10):Q(mm,p10); res.canonicalize(); if (neg) res=-res; found=true; } } }
  cache[v]=res; return res; }
static const char*badConst="non-finite constant in symbolic arithmetic";
static Rat ratOf(void*e,double v) { if (e) { Expr*x=(Expr*)e; if (x->k==E_REAL) return x->r; if (x->k==E_BV&&x->isC) { double d; memcpy(&d,&x->cv,8); return rconst(snap(d)); } noteUnsup("integer bits used as floating point"); endPath(END_UNSUP); } if (!std::isfinite(v)) { noteUnsup(badConst); endPath(END_UNSUP); } return rconst(snap(v)); }
static std::unordered_map<std::string,int> atomIdx;
static int newAtom(const Atom&a) { atoms.push_back(a); model.push_back(0); modelExact.push_back(1); return atoms.size()-1; }
static Z isqrtPart(const Z&n, Z&sf) { // n = k^2*sf (trial division by small primes)
  Z k=1; sf=n; for (unsigned p=2;p<2000;++p) { Z pp=p*p; if (pp>sf) break; while (mpz_divisible_p(sf.get_mpz_t(),pp.get_mpz_t())) { sf/=pp; k*=p; } } if (sf>1 && mpz_perfect_square_p(sf.get_mpz_t())) { Z r=sqrt(sf); k*=r; sf=1; } return k; }
static Rat rvarRat(int v) { Rat r; r.num=pvar(v); return r; }
static Rat rabs(const Rat&r) { if (decide(cmp0(r,1))) return rneg(r); return r; }
// n = k^2 * rest: square factors found by square-free decomposition (one variable), by dividing by the radicands of known square roots and by squares of known factors
static void uvTrim(std::vector<Q>&a) { while (!a.empty() && a.back()==0) a.pop_back(); }
static std::vector<Q> uvMod(std::vector<Q> a,const std::vector<Q>&b,std::vector<Q>*quo=nullptr) { if (quo) quo->assign(a.size()>=b.size()?a.size()-b.size()+1:0,Q(0)); while (a.size()>=b.size()) { Q f=a.back()/b.back(); size_t o=a.size()-b.size(); if (quo) (*quo)[o]=f; for (size_t i=0;i<b.size();++i) a[o+i]-=f*b[i]; a.pop_back(); uvTrim(a); } return a; }
static std::vector<Q> uvGcd(std::vector<Q> a,std::vector<Q> b) { while (!b.empty()) { std::vector<Q> r=uvMod(a,b); a=b; b=r; } if (!a.empty()) { Q l=a.back(); for (auto&x:a) x/=l; } return a; }
static bool squarePart(Poly&n,Poly&k) { if (pIsConst(n)) return false; k=pconst(1); bool any=false; std::vector<int> vs; { std::set<int> q; for (auto&t:n) for (uint32_t x:t.first) q.insert(x>>8); vs.assign(q.begin(),q.end()); }
  auto take=[&](const Poly&f){ Poly q; bool got=false; for (;;) { Poly a,b; if (!pdivExact(n,f,a)||!pdivExact(a,f,b)) break; n=b; k=pmul(k,f); got=any=true; } return got; };
  if (vs.size()==1) { std::vector<Q> c; for (auto&t:n) { unsigned e=t.first.empty()?0:(t.first[0]&255); if (c.size()<=e) c.resize(e+1,Q(0)); c[e]=t.second; } for (int guard=0;guard<20;++guard) { std::vector<Q> d; for (size_t i=1;i<c.size();++i) d.push_back(c[i]*Q((long)i)); uvTrim(d); if (d.empty()) break; std::vector<Q> g=uvGcd(c,d); if (g.size()<2) break;
      // g = product of f_i^(i-1); its square-free part divides n at least twice
      std::vector<Q> gd; for (size_t i=1;i<g.size();++i) gd.push_back(g[i]*Q((long)i)); uvTrim(gd); std::vector<Q> h=gd.empty()?g:uvGcd(g,gd); std::vector<Q> sfp; if (h.size()<2) sfp=g; else uvMod(g,h,&sfp); uvTrim(sfp);
      Poly f; for (size_t i=0;i<sfp.size();++i) if (sfp[i]!=0) { Mono m; if (i) m.push_back(((uint32_t)vs[0]<<8)|(uint32_t)i); f[m]=sfp[i]; } Poly n0=n; if (!take(f)) break; c.clear(); for (auto&t:n) { unsigned e=t.first.empty()?0:(t.first[0]&255); if (c.size()<=e) c.resize(e+1,Q(0)); c[e]=t.second; } if (pIsConst(n)) break; } }
  else { size_t lim=std::min<size_t>(ptab.size(),400); for (size_t i=0;i<lim&&!pIsConst(n);++i) { const Poly&f=ptab[ptab.size()-1-i]->p; if (!pIsConst(f) && f.size()>1) take(f); } }
  return any; }
static Rat rsqrt(const Rat&r) {
  if (r.num.empty()) return r;
  if (!rIsConst(r) || pC(r.num)<0) { BX*neg=cmp0(r,1); int q=quick(neg); if (q!=0) { if (decide(neg)) { if (strict_fp) candidate("sqrt of a negative number"); endPath(END_NAN,"sqrt<0"); } } }
  // r = num / D ; bring to sqrt(num*odd)/(...)
  Poly n=r.num; Rat scale=rconst(1);
  for (auto&f:r.den) { Rat fr; fr.num=ptab[f.first]->p; int e=f.second; Rat af=rabs(fr); if (e&1) { if (af.num!=fr.num) n=pscale(n,Q(-1)); scale=rmul(scale,rsqrt(af)); e++; } for (int i=0;i<e/2;++i) scale=rdivNZ(scale,af); }
  if (n.empty()) return rconst(0);
  Q c=pcanon(n); if (c<0) { n=pscale(n,Q(-1)); c=-c; }
  Z nd=c.get_num()*c.get_den(); Z sf; Z k=isqrtPart(nd,sf); scale=rmul(scale,rconst(Q(k,c.get_den()))); // sqrt(c)=k*sqrt(sf)/den
  // pull out a common monomial square
  if (!pIsConst(n)) { Mono g=n.begin()->first; for (auto&t:n) { Mono h; size_t j=0; for (uint32_t x:g) { while (j<t.first.size()&&(t.first[j]>>8)<(x>>8)) j++; if (j<t.first.size()&&(t.first[j]>>8)==(x>>8)) h.push_back((x&~255u)|std::min(x&255,t.first[j]&255)); } g=h; if (g.empty()) break; }
    Mono half,full; for (uint32_t x:g) if ((x&255)>=2) { half.push_back((x&~255u)|((x&255)/2)); full.push_back((x&~255u)|((x&255)/2*2)); }
    if (!half.empty()) { Poly rest; for (auto&t:n) { Mono q; mdiv(t.first,full,q); rest[q]=t.second; } n=rest; for (uint32_t x:half) { Rat a=rabs(rvarRat(x>>8)); for (unsigned i=0;i<(x&255);++i) scale=rmul(scale,a); } } }
  Poly q; if (!pIsConst(n) && psqrt(n,q)) { Rat qr; qr.num=q; scale=rmul(scale,rabs(qr)); n=pconst(1); }
  if (!pIsConst(n)) { bool done=false; for (size_t i=0;i<atoms.size()&&!done;++i) if (atoms[i].kind==A_SQRT && !pIsConst(atoms[i].rad)) { Poly rad2=atoms[i].rad; Q rc=pcanon(rad2); if (rc<0) rad2=pscale(rad2,Q(-1)); Poly d,k2; if (rad2==n) break; if (pdivExact(n,rad2,d)) { Q dc=pcanon(d); if (dc<0) continue; if (mpz_perfect_square_p(dc.get_num_mpz_t())&&mpz_perfect_square_p(dc.get_den_mpz_t())&&psqrt(pscale(d,dc),k2)) { Rat qr; qr.num=k2; scale=rmul(scale,rabs(qr)); n=rad2; done=true; } } }
    Poly k2; if (!done && squarePart(n,k2)) { Q kc=pcanon(n); if (kc<0) { n=pscale(n,Q(-1)); kc=-kc; } Rat qr; qr.num=k2; scale=rmul(scale,rabs(qr)); Z nd2=kc.get_num()*kc.get_den(), sf2; Z k3=isqrtPart(nd2*sf,sf2); scale=rmul(scale,rconst(Q(k3,kc.get_den()))); sf=sf2; } }
  if (pIsConst(n) && sf==1) { return scale; }
  Poly rad=pscale(n,Q(sf)); std::string key="sqrt:"+pstr(rad); int v; auto it=atomIdx.find(key);
  if (it!=atomIdx.end()) v=it->second; else { Atom a; a.kind=A_SQRT; a.name="sqrt"; a.rad=rad; a.fn=1; pvars(rad,a.deps); v=newAtom(a); atomIdx[key]=v; known[intern(pvar(v))]=6; }
  return rmul(scale,rvarRat(v)); }
static int fnAtom(int fn,const Rat&a,const Rat*b,AK kind=A_OTHER) { std::string key=std::to_string(fn)+":"+rstr(a)+(b?"|"+rstr(*b):""); auto it=atomIdx.find(key); if (it!=atomIdx.end()) return it->second; Atom at; at.kind=kind; at.name="fn"+std::to_string(fn); at.fn=fn; at.arg=new Rat(a); at.arg2=b?new Rat(*b):nullptr; at.deps=rvars(a); if (b) at.deps=uni(at.deps,rvars(*b));
  // implicit range axioms
  if (fn==3||fn==4) { at.hasB=true; at.lo=-1; at.hi=1; } if (fn==5) { at.hasB=true; at.lo=0; at.hi=Q("31415926536/10000000000"); } if (fn==6) { at.hasB=true; at.lo=Q("-31415926536/10000000000"); at.hi=Q("31415926536/10000000000"); } if (fn==8||fn==9) { at.hasB=true; at.lo=Q("-15707963268/10000000000"); at.hi=Q("15707963268/10000000000"); }
  int v=newAtom(at); atomIdx[key]=v; return v; }
// is r exactly one function atom (with coefficient 1)?
static int soleAtom(const Rat&r) { if (!r.den.empty()||r.num.size()!=1||r.num.begin()->second!=1) return -1; const Mono&m=r.num.begin()->first; if (m.size()!=1||(m[0]&255)!=1) return -1; return m[0]>>8; }
static Rat rsin(const Rat&); static Rat rcos(const Rat&);
static void sincos(const Rat&a,Rat&s,Rat&c) {
  if (a.num.empty()) { s=rconst(0); c=rconst(1); return; }
  if (rIsConst(a)) { double d=mpq_get_d(pC(a.num).get_mpq_t()); auto cl=[](double v){ return std::fabs(v)<1e-14?0.0:std::fabs(std::fabs(v)-1)<1e-15?(v<0?-1.0:1.0):v; }; s=rconst(snap(cl(std::sin(d)))); c=rconst(snap(cl(std::cos(d)))); return; }
  int v=soleAtom(a); if (v>=0 && atoms[v].kind==A_OTHER) { Atom at=atoms[v];
    if (at.fn==5) { c=*at.arg; s=rsqrt(radd(rconst(1),rmul(c,c),-1)); return; }
    if (at.fn==8) { s=*at.arg; c=rsqrt(radd(rconst(1),rmul(s,s),-1)); return; }
    if (at.fn==6) { Rat h=rsqrt(radd(rmul(*at.arg,*at.arg),rmul(*at.arg2,*at.arg2))); if (decide(cmp0(h,2))) { s=rconst(0); c=rconst(1); return; } s=rdivNZ(*at.arg,h); c=rdivNZ(*at.arg2,h); return; }
    if (at.fn==9) { Rat h=rsqrt(radd(rconst(1),rmul(*at.arg,*at.arg))); s=rdivNZ(*at.arg,h); c=rdivNZ(rconst(1),h); return; } }
  // sums: split off a leading term  (angle addition) when several atoms are present
  if (a.den.empty() && a.num.size()>=2) { Rat h,t; h.num[a.num.begin()->first]=a.num.begin()->second; t.num=a.num; t.num.erase(t.num.begin()); Rat sh,chh,st,ct; sincos(h,sh,chh); sincos(t,st,ct); s=radd(rmul(sh,ct),rmul(chh,st)); c=radd(rmul(chh,ct),rmul(sh,st),-1); return; }
  if (a.den.empty() && a.num.size()==1 && a.num.begin()->second<0) { Rat s1,c1; sincos(rneg(a),s1,c1); s=rneg(s1); c=c1; return; }
  int vs=fnAtom(3,a,nullptr,A_SIN); int vc=fnAtom(4,a,nullptr,A_COS); atoms[vc].partner=vs; atoms[vc].deps=uni(atoms[vc].deps,std::vector<int>(1,vs)); atoms[vs].partner=vc; s=rvarRat(vs); c=rvarRat(vc); }

extern "C" {
// ------------------------------------------------------------------ shadow memory
struct Page { Expr*e[4096]; uint8_t o[4096]; };
}
static std::unordered_map<uintptr_t,Page*> pages; static uintptr_t lastPg=~0ull; static Page*lastP=nullptr; static bool inPg;
static inline Page*pg(uintptr_t a,bool mk) { uintptr_t k=a>>12; if (k==lastPg&&(lastP||!mk)) return lastP; auto it=pages.find(k); Page*p=it==pages.end()?nullptr:it->second; if (!p&&mk) { p=(Page*)calloc(1,sizeof(Page)); inPg=true; pages[k]=p; inPg=false; } lastPg=k; lastP=p; return p; }
static inline Expr*byteAt(uintptr_t a,int&off) { Page*p=pg(a,false); if (!p) return nullptr; off=p->o[a&4095]; return p->e[a&4095]; }
static inline void setByte(uintptr_t a,Expr*e,int off) { Page*p=pg(a,e!=nullptr); if (!p) return; p->e[a&4095]=e; p->o[a&4095]=off; }
static bool anySym=false;
extern "C" {
void __vs_clear(void*ad,int64_t n) { if (!anySym||n<=0) return; uintptr_t a=(uintptr_t)ad,e=a+n; while (a<e) { uintptr_t pe=std::min(e,(a|4095)+1); Page*p=pg(a,false); if (p) memset(&p->e[a&4095],0,(pe-a)*sizeof(Expr*)); a=pe; } }
void __vs_store(void*ad,int64_t n,void*e) { if (!e) { if (!anySym) return; uintptr_t a=(uintptr_t)ad; if (((a&4095)+n)<=4096) { Page*p=pg(a,false); if (!p) return; for (int64_t i=0;i<n;++i) p->e[(a&4095)+i]=nullptr; } else __vs_clear(ad,n); return; }
  anySym=true; Expr*x=(Expr*)e; if (x->k==E_BOOL) { Expr*y=new Expr(*mkBVc(0,8*n)); y->isC=x->isC; y->cv=x->cv; y->boolSrc=x->isC?nullptr:x; y->vars=x->vars; x=y; }
  uintptr_t a=(uintptr_t)ad; for (int64_t i=0;i<n;++i) setByte(a+i,x,i); }
static Expr*bvBytes(Expr*x,int lo,int n) { // bytes [lo,lo+n)
  if (x->k==E_REAL) { if (x->isC) { double d=mpq_get_d(x->r.num.empty()?Q(0).get_mpq_t():pC(x->r.num).get_mpq_t()); uint64_t u; memcpy(&u,&d,8); return mkBVc(u>>(8*lo),8*n); } noteUnsup("partial access to a symbolic double"); endPath(END_UNSUP); }
  if (lo*8>=x->w) return mkBVc(0,8*n); int hiBit=std::min(x->w,8*(lo+n)); if (x->isC) return mkBVc(x->cv>>(8*lo),8*n);
  Z3_ast z=Z3_mk_extract(ctx,hiBit-1,8*lo,zbv(x)); keep(z); if (hiBit<8*(lo+n)) z=Z3_mk_zero_ext(ctx,8*(lo+n)-hiBit,z); return mkBVz(z,8*n,x->vars); }
static Expr*toBoolE(Expr*x) { if (x->k==E_BOOL) return x; if (x->isC) return mkBool(bconst(x->cv&1)); if (x->boolSrc) return x->boolSrc; return mkBoolZ(Z3_mk_eq(ctx,Z3_mk_extract(ctx,0,0,zbv(x)),Z3_mk_unsigned_int64(ctx,1,Z3_mk_bv_sort(ctx,1))),x->vars); }
void*__vs_load(void*ad,int64_t n,int iw) { if (!anySym) return nullptr; uintptr_t a=(uintptr_t)ad; int o; Expr*e=byteAt(a,o);
  if (e&&o==0) { int o2; Expr*e2=byteAt(a+n-1,o2); if (e2==e&&o2==n-1&&(e->w+7)/8==n) { bool all=true; for (int64_t i=1;i<n-1;++i) { int oi; if (byteAt(a+i,oi)!=e) { all=false; break; } } if (all) { if (iw==1) return toBoolE(e); return e; } } }
  bool any=e!=nullptr; for (int64_t i=1;i<n&&!any;++i) { int oi; if (byteAt(a+i,oi)) any=true; } if (!any) return nullptr;
  if (n>8) { noteUnsup("wide load over symbolic bytes"); endPath(END_UNSUP); }
  // mixed
  Expr*acc=nullptr; int64_t i=0; while (i<n) { int oi; Expr*x=byteAt(a+i,oi); int64_t j=i+1; Expr*piece; if (x) { while (j<n) { int oj; if (byteAt(a+j,oj)!=x||oj!=oi+(j-i)) break; ++j; } piece=bvBytes(x,oi,j-i); } else { while (j<n) { int oj; if (byteAt(a+j,oj)) break; ++j; } uint64_t v=0; memcpy(&v,(char*)ad+i,j-i); piece=mkBVc(v,8*(j-i)); }
    if (!acc) acc=piece; else if (acc->isC&&piece->isC) acc=mkBVc(acc->cv|(piece->cv<<acc->w),acc->w+piece->w); else acc=mkBVz(Z3_mk_concat(ctx,zbv(piece),zbv(acc)),acc->w+piece->w,uni(acc->vars,piece->vars)); i=j; }
  if (iw==1) return toBoolE(acc); return acc; }
void __vs_memcpy(void*d,void*s,int64_t n) { if (!anySym||n<=0||d==s) return; uintptr_t a=(uintptr_t)d,b=(uintptr_t)s; std::vector<std::pair<Expr*,int>> t; bool any=false; t.resize(n); for (int64_t i=0;i<n;++i) { int o=0; Expr*e; if (!((b+i)&4095) || i==0) { Page*p=pg(b+i,false); if (!p) { int64_t k=std::min<int64_t>(n-i,4096-((b+i)&4095)); for (int64_t q=0;q<k;++q) t[i+q]={nullptr,0}; i+=k-1; continue; } } e=byteAt(b+i,o); t[i]={e,o}; if (e) any=true; } if (!any) { __vs_clear(d,n); return; } for (int64_t i=0;i<n;++i) setByte(a+i,t[i].first,t[i].second); }
void __vs_byval(void*d,void*s,int64_t n,bool ok) { if (ok&&s) __vs_memcpy(d,s,n); else __vs_clear(d,n); }

// ------------------------------------------------------------------ integer operations
static Expr*bvOf(void*e,uint64_t v,int w) { if (!e) return mkBVc(v,w); Expr*x=(Expr*)e; if (x->k==E_BOOL) { Expr*y=mkBVc(x->cv,w); if (!x->isC) { y->isC=false; y->boolSrc=x; y->vars=x->vars; } return y; } if (x->k==E_REAL) { if (x->isC) { double d=mpq_get_d(pC(x->r.num).get_mpq_t()); uint64_t u; memcpy(&u,&d,8); return mkBVc(u,w); } noteUnsup("integer operation on the bits of a symbolic double"); endPath(END_UNSUP); } return x; }
static BX*boolOf(void*e,bool v) { if (!e) return bconst(v); return toBoolE((Expr*)e)->b; }
void*__vs_bin(int op,int w,void*ea,uint64_t a,void*eb,uint64_t b,int site) {
  if (!ea&&!eb) return nullptr;
  if (w==1) { BX*x=boolOf(ea,a&1),*y=boolOf(eb,b&1); switch (op) { case 28: case 17: return mkBool(bbin(B_AND,x,y)); case 29: return mkBool(bbin(B_OR,x,y)); case 30: case 13: case 15: return mkBool(bbin(B_XOR,x,y)); } noteUnsup("i1 arithmetic"); endPath(END_UNSUP); }
  Expr*x=bvOf(ea,a,w),*y=bvOf(eb,b,w);
  if (x->isC&&y->isC) { uint64_t p=x->cv,q=y->cv,r=0; switch (op) { case 13: r=p+q; break; case 15: r=p-q; break; case 17: r=p*q; break; case 25: r=q>=(uint64_t)w?0:p<<q; break; case 26: r=q>=(uint64_t)w?0:p>>q; break; case 27: { int64_t sp=(int64_t)(p<<(64-w))>>(64-w); r=q>=(uint64_t)w?(sp<0?~0ull:0):(uint64_t)(sp>>q); break; } case 28: r=p&q; break; case 29: r=p|q; break; case 30: r=p^q; break; } return mkBVc(r,w); }
  // and/or/xor of zero-extended Booleans
  if (w<=64) { auto isB=[&](Expr*e,BX*&o){ if (e->boolSrc) { o=e->boolSrc->b; return true; } if (e->isC&&e->cv<=1) { o=bconst(e->cv); return true; } return false; }; BX*p,*q; if ((op==28||op==29||op==30)&&isB(x,p)&&isB(y,q)) { BX*r=bbin(op==28?B_AND:op==29?B_OR:B_XOR,p,q); Expr*o=mkBVc(0,w); if (r->k==B_CONST) { o->cv=r->c; return o; } o->isC=false; o->boolSrc=mkBool(r); o->vars=r->vars; return o; } }
  Z3_ast p=zbv(x),q=zbv(y),r=nullptr; switch (op) { case 13: r=Z3_mk_bvadd(ctx,p,q); break; case 15: r=Z3_mk_bvsub(ctx,p,q); break; case 17: r=Z3_mk_bvmul(ctx,p,q); break; case 19: r=Z3_mk_bvudiv(ctx,p,q); break; case 20: r=Z3_mk_bvsdiv(ctx,p,q); break; case 22: r=Z3_mk_bvurem(ctx,p,q); break; case 23: r=Z3_mk_bvsrem(ctx,p,q); break; case 25: r=Z3_mk_bvshl(ctx,p,q); break; case 26: r=Z3_mk_bvlshr(ctx,p,q); break; case 27: r=Z3_mk_bvashr(ctx,p,q); break; case 28: r=Z3_mk_bvand(ctx,p,q); break; case 29: r=Z3_mk_bvor(ctx,p,q); break; case 30: r=Z3_mk_bvxor(ctx,p,q); break; default: noteUnsup("integer opcode"); endPath(END_UNSUP); }
  return mkBVz(r,w,uni(x->vars,y->vars)); }
static int realMaskForICmp(int pred) { switch (pred) { case 32: return 2; case 33: return 5; } return -1; }
void*__vs_icmp(int pred,int w,void*ea,uint64_t a,void*eb,uint64_t b) {
  if (!ea&&!eb) return nullptr;
  if (w==1) { BX*x=boolOf(ea,a&1),*y=boolOf(eb,b&1); BX*eq=bnot(bbin(B_XOR,x,y)); switch (pred) { case 32: return mkBool(eq); case 33: return mkBool(bnot(eq)); case 34: case 40: break; } if (pred==34||pred==40) return mkBool(pred==34?bbin(B_AND,x,bnot(y)):bbin(B_AND,bnot(x),y)); if (pred==36||pred==38) return mkBool(pred==36?bbin(B_AND,bnot(x),y):bbin(B_AND,x,bnot(y))); if (pred==35) return mkBool(bbin(B_OR,x,bnot(y))); if (pred==37) return mkBool(bbin(B_OR,bnot(x),y)); noteUnsup("i1 compare"); endPath(END_UNSUP); }
  if (w==64) { Expr*xa=(Expr*)ea,*xb=(Expr*)eb; if ((xa&&xa->k==E_REAL)||(xb&&xb->k==E_REAL)) { int m=realMaskForICmp(pred); double da,db; memcpy(&da,&a,8); memcpy(&db,&b,8); if (m>0) return mkBool(cmp0(radd(ratOf(ea,da),ratOf(eb,db),-1),m)); } }
  Expr*x=bvOf(ea,a,w),*y=bvOf(eb,b,w);
  if (x->isC&&y->isC) { uint64_t p=x->cv,q=y->cv; int64_t sp=(int64_t)(p<<(64-w))>>(64-w),sq=(int64_t)(q<<(64-w))>>(64-w); bool r=false; switch (pred) { case 32: r=p==q; break; case 33: r=p!=q; break; case 34: r=p>q; break; case 35: r=p>=q; break; case 36: r=p<q; break; case 37: r=p<=q; break; case 38: r=sp>sq; break; case 39: r=sp>=sq; break; case 40: r=sp<sq; break; case 41: r=sp<=sq; break; } return mkBool(bconst(r)); }
  if ((pred==32||pred==33)) { Expr*s=x->boolSrc?x:y->boolSrc?y:nullptr,*c=s==x?y:x; if (s&&c->isC) { BX*r; if (c->cv==0) r=bnot(s->boolSrc->b); else if (c->cv==1) r=s->boolSrc->b; else r=&bFalse; if (pred==33) r=bnot(r); return mkBool(r); } if (s&&c->boolSrc) { BX*r=bbin(B_XOR,s->boolSrc->b,c->boolSrc->b); return mkBool(pred==33?r:bnot(r)); } }
  Z3_ast p=zbv(x),q=zbv(y),r=nullptr; switch (pred) { case 32: r=Z3_mk_eq(ctx,p,q); break; case 33: r=Z3_mk_not(ctx,Z3_mk_eq(ctx,p,q)); break; case 34: r=Z3_mk_bvugt(ctx,p,q); break; case 35: r=Z3_mk_bvuge(ctx,p,q); break; case 36: r=Z3_mk_bvult(ctx,p,q); break; case 37: r=Z3_mk_bvule(ctx,p,q); break; case 38: r=Z3_mk_bvsgt(ctx,p,q); break; case 39: r=Z3_mk_bvsge(ctx,p,q); break; case 40: r=Z3_mk_bvslt(ctx,p,q); break; case 41: r=Z3_mk_bvsle(ctx,p,q); break; }
  return mkBoolZ(r,uni(x->vars,y->vars)); }
void*__vs_icast(int op,int sw,int dw,void*e) { if (!e) return nullptr; Expr*x=(Expr*)e; // Trunc 38 ZExt 39 SExt 40
  if (x->k==E_REAL) { if (sw==dw) return x; noteUnsup("cast of symbolic double bits"); endPath(END_UNSUP); }
  if (sw==1) { Expr*b=toBoolE(x); if (b->isC) return mkBVc(b->cv?(op==40?~0ull:1):0,dw); if (op==40) { Z3_sort s=Z3_mk_bv_sort(ctx,dw); return mkBVz(Z3_mk_ite(ctx,zb(b->b),Z3_mk_unsigned_int64(ctx,maskw(dw),s),Z3_mk_unsigned_int64(ctx,0,s)),dw,b->vars); } Expr*o=mkBVc(0,dw); o->isC=false; o->boolSrc=b; o->vars=b->vars; return o; }
  if (dw==1) return toBoolE(x);
  if (x->isC) { uint64_t v=x->cv; if (op==40) v=(uint64_t)((int64_t)(v<<(64-sw))>>(64-sw)); return mkBVc(v,dw); }
  if (x->boolSrc&&(op==39||op==38||sw>1)) { Expr*o=mkBVc(0,dw); o->isC=false; o->boolSrc=x->boolSrc; o->vars=x->vars; return o; }
  Z3_ast z=zbv(x); if (op==38) z=Z3_mk_extract(ctx,dw-1,0,z); else if (op==39) z=Z3_mk_zero_ext(ctx,dw-sw,z); else z=Z3_mk_sign_ext(ctx,dw-sw,z); return mkBVz(z,dw,x->vars); }
void*__vs_ite(void*ec,bool c,int w,void*ea,uint64_t a,void*eb,uint64_t b) { BX*cc=boolOf(ec,c); if (cc->k==B_CONST) { if (w==1) return mkBool(boolOf(cc->c?ea:eb,(cc->c?a:b)&1)); return bvOf(cc->c?ea:eb,cc->c?a:b,w); }
  if (w==1) { BX*x=boolOf(ea,a&1),*y=boolOf(eb,b&1); return mkBool(bbin(B_OR,bbin(B_AND,cc,x),bbin(B_AND,bnot(cc),y))); }
  Expr*xa=(Expr*)ea,*xb=(Expr*)eb; if ((xa&&xa->k==E_REAL)||(xb&&xb->k==E_REAL)) { bool d=decide(cc); double da,db; memcpy(&da,&a,8); memcpy(&db,&b,8); return d?mkReal(ratOf(ea,da)):mkReal(ratOf(eb,db)); }
  Expr*x=bvOf(ea,a,w),*y=bvOf(eb,b,w); if (x->isC&&y->isC&&x->cv==1&&y->cv==0) { Expr*o=mkBVc(0,w); o->isC=false; o->boolSrc=mkBool(cc); o->vars=cc->vars; return o; }
  return mkBVz(Z3_mk_ite(ctx,zb(cc),zbv(x),zbv(y)),w,uni(cc->vars,uni(x->vars,y->vars))); }
bool __vs_branch(void*ec,bool c,int site) { if (!ec) return c; siteFork=site; bool r=decide(toBoolE((Expr*)ec)->b); siteFork=-1; return r; }
static uint64_t bvModelValue(Expr*e) { Z3_model m=buildEvalModel(); Z3_ast o=nullptr; uint64_t v=0; if (Z3_model_eval(ctx,m,zbv(e),true,&o)) { Z3_inc_ref(ctx,o); Z3_get_numeral_uint64(ctx,o,&v); } Z3_model_dec_ref(ctx,m); return v; }
int64_t __vs_concretize(void*e,int64_t v,int w,int site) { if (!e) return v; Expr*x=(Expr*)e; if (x->k==E_BOOL||w==1) { siteFork=site; bool r=decide(toBoolE(x)->b); siteFork=-1; return r; } if (x->k==E_REAL) { if (x->isC) { double d=mpq_get_d(pC(x->r.num).get_mpq_t()); int64_t u; memcpy(&u,&d,8); return u; } noteUnsup((std::string("symbolic double bits used as integer at ")+siteName(site)).c_str()); endPath(END_UNSUP); }
  if (x->isC) return (int64_t)x->cv; if (x->boolSrc) { siteFork=site; bool r=decide(x->boolSrc->b); siteFork=-1; return r; }
  for (int it=0;;++it) { if (!ensureModel()||it>4096) { noteUnsup("concretisation without model"); endPath(END_UNSUP); } uint64_t val=bvModelValue(x); Z3_ast c=Z3_mk_unsigned_int64(ctx,val,Z3_mk_bv_sort(ctx,x->w)); BX*eq=mkBoolZ(Z3_mk_eq(ctx,zbv(x),c),x->vars)->b; if (eq->k==B_CONST) { return (int64_t)val; }
    std::vector<Q> m0=model; std::vector<char> e0=modelExact; Res r=check({bnot(eq)},rlBranch,msBranch,true); if (r==UNSAT) return (int64_t)val;
    std::vector<Q> m2=model; std::vector<char> e2=modelExact; if (site>=0&&site<nsitesAlloc) __sync_fetch_and_add(&S->siteForks[site],1);
    if (doFork()) { model=m0; modelExact=e0; evCache.clear(); addPC(eq); return (int64_t)val; }
    model=m2; modelExact=e2; evCache.clear(); modelValid=r==SAT; addPC(bnot(eq)); } }
void __vs_concretize_mem(void*p,int64_t n,int site) { if (!anySym) return; for (int64_t i=0;i<n;++i) { int o; Expr*e=byteAt((uintptr_t)p+i,o); if (!e) continue; if (e->k==E_REAL&&!e->isC) { noteUnsup("byte comparison of symbolic double"); endPath(END_UNSUP); } Expr*b=bvBytes(e,o,1); uint64_t v=__vs_concretize(b,0,8,site); ((unsigned char*)p)[i]=v; setByte((uintptr_t)p+i,nullptr,0); } }
void*__vs_iminmax(int kind,int w,void*ea,uint64_t a,void*eb,uint64_t b) { if (!ea&&!eb) return nullptr; if (kind==4) { Expr*x=bvOf(ea,a,w); Expr*neg=(Expr*)__vs_bin(15,w,nullptr,0,x,0,0); if (!neg) neg=mkBVc(0-x->cv,w); void*lt=__vs_icmp(40,w,x,0,nullptr,0); return __vs_ite(lt,false,w,neg,0,x,0); } if (kind==5) { void*ge=__vs_icmp(35,w,ea,a,eb,b); return __vs_ite(ge,false,w,__vs_bin(15,w,ea,a,eb,b,0),0,nullptr,0); } int pr=kind==0?38:kind==1?40:kind==2?34:36; void*c=__vs_icmp(pr,w,ea,a,eb,b); return __vs_ite(c,false,w,ea?ea:(void*)mkBVc(a,w),a,eb?eb:(void*)mkBVc(b,w),b); }
// ------------------------------------------------------------------ reals
// products of equal factors and sums/products of such values are non-negative whatever the inputs: remember it
static bool nnOf(void*e,double v) { return e?((Expr*)e)->nn:v>=0; }
static void*fbin0(int op,void*ea,double a,void*eb,double b,int site);
void*__vs_fbin(int op,void*ea,double a,void*eb,double b,int site) { void*r=fbin0(op,ea,a,eb,b,site); if (!r) return r; Expr*e=(Expr*)r; if (e->k!=E_REAL||e->isC) return r; bool nn=false;
  if (op==18&&ea&&eb&&(ea==eb||(((Expr*)ea)->k==E_REAL&&((Expr*)eb)->k==E_REAL&&((Expr*)ea)->r.den==((Expr*)eb)->r.den&&((Expr*)ea)->r.num==((Expr*)eb)->r.num))) nn=true;
  if ((op==14||op==18||op==21)&&nnOf(ea,a)&&nnOf(eb,b)) nn=true;
  if (nn) { e->nn=true; if (e->r.num.size()>1&&e->r.num.size()<4000) { BX*c=cmp0(e->r,6); if (c->k==B_ATOM) setKnown(c->poly,c->mask); } }
  return r; }
static void*fbin0(int op,void*ea,double a,void*eb,double b,int site) { if (!ea&&!eb) return nullptr; // FAdd14 FSub16 FMul18 FDiv21 FRem24
  if (op==21&&!eb&&std::isinf(b)) return mkReal(rconst(0));
  Rat x=ratOf(ea,a),y=ratOf(eb,b); switch (op) { case 14: return mkReal(radd(x,y)); case 16: return mkReal(radd(x,y,-1)); case 18: return mkReal(rmul(x,y));
    case 21: { if (!isNZ(y)) { siteFork=site; BX*z=cmp0(y,2); bool isz=decide(z); siteFork=-1; if (isz) { if (strict_fp) { ensureModel(); candidate((std::string("division by zero at ")+siteName(site)).c_str()); } endPath(END_DIV0,siteName(site)); } } return mkReal(rdivNZ(x,y)); } }
  noteUnsup("frem"); endPath(END_UNSUP); }
void*__vs_fneg(void*e) { if (!e) return nullptr; return mkReal(rneg(ratOf(e,0))); }
void*__vs_fcmp(int pred,void*ea,double a,void*eb,double b) { if (!ea&&!eb) return nullptr; // 1 OEQ 2 OGT 3 OGE 4 OLT 5 OLE 6 ONE 7 ORD 8 UNO 9 UEQ.. 
  int m; switch (pred&7) { case 1: m=2; break; case 2: m=4; break; case 3: m=6; break; case 4: m=1; break; case 5: m=3; break; case 6: m=5; break; default: m=-1; } // pred 9..14 = 8|..
  if (pred==0) return mkBool(&bFalse); if (pred==15) return mkBool(&bTrue); if (pred==7) return mkBool(bconst(!(std::isnan(ea?0:a)||std::isnan(eb?0:b)))); if (pred==8) return mkBool(bconst(std::isnan(ea?0:a)||std::isnan(eb?0:b)));
  if (!ea&&!std::isfinite(a)) { if (std::isnan(a)) return mkBool(bconst(pred>=8)); int bit=a>0?4:1; return mkBool(bconst(m&bit)); }
  if (!eb&&!std::isfinite(b)) { if (std::isnan(b)) return mkBool(bconst(pred>=8)); int bit=b>0?1:4; return mkBool(bconst(m&bit)); }
  return mkBool(cmp0(radd(ratOf(ea,a),ratOf(eb,b),-1),m)); }
void*__vs_itofp(void*e,int w,int sg) { if (!e) return nullptr; Expr*x=(Expr*)e; if (w==1) { bool v=decide(toBoolE(x)->b); return mkReal(rconst(v?(sg?-1:1):0)); } int64_t v=__vs_concretize(e,0,w,-1); if (sg) { int64_t s=(int64_t)((uint64_t)v<<(64-w))>>(64-w); return mkReal(rconst(Q(Z((long)s)))); } return mkReal(rconst(Q(Z((unsigned long)((uint64_t)v&maskw(w)))))); }
void*__vs_fptoi(void*e,int w,int site) { if (!e) return nullptr; Expr*x=(Expr*)e; if (x->isC) { Q q=x->k==E_REAL?pC(x->r.num):Q(0); Z t; mpz_tdiv_q(t.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return mkBVc((uint64_t)mpz_get_si(t.get_mpz_t()),w); }
  // split on the integer part, guided by models
  for (int it=0;it<64;++it) { if (!ensureModel()) break; long double v=ratL(x->r); long k=(long)truncl(v); BX*in=bbin(B_AND,cmp0(radd(x->r,rconst(Q(Z(k))),-1),k>0?6:k<0?7:7),&bTrue); Rat lo=radd(x->r,rconst(Q(Z(k>0?k:k-1))),-1),hi=radd(x->r,rconst(Q(Z(k<0?k:k+1))),-1); in=bbin(B_AND,cmp0(lo,k>0?6:4),cmp0(hi,k<0?3:1)); siteFork=site; bool r=decide(in); siteFork=-1; if (r) return mkBVc((uint64_t)k,w); }
  noteUnsup((std::string("float-to-int conversion at ")+siteName(site)).c_str()); endPath(END_UNSUP); }
void*__vs_fun(int fn,void*ea,double a,void*eb,double b) { if (!ea&&!eb) return nullptr; Rat x=ratOf(ea,a); switch (fn) {
  case 1: return mkReal(rsqrt(x)); case 2: return mkReal(rabs(x));
  case 3: { Rat s,c; sincos(x,s,c); return mkReal(s); } case 4: { Rat s,c; sincos(x,s,c); return mkReal(c); } case 7: { Rat s,c; sincos(x,s,c); if (decide(cmp0(c,2))) endPath(END_DIV0,"tan pole"); return mkReal(rdivNZ(s,c)); }
  case 5: case 8: { if (decide(cmp0(radd(x,rconst(1),-1),4))||decide(cmp0(radd(x,rconst(1)),1))) { if (strict_fp) candidate("acos/asin argument outside [-1,1]"); endPath(END_NAN,"acos domain"); } if (rIsConst(x)) { double v=mpq_get_d(pC(x.num).get_mpq_t()); return mkReal(rconst(snap(fn==5?std::acos(v):std::asin(v)))); } return mkReal(rvarRat(fnAtom(fn,x,nullptr))); }
  case 6: { Rat y=ratOf(eb,b); if (!rIsConst(x)&&!rIsConst(y)&&x.den==y.den&&x.num.size()==y.num.size()) { // constant ratio
      Q c=x.num.begin()->second/y.num.begin()->second; if (pscale(y.num,c)==x.num) { bool neg=decide(cmp0(y,1)); if (neg||decide(cmp0(y,4))) { double cd=mpq_get_d(c.get_mpq_t()); return mkReal(rconst(snap(neg?std::atan2(-cd,-1.0):std::atan2(cd,1.0)))); } } }
    if (rIsConst(x)&&rIsConst(y)) return mkReal(rconst(snap(std::atan2(mpq_get_d(pC(x.num).get_mpq_t()),mpq_get_d(pC(y.num).get_mpq_t()))))); 
    // exact values on the axes, sign axioms elsewhere
    bool z=decide(cmp0(x,2)); if (z) { if (decide(cmp0(y,1))) return mkReal(rconst(snap(M_PI))); return mkReal(rconst(0)); }
    bool pos=decide(cmp0(x,4)); int v=fnAtom(6,x,&y); addPC(cmp0(rvarRat(v),pos?4:1)); bool yz=decide(cmp0(y,2)); if (yz) return mkReal(rconst(snap(pos?M_PI/2:-M_PI/2))); return mkReal(rvarRat(v)); }
  case 9: return mkReal(rvarRat(fnAtom(9,x,nullptr)));
  case 10: { Rat y=ratOf(eb,b); if (rIsConst(y)&&y.num.size()<=1) { Q q=pC(y.num); if (q.get_den()==1&&abs(q)<=16) { long n=q.get_num().get_si(); Rat r=rconst(1); for (long i=0;i<std::labs(n);++i) r=rmul(r,x); if (n<0) { if (!isNZ(r)&&decide(cmp0(r,2))) endPath(END_DIV0,"pow"); r=rdivNZ(rconst(1),r); } return mkReal(r); } if (q==Q(1,2)) return mkReal(rsqrt(x)); } break; }
  case 13: case 14: case 19: { if (rIsConst(x)) { double v=mpq_get_d(pC(x.num).get_mpq_t()); return mkReal(rconst(snap(fn==13?std::floor(v):fn==14?std::ceil(v):std::trunc(v)))); } break; }
  case 15: { Rat y=ratOf(eb,b); return mkReal(decide(cmp0(radd(x,y,-1),1))?x:y); } case 16: { Rat y=ratOf(eb,b); return mkReal(decide(cmp0(radd(x,y,-1),4))?x:y); }
  case 17: { Rat y=ratOf(eb,b); Rat ax=rabs(x); return mkReal(decide(cmp0(y,1))?rneg(ax):ax); }
  case 22: { Rat y=ratOf(eb,b); return mkReal(rsqrt(radd(rmul(x,x),rmul(y,y)))); } }
  char m[64]; snprintf(m,sizeof m,"math function %d on symbolic argument",fn); noteUnsup(m); endPath(END_UNSUP); }
void*__vs_fpclass(void*e,int mask) { if (!e) return nullptr; // nan 3, inf 0x204, zero 0x60, neg finite.., assume finite normal
  Rat x=ratOf(e,0); BX*r=&bFalse; if (mask&0x60) r=bbin(B_OR,r,cmp0(x,2)); if (mask&0x100) r=bbin(B_OR,r,cmp0(x,4)); if (mask&0x8) r=bbin(B_OR,r,cmp0(x,1)); return mkBool(r); }
void __vs_unsupported(void*e,const char*what,int site) { if (!e) return; Expr*x=(Expr*)e; if (x->isC&&0) return; noteUnsup((std::string(what)+" at "+siteName(site)).c_str()); endPath(END_UNSUP); }
// ------------------------------------------------------------------ iostream with symbolic doubles
}
static std::vector<Expr*> magic; static std::map<double,int> magicIdx; static std::unordered_map<std::string,int> magicKey;
extern "C" {
std::ostream*__vsw_os_d(std::ostream*o,double v) { void*e=__vs_args[1]; __vs_callee=nullptr; if (e&&((Expr*)e)->k==E_REAL&&((Expr*)e)->isC) { v=mpq_get_d(pC(((Expr*)e)->r.num).get_mpq_t()); e=nullptr; } if (!e) { *o<<v; return o; }
  Expr*x=(Expr*)e; int prec=o->precision(); bool fix=(o->flags()&std::ios::floatfield)==std::ios::fixed; if (!(o->flags()&std::ios::floatfield)) { if (prec==0) prec=1; } std::string key=rstr(x->r)+"@"+std::to_string(prec<6?prec:6)+(fix?"f":""); int k; auto it=magicKey.find(key); if (it!=magicKey.end()) k=it->second; else { k=magic.size(); magicKey[key]=k; 
    Expr*y=x; if (prec<6) { Atom a; a.kind=A_INPUT; a.name="rounding"; a.occ=occ["rounding"]++; a.hasB=true; a.lo=-1; a.hi=1; int v2=newAtom(a); Z p10; mpz_ui_pow_ui(p10.get_mpz_t(),10,fix?prec:prec-1>0?prec-1:0); y=fix?mkReal(radd(x->r,rmul(rconst(Q(Z(1),2*p10)),rvarRat(v2)))):mkReal(rmul(x->r,radd(rconst(1),rmul(rconst(Q(Z(1),2*p10)),rvarRat(v2))))); } magic.push_back(y); char b[64]; snprintf(b,sizeof b,"1.%05de+201",k+1); magicIdx[strtod(b,nullptr)]=k; }
  char b[64]; snprintf(b,sizeof b,"1.%05de+201",k+1); *o<<b; return o; }
static void gotDouble(double*d) { auto it=magicIdx.find(*d); if (it!=magicIdx.end()) __vs_store(d,8,magic[it->second]); else __vs_store(d,8,nullptr); }
std::istream*__vsw_is_d(std::istream*i,double*d) { __vs_callee=nullptr; *i>>*d; gotDouble(d); return i; }
std::istream*__vsw_is_i(std::istream*i,int*d) { __vs_callee=nullptr; *i>>*d; __vs_store(d,sizeof*d,nullptr); return i; }
std::istream*__vsw_is_m(std::istream*i,unsigned long*d) { __vs_callee=nullptr; *i>>*d; __vs_store(d,sizeof*d,nullptr); return i; }
std::istream*__vsw_is_l(std::istream*i,long*d) { __vs_callee=nullptr; *i>>*d; __vs_store(d,sizeof*d,nullptr); return i; }
std::istream*__vsw_is_j(std::istream*i,unsigned*d) { __vs_callee=nullptr; *i>>*d; __vs_store(d,sizeof*d,nullptr); return i; }
static int64_t cz(int w) { void*e=__vs_args[1]; __vs_callee=nullptr; return e?__vs_concretize(e,0,w,-1):0; }
std::ostream*__vsw_os_i(std::ostream*o,int v) { void*e=__vs_args[1]; if (e) v=(int)cz(32); *o<<v; return o; }
std::ostream*__vsw_os_l(std::ostream*o,long v) { void*e=__vs_args[1]; if (e) v=(long)cz(64); *o<<v; return o; }
std::ostream*__vsw_os_m(std::ostream*o,unsigned long v) { void*e=__vs_args[1]; if (e) v=(unsigned long)cz(64); *o<<v; return o; }
std::ostream*__vsw_os_j(std::ostream*o,unsigned v) { void*e=__vs_args[1]; if (e) v=(unsigned)cz(32); *o<<v; return o; }
double __vsw_strtod(const char*s,char**e) { __vs_callee=nullptr; double d=strtod(s,e); auto it=magicIdx.find(d); __vs_ret[0]=it!=magicIdx.end()?magic[it->second]:nullptr; return d; }
double __vsw_atof(const char*s) { return __vsw_strtod(s,nullptr); }
// ------------------------------------------------------------------ harness API
static void newInput(Atom&a) { a.kind=A_INPUT; a.occ=occ[a.name]++; }
double vs_real(const char*n,double lo,double hi) { Atom a; a.name=n; newInput(a); a.hasB=true; a.lo=snap(lo); a.hi=snap(hi); int v=newAtom(a); unsigned h=2166136261u; for (const char*c=n;*c;++c) h=(h^*c)*16777619u; h^=a.occ*7919u; h^=h>>13; h*=0x5bd1e995; h^=h>>15; Q f(Z((long)(1+h%62)),Z(63)); if (!lo&&!hi) f=0; Q w=a.lo+(a.hi-a.lo)*f; // generic, low-height start value
  Z k=w.get_num()*16/w.get_den(); Q w2(k,16); w2.canonicalize(); if (w2<a.lo||w2>a.hi) w2=w; model[v]=w2; if (verbose) fprintf(stderr,"[%d] v%d=%s#%d\n",getpid(),v,n,a.occ); anySym=true; __vs_ret[0]=mkReal(rvarRat(v)); return mpq_get_d(w2.get_mpq_t()); }
static Expr*bvInput(const char*n,int lo,int hi,int&v) { Atom a; a.name=n; newInput(a); a.hasB=true; a.lo=lo; a.hi=hi; a.bw=32; v=newAtom(a); model[v]=lo; Expr*e=new Expr; e->k=E_BV; e->w=32; e->isC=false; e->z=zatom(v); e->boolSrc=nullptr; e->b=nullptr; e->vars=std::vector<int>(1,v); anySym=true; return e; }
int vs_int(const char*n,int lo,int hi) { int v; __vs_ret[0]=bvInput(n,lo,hi,v); return lo; }
bool vs_bool(const char*n) { int v; Expr*e=bvInput(n,0,1,v); __vs_ret[0]=mkBoolZ(Z3_mk_eq(ctx,e->z,Z3_mk_unsigned_int64(ctx,1,Z3_mk_bv_sort(ctx,32))),e->vars); return false; }
int vs_pick(const char*n,int k) { int v; Expr*e=bvInput(n,0,k-1,v); int r=(int)__vs_concretize(e,0,32,-1); __vs_ret[0]=nullptr; return r; }
static void assumeB(BX*b) { int q=quick(b); if (q==1) return; if (q==0) endPath(END_ASSUME); budget(); if (modelValid&&bEval(b)==1) { addPC(b); return; } Res r=check({b},rlAssert,msAssert,true); if (r==UNSAT) endPath(END_ASSUME); addPC(b); if (r==UNK) modelValid=false; }
void vs_assume(bool c) { void*e=__vs_args[0]; __vs_callee=nullptr; if (!e) { if (!c) endPath(END_ASSUME); return; } assumeB(toBoolE((Expr*)e)->b); }
static Res searchCex(BX*bad) { // partially fix inputs to let the solver find a counterexample in a lower-dimensional slice
  if (!modelValid) return UNK; std::vector<int> ins; std::set<int> vs(bad->vars.begin(),bad->vars.end()); closeVars(vs); for (int v:vs) if (atoms[v].kind==A_INPUT&&!atoms[v].bw) ins.push_back(v); if (ins.empty()) return UNK; unsigned seed=12345;
  for (int t=0;t<24;++t) { std::vector<Fix> fx; size_t keepN=1+t%2; std::set<int> freeV; while (freeV.size()<std::min(keepN,ins.size())) { seed=seed*1103515245+12345; freeV.insert(ins[(seed>>8)%ins.size()]); } for (int v:ins) if (!freeV.count(v)) fx.push_back({v,model[v]}); if (check({bad},rlBranch,2000,true,true,&fx)==SAT) return SAT; if (now()>deadline) break; } return UNK; }
static void assertB(BX*good,const char*msg,BX*strong=nullptr) { idleTicks=0; INC(asserts); MsgStat*m=mstat(msg); __sync_fetch_and_add(&m->execd,1); budget();
  int q=quick(good); if (q==1) { INC(assertNorm); __sync_fetch_and_add(&m->norm,1); return; }
  BX*bad=bnot(good); if (good->k==B_CONST) { if (!ensureModel()) { Res r=check({},rlAssert,msAssert,true); if (r==UNSAT) endPath(END_INFEAS); if (r==UNK) { INC(assertUndecided); __sync_fetch_and_add(&m->undecided,1); return; } } candidate(msg); return; }
  bad=narrow(bad);
  if (modelValid&&bEval(bad)==1) { candidate(msg); INC(assertSolver); __sync_fetch_and_add(&m->solver,1); assumeB(good); return; }
  std::vector<Q> m0=model; std::vector<char> e0=modelExact; bool mv=modelValid; Res r=check({bad},rlAssert,msAssert,true);
  if (r==UNK) { r=check({bad},rlBranch,msBranch,false,false); if (r==SAT) r=UNK; if (r==UNK) { model=m0; modelExact=e0; evCache.clear(); r=searchCex(bad); } if (r==UNK) { INC(assertUndecided); __sync_fetch_and_add(&m->undecided,1); if (modelValid) { long n=INC(witnesses); if (n<60) dump("wit-undecided",n,msg); } if (verbose) fprintf(stderr,"[%d] undecided: %s\n",getpid(),msg); return; } }
  INC(assertSolver); __sync_fetch_and_add(&m->solver,1);
  if (r==SAT) { if (verbose) fprintf(stderr,"[%d] candidate: %s\n",getpid(),msg); candidate(msg); model=m0; modelExact=e0; evCache.clear(); modelValid=mv; assumeB(good); } else learn(good); }
void vs_check(bool c,const char*msg) { idleTicks=0; void*e=__vs_args[0]; __vs_callee=nullptr; if (!e) { if (c) { INC(asserts); INC(assertNorm); MsgStat*m=mstat(msg); __sync_fetch_and_add(&m->execd,1); __sync_fetch_and_add(&m->norm,1); return; } assertB(&bFalse,msg); return; } assertB(toBoolE((Expr*)e)->b,msg); }
void vs_eq(double a,double b,double t,const char*msg) { void*ea=__vs_args[0],*eb=__vs_args[1]; __vs_callee=nullptr; if (!ea&&!eb) { assertB(bconst(std::fabs(a-b)<=t),msg); return; } if ((!ea&&!std::isfinite(a))||(!eb&&!std::isfinite(b))) { assertB(&bFalse,msg); return; }
  Rat d=radd(ratOf(ea,a),ratOf(eb,b),-1); if (d.num.empty()) { assertB(&bTrue,msg); return; } Q tq=snap(t); 
  // a large deviation first (robust replay), then the tolerance itself
  BX*good=bbin(B_AND,cmp0(radd(d,rconst(tq),-1),3),cmp0(radd(d,rconst(tq)),6));
  assertB(good,msg); }
void vs_le(double a,double b,double t,const char*msg) { void*ea=__vs_args[0],*eb=__vs_args[1]; __vs_callee=nullptr; if (!ea&&!eb) { assertB(bconst(a<=b+t),msg); return; } Rat d=radd(ratOf(ea,a),ratOf(eb,b),-1); assertB(cmp0(radd(d,rconst(snap(t)),-1),3),msg); }
void vs_option(const char*n,int v) { __vs_callee=nullptr; if (!strcmp(n,"strict_fp")) strict_fp=v; }
int vs_symbolic(void) { __vs_callee=nullptr; __vs_ret[0]=nullptr; return 1; }
int vs_tier(void) { __vs_callee=nullptr; __vs_ret[0]=nullptr; return tier; }
const char*vs_tmpdir(void) { __vs_callee=nullptr; if (!tmpd[0]) { strcpy(tmpd,"/tmp/vssymXXXXXX"); if (!mkdtemp(tmpd)||chdir(tmpd)) endPath(END_UNSUP); tmpOwner=getpid(); } return "."; }
struct HReg { const char*n; void(*f)(); int t; };
static std::vector<HReg>&hs() { static std::vector<HReg>*v=new std::vector<HReg>; return *v; }
void vs_register(const char*n,void(*f)(),int t) { __vs_callee=nullptr; HReg h={n,f,t}; hs().push_back(h); }
}
static void jstr(FILE*f,const char*s) { fputc('"',f); for (;*s;++s) { if (*s=='"'||*s=='\\') fputc('\\',f); if ((unsigned char)*s<32) fputc(' ',f); else fputc(*s,f); } fputc('"',f); }
int main(int argc,char**argv) {
  if (argc>1&&!strcmp(argv[1],"--list")) { for (auto&h:hs()) printf("%s %d\n",h.n,h.t); return 0; }
  if (argc<3) { fprintf(stderr,"usage: %s harness outdir\n",argv[0]); return 4; }
  curH=argv[1]; outdir=argv[2]; auto env=[](const char*n,double d){ const char*e=getenv(n); return e?atof(e):d; };
  deadline=now()+env("VS_TIME",120); maxPaths=(long)env("VS_MAXPATHS",20000); jobs=(int)env("VS_JOBS",8); verbose=env("VS_VERBOSE",0)!=0; tier=(getenv("VS_TIER")&&!strcmp(getenv("VS_TIER"),"thorough"));
  msBranch=(int)env("VS_MSBRANCH",4000); msAssert=(int)env("VS_MSASSERT",20000);
  double memlim=env("VS_MEM",3e9); rlimit rl={(rlim_t)memlim,(rlim_t)memlim}; setrlimit(RLIMIT_AS,&rl);
  nsitesAlloc=__vs_nsites; S=(Shared*)mmap(nullptr,sizeof(Shared)+sizeof(long)*(nsitesAlloc+1),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); S->tokens=jobs-1;
  void(*fn)()=nullptr; for (auto&h:hs()) if (!strcmp(h.n,curH)) fn=h.f; if (!fn) { fprintf(stderr,"no harness %s\n",curH); return 4; }
  prctl(PR_SET_CHILD_SUBREAPER,1); double t0=now();
  fflush(stdout); pid_t p=fork(); if (p==0) { setpgid(0,0);
    Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_set_error_handler(ctx,zerr); sReal=Z3_mk_real_sort(ctx); sBool=Z3_mk_bool_sort(ctx); keep(Z3_sort_to_ast(ctx,sReal)); keep(Z3_sort_to_ast(ctx,sBool));
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onAlarm; sa.sa_flags=SA_RESTART; sigaction(SIGALRM,&sa,nullptr); sa.sa_handler=onProf; sigaction(SIGPROF,&sa,nullptr); armProf();
    static char alt[65536]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr); memset(&sa,0,sizeof sa); sa.sa_handler=onCrash; sa.sa_flags=SA_ONSTACK; int sg[]={SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL}; for (int s:sg) sigaction(s,&sa,nullptr);
    INC(paths);
    int dn=open("/dev/null",O_WRONLY); if (!verbose) dup2(dn,1);
    try { fn(); } catch (std::exception&x) { if (ensureModel()) candidate((std::string("uncaught exception ")+typeid(x).name()).c_str()); } catch (...) { if (ensureModel()) candidate("uncaught exception"); }
    if (!ensureModel()) { Res r=check({},rlAssert,msAssert,true); if (r==UNSAT) endPath(END_INFEAS); }
    endPath(END_DONE); }
  int st; bool killed=false; for (;;) { pid_t q=waitpid(-1,&st,WNOHANG); if (q<0) { if (errno==EINTR) continue; break; } if (q==0) { usleep(2000); if (now()>deadline+1) S->stop=1; if (now()>deadline+30) { // hard stop: runaway native loop or solver call
        killed=true; kill(-p,SIGKILL); } } else if (WIFSIGNALED(st)) { if (WTERMSIG(st)==SIGKILL) INC(ends[END_CUT]); else INC(ends[END_CRASH]); } }
  (void)killed;
  FILE*f=stdout; fprintf(f,"{\"harness\":\"%s\",\"wall_s\":%.3f,\"paths\":%ld,\"forks\":%ld,\"queries\":%ld,\"solver_s\":%.3f,\"hard_queries\":%ld,\"unknown_branches\":%ld,\"candidates\":%ld,\"asserts\":%ld,\"asserts_by_normal_form\":%ld,\"asserts_by_solver\":%ld,\"asserts_undecided\":%ld,\"max_pc\":%ld,\"modelless\":%ld,\"ends\":{",curH,now()-t0,S->paths,S->forks,S->queries,S->solver_us/1e6,S->hard,S->unknownBranch,S->candidates,S->asserts,S->assertNorm,S->assertSolver,S->assertUndecided,S->maxpc,S->modelless);
  for (int i=0;i<END_N;++i) fprintf(f,"%s\"%s\":%ld",i?",":"",endName[i],S->ends[i]); fprintf(f,"},\"unsupported\":["); for (int i=0;i<S->nuns;++i) { fprintf(f,"%s",i?",":""); jstr(f,S->uns[i]); } fprintf(f,"],\"checks\":[");
  for (int i=0;i<S->nmsg;++i) { MsgStat&m=S->msgs[i]; fprintf(f,"%s{\"msg\":",i?",":""); jstr(f,m.msg); fprintf(f,",\"executed\":%ld,\"normal_form\":%ld,\"solver\":%ld,\"undecided\":%ld,\"candidates\":%ld}",m.execd,m.norm,m.solver,m.undecided,m.cand); }
  fprintf(f,"],\"fork_sites\":["); std::vector<std::pair<long,int>> fs; for (long i=0;i<nsitesAlloc;++i) if (S->siteForks[i]) fs.push_back({S->siteForks[i],(int)i}); std::sort(fs.rbegin(),fs.rend()); for (size_t i=0;i<fs.size()&&i<12;++i) { fprintf(f,"%s{\"n\":%ld,\"site\":",i?",":"",fs[i].first); jstr(f,siteName(fs[i].second)); fprintf(f,"}"); } fprintf(f,"]}\n");
  return 0; }
// memory that library code frees and uses again must not keep the symbolic contents it had before
extern "C" void __vs_clear(void*,int64_t);
void operator delete(void*p) noexcept { if (p) { if (anySym&&!inPg) __vs_clear(p,(int64_t)malloc_usable_size(p)); free(p); } }
void operator delete[](void*p) noexcept { operator delete(p); }
void operator delete(void*p,size_t) noexcept { operator delete(p); }
void operator delete[](void*p,size_t) noexcept { operator delete(p); }
