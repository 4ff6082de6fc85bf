// Native replay runtime: runs one harness of the real (uninstrumented) build on concrete inputs.
//   replay <harness> <inputs-file>      exit 0 pass, 1 a check failed, 3 assumption not met, 4 usage
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
#include <csignal>
#include <unistd.h>
#include <sys/stat.h>
static std::map<std::string, std::string> in; static std::map<std::string,int> occ; static int fails;
struct H { const char *n; void (*f)(); int t; };
static std::vector<H> &hs() { static std::vector<H> *v = new std::vector<H>; return *v; }
static char tmpd[64];
static void clean() { if (tmpd[0]) { char c[128]; snprintf(c,sizeof c,"rm -rf %s", tmpd); if (system(c)) {} tmpd[0]=0; } }
static std::string key(const char *n) { char b[32]; snprintf(b,sizeof b,"#%d", occ[n]++); return std::string(n)+b; }
static void fail(const char *m, const char *extra="") { printf("FAIL %s %s\n", m, extra); fflush(stdout); if (++fails>20) { clean(); _exit(1); } }
static bool have(const char *n, std::string &v) { std::string k=key(n); std::map<std::string,std::string>::iterator i=in.find(k); if (i==in.end()) return false; v=i->second; return true; }
extern "C" {
double vs_real(const char *n, double lo, double hi) { std::string v; double r = have(n,v) ? atof(v.c_str()) : lo+(hi-lo)*0.37; if (r<lo) r=lo; if (r>hi) r=hi; return r; }
int vs_int(const char *n, int lo, int hi) { std::string v; int r = have(n,v) ? (int)atoll(v.c_str()) : lo; if (r<lo||r>hi) r=lo; return r; }
int vs_pick(const char *n, int c) { return vs_int(n,0,c-1); }
bool vs_bool(const char *n) { return vs_int(n,0,1); }
void vs_assume(bool c) { if (!c) { if (fails) { clean(); _exit(1); } printf("ASSUME-NOT-MET\n"); fflush(stdout); clean(); _exit(3); } }
void vs_check(bool c, const char *m) { if (!c) fail(m); }
void vs_eq(double a, double b, double t, const char *m) { if (!(std::fabs(a-b)<=t)) { char s[100]; snprintf(s,sizeof s,"[%.17g vs %.17g]",a,b); fail(m,s);} }
void vs_le(double a, double b, double t, const char *m) { if (!(a<=b+t)) { char s[100]; snprintf(s,sizeof s,"[%.17g > %.17g]",a,b); fail(m,s);} }
void vs_option(const char*,int) {}
int vs_symbolic(void) { return 0; }
int vs_tier(void) { const char *t=getenv("VS_TIER"); return t && !strcmp(t,"thorough"); }
const char *vs_tmpdir(void) { if (!tmpd[0]) { strcpy(tmpd,"/tmp/vsnatXXXXXX"); if (!mkdtemp(tmpd)) exit(4); } return tmpd; }
void vs_register(const char *n, void (*f)(), int t) { H h={n,f,t}; hs().push_back(h); }
}
static void onsig(int s) { printf("FAIL crash: signal %d\n", s); fflush(stdout); _exit(1); }
int main(int argc, char **argv) {
  if (argc>1 && !strcmp(argv[1],"--list")) { for (size_t i=0;i<hs().size();++i) printf("%s %d\n", hs()[i].n, hs()[i].t); return 0; }
  if (argc<3) { fprintf(stderr,"usage: %s harness inputs\n", argv[0]); return 4; }
  FILE *f = fopen(argv[2],"r"); if (!f) return 4; char line[4096];
  while (fgets(line,sizeof line,f)) { char *p=strchr(line,'='); if (!p || line[0]=='#') continue; *p=0; char *v=p+1; v[strcspn(v,"\r\n")]=0; in[line]=v; }
  fclose(f);
  int sg[]={SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL}; for (unsigned i=0;i<5;++i) signal(sg[i],onsig);
  for (size_t i=0;i<hs().size();++i) if (!strcmp(hs()[i].n, argv[1])) {
    try { hs()[i].f(); } catch (std::exception &e) { printf("FAIL uncaught exception: %s\n", typeid(e).name()); clean(); return 1; } catch (...) { printf("FAIL uncaught exception\n"); clean(); return 1; }
    clean(); if (!fails) printf("PASS\n"); return fails?1:0;
  }
  fprintf(stderr,"no harness %s\n", argv[1]); return 4;
}
