// Native back end of vf.hpp: replays recorded inputs, or searches at random.
#include <limits>
#include <ipaddress/ipaddress.hpp>
#include "vf.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <ctime>
#include <vector>
#include <string>
#include <exception>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include VF_SRC
static jmp_buf g_skip;
static std::vector<uint64_t> g_in; static size_t g_pos; static bool g_search;
static uint64_t g_par[16];
struct Rec { uint64_t n; uint64_t v[4096]; };
static Rec* g_rec;
static uint64_t g_s;
static uint64_t rnd(){ g_s += 0x9E3779B97F4A7C15ull; uint64_t z=g_s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static int g_mode;
static const char DICT[] = "0123456789abcdefABF:::...%/- 0012g";
static uint64_t pick(int bits){
  uint64_t m = bits==64 ? ~0ull : ((1ull<<bits)-1);
  uint64_t r = rnd();
  if (bits==8) switch(g_mode & 7){ case 0: case 1: case 2: return (uint8_t)DICT[r % (sizeof(DICT)-1)];
    case 3: return (uint8_t)("0123456789.:/"[r%13]); case 4: return r%4==0?r>>8&255:(uint8_t)DICT[(r>>16) % (sizeof(DICT)-1)]; case 5: return (r>>9)%3==0 ? (r>>16)&255 : ((r>>9)%3==1?0:255); default: return r&255; }
  switch((r>>56)%9){ case 0: return rnd()&m; case 1: return rnd()%4; case 2: return m-(rnd()%4); case 3: return (1ull<<(rnd()%bits))&m; case 4: return (~0ull<<(rnd()%bits))&m;
    case 5: return ((~0ull<<(rnd()%bits))^(1ull<<(rnd()%bits)))&m; case 6: return rnd()%130; case 7: return (rnd()&((1ull<<(rnd()%bits))-1))&m; default: return (rnd()<<(rnd()%bits))&m; }
}
static uint64_t in(int bits){
  uint64_t v;
  if(g_search) v = pick(bits);
  else v = g_pos < g_in.size() ? g_in[g_pos] : 0;
  ++g_pos;
  uint64_t m = bits==64 ? ~0ull : ((1ull<<bits)-1);
  v &= m;
  if(g_rec && g_rec->n < 4096) g_rec->v[g_rec->n++] = v;
  return v;
}
extern "C" {
uint8_t nd_u8(){return (uint8_t)in(8);} uint16_t nd_u16(){return (uint16_t)in(16);} uint32_t nd_u32(){return (uint32_t)in(32);} uint64_t nd_u64(){return in(64);}
uint8_t hv_u8(){return 0;} uint16_t hv_u16(){return 0;} uint32_t hv_u32(){return 0;} uint64_t hv_u64(){return 0;}
void vf_assume(bool c){ if(!c) longjmp(g_skip,1); }
static void fail(const char* k,const char* m){ printf("VF-FAIL %s: %s\n",k,m); fflush(stdout); _exit(3); }
void vf_assert(bool c,const char* m){ if(!c) fail("post",m); }
void vf_require(bool c,const char* m){ if(!c) fail("pre",m); }
void vf_cover(bool,const char*){}
uint8_t vf_hint8(uint8_t a,uint8_t){return a;} uint64_t vf_hint64(uint64_t a,uint64_t){return a;}
void vf_fix64(uint64_t x,uint64_t k){ vf_assume(x==k); }
bool vf_same_state(const void*,const void*,size_t){return true;}
uint64_t vf_param(int i){ return g_par[i]; }
uint32_t vf_exc_code(){
#ifndef IPADDRESS_NO_EXCEPTIONS
  try { throw; } catch(const ipaddress::error& e){ return (uint32_t)e.code(); } catch(...) { return 0xFFFFFFFEu; }
#else
  return 0xFFFFFFFDu;
#endif
}
}
// vf_native replay PARAMS INPUTS | search PARAMS SECONDS SEED OUT    (PARAMS, INPUTS: comma separated)
static std::vector<uint64_t> nums(const char* s){ std::vector<uint64_t> r; while(*s && *s!='-'){ char* e; r.push_back(strtoull(s,&e,0)); if(*e!=',') break; s=e+1; } return r; }
int main(int argc,char** argv){
  auto p = nums(argv[2]); for(size_t i=0;i<p.size()&&i<16;++i) g_par[i]=p[i];
  if(!strcmp(argv[1],"replay")){
    g_in = nums(argv[3]);
    if(setjmp(g_skip)){ printf("VF-SKIP assumption not met\n"); return 0; }
    VF_ROOT(); printf("VF-OK\n"); return 0;
  }
  double secs = atof(argv[3]); g_s = strtoull(argv[4],nullptr,0)*7919+1;
  int fd=open(argv[5],O_RDWR|O_CREAT|O_TRUNC,0600); if(ftruncate(fd,sizeof(Rec))) return 9;
  g_rec=(Rec*)mmap(nullptr,sizeof(Rec),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
  g_search=true; time_t t0=time(nullptr); volatile uint64_t it=0;
  while((it&63) || difftime(time(nullptr),t0) < secs){ it=it+1; g_rec->n=0; g_pos=0; g_mode=rnd()&7; if(!setjmp(g_skip)) VF_ROOT(); }
  printf("VF-NONE %llu\n",(unsigned long long)it); return 0;
}
