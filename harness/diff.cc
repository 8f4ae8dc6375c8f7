// Runs the real native code of /repo against executable specifications (concrete search used for replay and for bounded stand-ins).
// usage: diff <prop> seed=N secs=S [isa=name] [case=hex...]   -- prints one JSON line {"fail":...} or {"ok":...}
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <sys/mman.h>
#include "common.h"
#include "encoder.h"
#include "encoder_common.h"
#include "decoder.h"
#include "decoder_common.h"
#include "crc_common.h"
using namespace RapidYenc;
typedef std::vector<uint8_t> bytes;
static int vf_isa=0, vf_crc_isa=0;
namespace RapidYenc { int vf_cpu_supports_isa(){return vf_isa;} int vf_cpu_supports_crc_isa(){return vf_crc_isa;} 
 uint32_t crc32_multiply_generic(uint32_t,uint32_t); uint32_t crc32_shift_generic(uint32_t,uint32_t);}
// ---------- rng
static uint64_t rs=88172645463325252ull;
static uint64_t rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs*0x2545F4914F6CDD1Dull; }
static uint32_t rn(uint32_t n){ return (uint32_t)((rnd()>>33)%n); }
// ---------- specs
static bytes spec_encode(const bytes&in,long ls,long col,bool doEnd){
  bytes o; 
  for(size_t k=0;k<in.size();k++){
    uint8_t c=in[k]+42;
    bool nl=false;
    if(col>=ls){ o.push_back('\r'); o.push_back('\n'); col=0; nl=true; }
    bool first=(col==0), last=(col==ls-1);
    bool esc=(c==0||c=='\r'||c=='\n'||c=='=');
    if((first||last)&&(c=='\t'||c==' ')) esc=true;
    if(first&&c=='.') esc=true;
    if(doEnd&&k+1==in.size()&&(c=='\t'||c==' ')) esc=true;
    if(esc){ o.push_back('='); o.push_back(c+64); col+=2; } else { o.push_back(c); col++; }
  }
  return o;
}
enum {S_CRLF,S_EQ,S_CR,S_NONE,S_DT,S_DTCR,S_CRLFEQ};
struct DecRes{ bytes out; size_t read; int ended; int state; };
// raw: dot unstuffing; end: search for terminators
static DecRes spec_decode(const uint8_t*in,size_t n,bool raw,bool end,int st){
  DecRes r; r.ended=0; r.read=n;
  for(size_t k=0;k<n;k++){
    uint8_t c=in[k];
    if(st==S_CRLFEQ){ if(end&&c=='y'){ r.ended=1; r.read=k+1; r.state=S_NONE; return r;} st=S_EQ; }
    if(st==S_EQ){ r.out.push_back(c-106); st=(raw&&c=='\r')?S_CR:S_NONE; if(!raw) st=S_NONE; continue; }
    if(st==S_CRLF&&raw&&c=='.'){ st=end?S_DT:S_NONE; continue; }
    if(st==S_CRLF&&end&&c=='='){ st=S_CRLFEQ; continue; }
    if(st==S_DT&&c=='\r'){ st=S_DTCR; continue; }
    if(st==S_DT&&c=='='){ st=S_CRLFEQ; continue; }
    if(st==S_DTCR&&c=='\n'){ r.ended=2; r.read=k+1; r.state=S_CRLF; return r; }
    if(st==S_CR&&c=='\n'&&raw){ st=S_CRLF; continue; }
    if(c=='\r'){ st=raw?S_CR:S_NONE; continue; }
    if(c=='\n'){ st=S_NONE; continue; }
    if(c=='='){ st=S_EQ; continue; }
    r.out.push_back(c-42); st=S_NONE;
  }
  r.state=st; return r;
}
static uint32_t crct[256];
static uint32_t spec_crc(const uint8_t*p,size_t n,uint32_t init){ uint32_t c=~init; while(n--) c=(c>>8)^crct[(c^*p++)&255]; return ~c; }
static uint32_t spec_mul(uint32_t a,uint32_t b){ // bit-reflected: bit31 = x^0
  uint32_t r=0; for(int i=31;i>=0;i--){ if((b>>i)&1) r^=a; a=(a>>1)^((a&1)?0xEDB88320u:0); } return r; }
static uint32_t spec_xpow(unsigned __int128 n){ uint32_t r=0x80000000u,b=0x40000000u; while(n){ if(n&1) r=spec_mul(r,b); b=spec_mul(b,b); n>>=1;} return r; }
static uint32_t spec_xpow_s(__int128 n){ const unsigned __int128 M=0xFFFFFFFFu; __int128 m=n%(__int128)M; if(m<0) m+=M; return spec_xpow(m); }
// ---------- guarded memory
struct Guard{ uint8_t*base; size_t sz; uint8_t*lo,*hi; 
  Guard(size_t n){ sz=(n+4095)/4096*4096+8192; base=(uint8_t*)mmap(0,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); lo=base+4096; hi=base+sz-4096; mprotect(base,4096,PROT_NONE); mprotect(hi,4096,PROT_NONE);} };
static Guard *gs,*gd;
// ---------- isa handling
struct Isa{ const char*name; int isa,crc; };
static std::vector<Isa> isas;
typedef size_t (*encf)(int,int*,const unsigned char*,unsigned char*,size_t,int);
static encf gen_enc;
static YencDecoderEnd (*gen_dec[3])(const unsigned char**,unsigned char**,size_t,YencDecoderState*);
static uint32_t (*gen_crc)(const void*,size_t,uint32_t);
static int cur=-1;
struct Fn{ encf enc; YencDecoderEnd (*dec[3])(const unsigned char**,unsigned char**,size_t,YencDecoderState*); crc_func crc; crc_mul_func mul,shf; };
static std::vector<Fn> fns;
static void init_isas(const char*only){
  Fn g; g.enc=_do_encode; g.dec[0]=_do_decode; g.dec[1]=_do_decode_raw; g.dec[2]=_do_decode_end_raw;
  g.mul=_crc32_multiply; g.shf=_crc32_shift; g.crc=_do_crc32_incremental;
  vf_crc_isa=0; crc32_init(); g.crc=_do_crc32_incremental; g.mul=_crc32_multiply; g.shf=_crc32_shift;
  auto add=[&](const char*n,bool sup,int isa,int crc){ if(!sup) return; if(only&&strcmp(only,n)) return; if(isa<0){ isas.push_back({n,isa,crc}); fns.push_back(g); return; }
    vf_isa=isa; vf_crc_isa=crc; encoder_init(); decoder_init(); crc32_init(); Fn f; f.enc=_do_encode; f.dec[0]=_do_decode; f.dec[1]=_do_decode_raw; f.dec[2]=_do_decode_end_raw; f.crc=_do_crc32_incremental; f.mul=_crc32_multiply; f.shf=_crc32_shift; isas.push_back({n,isa,crc}); fns.push_back(f); };
  __builtin_cpu_init();
  add("generic",true,-1,0);
  add("sse2",true,0x100,0);
  add("ssse3",__builtin_cpu_supports("ssse3"),0x200,__builtin_cpu_supports("pclmul")&&__builtin_cpu_supports("sse4.1")?1:0);
  add("avx",__builtin_cpu_supports("avx")&&__builtin_cpu_supports("popcnt"),0x381,__builtin_cpu_supports("pclmul")?1:0);
  add("avx2",__builtin_cpu_supports("avx2")&&__builtin_cpu_supports("bmi2"),0x403,__builtin_cpu_supports("vpclmulqdq")?2:(__builtin_cpu_supports("pclmul")?1:0));
  add("vbmi2",__builtin_cpu_supports("avx512vbmi2")&&__builtin_cpu_supports("avx512vl")&&__builtin_cpu_supports("avx512bw"),0x607,__builtin_cpu_supports("vpclmulqdq")?2:0);
}
// ---------- reporting
static std::string hex(const uint8_t*p,size_t n){ std::string s; char b[3]; for(size_t i=0;i<n;i++){ sprintf(b,"%02x",p[i]); s+=b;} return s; }
static std::string hex(const bytes&b){ return hex(b.data(),b.size()); }
static bytes unhex(const std::string&s){ bytes b; for(size_t i=0;i+1<s.size();i+=2) b.push_back(strtol(s.substr(i,2).c_str(),0,16)); return b; }
static std::string curcase;       // JSON members of the case being run
static const char*prop;
static uint64_t evals=0,nontriv=0;
static std::string sample;
static void fail(const std::string&what,const std::string&more=""){
  printf("{\"fail\":{\"property\":\"%s\",\"what\":\"%s\",%s%s}}\n",prop,what.c_str(),curcase.c_str(),more.c_str()); fflush(stdout); _exit(1); }
static void onsig(int s){ char b[64]; snprintf(b,64,"memory fault or crash (signal %d)",s); fail(b); }
static void note(bool nt){ evals++; if(nt) nontriv++; if(sample.empty()&&nt&&curcase.size()<400) sample=curcase; }
// placement of a buffer of n bytes inside a guard: how==0 flush against the upper guard, else at alignment al
static uint8_t* place(Guard*g,size_t n,int how,int al){ if(how==0) return g->hi-n; return g->lo+al; }
// ---------- encode
struct EncCase{ bytes in; int ls,col,how,al,doEnd; int isa; };
static size_t native_max(size_t len,size_t ls){ size_t r=len*2+2+64; if(ls==128) return r+2*(len>>6); return r+2*((len*2)/ls); }
static uint8_t ESPEC[]={214,224,227,19,223,246,4};
static std::map<std::string,int> dummy;
static void run_enc(const EncCase&c){
  char b[256]; snprintf(b,256,"\"op\":\"encode\",\"isa\":\"%s\",\"line_size\":%d,\"col\":%d,\"how\":%d,\"align\":%d,\"len\":%zu,\"input\":\"",isas[c.isa].name,c.ls,c.col,c.how,c.al,c.in.size());
  curcase=std::string(b)+hex(c.in)+"\"";
  if(c.in.empty()) return;
  bytes want=spec_encode(c.in,c.ls,c.col,c.doEnd);
  note(want.size()>c.in.size());
  size_t cap=native_max(c.in.size(),c.ls);
  uint8_t*s=place(gs,c.in.size(),c.how,c.al); memcpy(s,c.in.data(),c.in.size());
  uint8_t*d=place(gd,cap,prop[1]=='0'&&prop[2]=='3'?0:c.how,(c.al*7)&63);
  bool bounds=!strcmp(prop,"E03");
  size_t pre=d-gd->lo; if(pre>256) pre=256;
  memset(d-pre,0xAA,pre); size_t post=gd->hi-(d+cap); if(post>256) post=256; memset(d+cap,0xAA,post);
  int col=c.col;
  size_t n=fns[c.isa].enc(c.ls,&col,s,d,c.in.size(),c.doEnd);
  if(memcmp(s,c.in.data(),c.in.size())) fail("source buffer modified");
  for(size_t k=0;k<pre;k++) if(d[-1-(long)k]!=0xAA) fail("write before the destination");
  for(size_t k=0;k<post;k++) if(d[cap+k]!=0xAA) fail("write beyond the required destination size");
  if(n>cap) fail("reported length exceeds the required size");
  if(bounds){
    if(!(n==want.size())) {} // content is E01's business
    return;
  }
  if(!strcmp(prop,"E02")){
    if(c.col!=0) return;
    size_t i=0; size_t linestart=0; 
    bytes o(d,d+n);
    for(i=0;i<=n;i++){
      bool eol=(i==n)||(o[i]=='\r'||o[i]=='\n'||o[i]==0);
      if(i<n&&o[i]=='='&&!(i+1<n&&o[i+1]!='y'&&o[i+1]!='\r'&&o[i+1]!='\n')) fail("'=' not followed by an escaped character",",\"output\":\""+hex(o)+"\"");
      if(!eol) continue;
      size_t L=i-linestart;
      if(L==0) fail("empty line",",\"output\":\""+hex(o)+"\"");
      uint8_t f=o[linestart],l=o[i-1];
      if(f=='.'||f=='\t'||f==' ') fail("line begins with an unsafe character",",\"output\":\""+hex(o)+"\"");
      if(l=='\t'||l==' ') fail("line ends with whitespace",",\"output\":\""+hex(o)+"\"");
      if(L>(size_t)c.ls+1) fail("line too long",",\"output\":\""+hex(o)+"\"");
      if(i<n){ if(L<(size_t)c.ls) fail("line too short",",\"output\":\""+hex(o)+"\"");
        if(!(o[i]=='\r'&&i+1<n&&o[i+1]=='\n')) fail("stray NUL, CR or LF",",\"output\":\""+hex(o)+"\"");
        i++; linestart=i+1; if(linestart>=n) fail("trailing line break",",\"output\":\""+hex(o)+"\""); }
    }
    return;
  }
  if(!strcmp(prop,"E04")){
    bytes o(d,d+n);
    int di=rn(isas.size());
    for(int raw=0;raw<2;raw++){
      if(raw&&c.col!=0) continue;
      bytes out(n); uint8_t*dp=out.data(); const unsigned char*sp=o.data();
      fns[di].dec[raw](&sp,&dp,n,NULL);
      out.resize(dp-out.data());
      if(out!=c.in) fail("decoding the encoded form does not give back the input",std::string(",\"dec_isa\":\"")+isas[di].name+"\",\"raw\":"+(raw?"1":"0")+",\"encoded\":\""+hex(o)+"\",\"decoded\":\""+hex(out)+"\"");
    }
    return;
  }
  if(n!=want.size()||memcmp(d,want.data(),n)) fail("encoded output differs from the yEnc definition",",\"got\":\""+hex(d,n>5000?5000:n)+"\",\"want\":\""+hex(want)+"\"");
}
static EncCase gen_enc_case(){
  EncCase c; static const int lss[]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,24,30,31,32,33,34,35,36,40,48,62,63,64,65,66,67,68,80,94,95,96,97,98,99,100,126,127,128,129,130,131,132,160,192,200,255,256,257,300,512,997,32768,65537,1073741824};
  c.ls=rn(3)?lss[rn(sizeof(lss)/sizeof(*lss))]:1+rn(400);
  if(rn(4)==0) c.ls=128;
  int lm=rn(10); size_t n=lm<3?rn(40):lm<6?rn(200):lm<9?rn(600):rn(3000); if(n==0) n=1;
  c.col=rn(2)?0:rn(c.ls>100000?300:c.ls); if(c.ls>100000&&rn(4)==0) c.col=c.ls-1-rn(300); if(rn(6)==0) c.col=c.ls-1-rn(c.ls<3?c.ls:3);
  if(c.ls<4000&&rn(3)==0&&c.ls>1){ // make the data end close to a line end
    size_t k=rn(4)*c.ls+rn(8); n=k+(c.ls>c.col?c.ls-c.col:0); n=n>4?n-rn(4):n; if(n<1) n=1; if(n>6000) n=6000; }
  c.in.resize(n); static const int ps[]={0,1,3,10,30,60,100}; int p=ps[rn(7)]; int mode=rn(4);
  uint8_t one=ESPEC[rn(7)]; uint8_t plain=rn(2)?'a':rn(256);
  for(size_t k=0;k<n;k++){ if((int)rn(100)<p) c.in[k]=(mode==0)?one:ESPEC[rn(7)]; else c.in[k]=(mode<2)?plain:(uint8_t)rnd(); }
  if(rn(2)){ int m=1+rn(4); for(int k=0;k<m;k++) c.in[rn(n)]=ESPEC[rn(7)]; }
  if(rn(2)) c.in[n-1]=ESPEC[rn(7)];
  if(rn(3)==0) c.in[0]=ESPEC[rn(7)];
  if(c.ls<3000&&rn(2)){ // specials around line ends
    long e=c.ls-c.col; while(e<(long)n+2){ for(int k=-4;k<3;k++) if(e+k>=0&&e+k<(long)n&&rn(2)) c.in[e+k]=ESPEC[rn(7)]; e+=c.ls; if(rn(3)==0) e-=rn(4);} }
  c.how=rn(3)==0?0:1; c.al=rn(64); c.doEnd=1; c.isa=rn(isas.size());
  return c;
}
// ---------- bounded exhaustive part for the vector encoders: every escape mask of every 16-byte group of the 64-byte window, in the first window of a call and
// in a window that follows a line end, with line ends placed at (a selection of, or all) output positions of the group
static uint64_t xdone=0,xtotal=0;
static uint16_t XT[256];   // per byte: bit0 always escaped, bit1 escaped when first, bit2 escaped when last
static size_t fast_spec(const uint8_t*in,size_t n,long ls,long col,uint8_t*o){
  uint8_t*p=o; 
  for(size_t k=0;k<n;k++){
    if(col>=ls){ *p++='\r'; *p++='\n'; col=0; }
    unsigned m=1; if(col==0) m|=2; if(col==ls-1||k+1==n) m|=4;
    if(XT[in[k]]&m){ *p++='='; *p++=in[k]+106; col+=2; } else { *p++=in[k]+42; col++; }
  }
  return p-o;
}
static void exhaust(unsigned part,unsigned parts,double secs,bool all){
  for(int v=0;v<256;v++){ uint8_t c=v+42; XT[v]=((c==0||c==13||c==10||c=='=')?1:0)|((c==9||c==32||c=='.')?2:0)|((c==9||c==32)?4:0); }
  static const uint8_t CR4[]={214,224,227,19}; uint8_t plain[16384],crit[16384]; for(auto&x:crit) x=CR4[rn(4)];
  for(auto&x:plain){ do x=rn(3)?rnd()>>20:ESPEC[4+rn(3)]; while(XT[x]&1); }
  struct timespec t0,t; clock_gettime(CLOCK_MONOTONIC,&t0);
  const uint32_t NI=isas.size(); const uint64_t T=(uint64_t)65536*4*NI*2; xtotal=T/parts;
  static uint8_t in[512],want[2048]; uint8_t*d=gd->lo; const size_t MAXL=1024; memset(d,0xAA,MAXL);
  for(uint64_t q=part;q<T;q+=parts){
    uint64_t x=(q*1000003ull)%T; // visits all combinations in scattered order (1000003 is prime and does not divide T)
    unsigned isa=x%NI; x/=NI; unsigned var=x&1; x>>=1; unsigned g=x&3; x>>=2; unsigned mask=x;
    if(fns[isa].enc==gen_enc&&isa==0&&!strcmp(isas[0].name,"generic")){ xdone++; continue; }
    if(!(q&1023)){ clock_gettime(CLOCK_MONOTONIC,&t); if((t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9>secs) return; }
    unsigned pre=var?20+rn(40):1, n=pre+66+40+rn(64); if(n<131+rn(8)) n=131+rn(8);
    memcpy(in,plain+rn(12000),n); unsigned fill=rn(8);
    if(fill==0) memcpy(in+pre,crit+rn(12000),64); else if(fill<4){ unsigned den=2+rn(20); for(unsigned k=0;k<64;k++) if(rn(den)==0) in[pre+k]=CR4[rn(4)]; }
    uint8_t*gp=in+pre+16*g; const uint8_t*cp=crit+rn(16000),*pp=plain+rn(16000); for(unsigned k=0;k<16;k++) gp[k]=(mask>>k&1)?cp[k]:pp[k];
    unsigned og=0; for(unsigned k=0;k<16*g;k++) og+=1+(XT[in[pre+k]]&1);
    unsigned step=all?1:1+rn(5);
    for(unsigned r=rn(step);r<36;r+=step){
      long ls,col;
      if(!var){ ls=70+rn(70); if(rn(4)==0) ls=16+rn(50); col=ls-1-(long)(og+r+pre)+rn(3); if(r==35||col<0||col>=ls){ ls=160+rn(2000); col=rn(100); } }
      else { ls=(long)og+(long)r-1; if(r==35||ls<16) ls=100+rn(200); long e=0; for(unsigned k=0;k+1<pre;k++) e+=1+(XT[in[k]]&1); col=ls-e; if(col<0) col=0; if(col>=ls) col=ls-1; }
      size_t w=fast_spec(in,n,ls,col,want),cap=native_max(n,ls); int co=col;
      size_t m=fns[isa].enc(ls,&co,in,d,n,1);
      bool ok=m==w&&!memcmp(d,want,w)&&d[cap]==0xAA&&!memcmp(d+cap,d+cap+1,63);
      evals++; if(w>n) nontriv++;
      if(!ok){ EncCase c; c.in.assign(in,in+n); c.ls=ls; c.col=col; c.how=1; c.al=0; c.doEnd=1; c.isa=isa; memset(d,0xAA,2*MAXL); run_enc(c); memset(d,0xAA,2*MAXL); }
    }
    xdone++;
  }
}
// ---------- decode
struct DecCase{ bytes in; int mode,how,al,inplace,state,isa; };
static void run_dec(const DecCase&c){
  char b[256]; snprintf(b,256,"\"op\":\"decode\",\"isa\":\"%s\",\"mode\":%d,\"how\":%d,\"align\":%d,\"inplace\":%d,\"state\":%d,\"len\":%zu,\"input\":\"",isas[c.isa].name,c.mode,c.how,c.al,c.inplace,c.state,c.in.size());
  curcase=std::string(b)+hex(c.in)+"\"";
  size_t n=c.in.size(); if(n==0) return;
  DecRes w=spec_decode(c.in.data(),n,c.mode>=1,c.mode==2,c.mode==2?c.state:S_CRLF);
  note(w.out.size()!=n);
  uint8_t*s=place(gs,n,c.how,c.al); memcpy(s,c.in.data(),n);
  uint8_t*d=c.inplace?s:place(gd,n,!strcmp(prop,"D05")?0:c.how,(c.al*5)&63);
  Guard*g=c.inplace?gs:gd;
  size_t pre=d-g->lo; if(pre>256) pre=256; memset(d-pre,0xAA,pre);
  size_t post=g->hi-(d+n); if(post>256) post=256; memset(d+n,0xAA,post);
  YencDecoderState st=(YencDecoderState)c.state; const unsigned char*sp=s; unsigned char*dp=d;
  int ended=fns[c.isa].dec[c.mode](&sp,&dp,n,c.mode==2?&st:NULL);
  for(size_t k=0;k<pre;k++) if(d[-1-(long)k]!=0xAA) fail("write before the destination");
  for(size_t k=0;k<post;k++) if(d[n+k]!=0xAA) fail("write beyond the destination");
  if(!c.inplace&&memcmp(s,c.in.data(),n)) fail("source buffer modified");
  char e[256];
  bool is05=!strcmp(prop,"D05");
  size_t m=dp-d;
  if(m>n){ fail("more output than input"); }
  if(is05&&!c.inplace) return;
  if(is05){ // compare with the out-of-place run of the same code
    memcpy(gd->lo,c.in.data(),n); Guard&x=*gd; bytes o2(n); YencDecoderState s2=(YencDecoderState)c.state; const unsigned char*sp2=gd->lo; unsigned char*dp2=o2.data();
    fns[c.isa].dec[c.mode](&sp2,&dp2,n,c.mode==2?&s2:NULL); size_t m2=dp2-o2.data();
    if(m2!=m||memcmp(o2.data(),d,m)) fail("in-place decoding differs from decoding into a separate buffer",",\"got\":\""+hex(d,m)+"\",\"want\":\""+hex(o2.data(),m2)+"\"");
    return;
  }
  if(m!=w.out.size()||memcmp(d,w.out.data(),m)) fail("decoded output differs from the specification",",\"got\":\""+hex(d,m)+"\",\"want\":\""+hex(w.out)+"\"");
  if(c.mode==2){
    if(ended!=w.ended||(size_t)(sp-s)!=w.read||(!ended&&(int)st!=w.state)){ snprintf(e,256,",\"got\":{\"ended\":%d,\"read\":%ld,\"state\":%d},\"want\":{\"ended\":%d,\"read\":%zu,\"state\":%d}",ended,(long)(sp-s),(int)st,w.ended,w.read,w.state); fail("end detection, read count or state differs from the specification",e); }
  }
}
static const char*PATS[]={"\r\n.\r\n","\r\n=y","\r\n.=y","\r\n..","\r\n.","\r\n=","=\r\n.","==","===","====","=\r\n=y","=\r\n.\r\n","\r\r\n.","\r\n.\r","\r\n.=","\r\n.\r\r\n.","\r\n\r\n.","=\n","=\r","=.","=y","\r\n.\n","\r\n.x","\r\n=a","\r\n.=a","=\r\n.=y","\r\n=\r\n.","\r\n.==","\r\n==y","\n.\r\n","\n=y",".\r\n"};
static DecCase gen_dec_case(int mode){
  DecCase c; c.mode=mode; int lm=rn(10); size_t n=lm<3?1+rn(40):lm<6?1+rn(200):lm<9?60+rn(300):rn(2000)+1;
  static const char al[]="=\r\n.y"; int p; static const int ps[]={0,1,3,10,30,60,100}; p=ps[rn(7)];
  c.in.resize(n); int style=rn(4); static const char*alph[]={"=\r\n.y","==\r\n","\r\n.","=a"}; const char*A=alph[style]; int la=strlen(A);
  uint8_t plain=rn(2)?'a':(uint8_t)rnd(); bool pr=rn(2);
  for(size_t k=0;k<n;k++) c.in[k]=(int)rn(100)<p?A[rn(la)]:(pr?plain:(uint8_t)rnd());
  int np=rn(4); if(mode==2&&rn(2)) np=0;
  for(int k=0;k<np;k++){ const char*q=PATS[rn(sizeof(PATS)/sizeof(*PATS))]; if(mode==2&&rn(3)) q=PATS[3+rn(6)]; size_t o=rn(n); for(size_t j=0;q[j]&&o+j<n;j++) c.in[o+j]=q[j]; }
  if(mode==2&&rn(2)){ // avoid early ends most of the time; then plant one late
    for(size_t k=0;k+2<n;k++) if(c.in[k]=='\n'&&(c.in[k+1]=='='||c.in[k+1]=='.')&&rn(4)) c.in[k]='b';
    if(rn(2)){ const char*q=PATS[rn(3)]; size_t o=n-1-rn(n<90?n:90); for(size_t j=0;q[j]&&o+j<n;j++) c.in[o+j]=q[j]; } }
  if(rn(4)==0){ const char*q=PATS[rn(sizeof(PATS)/sizeof(*PATS))]; int cut=rn(4); q+=cut<(int)strlen(q)?cut:0; for(size_t j=0;q[j]&&j<n;j++) c.in[j]=q[j]; }
  c.how=rn(3)==0?0:1; c.al=rn(64); c.inplace=rn(4)==0; c.state=mode==2?rn(7):0; c.isa=rn(isas.size());
  if(!strcmp(prop,"D05")&&rn(2)) c.inplace=1;
  return c;
}
// chunked: compare any split with the one-shot specification, using the state mapping of the binding
static void run_chunks(){
  DecCase c=gen_dec_case(2); c.state=0; size_t n=c.in.size(); int isa=c.isa;
  DecRes w=spec_decode(c.in.data(),n,true,true,S_CRLF);
  bytes out; size_t pos=0; int st=0,ended=0; std::string cuts; uint8_t*s=gs->lo+c.al; memcpy(s,c.in.data(),n);
  int style=rn(3);
  char b[200]; snprintf(b,200,"\"op\":\"decodeChunk\",\"isa\":\"%s\",\"align\":%d,\"style\":%d,\"input\":\"",isas[isa].name,c.al,style); curcase=std::string(b)+hex(c.in)+"\"";
  while(pos<n&&!ended){ size_t k=style==0?1+rn(3):style==1?1+rn(90):1+rn(n); if(k>n-pos) k=n-pos; cuts+=std::to_string(k)+",";
    bytes o(k); const unsigned char*sp=s+pos; unsigned char*dp=o.data(); YencDecoderState ys=(YencDecoderState)st;
    ended=fns[isa].dec[2](&sp,&dp,k,&ys); out.insert(out.end(),o.data(),dp); pos=sp-s; st=ys; }
  note(cuts.size()>4); curcase+=",\"cuts\":\""+cuts+"\"";
  if(out!=w.out||pos!=w.read||ended!=w.ended||(!ended&&st!=w.state)) fail("chunked decoding differs from decoding in one piece",",\"got\":\""+hex(out)+"\",\"want\":\""+hex(w.out)+"\"");
}
// ---------- crc
static void run_crc(){
  int isa=rn(isas.size()); int lm=rn(8); size_t n=lm<4?rn(200):lm<7?rn(1200):rn(20000); int how=rn(3)==0?0:1,al=rn(64); uint32_t init=rn(3)?(uint32_t)rnd():0;
  uint8_t*s=place(gs,n,how,al); for(size_t k=0;k<n;k++) s[k]=rnd()>>24; if(rn(4)==0) memset(s,rn(2)?0:255,n);
  char b[200]; snprintf(b,200,"\"op\":\"crc32\",\"isa\":\"%s\",\"how\":%d,\"align\":%d,\"init\":%u,\"len\":%zu,\"input\":\"",isas[isa].name,how,al,init,n); curcase=std::string(b)+(n<3000?hex(s,n):std::string("..."))+"\"";
  note(n>1);
  uint32_t w=spec_crc(s,n,init),g=fns[isa].crc(s,n,init);
  if(w!=g){ char e[99]; snprintf(e,99,",\"got\":\"%08x\",\"want\":\"%08x\"",g,w); fail("CRC differs from CRC-32",e); }
}
static uint32_t rnd32(){ switch(rn(6)){ case 0:return 1u<<rn(32); case 1:return 0xFFFFFFFFu<<rn(32); case 2:return rn(4)-2; default: return (uint32_t)(rnd()>>16);} }
static int64_t rndlen(){ switch(rn(8)){ case 0:return rn(64); case 1:return rn(100000); case 2:return (1ll<<rn(53)); case 3:return (1ll<<rn(53))-1; case 4:return (int64_t)0xFFFFFFFFll*(1+rn(1000))+(int)rn(5)-2; case 5: return (int64_t)(rnd()&((1ull<<53)-1)); case 6: return ((int64_t)0xFFFFFFFFll>>3)*(1+rn(1<<20))+(int)rn(5)-2; default: return (int64_t)(rnd()&0xFFFFFFFFu);} }
static void arith_fail(const char*what,uint32_t g,uint32_t w){ char e[99]; snprintf(e,99,",\"got\":\"%08x\",\"want\":\"%08x\"",g,w); fail(what,e); }
static void run_crcarith(){
  int isa=rn(isas.size()); _crc32_multiply=fns[isa].mul; _crc32_shift=fns[isa].shf; _do_crc32_incremental=fns[isa].crc;
  uint32_t a=rnd32(),b=rnd32(); int64_t n=rndlen(); char s[256];
  const char*in=isas[isa].name; note(true);
  if(!strcmp(prop,"C02")){ snprintf(s,256,"\"op\":\"combine\",\"isa\":\"%s\",\"crc1\":%u,\"crc2\":%u,\"len2\":%lld",in,a,b,(long long)n); curcase=s;
    uint32_t w=spec_mul(a,spec_xpow((unsigned __int128)n*8))^b,g=crc32_combine(a,b,n); if(w!=g) arith_fail("combined CRC is wrong",g,w); }
  else if(!strcmp(prop,"C03")){ snprintf(s,256,"\"op\":\"zeroes\",\"isa\":\"%s\",\"crc\":%u,\"n\":%lld",in,a,(long long)n); curcase=s;
    uint32_t w=~spec_mul(~a,spec_xpow((unsigned __int128)n*8)),g=crc32_zeros(a,n); if(w!=g) arith_fail("appending zero bytes is wrong",g,w);
    w=~spec_mul(~a,spec_xpow_s(-(__int128)n*8)); g=crc32_unzero(a,n); if(w!=g) arith_fail("removing zero bytes is wrong",g,w); }
  else { snprintf(s,256,"\"op\":\"multiply\",\"isa\":\"%s\",\"a\":%u,\"b\":%u,\"n\":%lld",in,a,b,(long long)n); curcase=s;
    uint32_t w=spec_mul(a,b),g=crc32_multiply(a,b); if(w!=g) arith_fail("product is wrong",g,w);
    w=spec_mul(a,spec_xpow(b)); g=crc32_shift(a,b); if(w!=g) arith_fail("shift is wrong",g,w);
    w=spec_mul(a,spec_xpow((unsigned __int128)n)); g=crc32_shift(a,crc32_powmod(n)); if(w!=g) arith_fail("shift by n is wrong",g,w);
    w=spec_xpow_s(-(__int128)n); g=crc32_2pow(-n); if(w!=g) arith_fail("negative power is wrong",g,w); }
}
static const char* arg(int argc,char**argv,const char*k,const char*d){ size_t l=strlen(k); for(int i=2;i<argc;i++) if(!strncmp(argv[i],k,l)&&argv[i][l]=='=') return argv[i]+l+1; return d; }
int main(int argc,char**argv){
  prop=argv[1]; for(int v=0;v<256;v++){ uint32_t c=v; for(int j=0;j<8;j++) c=(c>>1)^((c&1)?0xEDB88320u:0); crct[v]=c; }
  uint64_t seed=strtoull(arg(argc,argv,"seed","1"),0,10); rs^=seed*0x9E3779B97F4A7C15ull; for(int i=0;i<20;i++) rnd();
  double secs=atof(arg(argc,argv,"secs","5"));
  init_isas(arg(argc,argv,"isa",NULL));
  if(isas.empty()){ printf("{\"ok\":{\"evals\":0,\"nontrivial\":0,\"isas\":\"none\"}}\n"); return 0; }
  gs=new Guard(1<<16); gd=new Guard(1<<17);
  static char alt[65536]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK; int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT}; for(int s:sg) sigaction(s,&sa,0);
  const char*cs=arg(argc,argv,"input",NULL);
  if(cs){ // replay one case
    int isa=0; 
    if(prop[0]=='E'){ EncCase c; c.in=unhex(cs); c.ls=atoi(arg(argc,argv,"line_size","128")); c.col=atoi(arg(argc,argv,"col","0")); c.how=atoi(arg(argc,argv,"how","1")); c.al=atoi(arg(argc,argv,"align","0")); c.doEnd=1; for(c.isa=0;c.isa<(int)isas.size();c.isa++) run_enc(c); }
    else { DecCase c; c.in=unhex(cs); c.mode=atoi(arg(argc,argv,"mode","0")); c.how=atoi(arg(argc,argv,"how","1")); c.al=atoi(arg(argc,argv,"align","0")); c.inplace=atoi(arg(argc,argv,"inplace","0")); c.state=atoi(arg(argc,argv,"state","0")); for(c.isa=0;c.isa<(int)isas.size();c.isa++) run_dec(c); }
    printf("{\"ok\":{\"evals\":%llu}}\n",(unsigned long long)evals); return 0;
  }
  struct timespec t0,t; clock_gettime(CLOCK_MONOTONIC,&t0);
  std::string P=prop;
  { unsigned parts=atoi(arg(argc,argv,"parts","0")); if(P[0]=='E'&&parts) exhaust(atoi(arg(argc,argv,"part","0"))%parts,parts,secs*0.75,!strcmp(arg(argc,argv,"all","0"),"1")); }
  for(;;){
    for(int k=0;k<64;k++){
      if(P[0]=='E') run_enc(gen_enc_case());
      else if(P=="D01") run_dec(gen_dec_case(0));
      else if(P=="D02") run_dec(gen_dec_case(1));
      else if(P=="D03") run_chunks();
      else if(P=="D04") run_dec(gen_dec_case(2));
      else if(P=="D05") run_dec(gen_dec_case(rn(3)));
      else if(P=="C01") run_crc();
      else run_crcarith();
    }
    clock_gettime(CLOCK_MONOTONIC,&t); if((t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9>secs) break;
  }
  std::string il; for(auto&i:isas) il+=std::string(i.name)+" ";
  printf("{\"ok\":{\"evals\":%llu,\"nontrivial\":%llu,\"isas\":\"%s\",\"masks\":[%llu,%llu],\"sample\":{%s}}}\n",(unsigned long long)evals,(unsigned long long)nontriv,il.c_str(),(unsigned long long)xdone,(unsigned long long)xtotal,sample.c_str());
  return 0;
}
