// X01: the real dispatch code (assembly of platform.cc, encoder.cc, decoder.cc, crc.cc with cpuid/xgetbv redirected here)
// is run for every combination of the feature bits it can depend on; the setters are stubs that record the selection.
#include "common.h"
#include "encoder_common.h"
#include "decoder_common.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
struct R { uint32_t a, b, c, d; };
static R l1, l8, l70, l71, l24; static uint32_t xcr0; static bool badx; static uint64_t asked;
extern "C" void vf_cpuid_c(uint32_t* r) {
	uint32_t leaf = r[0], sub = r[2]; R o = {0,0,0,0};
	if(leaf == 0) { o.a = 0x24; o.b = 0x756e6547; o.d = 0x49656e69; o.c = 0x6c65746e; }
	else if(leaf == 0x80000000) o.a = 0x80000008;
	else if(leaf == 1) o = l1; else if(leaf == 0x80000001) o = l8;
	else if(leaf == 7 && sub == 0) o = l70; else if(leaf == 7 && sub == 1) o = l71; else if(leaf == 0x24 && sub == 0) o = l24;
	r[0] = o.a; r[1] = o.b; r[2] = o.c; r[3] = o.d; asked++;
}
extern "C" uint32_t vf_xgetbv_c(uint32_t ecx) { if(!(l1.c & (1u<<27))) badx = true; asked++; return ecx ? 0 : xcr0; }
#define SAVE "pushfq\n push %r8\n push %r9\n push %r10\n push %r11\n push %rsi\n push %rdi\n push %rbp\n mov %rsp,%rbp\n"
#define REST "mov %rbp,%rsp\n pop %rbp\n pop %rdi\n pop %rsi\n pop %r11\n pop %r10\n pop %r9\n pop %r8\n popfq\n ret\n"
asm(".text\n.globl vf_cpuid\nvf_cpuid:\n" SAVE "sub $16,%rsp\n and $-16,%rsp\n mov %eax,(%rsp)\n mov %ebx,4(%rsp)\n mov %ecx,8(%rsp)\n mov %edx,12(%rsp)\n mov %rsp,%rdi\n call vf_cpuid_c\n mov (%rsp),%eax\n mov 4(%rsp),%ebx\n mov 8(%rsp),%ecx\n mov 12(%rsp),%edx\n" REST
    ".globl vf_xgetbv\nvf_xgetbv:\n" SAVE "push %rcx\n push %rcx\n and $-16,%rsp\n mov %ecx,%edi\n call vf_xgetbv_c\n xor %edx,%edx\n" "mov -8(%rbp),%rcx\n" REST);
static int enc, dec, crc, nset; static int* cur;
static void setit(int k) { *cur = k; nset++; }
enum { SSE2=1, SSSE3, AVX, AVX2, VBMI2 };
namespace RapidYenc {
	void encoder_sse2_init() { setit(SSE2); } void encoder_ssse3_init() { setit(SSSE3); } void encoder_avx_init() { setit(AVX); } void encoder_avx2_init() { setit(AVX2); } void encoder_vbmi2_init() { setit(VBMI2); }
	void decoder_set_sse2_funcs() { setit(SSE2); } void decoder_set_ssse3_funcs() { setit(SSSE3); } void decoder_set_avx_funcs() { setit(AVX); } void decoder_set_avx2_funcs() { setit(AVX2); } void decoder_set_vbmi2_funcs() { setit(VBMI2); }
	void crc_clmul_set_funcs() { setit(1); } void crc_clmul256_set_funcs() { setit(2); }
	void encoder_init(); void decoder_init(); void crc32_init();
	extern const bool encoder_has_avx10, decoder_has_avx10;
	const bool encoder_has_avx10 = HAS_AVX10, decoder_has_avx10 = HAS_AVX10;
}
static const char* why;
static bool hasavx() { return (l1.c >> 28 & 1) && (l1.c >> 27 & 1) && (xcr0 & 6) == 6; }
static bool popcnt() { return (l1.c >> 23 & 1) || (l8.c >> 5 & 1); }
static bool allowed(int k) {
	if(k == SSE2) return true;
	if(k == SSSE3) return l1.c >> 9 & 1;
	if(k == AVX) return hasavx() && popcnt();
	bool a2 = hasavx() && popcnt() && (l8.c >> 5 & 1) && (l70.b & 0x128) == 0x128;
	if(k == AVX2) return a2;
	bool x10 = (l71.d >> 19 & 1) && (l24.b & 0xff) >= 1 && ((l24.b >> 18 & 1) || (HAS_AVX10 && (l24.b >> 17 & 1)));
	return a2 && (xcr0 & 0xe6) == 0xe6 && (x10 || ((l70.b & 0xC0010000) == 0xC0010000 && (l70.c & 0x40)));
}
static bool crcok(int k) {
	if(!k) return true;
	bool c = (l1.c & 0x80202) == 0x80202;
	return k == 1 ? c : c && hasavx() && (l70.b & 0x20) && (l70.c & 0x400);
}
static uint64_t evals, nontriv;
static void fail(const char* what, int sel) {
	printf("{\"fail\":{\"what\":\"%s\",\"selected\":%d,\"leaf1\":\"%x %x\",\"leaf80000001_ecx\":\"%x\",\"leaf7_ebx_ecx\":\"%x %x\",\"leaf7_1_edx\":\"%x\",\"leaf24_ebx\":\"%x\",\"xcr0\":\"%x\"}}\n", what, sel, l1.a, l1.c, l8.c, l70.b, l70.c, l71.d, l24.b, xcr0); exit(0);
}
static void one(bool docrc) {
	evals++; badx = false;
	cur = &enc; nset = 0; enc = 0; RapidYenc::encoder_init(); if(nset != 1) fail("encoder_init selects no or several implementations", enc); if(!allowed(enc)) fail("encoder level not supported by this CPU/OS", enc); if(enc > SSE2) nontriv++;
	cur = &dec; nset = 0; dec = 0; RapidYenc::decoder_init(); if(nset != 1) fail("decoder_init selects no or several implementations", dec); if(!allowed(dec)) fail("decoder level not supported by this CPU/OS", dec);
	if(docrc) { cur = &crc; nset = 0; crc = 0; RapidYenc::crc32_init(); if(!crcok(crc)) fail("CRC level not supported by this CPU/OS", crc); }
	if(badx) fail("xgetbv executed without OSXSAVE", enc);
}
static void put(uint32_t& r, int bit, int v) { r = (r & ~(1u<<bit)) | ((uint32_t)v<<bit); }
int main(int argc, char** argv) {
	uint64_t seed = 1; double secs = 10;
	for(int i=1;i<argc;i++) { if(!strncmp(argv[i],"seed=",5)) seed = strtoull(argv[i]+5,0,10); if(!strncmp(argv[i],"secs=",5)) secs = atof(argv[i]+5); }
	uint64_t x = seed * 0x9E3779B97F4A7C15ull + 1; auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1Dull; };
	static const uint32_t fam[] = {0x106C0, 0x506C0, 0x506F0, 0x500F00, 0x600F20, 0x000306A9, 0x00870F10};
	// 1. every combination of the feature bits
	for(uint32_t k = 0; k < 1u << 22; k++) { 
		l1.a = 0xA0671; l1.c = 0; l8.c = 0; l70.b = l70.c = l71.d = l24.b = 0; uint32_t b = k;
		auto bit = [&]() { int r = b & 1; b >>= 1; return r; };
		put(l1.c,9,bit()); put(l1.c,19,bit()); put(l1.c,23,bit()); { int v = bit(); put(l1.c,26,v); } put(l1.c,27,bit()); put(l1.c,28,bit());
		put(l8.c,5,bit()); put(l70.b,3,bit()); put(l70.b,5,bit()); put(l70.b,8,bit()); put(l70.b,16,bit()); put(l70.b,30,bit()); put(l70.b,31,bit()); put(l70.c,6,bit());
		put(l71.d,19,bit()); l24.b = bit(); put(l24.b,17,bit()); put(l24.b,18,bit()); 
		xcr0 = 1 | bit() << 1 | bit() << 2; int o = bit(); xcr0 |= o << 5; xcr0 |= bit() ? 0xC0 : 0;
		l1.c |= 1;
		one(false);
	}
	for(uint32_t k = 0; k < 1u << 10; k++) { uint32_t b = k; auto bit = [&]() { int r = b & 1; b >>= 1; return r; };
		l1.c = 0; l70.b = l70.c = 0; put(l1.c,1,bit()); put(l1.c,9,bit()); put(l1.c,19,bit()); put(l1.c,26,bit()); put(l1.c,27,bit()); put(l1.c,28,bit()); put(l70.b,5,bit()); put(l70.c,10,bit()); xcr0 = 1 | bit() << 1 | bit() << 2; one(true); }
	// 2. random words
	clock_t t0 = clock();
	while((clock() - t0) < secs * CLOCKS_PER_SEC) for(int i=0;i<1000;i++) {
		auto w = [&](uint32_t want) { uint32_t r = rnd() >> 20; switch(rnd() >> 60 & 3) { case 0: return r; case 1: return r | want; case 2: return want; default: return want & ~(1u << (rnd() >> 59)); } };
		l1.a = rnd()>>62 ? fam[(rnd()>>40) % (sizeof(fam)/sizeof(*fam))] : (uint32_t)(rnd()>>20); l1.c = w(0x1C980203); l1.d = rnd()>>20; l8.c = w(0x20); l70.b = w(0xC0010128); l70.c = w(0x440); l71.d = w(0x80000); l24.b = w(0x60001); xcr0 = w(0xE7); one(false);
	}
	printf("{\"ok\":{\"evals\":%llu,\"nontrivial\":%llu,\"isas\":\"dispatch\",\"sample\":{\"leaf1_ecx\":\"%x\",\"leaf7_ebx\":\"%x\",\"xcr0\":\"%x\",\"encoder\":%d,\"decoder\":%d}}}\n", (unsigned long long)evals, (unsigned long long)nontriv, l1.c, l70.b, xcr0, enc, dec);
	return asked ? 0 : 3;
}
