// Native runtime for replaying a counterexample: vf_* read their values from
// the file named by VF_VALUES (one decimal number per line, in call order).
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
static std::vector<unsigned long long>& vals(){ static std::vector<unsigned long long> v; static bool init=false; if(!init){ init=true; if(const char* f=getenv("VF_VALUES")){ if(FILE* p=fopen(f,"r")){ unsigned long long x; while(fscanf(p,"%llu",&x)==1) v.push_back(x); fclose(p);} } } return v; }
static size_t pos=0;
static unsigned long long next(){ auto& v=vals(); if(pos<v.size()) return v[pos++]; ++pos; return 0; }
extern "C" {
uint8_t vf_u8(){ return (uint8_t)next(); } uint16_t vf_u16(){ return (uint16_t)next(); } uint32_t vf_u32(){ return (uint32_t)next(); } uint64_t vf_u64(){ return next(); } bool vf_bool(){ return next()&1; }
void vf_assume(bool c){ if(!c){ printf("REPLAY: assumption not met\n"); fflush(stdout); _Exit(77); } }
void vf_check(bool c,const char* n){ if(!c){ printf("REPLAY: FAILED %s\n",n); fflush(stdout); _Exit(1); } }
void vf_cover(const char*){}
}
extern "C" void VF_ENTRY();
int main(){ VF_ENTRY(); printf("REPLAY: completed\n"); return 0; }
