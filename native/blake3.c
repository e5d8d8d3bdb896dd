/* Portable BLAKE3 hash mode (unkeyed), arbitrary input and output length.
 * Stand-in for the blake3 Python package, which is not installed here. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
static const uint32_t IV[8]={0x6A09E667u,0xBB67AE85u,0x3C6EF372u,0xA54FF53Au,0x510E527Fu,0x9B05688Cu,0x1F83D9ABu,0x5BE0CD19u};
static const uint8_t PERM[16]={2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8};
enum{CS=1,CE=2,PARENT=4,ROOT=8};
#define R(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void g(uint32_t*s,int a,int b,int c,int d,uint32_t x,uint32_t y){
 s[a]+=s[b]+x;s[d]=R(s[d]^s[a],16);s[c]+=s[d];s[b]=R(s[b]^s[c],12);
 s[a]+=s[b]+y;s[d]=R(s[d]^s[a],8);s[c]+=s[d];s[b]=R(s[b]^s[c],7);}
static void compress(const uint32_t cv[8],const uint32_t blk[16],uint64_t ctr,uint32_t len,uint32_t fl,uint32_t out[16]){
 uint32_t s[16],m[16],t[16];memcpy(s,cv,32);memcpy(s+8,IV,16);
 s[12]=(uint32_t)ctr;s[13]=(uint32_t)(ctr>>32);s[14]=len;s[15]=fl;memcpy(m,blk,64);
 for(int r=0;r<7;r++){
  g(s,0,4,8,12,m[0],m[1]);g(s,1,5,9,13,m[2],m[3]);g(s,2,6,10,14,m[4],m[5]);g(s,3,7,11,15,m[6],m[7]);
  g(s,0,5,10,15,m[8],m[9]);g(s,1,6,11,12,m[10],m[11]);g(s,2,7,8,13,m[12],m[13]);g(s,3,4,9,14,m[14],m[15]);
  for(int i=0;i<16;i++)t[i]=m[PERM[i]];memcpy(m,t,64);}
 for(int i=0;i<8;i++){out[i]=s[i]^s[i+8];out[i+8]=s[i+8]^cv[i];}}
static void load(const uint8_t*p,size_t n,uint32_t b[16]){uint8_t t[64];memset(t,0,64);memcpy(t,p,n);
 for(int i=0;i<16;i++)b[i]=(uint32_t)t[4*i]|(uint32_t)t[4*i+1]<<8|(uint32_t)t[4*i+2]<<16|(uint32_t)t[4*i+3]<<24;}
typedef struct{uint32_t cv[8],blk[16];uint64_t ctr;uint32_t len,fl;}Out;
static void chunk(const uint8_t*p,size_t n,uint64_t ctr,Out*o){
 uint32_t cv[8],b[16],t[16];memcpy(cv,IV,32);uint32_t fl=CS;
 while(n>64){load(p,64,b);compress(cv,b,ctr,64,fl,t);memcpy(cv,t,32);fl=0;p+=64;n-=64;}
 load(p,n,b);memcpy(o->cv,cv,32);memcpy(o->blk,b,64);o->ctr=ctr;o->len=(uint32_t)n;o->fl=fl|CE;}
static void node(const uint8_t*p,size_t n,uint64_t ctr,Out*o){
 if(n<=1024){chunk(p,n,ctr,o);return;}
 size_t full=(n-1)/1024,l=1;while(l*2<=full)l*=2;l*=1024;
 Out a,b;uint32_t t[16];node(p,l,ctr,&a);node(p+l,n-l,ctr+l/1024,&b);
 memcpy(o->cv,IV,32);
 compress(a.cv,a.blk,a.ctr,a.len,a.fl,t);memcpy(o->blk,t,32);
 compress(b.cv,b.blk,b.ctr,b.len,b.fl,t);memcpy(o->blk+8,t,32);
 o->ctr=0;o->len=64;o->fl=PARENT;}
void vb3(const uint8_t*p,size_t n,uint8_t*out,size_t on){
 Out o;uint32_t t[16];node(p,n,0,&o);
 for(uint64_t c=0;on;c++){compress(o.cv,o.blk,c,o.len,o.fl|ROOT,t);
  for(int i=0;i<16&&on;i++)for(int k=0;k<4&&on;k++,on--)*out++=(uint8_t)(t[i]>>(8*k));}}
