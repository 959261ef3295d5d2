#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
typedef unsigned char u8;
int crypto_aead_encrypt(u8*,unsigned long long*,const u8*,unsigned long long,const u8*,unsigned long long,const u8*,const u8*,const u8*);
#ifdef HASH
int crypto_hash(u8*,const u8*,unsigned long long);
#define N 32
#else
#define N 16
#endif
static uint64_t st; static uint64_t rnd(void){st+=0x9e3779b97f4a7c15ULL;uint64_t z=st;z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL;z=(z^(z>>27))*0x94d049bb133111ebULL;return z^(z>>31);}
static unsigned char got[4096];
static u8 k[16],n[16],a[32],m[32],c[64]; static int al,ml;
static void emit(const char*f,int p){ printf("%s%d ",f,p); 
 for(int i=0;i<16;i++)printf("%02x",k[i]); putchar(' '); for(int i=0;i<16;i++)printf("%02x",n[i]); putchar(' ');
 if(!al)putchar('-'); for(int i=0;i<al;i++)printf("%02x",a[i]); putchar(' '); if(!ml)putchar('-'); for(int i=0;i<ml;i++)printf("%02x",m[i]); putchar('\n'); fflush(stdout);}
#define F(id,name,p) do{ int _i=(id); if(got[_i]<MAXF){got[_i]++;emit(name,p);} }while(0)
#ifndef MAXF
#define MAXF 1
#endif
int main(int ac,char**av){ st=strtoull(av[1],0,0)*1000003; double lim=atof(av[2]); time_t t0=time(0); unsigned long long cl; uint64_t cnt=0;
 for(;;){ if((cnt&4095)==0 && time(0)-t0>lim) break; cnt++;
  for(int i=0;i<16;i+=8){uint64_t r=rnd();memcpy(k+i,&r,8);r=rnd();memcpy(n+i,&r,8);}
  al=0; ml=0; if((cnt&7)==7){al=rnd()%20;ml=rnd()%20; for(int i=0;i<32;i++){a[i]=rnd();m[i]=rnd();}}
#ifdef HASH
  ml=16+rnd()%17; al=0; for(int i=0;i<32;i++)m[i]=rnd(); u8 h[32]; crypto_hash(h,m,ml); u8*t=h;
#else
  crypto_aead_encrypt(c,&cl,m,ml,a,al,0,n,k); u8*t=c+ml;
#endif
  int nz=0,hi=0,ev=0; for(int i=0;i<N;i++){nz+=!t[i];hi+=t[i]>>7;ev+=t[i]&1;}
  for(int p=0;p+1<N;p++){ unsigned w=t[p]<<8|t[p+1];
   if(w==0){F(p,"z2_",p); if(p+2<N&&!t[p+2]){F(64+p,"z3_",p); if(p+3<N&&!t[p+3])F(128+p,"z4_",p);} }
   else if(w==0xffff){F(192+p,"f2_",p); if(p+2<N&&t[p+2]==255)F(256+p,"f3_",p);}
   else if(w==0x8000)F(320+p,"h_",p); else if(w==0x0080)F(384+p,"l_",p); else if(w==0x7fff)F(448+p,"m_",p); }
  if(nz>=3)F(512,"nz",3); if(nz>=4)F(513,"nz",4); if(nz>=5)F(514,"nz",5);
  if(hi==0)F(515,"hi",0); if(hi==N)F(516,"hi",1); if(ev==0)F(517,"ev",0); if(ev==N)F(518,"ev",1);
  if(!memcmp(t,t+8,2))F(519,"eqh",2); if(!memcmp(t,t+8,3))F(520,"eqh",3); if(!memcmp(t,t+4,3))F(521,"eqw",3);
  if(!memcmp(t,k,2))F(522,"eqk",2); if(!memcmp(t,n,2))F(523,"eqn",2); if(!memcmp(t,k,3))F(524,"eqk",3); if(!memcmp(t,n,3))F(525,"eqn",3);
  if(!memcmp(k,n,2))F(526,"kn",2);
 }
 fprintf(stderr,"%llu calls\n",(unsigned long long)cnt); return 0;}
