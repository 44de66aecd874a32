#include <cstdint>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <map>
#include <string>
#include <cstring>
#include <algorithm>
extern "C" {
#include "ta_libc.h"
}
using namespace std;
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);} long below(long n){return next()%n;} bool ch(double p){return (next()>>11)*(1.0/9007199254740992.0)<p;} };
int main(int argc,char**argv){
  TA_Initialize(); Rng r{strtoull(argv[1],0,10)*7919+3}; double secs=atof(argv[2]); 
  vector<pair<string,TA_RetCode(*)(int,int,const double*,const double*,const double*,const double*,int*,int*,int*)>> F; 
  vector<pair<string,TA_RetCode(*)(int,int,const double*,const double*,const double*,const double*,double,int*,int*,int*)>> G;
#define P(x) F.push_back({#x,TA_##x});
#define Q(x) G.push_back({#x,TA_##x});
#include "list.inc"
  const int N=4000; vector<double> o(N),h(N),l(N),c(N); vector<int> out(N); map<string,int> kept; 
  static const double off[]={0,0,0,.05,-.05,.3,-.3,1,-1,2.5,-2.5}; static const double sh[]={0,0,.03,.4,1.2,3};
  time_t t0=time(0); 
  while(time(0)-t0<secs){
    for(int i=0;i<N;i++){ double lev[16]; int nl=0; for(int k=1;k<=4&&k<=i;k++){lev[nl++]=o[i-k];lev[nl++]=c[i-k];lev[nl++]=h[i-k];lev[nl++]=l[i-k];} 
      double p=i?c[i-1]:100; 
      if(fabs(p-100)>30||r.ch(.02)){p=100;nl=0;}
      if(i%14<9||!nl){ o[i]=p+(r.below(9)-4)*.25; c[i]=o[i]+(r.below(9)-4)*.5; h[i]=max(o[i],c[i])+r.below(4)*.25; l[i]=min(o[i],c[i])-r.below(4)*.25; continue; }
      o[i]=lev[r.below(min(nl,r.ch(.7)?4:16))]+off[r.below(11)]; c[i]=r.ch(.4)?o[i]+(r.below(2)?1:-1)*(r.below(4)?1+r.below(4)*.7:.02):lev[r.below(min(nl,r.ch(.6)?8:16))]+off[r.below(11)];
      h[i]=max(o[i],c[i])+sh[r.below(6)]; l[i]=min(o[i],c[i])-sh[r.below(6)]; }
    auto scan=[&](const string&n,int ob,int on){ for(int e=0;e<on;e++) if(out[e]){ string k=n+(out[e]>0?"+":"-"); int i=ob+e; if(i<20||kept[k]>=10) continue; kept[k]++; printf("%s",k.c_str()); double b=o[i-5]; for(int q=i-5;q<=i;q++) printf(" %.4g %.4g %.4g %.4g",o[q]-b,h[q]-b,l[q]-b,c[q]-b); printf("\n"); } };
    for(auto&f:F){ int ob,on; f.second(0,N-1,o.data(),h.data(),l.data(),c.data(),&ob,&on,out.data()); scan(f.first,ob,on);} 
    for(auto&f:G){ int ob,on; f.second(0,N-1,o.data(),h.data(),l.data(),c.data(),f.first=="CDLDARKCLOUDCOVER"||f.first=="CDLMATHOLD"?.5:.3,&ob,&on,out.data()); scan(f.first,ob,on);} 
  }
  fprintf(stderr,"kinds %zu\n",kept.size());
}
