// Calls the real inertia utilities of src/genYAML (a separate copy in the repository).
#include <cstdio>
#include <iostream>
#include <sstream>
#include <vector>
#include <string>
#include "urdf2dh_inertial.h"
using namespace thunder_ns; using std::string; using std::vector;
static void pv(const double* p, size_t n){ for(size_t i=0;i<n;i++) printf(" %.17g",p[i]); printf("\n"); }
static void pmat(const Eigen::MatrixXd& m){ printf(" %d %d",(int)m.rows(),(int)m.cols()); pv(m.data(),m.size()); }
static vector<double> rsv(std::istream& s){ int n; s>>n; vector<double> v(n); for(auto&x:v){string t; s>>t; x=strtod(t.c_str(),0);} return v; }
static LinkProp rlink(std::istream& s){ LinkProp l; l.name="b"; string t; s>>t; l.mass=strtod(t.c_str(),0); l.xyz=rsv(s); l.rpy=rsv(s); l.parI=rsv(s); return l; }
static void plink(const LinkProp& l){ printf(" %.17g %.17g %.17g %.17g",l.mass,l.xyz[0],l.xyz[1],l.xyz[2]); pv(l.parI.data(),l.parI.size()); }
int main(){ string line; setvbuf(stdout,0,_IOLBF,0);
  while(std::getline(std::cin,line)){ std::istringstream s(line); string id,c; s>>id>>c; if(id.empty())continue; printf("R %s",id.c_str());
    try{
      if(c=="rpyRot") pmat(rpyRot(rsv(s))); else if(c=="createI") pmat(createI(rsv(s)));
      else if(c=="hatE"){ auto v=rsv(s); Eigen::Vector3d w(v[0],v[1],v[2]); pmat(hat(w)); }
      else if(c=="transform"){ auto d=rsv(s), y=rsv(s); LinkProp b=rlink(s),o; transformBodyInertial(d,y,b,o); plink(o); }
      else if(c=="merge"){ LinkProp a=rlink(s),b=rlink(s),o; mergeBodyInertial(a,b,o); plink(o); }
      else if(c=="mergealias"){ LinkProp a=rlink(s),b=rlink(s); mergeBodyInertial(a,b,a); plink(a); }
      else printf(" ?\n");
    }catch(std::exception&e){ printf(" EXC %s\n",e.what()); }
    printf("E\n"); fflush(stdout);
  } }
