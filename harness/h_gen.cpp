// Command interpreter around a generated thunder_<robot> class (compiled from /repo's template by /repo's generator).
#include <iostream>
#include <sstream>
#include <fstream>
#include <memory>
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cmath>
#include <unistd.h>
#include <eigen3/Eigen/Dense>
#include <yaml-cpp/yaml.h>
#define private public
#include HDR
#undef private
using std::string; using std::vector;
static FILE* OUT;
static void pv(const double* p, size_t n){ for(size_t i=0;i<n;i++) fprintf(OUT," %.17g",p[i]); fprintf(OUT,"\n"); }
static void pmat(const Eigen::MatrixXd& m){ fprintf(OUT," %d %d",(int)m.rows(),(int)m.cols()); pv(m.data(),m.size()); }
static Eigen::VectorXd rv(std::istream& s){ int n; s>>n; Eigen::VectorXd v(n); for(int i=0;i<n;i++){string t; s>>t; v(i)=strtod(t.c_str(),0);} return v; }
static vector<double> rsv(std::istream& s){ Eigen::VectorXd v=rv(s); return vector<double>(v.data(),v.data()+v.size()); }
int main(){
  OUT=fdopen(dup(1),"w"); setvbuf(OUT,0,_IOLBF,0); if(!freopen("/dev/null","w",stdout)) return 3;
  std::map<string,std::shared_ptr<CLS>> rs; std::shared_ptr<CLS> r=std::make_shared<CLS>(); rs["r"]=r;
  string line;
  while(std::getline(std::cin,line)){ std::istringstream s(line); string id,c; s>>id>>c; if(id.empty()) continue; fprintf(OUT,"R %s",id.c_str());
    try{
      if(c=="new"){ string n; s>>n; r=std::make_shared<CLS>(); rs[n]=r; fprintf(OUT," ok\n"); }
      else if(c=="sel"){ string n; s>>n; r=rs.at(n); fprintf(OUT," ok\n"); }
      else if(c=="conf"){ string f; int u; s>>f>>u; r->load_conf(f,u); fprintf(OUT," ok\n"); }
      else if(c=="loadreg"){ string f; int u; s>>f>>u; pmat(r->load_par_REG(f,u)); }
      else if(c=="savereg"){ string f; s>>f; r->save_par_REG(f); fprintf(OUT," ok\n"); }
      else if(c=="savedyn"){ string f; s>>f; r->save_par_DYN(f); fprintf(OUT," ok\n"); }
      else if(c=="savepar"){ string f; s>>f; fprintf(OUT," %d\n",r->save_par(f)); }
      else if(c=="set"||c=="set0"){ bool u=(c=="set"); string n; s>>n; auto v=rv(s);
        if(n=="q")r->set_q(v); else if(n=="dq")r->set_dq(v); else if(n=="ddq")r->set_ddq(v); else if(n=="d3q")r->set_d3q(v); else if(n=="d4q")r->set_d4q(v);
        else if(n=="dqr")r->set_dqr(v); else if(n=="ddqr")r->set_ddqr(v); else if(n=="x")r->set_x(v); else if(n=="dx")r->set_dx(v); else if(n=="ddx")r->set_ddx(v); else if(n=="ddxr")r->set_ddxr(v);
        else if(n=="w")r->set_w(v); else if(n=="par_REG")r->set_par_REG(v,u); else if(n=="par_DYN")r->set_par_DYN(v,u);
        else if(n=="par_K")r->set_par_K(v); else if(n=="par_D")r->set_par_D(v); else if(n=="par_Dm")r->set_par_Dm(v); else if(n=="par_Mm")r->set_par_Mm(v); else if(n=="par_Dl")r->set_par_Dl(v);
        else if(n=="par_DHtable")r->set_par_DHtable(v); else if(n=="par_gravity")r->set_par_gravity(v); else if(n=="par_world2L0")r->set_par_world2L0(v); else if(n=="par_Ln2EE")r->set_par_Ln2EE(v);
        fprintf(OUT," ok\n"); }
      else if(c=="setargs"){ auto a=rv(s),b=rv(s),d=rv(s),e=rv(s); r->setArguments(a,b,d,e); fprintf(OUT," ok\n"); }
      else if(c=="gp"){ string n; s>>n;
        if(n=="par_REG")pmat(r->get_par_REG()); else if(n=="par_DYN")pmat(r->get_par_DYN()); else if(n=="par_K")pmat(r->get_par_K()); else if(n=="par_D")pmat(r->get_par_D()); else if(n=="par_Dm")pmat(r->get_par_Dm());
        else if(n=="par_Mm")pmat(r->get_par_Mm()); else if(n=="par_Dl")pmat(r->get_par_Dl()); else if(n=="par_DHtable")pmat(r->get_par_DHtable()); else if(n=="par_gravity")pmat(r->get_par_gravity());
        else if(n=="par_world2L0")pmat(r->get_par_world2L0()); else if(n=="par_Ln2EE")pmat(r->get_par_Ln2EE()); else fprintf(OUT," ?\n"); }
      else if(c=="args"){
        #define A(x) fprintf(OUT,"A " #x); pmat(r->x);
        fprintf(OUT,"\n");
        A(q) A(dq) A(ddq) A(d3q) A(d4q) A(dqr) A(ddqr) A(x) A(dx) A(ddx) A(ddxr) A(w) A(par_DYN) A(par_REG) A(par_Dl) A(par_K) A(par_D) A(par_Dm) A(par_Mm) A(par_DHtable) A(par_gravity) A(par_world2L0) A(par_Ln2EE) }
      else if(c=="info"){ fprintf(OUT," %d %d %d %d %d %d %d %d %d",r->n_joints,r->numElasticJoints,(int)r->ELASTIC,r->K_order,r->D_order,r->Dl_order,r->Dm_order,r->numParDYN,r->numParREG);
        for(int v: r->isElasticJoint) fprintf(OUT," %d",v); fprintf(OUT," %d %d %d\n",r->get_numJoints(),r->get_numParDYN(),r->get_numParREG()); }
      else if(c=="get"){ string n; s>>n; if(0){}
        #include "getters.inc"
        else fprintf(OUT," ?\n"); }
      else if(c=="getall"){ fprintf(OUT,"\n");
        #include "getlist.inc"
      }
      else if(c=="rpyRot") pmat(r->rpyRot(rsv(s)));
      else if(c=="createI") pmat(r->createI(rsv(s)));
      else if(c=="hatE"){ Eigen::Vector3d w=rv(s); pmat(r->hat(w)); }
      else fprintf(OUT," ?\n");
    }catch(std::exception& e){ string w=e.what(); for(auto&ch:w) if(ch=='\n') ch=' '; fprintf(OUT," EXC %s\n",w.substr(0,200).c_str()); }
    fprintf(OUT,"E\n"); fflush(OUT);
  } }
