// Command interpreter around the real library in /repo (linked, not copied).
// It never contains an expected value: it calls the library and prints what came back.
#include <iostream>
#include <sstream>
#include <fstream>
#include <memory>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <functional>
#include <yaml-cpp/yaml.h>
#include <casadi/casadi.hpp>
#include <eigen3/Eigen/Dense>
#define protected public
#define private public
#include "robot.h"
#undef protected
#undef private
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"
#include "userDefined.h"
#include "utils.h"
#include "genYaml.h"
#include "FrameOffset.h"
using namespace thunder_ns;
using std::string; using std::vector;

static FILE* OUT;
static void pv(const double* p, size_t n){ for(size_t i=0;i<n;i++) fprintf(OUT," %.17g",p[i]); fprintf(OUT,"\n"); }
static void pvec(const Eigen::VectorXd& v){ fprintf(OUT," %d",(int)v.size()); pv(v.data(),v.size()); }
static void pmat(const Eigen::MatrixXd& m){ fprintf(OUT," %d %d",(int)m.rows(),(int)m.cols()); pv(m.data(),m.size()); }
static Eigen::VectorXd rv(std::istream& s){ int n; s>>n; Eigen::VectorXd v(n); for(int i=0;i<n;i++){string t; s>>t; v(i)=strtod(t.c_str(),0);} return v; }
static vector<double> rsv(std::istream& s){ Eigen::VectorXd v=rv(s); return vector<double>(v.data(),v.data()+v.size()); }
static string hexd(const string& h){ string o; for(size_t i=0;i+1<h.size();i+=2) o.push_back((char)strtol(h.substr(i,2).c_str(),0,16)); return o; }
static string hexe(const string& s){ string o="x"; char b[3]; for(unsigned char c: s){ snprintf(b,3,"%02x",c); o+=b;} return o; }
static Eigen::MatrixXd dm(const casadi::SX& x){ Eigen::MatrixXd m(x.size1(),x.size2()); for(int i=0;i<x.size1();i++)for(int j=0;j<x.size2();j++) m(i,j)=(double)casadi::SX(x(i,j)); return m; }
static LinkProp rlink(std::istream& s){ LinkProp l; l.name="b"; string t; s>>t; l.mass=strtod(t.c_str(),0); l.xyz=rsv(s); l.rpy=rsv(s); l.parI=rsv(s); return l; }
static void plink(const LinkProp& l){ fprintf(OUT," %.17g",l.mass); fprintf(OUT," %.17g %.17g %.17g",l.xyz[0],l.xyz[1],l.xyz[2]); pv(l.parI.data(),l.parI.size()); }

int main(){
  OUT = fdopen(dup(1),"w"); setvbuf(OUT,0,_IOLBF,0);
  // library chatter on stdout is dropped: only OUT carries results
  if(!freopen("/dev/null","w",stdout)) return 3;
  std::map<string,std::shared_ptr<Robot>> rs; std::shared_ptr<Robot> r;
  string line; 
  while(std::getline(std::cin,line)){
    std::istringstream s(line); string id,c; s>>id>>c; if(id.empty()) continue;
    fprintf(OUT,"R %s",id.c_str());
    try{
      if(c=="robot"){ string n,f; int comp; s>>n>>f>>comp; r=std::make_shared<Robot>(robot_from_file(n,f,comp)); rs[n]=r; fprintf(OUT," ok\n"); }
      else if(c=="newrobot"){ string n,f; s>>n>>f; r=std::make_shared<Robot>(f); r->robotName=n; rs[n]=r; fprintf(OUT," ok\n"); }
      else if(c=="sel"){ string n; s>>n; r=rs.at(n); fprintf(OUT," ok\n"); }
      else if(c=="conf"){ string f; int u; s>>f>>u; int k=r->load_conf_par(f,u); fprintf(OUT," %d\n",k); }
      else if(c=="loadreg"){ string f; int u; s>>f>>u; casadi::SX x=r->load_par_REG(f,u); pmat(dm(x)); }
      else if(c=="savereg"){ string f; s>>f; fprintf(OUT," %d\n",r->save_par_REG(f)); }
      else if(c=="saveconf"){ string f; s>>f; fprintf(OUT," %d\n",r->save_conf(f)); }
      else if(c=="savepar"){ string f,a; s>>f; vector<string> l; while(s>>a) l.push_back(a); fprintf(OUT," %d\n",r->save_par(f,l)); }
      else if(c=="loadpar"){ string f,a; s>>f; vector<string> l; while(s>>a) l.push_back(a); fprintf(OUT," %d\n",r->load_par(f,l)); }
#ifdef H_INT
      else if(c=="initsymb"){ fprintf(OUT," %d\n",r->init_symb_parameters()); }
      else if(c=="updsymb"){ fprintf(OUT," %d\n",r->update_symb_parameters()); }
      else if(c=="obtain"){ int a,b; s>>a>>b; vector<string> A(a),B(b); for(auto&x:A)s>>x; for(auto&x:B)s>>x; auto o=r->obtain_symb_parameters(A,B); for(auto&x:o)fprintf(OUT," %s",x.c_str()); fprintf(OUT,"\n"); }
#endif
#ifdef H_CMP
      else if(c=="compute"){ string w; s>>w; int adv=1; int k=-1;
        if(w=="kin")k=compute_kinematics(*r,adv); else if(w=="dyn")k=compute_dynamics(*r,adv); else if(w=="reg")k=compute_regressors(*r);
        else if(w=="chain")k=compute_chain(*r); else if(w=="jac")k=compute_jacobians(*r); else if(w=="kinadv")k=compute_kin_adv(*r);
        else if(w=="mcg")k=compute_MCG(*r); else if(w=="dl")k=compute_Dl(*r); else if(w=="ela")k=compute_elastic(*r); else if(w=="dynder")k=compute_dyn_derivatives(*r);
        else if(w=="yr")k=compute_Yr(*r); else if(w=="regj")k=compute_reg_J(*r); else if(w=="regdl")k=compute_reg_Dl(*r); else if(w=="regela")k=compute_reg_elastic(*r);
        fprintf(OUT," %d\n",k); }
#endif
#ifdef H_INT
      else if(c=="addf"){ // NAME expr = 2*first arg entries : user-defined function over ARG (checks add_function's contract)
        string n,a; int ow; s>>n>>ow>>a; int k=r->add_function(n, 2*casadi::SX::sum1(r->model[a]), {a}, "user", ow); fprintf(OUT," %d\n",k); }
#endif
      else if(c=="set"){ string n; s>>n; auto v=rv(s); int k=r->set_arg(n,v); fprintf(OUT," %d\n",k); }
      else if(c=="call"){ string n; s>>n; auto v=rv(s); int k=-99;
        if(n=="set_q")k=r->set_q(v); else if(n=="set_dq")k=r->set_dq(v); else if(n=="set_dqr")k=r->set_dqr(v); else if(n=="set_ddqr")k=r->set_ddqr(v);
        else if(n=="set_x")k=r->set_x(v); else if(n=="set_dx")k=r->set_dx(v); else if(n=="set_ddx")k=r->set_ddx(v); else if(n=="set_ddxr")k=r->set_ddxr(v);
        else if(n=="set_par_DYN")k=r->set_par_DYN(v); else if(n=="set_par_REG")k=r->set_par_REG(v);
        fprintf(OUT," %d\n",k); }
#ifdef H_UPD
      else if(c=="updDYN"){ fprintf(OUT," %d\n",r->update_inertial_DYN()); }
      else if(c=="updREG"){ fprintf(OUT," %d\n",r->update_inertial_REG()); }
#endif
      else if(c=="arg"){ string n; s>>n; pvec(r->get_arg(n)); }
      else if(c=="getdyn"){ pvec(r->get_par_DYN()); }
      else if(c=="getreg"){ pvec(r->get_par_REG()); }
#ifdef H_INT
      else if(c=="args"){ fprintf(OUT," %d\n",(int)r->args.size()); for(auto&a: r->args){ fprintf(OUT,"A %s",a.first.c_str()); pvec(r->get_arg(a.first)); } }
      else if(c=="symbs"){ fprintf(OUT," %d\n",(int)r->symb.size()); for(auto&a: r->symb){ fprintf(OUT,"S %s %d",a.first.c_str(),(int)a.second.size()); for(int v:a.second)fprintf(OUT," %d",v); fprintf(OUT,"\n"); } }
#endif
      else if(c=="info"){ fprintf(OUT," %d %d %d %d %d %d %d %d %d",r->get_numJoints(),r->get_numElasticJoints(),(int)r->get_ELASTIC(),r->get_K_order(),r->get_D_order(),r->get_Dl_order(),r->get_Dm_order(),r->get_numParDYN(),r->get_numParREG());
        for(int v: r->get_isElasticJoint()) fprintf(OUT," %d",v); for(auto&t: r->get_jointsType()) fprintf(OUT," %s",t.c_str()); fprintf(OUT,"\n"); }
      else if(c=="get"){ string n; s>>n; pmat(r->get(n)); }
      else if(c=="getall"){ auto fs=r->get_functions(true); fprintf(OUT," %d\n",(int)fs.size()); for(auto&f:fs){ fprintf(OUT,"V %s",f.name.c_str()); try{ pmat(r->get(f.name)); }catch(std::exception&e){ fprintf(OUT," EXC\n"); } } }
#ifdef H_INT
      else if(c=="funs"){ auto fs=r->get_functions(true); fprintf(OUT," %d\n",(int)fs.size()); for(auto&f:fs){ casadi::Function&F=r->casadi_fun[f.name];
          fprintf(OUT,"F %s %d %d %d",f.name.c_str(),f.out_size[0],f.out_size[1],(int)f.args.size()); for(size_t i=0;i<f.args.size();i++) fprintf(OUT," %s %d",f.args[i].c_str(),(int)F.numel_in(i));
          fprintf(OUT," %s %d %s\n",F.name().c_str(),(int)F.numel_out(0),hexe(f.description).c_str()); } }
      else if(c=="model"){ string n; s>>n; casadi::SX m=r->model.at(n); std::ostringstream o; fprintf(OUT," %d %d",(int)m.size1(),(int)m.size2()); for(int i=0;i<m.numel();i++){ std::ostringstream o2; o2<<casadi::SX(m(i)); fprintf(OUT," %s",hexe(o2.str()).c_str()); } fprintf(OUT,"\n"); }
#endif
      else if(c=="genlib"){ string d,n; int sc; s>>d>>n>>sc; r->generate_library(d,n,sc); fprintf(OUT," ok\n"); }
#ifdef H_UTL
      else if(c=="rpyRot"){ auto v=rsv(s); pmat(rpyRot(v)); }
      else if(c=="createI"){ auto v=rsv(s); pmat(createI(v)); }
      else if(c=="hatE"){ auto v=rv(s); Eigen::Vector3d w=v; pmat(hat(w)); }
      else if(c=="hatS"){ auto v=rv(s); casadi::SX x(3,1); for(int i=0;i<3;i++)x(i)=v(i); pmat(dm(hat(x))); }
      else if(c=="transform"){ auto d=rsv(s), y=rsv(s); LinkProp b=rlink(s),o; transformBodyInertial(d,y,b,o); plink(o); }
      else if(c=="merge"){ LinkProp a=rlink(s),b=rlink(s),o; mergeBodyInertial(a,b,o); plink(o); }
      else if(c=="mergealias"){ LinkProp a=rlink(s),b=rlink(s); mergeBodyInertial(a,b,a); plink(a); }
#endif
#ifdef H_FRM
      else if(c=="frame"){ auto y=rsv(s),p=rsv(s),g=rsv(s); FrameOffset f(y,p,g); pmat(dm(f.get_transform())); fprintf(OUT,"E"); pmat(dm(f.get_rotation())); fprintf(OUT,"E"); pmat(dm(f.get_translation())); fprintf(OUT,"E"); pmat(dm(f.get_gravity())); fprintf(OUT,"E"); auto q=f.get_ypr(); pv(q.data(),q.size()); fprintf(OUT,"E"); pmat(dm(f.hat(p)));
        FrameOffset h; h.set_ypr(y); h.set_translation(p); h.set_gravity(g); fprintf(OUT,"E"); pmat(dm(h.get_transform())); fprintf(OUT,"E"); pmat(dm(h.get_gravity())); FrameOffset k(y,p); fprintf(OUT,"E"); pmat(dm(k.get_transform())); }
      else if(c=="framebad"){ auto y=rsv(s),p=rsv(s); try{ FrameOffset f(y,p); fprintf(OUT," accepted\n"); }catch(std::runtime_error&e){ fprintf(OUT," refused\n"); } }
#endif
#ifdef H_TXT
      else if(c=="replace"){ string a,b,d; s>>a>>b>>d; string t=hexd(a.substr(1)); replace_all(t,hexd(b.substr(1)),hexd(d.substr(1))); fprintf(OUT," %s\n",hexe(t).c_str()); }
      else if(c=="rettype"){ int a,b; s>>a>>b; fun_obj f; f.out_size={a,b}; fprintf(OUT," %s\n",hexe(get_ret_type(f)).c_str()); }
      else if(c=="updcmake"){ string a,b,f; s>>a>>b>>f; fprintf(OUT," %d\n",update_cmake(a,b,f)); }
      else if(c=="change"){ string a,b,h,p; int py; s>>a>>b>>h>>p>>py; fprintf(OUT," %d\n",change_to_robot(a,b,*r,h,p,py)); }
      else if(c=="geninertial"){ string n,cf,d,g; int nj; s>>n>>nj>>cf>>d>>g; fprintf(OUT," %d\n",genInertial_files(n,nj,cf,d,g)); }
#endif
      else if(c=="loadyaml"){ string f; s>>f; YAML::Node y=YAML::LoadFile(f); std::shared_ptr<Robot> q=std::make_shared<Robot>(y); r=q; fprintf(OUT," ok\n"); }
      else fprintf(OUT," ?\n");
    } catch(std::exception& e){ string w=e.what(); for(auto&ch:w) if(ch=='\n') ch=' '; fprintf(OUT," EXC %s\n",w.substr(0,200).c_str()); }
    fprintf(OUT,"E\n"); fflush(OUT);
  }
  return 0;
}
