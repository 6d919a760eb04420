// Conformance harness for the parameter file reader.
//   para_h HISTORIES OUT
// history: "F <id> <file>" followed by the queries: "block" or "q <param>".
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cmath>
#include <iostream>
#include "ParaReader.h"
using namespace CppUtils;
template<class T> static long num(const T& v){ return (long)v; }
static long num(const double& v){ double q=v*4; return std::abs(q)<1e6 && std::abs(q-std::round(q))<1e-9 ? std::lround(q) : 777777; }
static long num(const std::string& s){ return s.size()>1&&s[0]=='w' ? std::atol(s.c_str()+1) : 777777; }
template<class T> static std::string ask(ParaReader& r, const std::string& p, bool dflt, T d){
  std::ostringstream o; bool ok = dflt ? r.query<T>(p,true,d) : r.query<T>(p);
  auto& q = r.get_parameter<T>(p); o<<",\"ret\":\""<<(ok?"yes":"no")<<"\",\"fnd\":"<<(r.found(p)?1:0)<<",\"rows\":"<<q.rows()<<",\"v\":[";
  if (r.found(p)) for (size_t j=0;j<q.rows();++j) for (size_t i=0;i<q.columns();++i) o<<(i+j?",":"")<<num(q.type()==ParaType::matrix ? r.get_value<T>(i,j,p) : q.columns()==1 ? r.get_value<T>(p) : r.get_value<T>(i,p));
  o<<"]"; return o.str(); }
static void run(const std::vector<std::string>& L, int fd){
  std::unique_ptr<ParaReader> R; ParaReader* B=nullptr; bool first=true;
  auto put=[&](const std::string& s){ std::string t=(first?"":",")+s; first=false; if (write(fd,t.data(),t.size())<0) _exit(9); };
  for (auto& line : L) { std::istringstream is(line); std::string op, p; is>>op;
    if (op=="F") { std::string id, f; is>>id>>f; R.reset(new ParaReader(f));
      R->new_block_parameter("blk","Define mesh:","End mesh"); R->new_scalar_parameter<double>("t","Title size:");
      B=&R->get_block("blk"); B->new_scalar_parameter<int>("n","Number of things:"); B->new_scalar_parameter<double>("d","Element height:"); B->new_scalar_parameter<std::string>("w","Output name:");
      B->new_scalar_parameter<bool>("f","Use flag:"); B->new_vector_parameter<double>("v","Add vector:",3); B->new_vector_parameter<double>("u","Define shape:",3);
      B->new_matrix_parameter<int>("m","Define item edges:","End item edges",2); B->new_matrix_parameter<double>("r","Define table:","End table",3); continue; }
    is>>p; std::string o="{\"o\":[\""+op+"\""+(p.empty()?"":",\""+p+"\"")+"]"; 
    try {
      if (op=="block") o+=std::string(",\"ret\":\"")+(R->query("blk")?"yes":"no")+"\",\"fnd\":0,\"rows\":0,\"v\":[]";
      else if (p=="n"||p=="m") o+=ask<int>(*B,p,false,0); else if (p=="f") o+=ask<bool>(*B,p,false,false); else if (p=="w") o+=ask<std::string>(*B,p,false,"");
      else if (p=="t") o+=ask<double>(*R,p,false,0.0); else if (p=="d"||p=="v") o+=ask<double>(*B,p,false,0.0); else o+=ask<double>(*B,p,true,1111.0);
    } catch (const std::exception&) { o+=",\"ret\":\"error\",\"fnd\":0,\"rows\":0,\"v\":[]"; }
    put(o+"}"); } }
int main(int argc, char** argv){
  std::ifstream in(argv[1]); std::vector<std::vector<std::string>> H; std::string s; while (std::getline(in,s)) { if (s.empty()) continue; if (s[0]=='F') H.emplace_back(); H.back().push_back(s); }
  std::ofstream out(argv[2]);
  int late=0;
  for (auto& h : H) { int pp[2]; if (pipe(pp)) return 9; std::istringstream is(h[0]); std::string f,id; is>>f>>id; pid_t c=fork();
    if (!c) { close(pp[0]); signal(SIGALRM,SIG_DFL); alarm(20); int z=open("/dev/null",O_WRONLY); dup2(z,1); dup2(z,2); run(h,pp[1]); _exit(0); }
    close(pp[1]); std::string r; char b[65536]; ssize_t n; while ((n=read(pp[0],b,sizeof b))>0) r.append(b,n); close(pp[0]); int st; waitpid(c,&st,0);
    if (!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) { size_t k=0; for (size_t i=0;i+4<r.size();++i) if (r.compare(i,4,"\"o\":")==0) ++k; std::istringstream q(h[std::min(k+1,h.size()-1)]); std::string op,p; q>>op>>p; r+=std::string(r.empty()?"":",")+"{\"o\":[\""+op+"\""+(p.empty()?"":",\""+p+"\"")+"],\"ret\":\"crash\",\"fnd\":0,\"rows\":0,\"v\":[]}"; }
    out<<"{\"id\":\""<<id<<"\",\"f\":@"<<id<<"@,\"ev\":["<<r<<"]}\n"; if (WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM&&++late>=2) break; } }
