// Conformance harness for domain definitions.
//   dom_h SCRIPTS OUT SCRATCHDIR
// history: "d <id> <unit> <ox> <oy>" followed by one call per line; lattice
// coordinates are multiplied by unit and shifted by (ox,oy).
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include "common.h"
using namespace TQMesh;
using namespace CppUtils;
static double U=1, OX=0, OY=0;
static Vec2d P(long x, long y){ return { OX+x*U, OY+y*U }; }
static long LX(double v){ return std::lround((v-OX)/U); }
static long LY(double v){ return std::lround((v-OY)/U); }
// reports a value that is not on the lattice as far away
static std::string num(double v, bool isx){ long r = isx?LX(v):LY(v); double back = isx?OX+r*U:OY+r*U; if (!(std::abs(back-v) <= 1e-7*(1+std::abs(v))) || std::labs(r)>900000) return "999999"; return std::to_string(r); }
static std::string sz(double v){ double r=std::round(v); return std::abs(r-v)<1e-12 && std::abs(v)<1e6 ? std::to_string((long)r) : "-7"; }
struct S { std::vector<std::array<long,5>> p; };
static S shape(std::istream& is){ S s; size_t n; is>>n; for(size_t i=0;i<n;++i){ std::array<long,5> a; for(auto& v:a) is>>v; s.p.push_back(a);} return s; }
static std::string js(const S& s){ std::string r="["; for(size_t i=0;i<s.p.size();++i){ r+=i?",[":"["; for(int j=0;j<5;++j){ if(j) r+=","; r+=std::to_string(s.p[i][j]); } r+="]"; } return r+"]"; }

static std::string SC; static std::vector<std::array<long,2>> PR; static double FA=6, FB=0;
static long c100(double v){ return std::isfinite(v)&&std::abs(v)<1e7 ? std::lround(v*100) : -999999999; }
// every declared edge with the mesh vertices along it (in 1/10000 of the edge) and the size there
static std::string subdivision(Domain& D, Mesh& m){ std::ostringstream o; o<<"["; bool f=true;
  for (auto& b : D) for (auto& e : b->edges()) { Vec2d a=e->v1().xy(), d=e->v2().xy()-a; double l2=d.norm_sqr(); std::vector<double> t;
    for (auto& x : m.boundary_edges()) { double s[2]; bool on=true; int k=0; for (const Vec2d& p : {x->v1().xy(), x->v2().xy()}) { double c=d.x*(p.y-a.y)-d.y*(p.x-a.x); double q=(d.x*(p.x-a.x)+d.y*(p.y-a.y))/l2; if (std::abs(c)>1e-7*l2||q<-1e-7||q>1+1e-7) on=false; s[k++]=q; } if (on) { t.push_back(s[0]); t.push_back(s[1]); } }
    std::sort(t.begin(),t.end()); std::vector<double> u; for (double x : t) if (u.empty()||x-u.back()>1e-9) u.push_back(x);
    o<<(f?"[":",[")<<num(a.x,1)<<","<<num(a.y,0)<<","<<num(a.x+d.x,1)<<","<<num(a.y+d.y,0)<<",["; f=false; bool g=true; for (double x : u) { o<<(g?"":",")<<std::lround(x*10000); g=false; } o<<"],["; g=true; for (double x : u) { o<<(g?"":",")<<c100(D.size_function(a+x*d)/U); g=false; } o<<"],["; for (size_t i=1;i<u.size();++i) o<<(i>1?",":"")<<c100((u[i]-u[i-1])*std::sqrt(l2)/U); double lo=1e300,hi=0; for (int i=0;i<=64;++i) { double q=D.size_function(a+(i/64.0)*d)/U; lo=std::min(lo,q); hi=std::max(hi,q); } o<<"],"<<c100(lo)<<","<<c100(hi)<<"]"; }
  return o.str()+"]"; }
static std::string observe(Domain& D){
  std::ostringstream o; o<<"{\"B\":["; bool f=true;
  for (auto& b : D) { o<<(f?"":",")<<"{\"t\":"<<(b->is_exterior()?0:1)<<",\"ed\":["; f=false; bool g=true;
    for (auto& e : b->edges()) { o<<(g?"[":",[")<<num(e->v1().xy().x,1)<<","<<num(e->v1().xy().y,0)<<","<<num(e->v2().xy().x,1)<<","<<num(e->v2().xy().y,0)<<","<<e->color()<<","<<sz(e->v1().mesh_size())<<","<<sz(e->v1().size_range())<<","<<c100(e->v1().mesh_size()/U)<<","<<c100(e->v1().size_range()/U)<<"]"; g=false; }
    double a2=2*b->area()/(U*U); o<<"],\"a2\":"<<(std::abs(a2-std::round(a2))<1e-3&&std::abs(a2)<9e7?std::lround(a2):99999999)<<"}"; }
  o<<"],\"fx\":["; f=true; for (auto v : D.fixed_vertices()) { o<<(f?"[":",[")<<num(v->xy().x,1)<<","<<num(v->xy().y,0)<<"]"; f=false; }
  auto ex=D.extent(); double a2=2*D.area()/(U*U);
  o<<"],\"ext\":["; if (D.vertices().size()>0) o<<num(ex.first[0],1)<<","<<num(ex.first[1],1)<<","<<num(ex.second[0],0)<<","<<num(ex.second[1],0); o<<"],\"a2\":"<<(std::abs(a2-std::round(a2))<1e-3&&std::abs(a2)<9e7?std::lround(a2):99999999);
  if (!PR.empty()) { o<<",\"pr\":["; bool g=true; for (auto& p : PR) { o<<(g?"":",")<<c100(D.size_function(P(p[0],p[1]))/U); g=false; } o<<"],\"pf\":["; g=true; for (auto& p : PR) { o<<(g?"":",")<<c100(D.user_size_function()(P(p[0],p[1]))/U); g=false; } o<<"],\"pp\":["; g=true; for (auto& p : PR) { o<<(g?"[":",[")<<p[0]<<","<<p[1]<<"]"; g=false; } o<<"]"; }
  o<<",\"valid\":"<<(EntityChecks::check_domain_validity(D)?1:0)<<"}";
  return o.str();
}
static void run(const std::vector<std::string>& lines, int fd){
  std::unique_ptr<Domain> D; bool first=true; int nf=0;
  auto put=[&](const std::string& s){ std::string t=(first?"":",")+s; first=false; if (write(fd,t.data(),t.size())<0) _exit(9); };
  for (auto& line : lines) {
    std::istringstream is(line); std::string op; is>>op; std::ostringstream o; o<<"{\"e\":\""<<op<<"\"";
    if (op=="d") { std::string id; is>>id>>U>>OX>>OY; FA=6; FB=0; is>>FA>>FB; PR.clear(); D.reset(new Domain([](const Vec2d& p){ return (FA+FB*((p.x-OX)/U+16))*U; }, 8*(std::abs(OX)+std::abs(OY)+200*U), 20, 10)); continue; }
    if (op=="probe") { size_t n; is>>n; PR.resize(n); for (auto& p : PR) is>>p[0]>>p[1]; continue; }
    if (op=="bdry") { int t; is>>t; D->add_boundary(t?BdryType::INTERIOR:BdryType::EXTERIOR); o<<",\"t\":"<<t; }
    else if (op=="shape"||op=="csv"||op=="edges"||op=="open"||op=="rect"||op=="square"||op=="circle") {
      size_t k; is>>k; S s=shape(is); Boundary& b=(*D)[k-1]; o<<",\"k\":"<<k<<",\"s\":"<<js(s);
      std::vector<Vec2d> xy, pr; std::vector<int> c; bool anyp=false; for (auto& p : s.p) { xy.push_back(P(p[0],p[1])); c.push_back(p[2]); pr.push_back({(double)p[3],(double)p[4]}); }
      if (op=="shape") b.set_shape_from_coordinates(xy,c,pr);
      else if (op=="csv") { std::string fn=SC+"/b"+std::to_string(getpid())+"_"+std::to_string(nf++)+".csv"; { std::ofstream f(fn);
          unsigned h=7; for (auto& p : s.p) for (long v : p) h=h*31+v; auto rnd=[&](unsigned n){ h=h*1103515245u+12345u; return (h>>16)%n; };
          auto wr=[&](double v){ char t[64]; switch (rnd(4)) { case 0: snprintf(t,64,"%.17g",v); break; case 1: snprintf(t,64," %.17e",v); break; case 2: snprintf(t,64,"%s%.17g ",v>=0?"+":"",v); break; default: snprintf(t,64,"\t%.17g",v); } return std::string(t); };
          bool crlf=rnd(5)==0;
          for (size_t i=0;i<xy.size();++i) { f<<wr(xy[i].x)<<","<<wr(xy[i].y)<<","<<(rnd(3)?"":" ")<<c[i]; if (pr[i].x!=0||pr[i].y!=0||rnd(3)==0) f<<","<<wr(pr[i].x); if (pr[i].y!=0) f<<","<<wr(pr[i].y); f<<(i+1<xy.size()||rnd(2)?(crlf?"\r\n":"\n"):""); } }
        b.set_shape_from_csv(fn); unlink(fn.c_str()); }
      else if (op=="rect"||op=="square"||op=="circle") { long x,y,w,h,r; is>>x>>y>>w>>h>>r; double ms=s.p[0][3];
        if (op=="rect") b.set_shape_rectangle(c[0],P(x,y),w*U,h*U,ms,0.0); else if (op=="square") b.set_shape_square(c[0],P(x,y),h*U,ms,0.0); else b.set_shape_circle(c[0],P(x,y),r*U,4,ms,0.0); }
      else { std::vector<Vertex*> v; for (size_t i=0;i<xy.size();++i) { Vertex* q=nullptr; for (auto& w : D->vertices()) if (w->xy()==xy[i]) q=w.get(); if (!q) q=&D->add_vertex(xy[i],pr[i].x,pr[i].y); v.push_back(q); }
        size_t n=v.size(), m= op=="open"?n-1:n; for (size_t i=0;i<m;++i) b.add_edge(*v[i],*v[(i+1)%n],c[i]); }
    }
    else if (op=="badcsv") { size_t k; int w; is>>k>>w; std::string fn=SC+"/bad"+std::to_string(getpid())+".csv"; size_t at=(k*7+w*3+nf++)%4;
      static const char* ok[4]={"0,0,1,0.5,1","4,0,2","4,4,1,0.25","0,4,3"}; static const char* bad[13]={"","","abc,0,1","4,x,1","4","4,4","4,4,-2","4,4,red","4,4,1,big",",4,1","1e999,0,1","","4,4,99999999999"};
      if (w!=1) { std::ofstream f(fn); for (size_t i=0;i<4;++i) { if (i==at) f<<bad[w]<<"\n"; if (i!=at||w==11) f<<ok[i]<<"\n"; } }
      int r=1; try { (*D)[k-1].set_shape_from_csv(fn); } catch (const std::exception&) { r=0; } unlink(fn.c_str()); o<<",\"k\":"<<k<<",\"w\":"<<w<<",\"ret\":"<<r; }
    else if (op=="split"||op=="cut") { size_t k; long x1,y1,x2,y2,n=0; is>>k>>x1>>y1>>x2>>y2; if (op=="split") is>>n; Boundary& b=(*D)[k-1]; int r=0;
      for (auto& e : b.edges()) if (num(e->v1().xy().x,1)==std::to_string(x1)&&num(e->v1().xy().y,0)==std::to_string(y1)&&num(e->v2().xy().x,1)==std::to_string(x2)&&num(e->v2().xy().y,0)==std::to_string(y2)) {
        if (op=="split") { Vertex &a=e->v1(), &c=e->v2(); auto q=b.split_edge(*e,D->vertices(),n/4.0); r = q.first&&q.second&&&q.first->v1()==&a&&&q.second->v2()==&c&&&q.first->v2()==&q.second->v1(); } else r=b.remove(*e); break; }
      o<<",\"k\":"<<k<<",\"p\":["<<x1<<","<<y1<<"],\"q\":["<<x2<<","<<y2<<"],\"n\":"<<n<<",\"ret\":"<<r; }
    else if (op=="rmb") { size_t k; is>>k; D->remove_boundary(k-1); o<<",\"k\":"<<k; }
    else if (op=="fix") { long x,y; double ms=0,sr=0; is>>x>>y>>ms>>sr; bool have=false; for (auto& w : D->vertices()) if (w->xy()==P(x,y)) have=true; if (!have) { if (ms>0) D->add_fixed_vertex(P(x,y),ms*U,sr*U); else D->add_fixed_vertex(P(x,y)); } o<<",\"x\":"<<x<<",\"y\":"<<y<<",\"ms\":"<<(have?0:(long)ms)<<",\"sr\":"<<(have?0:(long)sr); }
    else if (op=="in") { long x,y; is>>x>>y; o<<",\"x\":"<<x<<",\"y\":"<<y<<",\"d\":"<<(D->is_inside(P(x,y))?1:0)<<",\"b\":["; bool f=true; for (auto& b : *D) { o<<(f?"":",")<<(b->is_inside(P(x,y))?1:0); f=false; } o<<"]"; }
    else if (op=="mesh") { MeshGenerator G; Mesh& m=G.new_mesh(*D,1,1); size_t nb=m.boundary_edges().size(), nv=m.vertices().size(); int r=-1; int go; is>>go; if (go) r=G.triangulation(m).generate_elements()?1:0;
      o<<",\"nb\":"<<nb<<",\"nv\":"<<nv<<",\"ne\":"<<m.n_elements()<<",\"ret\":"<<r; }
    else if (op=="ngon") { long kd,t,x,y,n,w,h,c,ms,mr; is>>kd>>t>>x>>y>>n>>w>>h>>c>>ms>>mr; Domain E([](const Vec2d&){ return U; }, 8*(std::abs(OX)+std::abs(OY)+400*U), 20, 10);
      Boundary& b=E.add_boundary(t?BdryType::INTERIOR:BdryType::EXTERIOR); Vec2d z=P(x,y);
      if (kd==0) b.set_shape_circle(c,z,w*U,n,ms*U,mr*U); else if (kd==1) b.set_shape_triangle(c,z,w*U,ms*U,mr*U); else if (kd==2) b.set_shape_rectangle(c,z,w*U,h*U,ms*U,mr*U); else b.set_shape_square(c,z,w*U,ms*U,mr*U);
      std::set<long> cs; std::set<std::pair<long,long>> ps; double a2=0,rlo=1e300,rhi=0,slo=1e300,shi=0,bb[4]={1e300,-1e300,1e300,-1e300}; Vec2d ce{0.,0.}; bool cl=true; std::map<const Vertex*,int> bal; size_t k=0;
      for (auto& e : b.edges()) { Vec2d p=e->v1().xy()-z, q=e->v2().xy()-z; ++k; a2+=p.x*q.y-p.y*q.x; ce=ce+p; double r=p.norm(), l=(q-p).norm(); rlo=std::min(rlo,r); rhi=std::max(rhi,r); slo=std::min(slo,l); shi=std::max(shi,l); bb[0]=std::min(bb[0],p.x); bb[1]=std::max(bb[1],p.x); bb[2]=std::min(bb[2],p.y); bb[3]=std::max(bb[3],p.y);
        cs.insert(e->color()); ps.insert({c100(e->v1().mesh_size()/U),c100(e->v1().size_range()/U)}); ++bal[&e->v1()]; --bal[&e->v2()]; }
      for (auto& q : bal) if (q.second) cl=false;
      double ref = kd==2 ? double(w)*h : double(w)*w; auto mm=[&](double v){ return std::isfinite(v)&&v<1e3?std::lround(v*1e6):999999999L; };
      o<<",\"kd\":"<<kd<<",\"t\":"<<t<<",\"n\":"<<n<<",\"w\":"<<w<<",\"h\":"<<h<<",\"c\":"<<c<<",\"s\":"<<ms<<",\"r\":"<<mr<<",\"ne\":"<<k<<",\"nv\":"<<bal.size()<<",\"cl\":"<<cl<<",\"sg\":"<<(a2>0?1:a2<0?-1:0)<<",\"ar\":"<<c100(std::abs(a2)/2/(ref*U*U)*10)
       <<",\"rd\":"<<(k?mm((rhi-rlo)/rhi):0)<<",\"sd\":"<<(k?mm((shi-slo)/shi):0)<<",\"cd\":"<<(k?mm(ce.norm()/k/rhi):0)<<",\"bb\":["; for (int i=0;i<4;++i) o<<(i?",":"")<<c100(k?bb[i]/U:0); o<<"],\"cs\":["; bool g=true; for (long v : cs) { o<<(g?"":",")<<v; g=false; } o<<"],\"ms\":["; g=true; for (auto& v : ps) { o<<(g?"[":",[")<<v.first<<","<<v.second<<"]"; g=false; } o<<"]"; }
    else if (op=="sub") { MeshGenerator G; Mesh& m=G.new_mesh(*D,1,1); std::string t=subdivision(*D,m); int r=G.triangulation(m).generate_elements()?1:0; double mx=0, mn=1e300, a=0, slo=1e300, shi=0; 
      for (auto& q : m.triangles()) { double s=D->size_function(q->xy()); slo=std::min(slo,s/U); shi=std::max(shi,s/U); mx=std::max(mx,q->max_edge_length()/s); mn=std::min(mn,q->min_edge_length()/s); a+=q->area()/(s*s); }
      o<<",\"sd\":"<<t<<",\"ret\":"<<r<<",\"ne\":"<<m.n_elements()<<",\"mx\":"<<c100(mx)<<",\"mn\":"<<c100(m.n_elements()?mn:0)<<",\"as\":"<<c100(a)<<",\"lo\":"<<c100(m.n_elements()?slo:0)<<",\"hi\":"<<c100(shi); }
    else _exit(98);
    put(o.str()+",\"o\":"+observe(*D)+"}");
  }
}
int main(int argc,char** argv){
  std::ifstream in(argv[1]); SC=argv[3]; std::string line; std::vector<std::vector<std::string>> hs;
  while (std::getline(in,line)) { if (line.rfind("d ",0)==0) hs.push_back({}); if (!hs.empty()&&!line.empty()) hs.back().push_back(line); }
  LOG_PROPERTIES.set_level(ERROR); LOG_PROPERTIES.set_error_ostream(TO_FILE,"/dev/null"); if (!freopen("/dev/null","w",stderr)) return 1;
  int fd=open(argv[2],O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644);
  auto w=[&](const std::string& s){ if (write(fd,s.data(),s.size())<0) exit(9); };
  int late=0;
  for (auto& h : hs) {
    std::istringstream is(h[0]); std::string x,id; is>>x>>id; w("{\"id\":\""+id+"\",\"ev\":[");
    pid_t p=fork(); if (p==0) { alarm(30); try { run(h,fd); } catch (...) { _exit(3); } _exit(0); }
    int st; waitpid(p,&st,0); if (!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) w(",{\"e\":\"abort\"}");
    w("]}\n"); if (WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM&&++late>=2) break;
  }
}
