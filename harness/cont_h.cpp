// Conformance harness for the spatial container.
//   cont_h SCRIPTS OUT
// history lines: "h <id> <scale> <maxItems> <maxDepth> <cxy unit>" then one
// operation per line; every history runs in a forked child.
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#include <memory>
#include <cmath>
#include <algorithm>
#include "Container.h"
using namespace CppUtils;

static double U = 1.0;       // lattice unit
static int killed = 0;
class Item : public ContainerEntry<Item> {
public:
  Item(double x, double y, int i) : ContainerEntry(x,y), id(i) {}
  void container_destructor() override { ++killed; }
  int id;
};
static long L(double v) { return std::lround(v/U)+8; }
static double X(long v) { return (v-8)*U; }
static void ids(std::ostream& o, std::vector<Item*> v) { std::vector<int> r; for (auto p : v) r.push_back(p?p->id:0); std::sort(r.begin(),r.end()); o << "["; for (size_t i=0;i<r.size();++i) o << (i?",":"") << r[i]; o << "]"; }

static bool even_circ(Item* t, const Vec2d& c, const double r2) { return t->id % 2 == 0 && (t->xy()-c).norm_sqr() < r2; }
static bool even_rect(Item* t, const Vec2d& a, const Vec2d& b) { return t->id % 2 == 0 && in_on_rect(t->xy(),a,b); }
static void run(const std::vector<std::string>& lines, int fd) {
  std::unique_ptr<Container<Item>> C; std::map<int,Item*> live; std::string buf; bool first=true;
  auto put=[&](const std::string& s){ std::string t=(first?"":",")+s; first=false; if (write(fd,t.data(),t.size())<0) _exit(9); };
  for (auto& line : lines) {
    std::istringstream is(line); std::string op; is >> op; std::ostringstream o; o << "[\"" << op << "\",";
    if (op=="h") { std::string id; double s; size_t mi,md; is>>id>>s>>mi>>md>>U; C.reset(new Container<Item>(s,mi,md)); continue; }
    if (op=="add") { int i; long x,y; is>>i>>x>>y; Item& t=C->push_back(X(x),X(y),i); live[i]=&t; o<<i<<","<<x<<","<<y<<","<<(t.in_container()&&&C->back()==&t?1:0)<<"]"; }
    else if (op=="ins") { int i,q; long x,y; is>>i>>x>>y>>q; Item& t=C->insert(live[q]->pos(),X(x),X(y),i); live[i]=&t; o<<i<<","<<x<<","<<y<<","<<q<<","<<(t.in_container()?1:0)<<"]"; }
    else if (op=="rem") { int i; is>>i; Item* t=live[i]; int k0=killed; bool r=C->remove(*t); bool ok = r && !t->in_container() && killed==k0+1; o<<i<<","<<(r?(ok?1:2):(killed==k0?0:2))<<"]"; }
    else if (op=="mov") { int i; long x,y; is>>i>>x>>y; bool r=C->update(*live[i],{X(x),X(y)}); o<<i<<","<<x<<","<<y<<","<<(r?1:0)<<"]"; }
    else if (op=="circ") { long x,y,r; is>>x>>y>>r; o<<x<<","<<y<<","<<r<<","; ids(o,C->get_items({X(x),X(y)},r*U)); o<<"]"; }
    else if (op=="rect") { long a,b,c,d; is>>a>>b>>c>>d; o<<a<<","<<b<<","<<c<<","<<d<<","; ids(o,C->get_items(Vec2d{X(a),X(b)},Vec2d{X(c),X(d)})); o<<"]"; }
    else if (op=="circf") { long x,y,r; is>>x>>y>>r; o<<x<<","<<y<<","<<r<<","; std::vector<Item*> f; C->quad_tree().get_items({X(x),X(y)},r*U,f,&even_circ); ids(o,f); o<<"]"; }
    else if (op=="rectf") { long a,b,c,d; is>>a>>b>>c>>d; o<<a<<","<<b<<","<<c<<","<<d<<","; std::vector<Item*> f; C->quad_tree().get_items(Vec2d{X(a),X(b)},Vec2d{X(c),X(d)},f,&even_rect); ids(o,f); o<<"]"; }
    else if (op=="near") { long x,y; is>>x>>y; Item* t=C->get_nearest({X(x),X(y)}); o<<x<<","<<y<<","<<(t?t->id:0)<<"]"; }
    else if (op=="all") { o<<C->size()<<","<<(long)C->quad_tree().size()<<",["; bool f=true; for (auto& t : *C) { o<<(f?"":",")<<"["<<t->id<<","<<L(t->xy().x)<<","<<L(t->xy().y)<<"]"; f=false; } o<<"]]"; }
    else _exit(98);
    put(o.str());
  }
}
int main(int argc, char** argv) {
  std::ifstream in(argv[1]); std::string line; std::vector<std::vector<std::string>> hs;
  while (std::getline(in,line)) { if (line.rfind("h ",0)==0) hs.push_back({}); if (!hs.empty()&&!line.empty()) hs.back().push_back(line); }
  LOG_PROPERTIES.set_level(ERROR); LOG_PROPERTIES.set_error_ostream(TO_FILE,"/dev/null");
  int fd=open(argv[2],O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644);
  auto w=[&](const std::string& s){ if (write(fd,s.data(),s.size())<0) exit(9); };
  int late=0;
  for (auto& h : hs) {
    std::istringstream is(h[0]); std::string x,id; is>>x>>id;
    w("{\"id\":\""+id+"\",\"ev\":[");
    pid_t p=fork(); if (p==0) { alarm(20); try { run(h,fd); } catch (...) { _exit(3); } _exit(0); }
    int st; waitpid(p,&st,0); 
    if (!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) { w(",[\"abort\"]"); }
    w("]}\n"); if (WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM&&++late>=2) break;
  }
}
