// Conformance harness for mesh sessions.
//   mesh_h SCRIPTS OUT [timeout_s]
// SCRIPTS holds sessions separated by lines "session <id>".  Every session is
// executed in a forked child against the real library; the recorded trace of
// projected states goes to OUT as one JSON object per line.  A session that
// crashes, hangs or exits leaves a final {"e":"Abort",...} record.
#include "common.h"
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
using namespace H;
using namespace CppUtils;
using namespace TQMesh;

// Mesh objects are recycled last-in first-out, so that a new mesh is placed at
// the address of the mesh that was erased last (address reuse is a legal
// allocator behaviour and must not matter).
static std::vector<void*> mesh_pool;
static bool pool_on = false;
void* operator new(std::size_t n) {
  if (pool_on && n == sizeof(TQMesh::Mesh) && !mesh_pool.empty()) { void* p = mesh_pool.back(); mesh_pool.pop_back(); return p; }
  void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t n) noexcept {
  if (pool_on && n == sizeof(TQMesh::Mesh)) { pool_on = false; mesh_pool.push_back(p); pool_on = true; return; }
  free(p);
}

typedef std::vector<std::vector<int>> VV;
static Points P;
static std::string OUTBUF;
static int OUTFD = -1;
static void emit(const std::string& s) {
  std::string l = s + "\n";
  size_t o = 0;
  while (o < l.size()) { ssize_t k = write(OUTFD, l.data()+o, l.size()-o); if (k <= 0) _exit(99); o += k; }
}

struct DomEdge { int a, b, color; };
struct DomRec {
  std::unique_ptr<Domain> d;
  std::vector<Vec2d> fixv; 
  std::vector<std::pair<Vec2d,Vec2d>> fixe;
  // the *declared* boundary: polygons as given by the caller
  struct Poly { bool ext; std::vector<Vec2d> xy; std::vector<int> col; };
  std::vector<Poly> polys;
  std::function<double(const Vec2d&)> f;
};
static std::map<int,DomRec> doms;
static std::map<int,std::unique_ptr<MeshGenerator>> gens; static MeshGenerator* gen = nullptr;
struct MeshRec { Mesh* m; int dom; int decl_color; int id; std::vector<int> ds; MeshGenerator* g; };
static std::map<int,MeshRec> meshes;

// declared boundary edges in the direction that keeps the domain on the left
static std::vector<DomEdge> declared_edges(DomRec& r) {
  std::vector<DomEdge> out;
  for (auto& p : r.polys) {
    Q a = 0; size_t n = p.xy.size();
    for (size_t i=0;i<n;++i){ auto&u=p.xy[i]; auto&v=p.xy[(i+1)%n]; a += (Q)u.x*(Q)v.y-(Q)v.x*(Q)u.y; }
    bool ccw = a > 0; bool fwd = (ccw == p.ext);
    for (size_t i=0;i<n;++i){
      int u = P.id(p.xy[i]), v = P.id(p.xy[(i+1)%n]);
      if (fwd) out.push_back({u,v,p.col[i]}); else out.push_back({v,u,p.col[i]});
    }
  }
  return out;
}

static double dist_line(const Vec2d& p, const Vec2d& a, const Vec2d& b, double& t) {
  Vec2d d = b - a; double l2 = d.x*d.x+d.y*d.y; 
  t = ((p.x-a.x)*d.x + (p.y-a.y)*d.y)/l2;
  double dx = p.x - (a.x+t*d.x), dy = p.y - (a.y+t*d.y);
  return std::sqrt(dx*dx+dy*dy);
}
// number (1000*domain + index) of the declared edge on which the directed segment (u,v) lies
static int host_edge1(const std::vector<DomEdge>& de, const Vec2d& u, const Vec2d& v) {
  int best = 0; double bd = 1e300;
  for (size_t i=0;i<de.size();++i) {
    const Vec2d &a = P.xy[de[i].a], &b = P.xy[de[i].b];
    double L = std::sqrt((b.x-a.x)*(b.x-a.x)+(b.y-a.y)*(b.y-a.y));
    double t1,t2; double d1 = dist_line(u,a,b,t1), d2 = dist_line(v,a,b,t2);
    double tol = 1e-9*(1.0+L);
    if (d1 > tol || d2 > tol) continue;
    double tt = 1e-9*(1.0+1.0/L);
    if (t1 < -tt || t2 > 1+tt || !(t1 < t2)) continue;
    if (d1+d2 < bd) { bd = d1+d2; best = (int)i+1; }
  }
  return best;
}

static int host_edge(const MeshRec& R, const Vec2d& u, const Vec2d& v) {
  for (int d : R.ds) { int h = host_edge1(declared_edges(doms[d]),u,v); if (h) return 1000*d+h; }
  return 0;
}

// number of the declared fixed edge on which the (undirected) segment lies
static int host_fixed(const MeshRec& R, const Vec2d& u, const Vec2d& v) {
  for (int d : R.ds) {
    std::vector<DomEdge> fe; for (auto& p : doms[d].fixe) { fe.push_back({P.id(p.first),P.id(p.second),0}); }
    int h = host_edge1(fe,u,v); if (!h) h = host_edge1(fe,v,u); if (h) return 1000*d+h;
  }
  return 0;
}

static bool strictly_or_on_inside(DomRec& r, const Vec2d& p) {
  // exact even-odd test on the declared polygons (boundary counts as inside)
  for (auto& poly : r.polys) {
    size_t n = poly.xy.size(); int cnt = 0; bool on = false;
    for (size_t i=0;i<n;++i) {
      const Vec2d &a=poly.xy[i], &b=poly.xy[(i+1)%n];
      double t; double L=std::sqrt((b.x-a.x)*(b.x-a.x)+(b.y-a.y)*(b.y-a.y));
      double d = dist_line(p,a,b,t);
      if (d <= 1e-9*(1+L) && t >= -1e-9 && t <= 1+1e-9) on = true;
      if ((a.y > p.y) != (b.y > p.y)) {
        Q x = (Q)a.x + ((Q)p.y-(Q)a.y)*((Q)b.x-(Q)a.x)/((Q)b.y-(Q)a.y);
        if (x > (Q)p.x) ++cnt;
      }
    }
    if (on) continue;
    bool in = cnt & 1;
    if (poly.ext ? !in : in) return false;
  }
  return true;
}

static bool inside_any(const MeshRec& R, const Vec2d& p) { for (int d : R.ds) if (strictly_or_on_inside(doms[d],p)) return true; return false; }

// ---- exact overlap test of elements (convex pieces, separating edges)
struct Tri3 { Vec2d p[3]; int el; };
static void pieces(const Facet& f, int el, std::vector<Tri3>& out) {
  if (f.n_vertices()==3) { out.push_back({{f.vertex(0).xy(),f.vertex(1).xy(),f.vertex(2).xy()},el}); return; }
  const Vec2d &a=f.vertex(0).xy(),&b=f.vertex(1).xy(),&c=f.vertex(2).xy(),&d=f.vertex(3).xy();
  if (area2(a,b,c) > 0 && area2(a,c,d) > 0) { out.push_back({{a,b,c},el}); out.push_back({{a,c,d},el}); }
  else { out.push_back({{b,c,d},el}); out.push_back({{b,d,a},el}); }
}
static bool separated(const Tri3& s, const Tri3& t) {
  for (int i=0;i<3;++i) { bool sep=true; for (int j=0;j<3;++j) if (area2(s.p[i],s.p[(i+1)%3],t.p[j]) > 0) { sep=false; break; } if (sep) return true; }
  return false;
}
static bool overlap(const Tri3& s, const Tri3& t) { return !separated(s,t) && !separated(t,s); }
static int count_overlaps(std::vector<Tri3>& A) {
  std::sort(A.begin(),A.end(),[](const Tri3&a,const Tri3&b){ return std::min({a.p[0].x,a.p[1].x,a.p[2].x}) < std::min({b.p[0].x,b.p[1].x,b.p[2].x}); });
  int n=0;
  for (size_t i=0;i<A.size();++i) {
    double mx=std::max({A[i].p[0].x,A[i].p[1].x,A[i].p[2].x}), y0=std::min({A[i].p[0].y,A[i].p[1].y,A[i].p[2].y}), y1=std::max({A[i].p[0].y,A[i].p[1].y,A[i].p[2].y});
    for (size_t j=i+1;j<A.size();++j) {
      if (std::min({A[j].p[0].x,A[j].p[1].x,A[j].p[2].x}) >= mx) break;
      if (A[i].el==A[j].el) continue;
      if (std::min({A[j].p[0].y,A[j].p[1].y,A[j].p[2].y}) >= y1 || std::max({A[j].p[0].y,A[j].p[1].y,A[j].p[2].y}) <= y0) continue;
      if (overlap(A[i],A[j])) ++n;
    }
  }
  return n;
}
static std::vector<Tri3> all_pieces(Mesh& m, int base) {
  std::vector<Tri3> A; int k=base; for (auto& q : m.quads()) pieces(*q,++k,A); for (auto& t : m.triangles()) pieces(*t,++k,A); return A;
}
// vertices in the relative interior of an edge (hanging nodes)
static int count_hanging(Mesh& m) {
  std::vector<std::pair<Vec2d,const Vertex*>> vs; for (auto& v : m.vertices()) vs.push_back({v->xy(),v.get()});
  std::sort(vs.begin(),vs.end(),[](auto&a,auto&b){return a.first.x<b.first.x;});
  int n=0;
  auto chk=[&](const Vertex& A,const Vertex& B){
    const Vec2d&a=A.xy(),&b=B.xy(); double L=(b-a).norm(); double lo=std::min(a.x,b.x)-1e-9*L, hi=std::max(a.x,b.x)+1e-9*L;
    auto it=std::lower_bound(vs.begin(),vs.end(),lo,[](auto&p,double x){return p.first.x<x;});
    for(;it!=vs.end()&&it->first.x<=hi;++it){ if(it->second==&A||it->second==&B) continue; double t; double d=dist_line(it->first,a,b,t); if(d<=1e-10*L&&t>0&&t<1) ++n; }
  };
  for (auto& e : m.interior_edges()) chk(e->v1(),e->v2());
  for (auto& e : m.boundary_edges()) chk(e->v1(),e->v2());
  for (auto& q : m.quads()) for (int i=0;i<4;++i) chk(q->vertex(i),q->vertex((i+1)%4));
  for (auto& q : m.triangles()) for (int i=0;i<3;++i) chk(q->vertex(i),q->vertex((i+1)%3));
  return n;
}
// cached measures that disagree with the current vertex positions:
// 1 centroid, 2 area, 4 edge lengths, 8 angles, 16 edge centre, 32 edge length, 64 edge directions
static bool close_(double a,double b,double s){ return std::fabs(a-b) <= 1e-9*(1e-3+s); }
template<class F> static int metric_bits(F& f) {
  int n=(int)f.n_vertices(), r=0; std::vector<Vec2d> p; for(int i=0;i<n;++i) p.push_back(f.vertex(i).xy());
  Vec2d c{0.0,0.0}; for(auto&q:p) c=c+q; c=c/(double)n; double S=0; for(auto&q:p) S=std::max(S,q.norm());
  if (!((c-f.xy()).norm() <= 1e-9*(1+S))) r|=1;
  double A=0,mn=1e300,mx=0,amn=1e300,amx=-1; 
  for(int i=1;i+1<n;++i) A+=0.5*(double)area2(p[0],p[i],p[i+1]);
  bool deg=false;
  for(int i=0;i<n;++i){ double l=(p[(i+1)%n]-p[i]).norm(); mn=std::min(mn,l); mx=std::max(mx,l);
    Vec2d u=p[(i+1)%n]-p[i], w=p[(i+n-1)%n]-p[i]; double cs=(u.x*w.x+u.y*w.y)/(u.norm()*w.norm()); if (std::fabs(cs)>1-1e-9) deg=true; double a=std::acos(std::max(-1.0,std::min(1.0,cs))); amn=std::min(amn,a); amx=std::max(amx,a); 
    }
  if (!close_(A,f.area(),S*S)) r|=2;
  if (!close_(mn,f.min_edge_length(),S) || !close_(mx,f.max_edge_length(),S)) r|=4;
  for(int i=0;i<n;++i) if(!close_((p[(i+1)%n]-p[i]).norm(),f.edgelength(i),S)) r|=4;
  double at = deg ? 1e-3 : 1e-6; if (!(std::fabs(amn-f.min_angle())<at) || !(std::fabs(amx-f.max_angle())<at)) r|=8;
  return r;
}
static int metric_bits_mesh(Mesh& m) {
  int r=0; for(auto&q:m.quads()) r|=metric_bits(*q); for(auto&t:m.triangles()) r|=metric_bits(*t);
  auto ed=[&](const Edge& e){ Vec2d a=e.v1().xy(),b=e.v2().xy(),c=0.5*(a+b),d=b-a; double L=d.norm(),S=a.norm()+b.norm();
    if(!((c-e.xy()).norm()<=1e-9*(1+S))) r|=16; if(!close_(L,e.length(),S)) r|=32;
    if(!((d/L-e.tangent()).norm()<1e-6)) r|=64; Vec2d nn{-d.y/L,d.x/L}; if(!((nn-e.normal()).norm()<1e-6)) r|=64; };
  for(auto&e:m.interior_edges()) ed(*e); for(auto&e:m.boundary_edges()) ed(*e);
  return r;
}
static int cross_overlaps(Mesh& m, int mid) {
  auto A=all_pieces(m,0); int n=0; 
  for (auto& kv : meshes) if (kv.first != mid) { auto B=all_pieces(*kv.second.m,1000000); B.insert(B.end(),A.begin(),A.end()); int own=0; (void)own; auto C=A; n += count_overlaps(B) - 0*own; auto B2=all_pieces(*kv.second.m,1000000); n -= count_overlaps(B2) + count_overlaps(C); }
  return n;
}

// fingerprint of a mesh that does not depend on storage order or point numbering
static std::string digest(Mesh& m) {
  std::vector<std::string> L; char b[128];
  auto pt=[&](const Vertex& v){ double x=v.xy().x,y=v.xy().y; snprintf(b,128,"%a,%a;",x==0?0.0:x,y==0?0.0:y); return std::string(b); };
  for (auto& v : m.vertices()) L.push_back("v"+pt(*v)+(v->is_fixed()?"f":"")+(v->on_boundary()?"b":"")+(v->in_quad_layer()?"q":""));
  auto el=[&](const Facet& f){ std::vector<std::string> c; for (size_t i=0;i<f.n_vertices();++i) c.push_back(pt(f.vertex(i))); size_t k=std::min_element(c.begin(),c.end())-c.begin(); std::string r="e"+std::to_string(f.color())+":"; for (size_t i=0;i<c.size();++i) r+=c[(i+k)%c.size()]; L.push_back(r); };
  for (auto& q : m.quads()) el(*q); for (auto& t : m.triangles()) el(*t);
  for (auto& e : m.boundary_edges()) L.push_back("b"+pt(e->v1())+pt(e->v2())+std::to_string(e->color()));
  for (auto& e : m.interior_edges()) { auto x=pt(e->v1()),y=pt(e->v2()); L.push_back("i"+std::min(x,y)+std::max(x,y)); }
  std::sort(L.begin(),L.end()); unsigned long h1=1469598103934665603ul, h2=88172645463325252ul; for (auto& l : L) for (unsigned char c : l) { h1=(h1^c)*1099511628211ul; h2=(h2+c)*6364136223846793005ul+1442695040888963407ul; h2^=h2>>29; }
  snprintf(b,128,"%016lx%016lx",h1,h2); return b;
}
static std::string snap(int mid, bool conn) {
  MeshRec& R = meshes[mid];
  Mesh& m = *R.m; DomRec& D = doms[R.dom];
  std::ostringstream o;
  std::map<const void*,int> vid; // vertex pointer -> point id
  VV v; int idx_ok = 1; int adj_ok = 1;
  for (auto& p : m.vertices()) {
    int id = P.id(p->xy()); vid[p.get()] = id;
    v.push_back({id, p->is_fixed()?1:0, p->on_boundary()?1:0, p->in_quad_layer()?1:0, inside_any(R,p->xy())?1:0});
  }
  std::map<const Facet*,int> fid; int k = 0;
  for (auto& q : m.quads()) fid[q.get()] = ++k;
  for (auto& t : m.triangles()) fid[t.get()] = ++k;
  auto V = [&](const Vertex& x){ auto it=vid.find(&x); return it==vid.end()? 0 : it->second; };
  VV els; // [color, sign, n1,n2,n3,(n4)] with vertices 
  std::map<const void*,std::set<const Facet*>> inc;
  double area = 0; 
  for (auto& q : m.quads()) {
    std::vector<int> e{q->color(), quad_sign(q->v1().xy(),q->v2().xy(),q->v3().xy(),q->v4().xy()), V(q->v1()),V(q->v2()),V(q->v3()),V(q->v4())};
    area += 0.5*(double)(area2(q->v1().xy(),q->v2().xy(),q->v3().xy())+area2(q->v1().xy(),q->v3().xy(),q->v4().xy()));
    els.push_back(e);
    for (size_t i=0;i<4;++i) inc[&q->vertex(i)].insert(q.get());
  }
  for (auto& t : m.triangles()) {
    std::vector<int> e{t->color(), tri_sign(t->v1().xy(),t->v2().xy(),t->v3().xy()), V(t->v1()),V(t->v2()),V(t->v3())};
    area += 0.5*(double)area2(t->v1().xy(),t->v2().xy(),t->v3().xy());
    els.push_back(e);
    for (size_t i=0;i<3;++i) inc[&t->vertex(i)].insert(t.get());
  }
  // vertex -> element adjacency lists agree with the elements
  for (auto& p : m.vertices()) {
    std::set<const Facet*> s; size_t n=0; for (auto f : p->facets()) { s.insert(f); ++n; }
    auto it = inc.find(p.get());
    std::set<const Facet*> want; if (it!=inc.end()) want = it->second;
    if (s != want || n != s.size()) adj_ok = 0;
  }
  // vertex -> edge lists agree with the edges (front edges of a partial mesh may be listed as well)
  int eadj_ok = 1;
  { std::map<const void*,std::set<const Edge*>> ve; std::set<const Edge*> all;
    auto add=[&](const Edge& e){ ve[&e.v1()].insert(&e); ve[&e.v2()].insert(&e); all.insert(&e); };
    for (auto& e : m.interior_edges()) add(*e); for (auto& e : m.boundary_edges()) add(*e);
    for (auto& p : m.vertices()) { std::multiset<const Edge*> s; for (auto e : p->edges()) if (all.count(e)) s.insert(e);
      auto& w=ve[p.get()]; if (s.size()!=w.size() || !std::equal(w.begin(),w.end(),s.begin())) eadj_ok=0; 
      if (p->edges().size()!=w.size()) eadj_ok=0; } }
  // spatial index coherence
  auto in = [](auto& vec, auto* p){ return std::count(vec.begin(),vec.end(),p); };
  for (auto& p : m.vertices())  { auto f = m.vertices().get_items(p->xy(), 1e-7); if (in(f,p.get())!=1) idx_ok=0; }
  for (auto& p : m.quads())     { auto f = m.quads().get_items(p->xy(), 1e-7); if (in(f,p.get())!=1) idx_ok=0; }
  for (auto& p : m.triangles()) { auto f = m.triangles().get_items(p->xy(), 1e-7); if (in(f,p.get())!=1) idx_ok=0; }
  for (auto& p : m.interior_edges()) { auto f = m.interior_edges().get_edges(p->xy(), 1e-7); if (in(f,p.get())!=1) idx_ok=0; 
       Vec2d c = 0.5*(p->v1().xy()+p->v2().xy()); if ((c-p->xy()).norm() > 1e-9) idx_ok=0; }
  for (auto& p : m.boundary_edges()) { auto f = m.boundary_edges().get_edges(p->xy(), 1e-7); if (in(f,p.get())!=1) idx_ok=0; }
  {
    Vec2d c{0.0,0.0}; double R=1e6;
    if (m.vertices().get_items(c,R).size()!=m.vertices().size()) idx_ok=0;
    if (m.quads().get_items(c,R).size()!=m.quads().size()) idx_ok=0;
    if (m.triangles().get_items(c,R).size()!=m.triangles().size()) idx_ok=0;
    if (m.interior_edges().get_edges(c,R).size()!=m.interior_edges().size()) idx_ok=0;
    if (m.boundary_edges().get_edges(c,R).size()!=m.boundary_edges().size()) idx_ok=0;
  }
  auto F = [&](Facet* f){ if (!f || NullFacet::is_null(f)) return -1; auto it=fid.find(f); return it==fid.end()? -2 : it->second; };
  VV ie, be, nb;
  for (auto& e : m.interior_edges())
    ie.push_back({V(e->v1()),V(e->v2()), conn?F(e->facet_l()):0, conn?F(e->facet_r()):0, host_fixed(R,e->v1().xy(),e->v2().xy())});
  // twin lookup without dereferencing possibly dangling pointers
  std::map<const Edge*,int> tw;
  for (auto& kv : meshes) for (auto& e : kv.second.m->boundary_edges()) tw[e.get()] = kv.first;
  for (auto& e : m.boundary_edges()) {
    int t = 0, ta=0, tb=0;
    if (e->twin_edge()) {
      auto it = tw.find(e->twin_edge());
      if (it == tw.end()) t = -1; else { t = it->second; ta = P.id(e->twin_edge()->v1().xy()); tb = P.id(e->twin_edge()->v2().xy());
        if (e->twin_edge()->twin_edge() != e.get()) t = -2; }
    }
    be.push_back({V(e->v1()),V(e->v2()), e->color(), host_edge(R,e->v1().xy(),e->v2().xy()), conn?F(e->facet_l()):0, t, ta, tb});
  }
  if (conn) {
    for (auto& q : m.quads()) nb.push_back({F(q->nbr1()),F(q->nbr2()),F(q->nbr3()),F(q->nbr4())});
    for (auto& t : m.triangles()) nb.push_back({F(t->nbr1()),F(t->nbr2()),F(t->nbr3())});
  }
  auto pcs = all_pieces(m,0); int ovl = count_overlaps(pcs);
  double da = 0; // declared domain area
  for (int dd : R.ds) for (auto& p : doms[dd].polys){ Q a=0; size_t n=p.xy.size(); for(size_t i=0;i<n;++i){auto&u=p.xy[i];auto&w=p.xy[(i+1)%n];a+=(Q)u.x*(Q)w.y-(Q)w.x*(Q)u.y;} double A=std::fabs((double)a)*0.5; da += p.ext?A:-A; }
  double rel = std::fabs(m.area()-area)/(1e-30+std::fabs(area)+1e-12);
  o << "{\"m\":" << mid << ",\"dig\":\"" << digest(m) << "\",\"doms\":" << arr(R.ds) << ",\"id\":" << m.id() << ",\"col\":" << m.element_color()
    << ",\"v\":" << arr2(v) << ",\"el\":" << arr2(els) << ",\"ie\":" << arr2(ie) << ",\"be\":" << arr2(be)
    << ",\"nb\":" << arr2(nb) << ",\"conn\":" << (conn?1:0) << ",\"idx\":" << idx_ok << ",\"adj\":" << adj_ok << ",\"eadj\":" << eadj_ok
    << ",\"nq\":" << m.n_quads() << ",\"nt\":" << m.n_triangles()
    << ",\"ovl\":" << ovl << ",\"hang\":" << count_hanging(m) << ",\"met\":" << metric_bits_mesh(m) << ",\"xov\":" << (meshes.size()>1?cross_overlaps(m,mid):0)
    << ",\"ar\":" << (long)std::llround(1e6*area/da) << ",\"areaok\":" << (rel < 1e-8 ? 1:0) << ",\"full\":" << (std::fabs(area-da) <= 1e-8*(1+da) ? 1:0) << "}";
  return o.str();
}
static std::string snaps(int conn_mid) {
  std::string r = "["; bool first = true;
  for (auto& kv : meshes) { if (!first) r += ","; first=false; r += snap(kv.first, kv.first==conn_mid || conn_mid<0); }
  return r + "]";
}
static int alive() { int n=0; for (auto& g : gens) n += (int)g.second->size(); return n; }
static MeshGenerator& G(int m) { return *meshes[m].g; }


static std::string domrec(int d) {
  DomRec& D = doms[d]; auto de = declared_edges(D);
  VV E; for (auto& e : de) E.push_back({e.a,e.b,e.color});
  VV fv; for (auto& p : D.fixv) fv.push_back({P.id(p)});
  VV fe; for (auto& p : D.fixe) fe.push_back({P.id(p.first),P.id(p.second)});
  return "{\"d\":"+std::to_string(d)+",\"rings\":"+std::to_string(D.polys.size())+",\"edges\":"+arr2(E)+",\"fv\":"+arr2(fv)+",\"fe\":"+arr2(fe)+"}";
}

// ---- read back an exported file; vertices are identified with the live mesh by position
struct Back { bool ok=false; VV v, el, ie, be, itf, fr, nb; int data=1; };
static bool near_(double a, double b, double tol){ return std::fabs(a-b) <= tol*(1+std::fabs(b)); }
static std::vector<int> match_points(Mesh& m, const std::vector<Vec2d>& xs) {
  std::vector<Vec2d> pv; for (auto& p : m.vertices()) pv.push_back(p->xy());
  std::vector<char> used(pv.size(),0); std::vector<int> r;
  for (size_t i=0;i<xs.size();++i) {
    auto hit=[&](size_t j){ return j<pv.size() && !used[j] && std::fabs(pv[j].x-xs[i].x)<=1e-5 && std::fabs(pv[j].y-xs[i].y)<=1e-5; };
    int best=-1; if (hit(i)) best=(int)i; else for (size_t j=0;j<pv.size();++j) if (hit(j)) { best=(int)j; break; }
    if (best<0) r.push_back(0); else { used[best]=1; r.push_back(P.id(pv[best])); }
  }
  return r;
}
static Back read_txt(const std::string& path, MeshRec& R) {
  Back b; std::ifstream f(path); if (!f) return b; std::string line; Mesh& m=*R.m; std::vector<int> pt; Domain& D=*doms[R.dom].d;
  std::map<std::string,std::vector<std::vector<double>>> sec; std::string cur; long want=0, idv=-1; std::vector<std::string> order;
  while (std::getline(f,line)) {
    if (want==0) { std::istringstream is(line); std::string w; long n; if (!(is>>w>>n)) return b; if (w=="MESH") { idv=n; continue; } if (n<0||sec.count(w)) return b; cur=w; want=n; sec[w]; continue; }
    std::vector<double> row; std::istringstream is(line); std::string c; while (std::getline(is,c,',')) { try { row.push_back(std::stod(c)); } catch (...) { return b; } } sec[cur].push_back(row); --want;
  }
  if (want!=0 || idv!=m.id()) return b;
  for (const char* w : {"VERTICES","INTERIOREDGES","BOUNDARYEDGES","INTERFACEEDGES","FRONT","QUADS","TRIANGLES","QUADNEIGHBORS","TRIANGLENEIGHBORS","SIZEFUNCTION"}) if (!sec.count(w)) return b;
  auto width=[&](const char* w,size_t n){ for (auto& r : sec[w]) if (r.size()!=n) return false; return true; };
  if (!(width("VERTICES",2)&&width("INTERIOREDGES",4)&&width("BOUNDARYEDGES",4)&&width("INTERFACEEDGES",5)&&width("QUADS",5)&&width("TRIANGLES",4)&&width("QUADNEIGHBORS",4)&&width("TRIANGLENEIGHBORS",3)&&width("SIZEFUNCTION",1)&&width("FRONT",3))) return b;
  std::vector<Vec2d> xs; for (auto& r : sec["VERTICES"]) xs.push_back({r[0],r[1]});
  pt = match_points(m,xs); for (int p : pt) b.v.push_back({p});
  auto V=[&](double i){ return i>=0&&i<pt.size()? pt[(int)i] : 0; }; auto F=[&](double i){ return i<0?-1:(int)i+1; };
  for (auto& r : sec["INTERIOREDGES"]) b.ie.push_back({V(r[0]),V(r[1]),F(r[2]),F(r[3])});
  for (auto& r : sec["BOUNDARYEDGES"]) b.be.push_back({V(r[0]),V(r[1]),(int)r[3],0,F(r[2])});
  for (auto& r : sec["INTERFACEEDGES"]) b.itf.push_back({V(r[0]),V(r[1]),F(r[2]),F(r[3]),(int)r[4]});
  for (auto& r : sec["FRONT"]) b.fr.push_back({V(r[0]),V(r[1])});
  for (auto& r : sec["QUADS"]) b.el.push_back({(int)r[4],1,V(r[0]),V(r[1]),V(r[2]),V(r[3])});
  for (auto& r : sec["TRIANGLES"]) b.el.push_back({(int)r[3],1,V(r[0]),V(r[1]),V(r[2])});
  for (auto& r : sec["QUADNEIGHBORS"]) b.nb.push_back({F(r[0]),F(r[1]),F(r[2]),F(r[3])});
  for (auto& r : sec["TRIANGLENEIGHBORS"]) b.nb.push_back({F(r[0]),F(r[1]),F(r[2])});
  if (b.nb.size()!=b.el.size() || sec["SIZEFUNCTION"].size()!=pt.size()) return b;
  for (size_t i=0;i<pt.size();++i) if (!near_(sec["SIZEFUNCTION"][i][0], D.size_function(P.xy[pt[i]]), 2e-5)) b.data=0;
  b.ok = true; return b;
}
static std::vector<double> xml_array(const std::string& t, const std::string& section, const std::string& name, bool& ok) {
  std::vector<double> r; size_t a=t.find("<"+section), z=t.find("</"+section+">"); if (a==std::string::npos||z==std::string::npos) { ok=false; return r; }
  size_t p=a; for (;;) { p=t.find("<DataArray",p); if (p==std::string::npos||p>z) { ok=false; return r; } size_t q=t.find('>',p); std::string h=t.substr(p,q-p);
    if (name.empty() || h.find("Name=\""+name+"\"")!=std::string::npos) { size_t e=t.find("</DataArray>",q); std::istringstream is(t.substr(q+1,e-q-1)); double x; while (is>>x) r.push_back(x); if (!is.eof()) ok=false; return r; } p=q; }
}
static Back read_vtu(const std::string& path, MeshRec& R) {
  Back b; std::ifstream f(path); if (!f) return b; std::stringstream ss; ss<<f.rdbuf(); std::string t=ss.str(); Mesh& m=*R.m; Domain& D=*doms[R.dom].d; bool ok=true;
  if (t.find("</VTKFile>")==std::string::npos) return b;
  auto xy=xml_array(t,"Points","",ok), co=xml_array(t,"Cells","connectivity",ok), of=xml_array(t,"Cells","offsets",ok), ty=xml_array(t,"Cells","types",ok);
  auto sz=xml_array(t,"PointData","size_function",ok), ql=xml_array(t,"PointData","in_quad_layer",ok), fx=xml_array(t,"PointData","fixed_vertices",ok);
  auto col=xml_array(t,"CellData","element_color",ok), el=xml_array(t,"CellData","edge_length",ok), an=xml_array(t,"CellData","max_angle",ok), cq=xml_array(t,"CellData","cell_quality",ok);
  size_t np=xy.size()/3, nc=of.size(); char hd[128]; snprintf(hd,128,"NumberOfPoints=\"%zu\" NumberOfCells=\"%zu\"",np,nc);
  if (!ok || xy.size()%3 || t.find(hd)==std::string::npos || sz.size()!=np||ql.size()!=np||fx.size()!=np||ty.size()!=nc||col.size()!=nc||el.size()!=nc||an.size()!=nc||cq.size()!=nc) return b;
  std::vector<Vec2d> xs; for (size_t i=0;i<np;++i) { xs.push_back({xy[3*i],xy[3*i+1]}); if (xy[3*i+2]!=0) b.data=0; }
  auto pt=match_points(m,xs); 
  for (size_t i=0;i<np;++i) { b.v.push_back({pt[i],fx[i]!=0,0,ql[i]!=0}); if (!near_(sz[i],D.size_function(P.xy[pt[i]]),2e-5)) b.data=0; }
  size_t o=0; 
  for (size_t i=0;i<nc;++i) { size_t e=(size_t)of[i]; if (e<o||e>co.size()||(e-o==4)!=(ty[i]==9)||(e-o==3)!=(ty[i]==5)) return b;
    std::vector<int> r{(int)col[i],1}; std::vector<Vec2d> q; for (size_t j=o;j<e;++j) { int k=co[j]>=0&&co[j]<np?pt[(int)co[j]]:0; r.push_back(k); q.push_back(P.xy[k]); } o=e; b.el.push_back(r);
    double mx=0,am=0; int n=(int)q.size(); bool deg=false; for (int j=0;j<n;++j) { Vec2d u=q[(j+1)%n]-q[j], w=q[(j+n-1)%n]-q[j]; mx=std::max(mx,u.norm()); double c=(u.x*w.x+u.y*w.y)/(u.norm()*w.norm()); if (std::fabs(c)>1-1e-6) deg=true; am=std::max(am,std::acos(std::max(-1.0,std::min(1.0,c)))); }
    if (!near_(el[i],mx,1e-4) || !near_(an[i],am*180/M_PI,deg?1e-3:1e-4)) b.data=0; }
  if (o!=co.size()) return b;
  b.ok=true; return b;
}
static char* LASTOP; // shared with the parent process
static bool known(int m){ return meshes.count(m); }
static void rec(const std::string& ev, int m, int arg, bool ret, int conn_mid=0, const std::string& extra="") {
  emit("{\"e\":\""+ev+"\",\"m\":"+std::to_string(m)+",\"arg\":"+std::to_string(arg)+",\"ret\":"+(ret?"1":"0")
       +",\"n\":"+std::to_string(alive())+extra+",\"S\":"+snaps(conn_mid)+"}");
}

// Quad layers on a plain domain: measured heights and coverage away from the corners.
// [applies, measured vertices, largest deviation from the declared heights in 1e-6 of a height,
//  measured edges on the path, uncovered ones, measured edges off the path, covered ones]
static bool lay_plain(int m, int n, double h, double g, std::vector<double>& cum) {
  Mesh& M=*meshes[m].m; DomRec& D=doms[meshes[m].dom];
  if (M.triangles().size()||M.quads().size()||D.polys.size()!=1||D.fixv.size()||D.fixe.size()||n<1||h<=0||g<=0) return false;
  for (auto& e : M.boundary_edges()) if (e->twin_edge()) return false;
  cum.assign(1,0.0); double x=h, hm=0; for (int a=0;a<n;++a) { cum.push_back(cum.back()+x); hm=std::max(hm,x); x*=g; }
  double T=cum.back(), mn=1e300;
  for (auto& e : M.boundary_edges()) { mn=std::min(mn,e->length()); mn=std::min(mn,D.d->size_function(e->xy())); mn=std::min(mn,D.d->size_function(e->v1().xy())); }
  if (T*1.5 > mn) return false;
  auto& q=D.polys[0].xy; int N=q.size();
  auto sd=[](const Vec2d& p,const Vec2d& a,const Vec2d& b){ Vec2d e=b-a; double t=std::max(0.0,std::min(1.0,dot(p-a,e)/e.norm_sqr())); return (p-a-t*e).norm(); };
  for (int i=0;i<N;++i) for (int j=0;j<N;++j) { Vec2d a=q[i],b=q[(i+1)%N];
    if ((b-a).norm() < 6*T) return false;
    if (j!=i && j!=(i+1)%N && sd(q[j],a,b) < 6*T) return false; }
  return true;
}
static std::string lay_measure(int m, const std::vector<double>& cum, const Vec2d& A, const Vec2d& B) {
  Mesh& M=*meshes[m].m; auto& q=doms[meshes[m].dom].polys[0].xy; int N=q.size(); double T=cum.back();
  double ar=0; for (int i=0;i<N;++i) ar+=q[i].x*q[(i+1)%N].y-q[i].y*q[(i+1)%N].x;
  std::vector<Vec2d> p(q); if (ar<0) std::reverse(p.begin(),p.end());
  int ia=-1, ib=-1; std::vector<double> off{0};
  for (int i=0;i<N;++i) { if ((p[i]-A).norm()<1e-9) ia=i; if ((p[i]-B).norm()<1e-9) ib=i; off.push_back(off.back()+(p[(i+1)%N]-p[i]).norm()); }
  if (ia<0||ib<0) return "[0,0,0,0,0,0,0]";
  double L=off.back(), lm=0; for (auto& e : M.boundary_edges()) lm=std::max(lm,e->length());
  double gap=3*T+2*lm; 
  int nv=0,on=0,onu=0,of=0,ofc=0; double dev=0;
  for (auto& v : M.vertices()) { if (v->on_boundary()) continue; double best=1e300; int k=-1; double t=0,l=0;
    for (int i=0;i<N;++i) { Vec2d e=p[(i+1)%N]-p[i]; double len=e.norm(), s=dot(v->xy()-p[i],e)/len, s1=std::max(0.0,std::min(len,s)); double d=(v->xy()-p[i]-(s1/len)*e).norm(); if (d<best) { best=d;k=i;t=s;l=len; } }
    if (k<0 || t<gap || t>l-gap) continue;
    ++nv; double d=1e300; for (size_t a=1;a<cum.size();++a) d=std::min(d,std::fabs(best-cum[a])/(cum[a]-cum[a-1])); dev=std::max(dev,d); }
  std::set<std::pair<const Vertex*,const Vertex*>> sides;
  for (auto& f : M.triangles()) for (int i=0;i<3;++i) sides.insert({&f->vertex(i),&f->vertex((i+1)%3)});
  for (auto& f : M.quads()) for (int i=0;i<4;++i) sides.insert({&f->vertex(i),&f->vertex((i+1)%4)});
  double s0=off[ia], s1=off[ib]; if (s1<=s0) s1+=L;
  for (auto& e : M.boundary_edges()) { Vec2d x=e->xy(); double s=-1; 
    for (int i=0;i<N;++i) { Vec2d E=p[(i+1)%N]-p[i]; double len=E.norm(), t=dot(x-p[i],E)/len; if (t>gap && t<len-gap && (x-p[i]-(t/len)*E).norm()<1e-9*(1+len)) s=off[i]+t; }
    if (s<0) continue; if (s<s0) s+=L;
    bool cov=sides.count({&e->v1(),&e->v2()})>0; if (s<s1) { ++on; if(!cov) ++onu; } else { ++of; if (cov) ++ofc; } }
  std::ostringstream o; o<<"[1,"<<nv<<","<<(long)std::min(1e9,dev*1e6)<<","<<on<<","<<onu<<","<<of<<","<<ofc<<"]"; return o.str();
}

// positions of the smoothed vertices before the operation, in container order
static std::vector<int> vorder(int m) { std::vector<int> r; for (auto& p : meshes[m].m->vertices()) r.push_back(P.id(p->xy())); return r; }

static void run_session(const std::vector<std::string>& lines) {
  gens[0].reset(new MeshGenerator()); gen = gens[0].get(); mesh_pool.reserve(256); pool_on = true;
  for (auto& line : lines) {
    std::istringstream is(line); std::string op; is >> op;
    if (op.empty() || op[0]=='#') continue;
    snprintf(LASTOP,4096,"%s",line.c_str());
    if (op=="ql"||op=="tri"||op=="triex"||op=="tri2quad"||op=="refine"||op=="smooth"||op=="check"||op=="write"||op=="merge") {
      std::istringstream i2(line); std::string o2; int m2,b2; i2>>o2>>m2; if (!known(m2)) continue; if (op=="merge") { i2>>b2; if (!known(b2)) continue; }
    }
    if (op == "gen") { int k; is>>k; if (!gens.count(k)) gens[k].reset(new MeshGenerator()); gen=gens[k].get(); continue; }
    if (op == "dom") {
      int d; std::string kind; is >> d >> kind; DomRec& D = doms[d];
      if (kind == "const") { double h; is >> h; D.f = [h](const Vec2d&){return h;}; }
      else if (kind == "lin") { double a,b,c; is >> a >> b >> c; D.f=[a,b,c](const Vec2d&p){return a+b*p.x+c*p.y;}; }
      else { double h0,h1,cx,cy,r; is >> h0>>h1>>cx>>cy>>r; D.f=[=](const Vec2d&p){ double q=((p.x-cx)*(p.x-cx)+(p.y-cy)*(p.y-cy))/(r*r); return h0+(h1-h0)*std::exp(-q);}; }
      double qs; size_t qi, qd;
      if (is >> qs >> qi >> qd) D.d.reset(new Domain(D.f, qs, qi, qd)); else D.d.reset(new Domain(D.f));
    } else if (op == "ext" || op == "int") {
      int d,n; is >> d >> n; DomRec& D=doms[d]; DomRec::Poly p; p.ext = op=="ext"; std::vector<Vec2d> props;
      for (int i=0;i<n;++i){ double x,y,s,r; int c; is>>x>>y>>c>>s>>r; p.xy.push_back({x,y}); p.col.push_back(c); props.push_back({s,r}); }
      Boundary& b = p.ext ? D.d->add_exterior_boundary() : D.d->add_interior_boundary();
      b.set_shape_from_coordinates(p.xy, p.col, props);
      D.polys.push_back(p);
    } else if (op == "rect" || op == "circ" || op == "square" || op == "triangle") {
      int d,c; std::string t; is >> d >> t >> c; DomRec& D=doms[d]; bool ext = t=="ext";
      Boundary& b = ext ? D.d->add_exterior_boundary() : D.d->add_interior_boundary();
      DomRec::Poly p; p.ext=ext; double x,y; is >> x >> y;
      if (op=="rect") { double w,h; is>>w>>h; b.set_shape_rectangle(c,{x,y},w,h); p.xy={{x-0.5*w,y-0.5*h},{x+0.5*w,y-0.5*h},{x+0.5*w,y+0.5*h},{x-0.5*w,y+0.5*h}}; }
      else if (op=="square") { double w; is>>w; b.set_shape_square(c,{x,y},w); p.xy={{x-0.5*w,y-0.5*w},{x+0.5*w,y-0.5*w},{x+0.5*w,y+0.5*w},{x-0.5*w,y+0.5*w}}; }
      else { double r; int n=3; is>>r; if (op=="circ") is>>n; 
        if (op=="circ") b.set_shape_circle(c,{x,y},r,n); else b.set_shape_triangle(c,{x,y},r);
        // corners: take the library's own vertices (checked against the radius)
        for (auto& e : b.edges()) p.xy.push_back(e->v1().xy());
        double R = op=="circ"? r : r/std::sqrt(3.0); bool ok = (int)p.xy.size()==n;
        for (auto& q : p.xy) if (std::fabs((q-Vec2d{x,y}).norm()-R) > 1e-9*(1+R)) ok=false;
        if (!ok) { p.xy.clear(); for(int i=0;i<n;++i) p.xy.push_back({x+R*std::cos(i*2*M_PI/n),y+R*std::sin(i*2*M_PI/n)}); }
      }
      p.col.assign(p.xy.size(),c); D.polys.push_back(p);
    } else if (op == "fixv") {
      int d; double x,y,s,r; is>>d>>x>>y>>s>>r; doms[d].d->add_fixed_vertex(x,y,s,r); doms[d].fixv.push_back({x,y});
    } else if (op == "fixe") {
      int d; double x1,y1,x2,y2; is>>d>>x1>>y1>>x2>>y2; Domain& D=*doms[d].d;
      auto fv=[&](double x,double y)->Vertex&{ for (auto& v : D.vertices()) if (v->xy()==Vec2d{x,y}) return *v; return D.add_vertex(x,y); };
      Vertex& a=fv(x1,y1); Vertex& b=fv(x2,y2); D.add_fixed_edge(a,b); doms[d].fixe.push_back({{x1,y1},{x2,y2}});
    } else if (op == "mesh") {
      int m,d,id,c; is>>m>>d>>id>>c; 
      Mesh& M = gen->new_mesh(*doms[d].d, id, c); meshes[m] = {&M,d,c,id,{d},gen};
      rec("New",m,d,M.n_boundary_edges()>0,0,",\"D\":"+domrec(d)+",\"id\":"+std::to_string(id)+",\"col\":"+std::to_string(c));
    } else if (op == "ql") {
      int m,n; double h,g,x1,y1,x2,y2; is>>m>>n>>h>>g>>x1>>y1>>x2>>y2;
      std::vector<double> cum; bool plain=lay_plain(m,n,h,g,cum);
      bool r = G(m).quad_layer_generation(*meshes[m].m).n_layers(n).first_height(h).growth_rate(g).starting_position({x1,y1}).ending_position({x2,y2}).generate_elements();
      rec("QuadLayer",m,n,r,0,",\"lay\":"+(plain?lay_measure(m,cum,{x1,y1},{x2,y2}):std::string("[0,0,0,0,0,0,0]")));
    } else if (op == "tri" || op == "triex") {
      int m,k; is>>m>>k; auto& T = G(m).triangulation(*meshes[m].m).n_elements(k);
      bool r = op=="tri" ? T.generate_elements() : T.generate_elements_exhaustive();
      rec("Triangulate",m,k,r,0,",\"nf\":"+std::to_string(meshes[m].m->get_front_edges().size()));
    } else if (op == "tri2quad") { int m; is>>m; bool r=G(m).tri2quad_modification(*meshes[m].m).modify(); rec("Tri2Quad",m,0,r);
    } else if (op == "refine") {
      int m; is>>m; Mesh& M=*meshes[m].m;
      // midpoints of edges and centroids of elements of the pre-state
      VV mids;
      auto mid=[&](const Edge& e){ mids.push_back({P.id(e.v1().xy()),P.id(e.v2().xy()),0}); };
      for (auto& e : M.interior_edges()) mid(*e); for (auto& e : M.boundary_edges()) mid(*e);
      std::vector<std::array<int,5>> cs; 
      for (auto& q : M.quads()) cs.push_back({4,P.id(q->v1().xy()),P.id(q->v2().xy()),P.id(q->v3().xy()),P.id(q->v4().xy())});
      for (auto& t : M.triangles()) cs.push_back({3,P.id(t->v1().xy()),P.id(t->v2().xy()),P.id(t->v3().xy()),0});
      bool r=G(m).quad_refinement(M).refine();
      // identify post vertices with midpoints / interior points
      std::vector<Vec2d> pv; for (auto& p : M.vertices()) pv.push_back(p->xy());
      auto near=[&](const Vec2d& q){ int best=0; double bd=1e-9*(1+q.norm()); for(auto&p:pv){ double d=(p-q).norm(); if(d<bd){bd=d;best=P.id(p);} } return best; };
      for (auto& e : mids) { Vec2d q=0.5*(P.xy[e[0]]+P.xy[e[1]]); e[2]=near(q); }
      // witnesses: for every coarse element its midpoints and the new centre
      std::map<std::pair<int,int>,int> mp, opp;
      for (auto& e : mids) { mp[{e[0],e[1]}]=e[2]; mp[{e[1],e[0]}]=e[2]; }
      for (auto& q : M.quads()) for (int i=0;i<4;++i) opp[{P.id(q->vertex(i).xy()),P.id(q->vertex((i+1)%4).xy())}] = P.id(q->vertex((i+2)%4).xy());
      VV subs;
      for (auto& c : cs) { int n=c[0]; std::vector<int> w{0}; for (int i=1;i<=n;++i) { auto it=mp.find({c[i],c[i%n+1]}); w.push_back(it==mp.end()?0:it->second); }
        auto it=opp.find({c[1],w[1]}); if (it!=opp.end()) w[0]=it->second; subs.push_back(w); }
      rec("Refine",m,0,r,0,",\"mids\":"+arr2(mids)+",\"subs\":"+arr2(subs));
    } else if (op == "smooth") {
      int m,it,ql; std::string kind; is>>m>>kind>>it>>ql; auto pre = vorder(m); bool r;
      Mesh& M=*meshes[m].m;
      if (kind=="laplace") r=G(m).laplace_smoothing(M).quad_layer_smoothing(ql).smooth(it);
      else if (kind=="torsion") r=G(m).torsion_smoothing(M).quad_layer_smoothing(ql).smooth(it);
      else r=G(m).mixed_smoothing(M).quad_layer_smoothing(ql).smooth(it);
      auto post = vorder(m); VV mv; if (pre.size()==post.size()) for(size_t i=0;i<pre.size();++i) mv.push_back({pre[i],post[i]});
      rec("Smooth",m,ql,r,0,",\"it\":"+std::to_string(it)+",\"mv\":"+arr2(mv));
    } else if (op == "merge") {
      int a,b; is>>a>>b; size_t n0=G(a).size(); bool r=G(a).merge_meshes(*meshes[a].m,*meshes[b].m);
      if (G(a).size() < n0) { auto bd=meshes[b].ds; for (int d : bd) meshes[a].ds.push_back(d); meshes.erase(b); }
      rec("Merge",a,b,r);
    } else if (op == "check") {
      int m; is>>m; MeshChecker c{*meshes[m].m,*doms[meshes[m].dom].d}; bool r=c.check_completeness(); rec("Check",m,0,r,m);
    } else if (op == "write") {
      int m; std::string t,path; is>>m>>t>>path; 
      std::string full=path; if (full.size()<4 || full.substr(full.size()-4)!="."+t) full+="."+t;
      unlink(full.c_str());
      std::string dir=full.substr(0,full.find_last_of('/')); bool can = access(dir.c_str(),W_OK)==0;
      bool r=G(m).write_mesh(*meshes[m].m,path,t=="txt"?MeshExportType::TXT:MeshExportType::VTU);
      Back b = t=="txt" ? read_txt(full,meshes[m]) : read_vtu(full,meshes[m]); unlink(full.c_str());
      rec("Write",m,t=="txt"?0:1,r,m,std::string(",\"w\":")+(can?"1":"0")+",\"X\":{\"ok\":"+(b.ok?"1":"0")+",\"data\":"+std::to_string(b.data)+",\"conn\":"+(t=="txt"?"1":"0")+",\"v\":"+arr2(b.v)+",\"el\":"+arr2(b.el)+",\"ie\":"+arr2(b.ie)+",\"be\":"+arr2(b.be)+",\"itf\":"+arr2(b.itf)+",\"fr\":"+arr2(b.fr)+",\"nb\":"+arr2(b.nb)+"}");
    } else { fprintf(stderr,"unknown op %s\n",op.c_str()); _exit(98); }
  }
  emit("{\"e\":\"End\",\"m\":0,\"arg\":0,\"ret\":1,\"n\":"+std::to_string(alive())+",\"S\":[]}");
}

int main(int argc, char** argv) {
  int tmo = argc>3 ? atoi(argv[3]) : 60;
  std::ifstream in(argv[1]); std::string line; std::vector<std::pair<std::string,std::vector<std::string>>> ss;
  while (std::getline(in,line)) { if (line.rfind("session ",0)==0) ss.push_back({line.substr(8),{}}); else if (!ss.empty()) ss.back().second.push_back(line); }
  OUTFD = open(argv[2], O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644);
  LOG_PROPERTIES.set_level(ERROR);
  LOG_PROPERTIES.set_error_ostream(TO_FILE, "/dev/null");
  struct rlimit rl{4ul<<30,4ul<<30};
#ifndef __SANITIZE_ADDRESS__
  setrlimit(RLIMIT_AS,&rl);
#endif
  rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  int late=0;
  LASTOP = (char*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  for (auto& s : ss) {
    emit("{\"e\":\"Session\",\"id\":"+J::str(s.first)+"}");
    LASTOP[0]=0;
    pid_t p = fork();
    if (p == 0) {
      struct itimerval tv{{0,0},{tmo,0}}; setitimer(ITIMER_PROF,&tv,nullptr); alarm(10*tmo);
      int rc=0; std::string why;
      try { run_session(s.second); } 
      catch (const std::exception& e) { rc=1; why=e.what(); } catch (...) { rc=1; why="unknown exception"; }
      if (rc) emit("{\"e\":\"Abort\",\"m\":0,\"arg\":0,\"ret\":0,\"n\":0,\"S\":[],\"why\":"+J::str("exception "+why)+",\"op\":"+J::str(LASTOP)+"}");
      _exit(0);
    }
    int st=0; waitpid(p,&st,0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st)==0)) {
      int c = WIFSIGNALED(st)? WTERMSIG(st) : 1000+WEXITSTATUS(st);
      emit("{\"e\":\"Abort\",\"m\":0,\"arg\":"+std::to_string(c)+",\"ret\":0,\"n\":0,\"S\":[],\"why\":\"status\",\"op\":"+J::str(LASTOP)+"}");
      if ((c==SIGPROF||c==SIGALRM) && ++late>=2) break;   // the library hangs: no need to wait for more of it
    }
  }
  return 0;
}
