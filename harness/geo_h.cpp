// Tabulates the geometric predicates of the library over lattice points (C17).
// geo_h CLASS N SEED COUNT OUT : see spec/GeoTrace.tla for the record format
#include "common.h"
#include "TQMesh.h"
#include <random>
using namespace TQMesh; using namespace CppUtils;
static std::mt19937_64 R; static double U, OX, OY;
static long rnd(long n){ return (long)(R()%(unsigned long)n); }
static void place(){ static const double us[]={1.0,1.0/16,1.0/4,8.0}; U=us[rnd(4)]; OX=U*(rnd(2)?0:rnd(4001)-2000); OY=U*(rnd(2)?0:rnd(4001)-2000); }
using I2=std::array<long,2>;
static Vec2d P(I2 p){ return { OX+U*p[0], OY+U*p[1] }; }
static long whole(double v){ double r=std::round(v); return std::isfinite(v)&&std::abs(r-v)<=1e-6*(1+std::abs(v)) ? (long)r : -7777; }
static long angle_class(double a){ if (!(a>=-1e-9&&a<=M_PI+1e-9)) return -1; double q=a/(M_PI/4); double r=std::round(q); if (std::abs(q-r)<1e-7) return 2*(long)r; return 2*(long)std::floor(q)+1; }
static std::ofstream O;
template<class... A> static long mask(A... b){ long m=0,k=1; ((m+=b?k:0,k*=2),...); return m; }
static Vec2d lo(I2 a,I2 b){ return bbox_min(P(a),P(b)); } static Vec2d up(I2 a,I2 b){ return bbox_max(P(a),P(b)); }
static std::string r3(I2 p,I2 q,I2 r){ Vec2d a=P(p),b=P(q),c=P(r); auto o=orientation(a,b,c); std::ostringstream s;
  double l2=(b-a).norm_sqr()/(U*U); double d=distance_point_edge_sqr(c,a,b)/(U*U);
  s<<"["<<mask(is_left(a,b,c),is_lefton(a,b,c),o==Orientation::CCW,o==Orientation::CW,o==Orientation::CL,in_segment(a,b,c),in_on_segment(a,b,c),in_on_rect(c,lo(p,q),up(p,q)),in_rect(c,lo(p,q),up(p,q)),a==b,a!=b)
   <<","<<angle_class(angle(b-a,c-a))<<","<<(p==q?0:whole(d*l2))<<"]"; return s.str(); }
static std::string r4(I2 p,I2 q,I2 r,I2 t){ Vec2d a=P(p),b=P(q),c=P(r),d=P(t); std::ostringstream s; std::vector<Vec2d> poly{a,b,c,d};
  s<<"["<<mask(line_line_crossing(a,b,c,d),line_line_intersection(a,b,c,d),segment_overlap(a,b,c,d),in_on_triangle(a,b,c,d),in_triangle(a,b,c,d),rect_overlap(lo(p,q),up(p,q),lo(r,t),up(r,t)))
   <<","<<whole(2*polygon_area(poly)/(U*U))<<"]"; return s.str(); }
static std::string r5(I2 p,I2 q,I2 r,I2 t,I2 w){ Vec2d a=P(p),b=P(q),c=P(r),d=P(t),e=P(w); std::ostringstream s;
  s<<mask(line_tri_intersection(a,b,c,d,e),line_tri_crossing(a,b,c,d,e),in_quad(a,b,c,d,e),in_on_quad(a,b,c,d,e)); return s.str(); }
// elements
using El=std::vector<I2>;
static long cr(I2 p,I2 q,I2 r){ return (q[0]-p[0])*(r[1]-p[1])-(r[0]-p[0])*(q[1]-p[1]); }
static bool convex(const El& e){ size_t n=e.size(); long a=0; for(size_t i=0;i<n;++i){ long c=cr(e[i],e[(i+1)%n],e[(i+2)%n]); if(c<0) return false; a+=c; if (e[i]==e[(i+1)%n]) return false; if (c==0) { I2 p=e[i],q=e[(i+1)%n],r=e[(i+2)%n]; if ((q[0]-p[0])*(r[0]-q[0])+(q[1]-p[1])*(r[1]-q[1])<=0) return false; } }
  if (a<=0) return false; if (n==4) { // total turning of a simple quad: one revolution
    for(size_t i=0;i<n;++i) if (cr(e[i],e[(i+1)%n],e[(i+2)%n])+cr(e[i],e[(i+2)%n],e[(i+3)%n])<=0) return false; for (size_t i=0;i<4;++i) for (size_t j=0;j<4;++j) { if (cr(e[i],e[(i+1)%n],e[j])<0) return false; } }
  return true; }
static std::string je(const El& e){ std::string s="["; for(size_t i=0;i<e.size();++i){ s+=i?",[":"["; s+=std::to_string(e[i][0])+","+std::to_string(e[i][1])+"]"; } return s+"]"; }
struct World { Vertices V; Triangles T; Quads Q; World():V{1e5,20,6},T{1e5,20,6},Q{1e5,20,6}{} };
static Facet* put(World& w,const El& e){ std::vector<Vertex*> v; for(auto& p:e) v.push_back(&w.V.push_back(P(p))); Facet* f; if(e.size()==3){ Triangle& t=w.T.push_back(*v[0],*v[1],*v[2]); t.is_active(true); f=&t; } else { Quad& q=w.Q.push_back(*v[0],*v[1],*v[2],*v[3]); q.is_active(true); f=&q; } return f; }
template<class X> static bool hits(X& a,World& w,size_t other){ return other==3? a.intersects_triangle(w.T,1e4*U) : a.intersects_quad(w.Q,1e4*U); }
static long pair_answer(const El& a,const El& b){ World w; Facet* fa=put(w,a); Facet* fb=put(w,b);
  auto one=[&](Facet* f,size_t n,size_t other){ return n==3? hits(*static_cast<Triangle*>(f),w,other) : hits(*static_cast<Quad*>(f),w,other); };
  bool e; { Vec2d p[4],q[4]; for(size_t i=0;i<a.size();++i)p[i]=P(a[i]); for(size_t i=0;i<b.size();++i)q[i]=P(b[i]);
    e = a.size()==3? (b.size()==3? tri_tri_intersection(p[0],p[1],p[2],q[0],q[1],q[2]) : tri_quad_intersection(p[0],p[1],p[2],q[0],q[1],q[2],q[3]))
                   : (b.size()==3? tri_quad_intersection(q[0],q[1],q[2],p[0],p[1],p[2],p[3]) : quad_quad_intersection(p[0],p[1],p[2],p[3],q[0],q[1],q[2],q[3])); }
  return mask(one(fa,a.size(),b.size()), one(fb,b.size(),a.size()), e); }
static long vert_answer(const El& a,I2 v){ World w; Facet* f=put(w,a); bool one; Vertex x{P(v)};
  one=f->intersects_vertex(x); Vertex& y=w.V.push_back(P(v)); (void)y;
  bool all = a.size()==3? static_cast<Triangle*>(f)->intersects_vertex(w.V,1e4*U) : static_cast<Quad*>(f)->intersects_vertex(w.V,1e4*U);
  return mask(one,all); }
static El rot(const El& e){ size_t k=rnd(e.size()); El r; for(size_t i=0;i<e.size();++i) r.push_back(e[(i+k)%e.size()]); return r; }
static std::vector<El> elements(size_t k,long n){ std::vector<El> r; std::vector<I2> g; for(long x=0;x<n;++x)for(long y=0;y<n;++y)g.push_back({x,y});
  std::vector<size_t> id(k,0); size_t N=g.size(), tot=1; for(size_t i=0;i<k;++i) tot*=N;
  for(size_t c=0;c<tot;++c){ size_t t=c; El e; bool ok=true; for(size_t i=0;i<k;++i){ size_t j=t%N; if(i&&j<=c%N) ok=false; e.push_back(g[j]); t/=N; } if(ok&&convex(e)) r.push_back(rot(e)); } return r; }
static El randel(size_t k,long n){ for(;;){ El e; for(size_t i=0;i<k;++i) e.push_back({rnd(n),rnd(n)}); if(convex(e)) return e; } }
int main(int argc,char** argv){
  std::string cls=argv[1]; long n=atol(argv[2]); R.seed(atol(argv[3])*7919+n); long cnt=atol(argv[4]); O.open(argv[5]); LOG_PROPERTIES.set_level(ERROR); LOG_PROPERTIES.set_error_ostream(TO_FILE,"/dev/null");
  std::vector<I2> g; for(long x=0;x<n;++x)for(long y=0;y<n;++y)g.push_back({x,y});
  auto jp=[](I2 p){ return "["+std::to_string(p[0])+","+std::to_string(p[1])+"]"; };
  auto head=[&](std::initializer_list<I2> f){ O<<"{\"c\":\""<<cls<<"\",\"n\":"<<n<<",\"f\":["; bool x=true; for(auto& p:f){ O<<(x?"":",")<<jp(p); x=false; } O<<"],\"r\":["; };
  if (cls=="t3") for(auto& p:g){ place(); head({p}); bool x=true; for(auto& q:g)for(auto& r:g){ O<<(x?"":",")<<r3(p,q,r); x=false; } O<<"]}\n"; }
  else if (cls=="t4") for(auto& p:g)for(auto& q:g){ place(); head({p,q}); bool x=true; for(auto& r:g)for(auto& s:g){ O<<(x?"":",")<<r4(p,q,r,s); x=false; } O<<"]}\n"; }
  else if (cls=="t5") for(auto& p:g)for(auto& q:g){ place(); head({p,q}); bool x=true; for(auto& r:g)for(auto& s:g)for(auto& t:g){ O<<(x?"":",")<<r5(p,q,r,s,t); x=false; } O<<"]}\n"; }
  else if (cls=="s3"||cls=="s4"||cls=="s5") { long k=cls[1]-'0'; while(cnt>0){ place(); O<<"{\"c\":\""<<cls<<"\",\"x\":["; for(long i=0;i<200&&cnt>0;++i,--cnt){ El e; for(long j=0;j<k;++j){ // coincidences and collinear points are made frequent
        long m=rnd(4); if(j>0&&m==0) e.push_back(e[rnd(j)]); else if(j>1&&m==1){ I2 a=e[rnd(j)],b=e[rnd(j)]; long w=rnd(5)-1; e.push_back({a[0]+w*(b[0]-a[0])/2,a[1]+w*(b[1]-a[1])/2}); } else e.push_back({rnd(n),rnd(n)}); }
      O<<(i?",":"")<<"["<<je(e)<<","<<(k==3?r3(e[0],e[1],e[2]):k==4?r4(e[0],e[1],e[2],e[3]):r5(e[0],e[1],e[2],e[3],e[4]))<<"]"; } O<<"]}\n"; } }
  else if (cls=="ee"||cls=="es") { // pairs of convex elements: exhaustive / sampled
    auto line=[&](const El& a,const std::vector<El>& bs){ place(); O<<"{\"c\":\"ee\",\"a\":"<<je(a)<<",\"x\":["; bool x=true; for(auto& b:bs){ O<<(x?"":",")<<"["<<je(b)<<","<<pair_answer(a,b)<<"]"; x=false; } O<<"]}\n"; };
    if (cls=="ee") { auto T=elements(3,n),Q=elements(4,n); std::vector<El> all=T; all.insert(all.end(),Q.begin(),Q.end()); for(auto& a:all) line(a,all); }
    else while(cnt>0){ El a=randel(3+rnd(2),n); std::vector<El> bs; for(long i=0;i<100&&cnt>0;++i,--cnt){ El b=randel(3+rnd(2),n); if(rnd(2)) { // share corners
          size_t k=1+rnd(2); for(size_t j=0;j<k;++j) b[rnd(b.size())]=a[rnd(a.size())]; if(!convex(b)) { ++cnt; --i; continue; } } bs.push_back(b); } line(a,bs); } }
  else if (cls=="ev") { auto T=elements(3,n),Q=elements(4,n); std::vector<El> all=T; all.insert(all.end(),Q.begin(),Q.end());
    for(auto& a:all){ place(); O<<"{\"c\":\"ev\",\"a\":"<<je(a)<<",\"x\":["; bool x=true; for(long i=-1;i<=n;++i)for(long j=-1;j<=n;++j){ I2 v{i,j}; O<<(x?"":",")<<"["<<jp(v)<<","<<vert_answer(a,v)<<"]"; x=false; } O<<"]}\n"; } }
  return 0;
}
