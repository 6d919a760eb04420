// Library twin of the application: performs the calls that App.tla demands for
// a parameter file.   app_h SCRIPT   (in the directory that receives the files)
// prints "check <0|1>" per mesh; a COUT export goes to m<i>.cout.
#include "TQMesh.h"
#include <fstream>
#include <sstream>
#include <iostream>
using namespace TQMesh;
using namespace CppUtils;
int main(int argc, char** argv){
  std::ifstream in(argv[1]); std::string line; MeshGenerator gen; std::vector<std::unique_ptr<Domain>> doms; Domain* D=nullptr; Boundary* B=nullptr; Mesh* M=nullptr;
  std::vector<Vertex*> V;
  LOG_PROPERTIES.set_level(ERROR);
  while (std::getline(in,line)) { std::istringstream is(line); std::string op; is>>op; if (op.empty()) continue;
    std::vector<double> a; std::string word; 
    if (op=="csv"||op=="write") is>>word;
    double x; while (is>>x) a.push_back(x);
    if (op=="domain") { double p=a[0], q=a[1], r=a[2]; doms.emplace_back(new Domain([p,q,r](const Vec2d& c){ return p+q*c.x+r*c.y; }, TQ_MAX)); D=doms.back().get(); V.clear(); }
    else if (op=="v"||op=="fv") { bool f=op=="fv"; Vertex& v = a.size()==2 ? (f?D->add_fixed_vertex(a[0],a[1]):D->add_vertex(a[0],a[1])) : (f?D->add_fixed_vertex(a[0],a[1],a[2],a[3]):D->add_vertex(a[0],a[1],a[2],a[3])); V.push_back(&v); }
    else if (op=="ext") B=&D->add_exterior_boundary();
    else if (op=="int") B=&D->add_interior_boundary();
    else if (op=="indexed") { for (size_t i=0;i+2<a.size();i+=3) B->add_edge(*V[(int)a[i]],*V[(int)a[i+1]],(int)a[i+2]); }
    else if (op=="coords") { std::vector<Vec2d> c,p; std::vector<int> m; for (size_t i=0;i+4<a.size();i+=5) { c.push_back({a[i],a[i+1]}); m.push_back((int)a[i+2]); p.push_back({a[i+3],a[i+4]}); } B->set_shape_from_coordinates(c,m,p); }
    else if (op=="csv") B->set_shape_from_csv(word);
    else if (op=="rect") { if (a.size()==5) B->set_shape_rectangle((int)a[0],{a[1],a[2]},a[3],a[4]); else B->set_shape_rectangle((int)a[0],{a[1],a[2]},a[3],a[4],a[5],a[6]); }
    else if (op=="square") { if (a.size()==4) B->set_shape_square((int)a[0],{a[1],a[2]},a[3]); else B->set_shape_square((int)a[0],{a[1],a[2]},a[3],a[4],a[5]); }
    else if (op=="tria") { if (a.size()==4) B->set_shape_triangle((int)a[0],{a[1],a[2]},a[3]); else B->set_shape_triangle((int)a[0],{a[1],a[2]},a[3],a[4],a[5]); }
    else if (op=="circ") { if (a.size()==5) B->set_shape_circle((int)a[0],{a[1],a[2]},a[3],(size_t)a[4]); else B->set_shape_circle((int)a[0],{a[1],a[2]},a[3],(size_t)a[4],a[5],a[6]); }
    else if (op=="fe") D->add_fixed_edge(*V[(int)a[0]],*V[(int)a[1]]);
    else if (op=="mesh") M=&gen.new_mesh(*D,(int)a[0],(int)a[1]);
    else if (op=="layer") gen.quad_layer_generation(*M).n_layers((int)a[4]).first_height(a[5]).growth_rate(a[6]).starting_position({a[0],a[1]}).ending_position({a[2],a[3]}).generate_elements();
    else if (op=="tri") gen.triangulation(*M).generate_elements();
    else if (op=="t2q") gen.tri2quad_modification(*M).modify();
    else if (op=="merge") gen.merge_meshes(*M,gen.mesh(0));
    else if (op=="refine") gen.quad_refinement(*M).refine();
    else if (op=="smooth") gen.mixed_smoothing(*M).quad_layer_smoothing(a[1]!=0).smooth((size_t)a[0]);
    else if (op=="write") { std::string f="m"+std::to_string((int)a[0]); if (word=="VTU"||word=="vtu") gen.write_mesh(*M,f+".vtu",MeshExportType::VTU); else if (word=="TXT"||word=="txt") gen.write_mesh(*M,f+".txt",MeshExportType::TXT);
      else { std::ofstream o(f+".cout"); auto* old=std::cout.rdbuf(o.rdbuf()); gen.write_mesh(*M,"DUMMY",MeshExportType::COUT); std::cout.rdbuf(old); } }
    else if (op=="check") { MeshChecker c(*M,*D); std::cout<<"check "<<c.check_completeness()<<std::endl; }
    else { std::cerr<<"unknown "<<op<<"\n"; return 3; } }
  return 0; }
