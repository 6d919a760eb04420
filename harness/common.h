// Shared helpers of the conformance harnesses: JSON output, exact coordinate
// interning, exact orientation signs, and the projection of a TQMesh mesh onto
// the abstract state of the TLA+ specification (spec/MeshCore.tla).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <algorithm>
#include "TQMesh.h"

namespace H {
using namespace TQMesh;
using CppUtils::Vec2d;
typedef __float128 Q;

// ---------------------------------------------------------------- points
struct Points {
  std::map<std::pair<double,double>,int> ids;
  std::vector<Vec2d> xy{ Vec2d{0.0,0.0} };   // 1-based
  int id(const Vec2d& p) {
    double x = p.x == 0.0 ? 0.0 : p.x, y = p.y == 0.0 ? 0.0 : p.y;
    auto k = std::make_pair(x,y);
    auto it = ids.find(k);
    if (it != ids.end()) return it->second;
    int n = (int)xy.size();
    xy.push_back(Vec2d{x,y});
    ids[k] = n;
    return n;
  }
};

// ---------------------------------------------------------------- geometry
// Sign of the doubled signed area of (a,b,c), evaluated in quad precision.
inline Q area2(const Vec2d& a, const Vec2d& b, const Vec2d& c) {
  return ((Q)b.x-(Q)a.x)*((Q)c.y-(Q)a.y) - ((Q)c.x-(Q)a.x)*((Q)b.y-(Q)a.y);
}
inline int sgn(Q v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); }

// triangle: sign;  quad: 1 if simple & counter-clockwise, else 0 / -1
inline int tri_sign(const Vec2d&a,const Vec2d&b,const Vec2d&c){ return sgn(area2(a,b,c)); }
inline int quad_sign(const Vec2d&a,const Vec2d&b,const Vec2d&c,const Vec2d&d){
  bool s1 = area2(a,b,c) > 0 && area2(a,c,d) > 0;
  bool s2 = area2(b,c,d) > 0 && area2(b,d,a) > 0;
  if (s1 || s2) return 1;
  Q tot = area2(a,b,c) + area2(a,c,d);
  return tot > 0 ? 0 : -1;
}

// ---------------------------------------------------------------- tiny JSON
struct J {
  std::string s; 
  static std::string str(const std::string& v){ 
    std::string r="\""; for(char c: v){ if(c=='"'||c=='\\') {r+='\\'; r+=c;} else if((unsigned char)c<32) {char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c;} return r+"\""; }
};
inline std::string arr(const std::vector<int>& v){ std::string r="["; for(size_t i=0;i<v.size();++i){ if(i) r+=","; r+=std::to_string(v[i]); } return r+"]"; }
inline std::string arr2(const std::vector<std::vector<int>>& v){ std::string r="["; for(size_t i=0;i<v.size();++i){ if(i) r+=","; r+=arr(v[i]); } return r+"]"; }

} // namespace H
