From acaa27f010ba7a5c12460e9ed58b928338477296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:56 +0000
Subject: [PATCH 01/45] fix: keep the edge markers of boundaries that are given
 in reversed orientation

---
 src/algorithm/Boundary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/Boundary.h b/src/algorithm/Boundary.h
index fb168cb..1c1035a 100644
--- a/src/algorithm/Boundary.h
+++ b/src/algorithm/Boundary.h
@@ -363,7 +363,7 @@ private:
       for (int i = N-1; i >= 0; --i)
       {
         int j = MOD(i+1, N);
-        add_edge( *new_verts[j], *new_verts[i], e_colors[j] );
+        add_edge( *new_verts[j], *new_verts[i], e_colors[i] );
       }
     }
   };
-- 
2.43.0


From bf144a201dfc2961138c3f91eb4a7a6b17021c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:56 +0000
Subject: [PATCH 02/45] fix: triangulating an already complete mesh must not
 dereference an empty front

---
 src/algorithm/Triangulation.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/Triangulation.h b/src/algorithm/Triangulation.h
index 2c0db33..9ba5681 100644
--- a/src/algorithm/Triangulation.h
+++ b/src/algorithm/Triangulation.h
@@ -85,6 +85,10 @@ public:
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
+    // Nothing to do, if there are no front edges left
+    if ( !base_edge )
+      return true;
+
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
 
@@ -136,6 +140,10 @@ public:
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
+    // Nothing to do, if there are no front edges left
+    if ( !base_edge )
+      return true;
+
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
 
-- 
2.43.0


From ec41e410386ce2629bfa4568d9bc2ce182d6543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:56 +0000
Subject: [PATCH 03/45] fix: determine the facets left and right of an edge
 topologically (non-convex quads)

---
 src/algorithm/MeshCleanup.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index a98a48e..6d4fb65 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -127,11 +127,13 @@ public:
         }
       }
 
+      // Facets are oriented counter-clockwise, so that the facet to the
+      // left of the edge traverses it from v1 to v2
       if ( NullFacet::is_not_null(f1) )
       {
         f1->neighbor( idx1, f2 );
 
-        if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+        if ( traverses_edge( *f1, v1, v2 ) )
           e_ptr->facet_l( f1 );
         else
           e_ptr->facet_r( f1 );
@@ -141,7 +143,7 @@ public:
       {
         f2->neighbor( idx2, f1 );
 
-        if ( is_left( v1.xy(), v2.xy(), f2->xy() ) )
+        if ( traverses_edge( *f2, v1, v2 ) )
           e_ptr->facet_l( f2 );
         else
           e_ptr->facet_r( f2 );
@@ -171,7 +173,7 @@ public:
         continue;
 
       // Setup connectivity between boundary edge and facet
-      if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+      if ( traverses_edge( *f1, v1, v2 ) )
         e_ptr->facet_l( f1 );
       else
         ASSERT(false, "Invalid mesh boundary edge");
@@ -808,6 +810,16 @@ public:
   } // merge_triangles_to_quads()
 
 private:
+  /*------------------------------------------------------------------
+  | Check if a given facet traverses an edge in the direction v1 -> v2
+  ------------------------------------------------------------------*/
+  static inline bool traverses_edge(const Facet& f, 
+                                    const Vertex& v1, const Vertex& v2)
+  {
+    const size_t i1 = static_cast<size_t>( f.get_vertex_index(v1) );
+    return ( &f.vertex( (i1+1) % f.n_vertices() ) == &v2 );
+  }
+
   /*------------------------------------------------------------------
   | We hide the constructor, since this class acts only as container
   | for static inline functions
-- 
2.43.0


From b241b3164b06d89853d08af0f0f8d18ad57a777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:56 +0000
Subject: [PATCH 04/45] fix: refinement of non-convex quads must not create
 overlapping sub-quads

---
 src/algorithm/RefinementStrategy.h | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/RefinementStrategy.h b/src/algorithm/RefinementStrategy.h
index d9baa2e..0a89797 100644
--- a/src/algorithm/RefinementStrategy.h
+++ b/src/algorithm/RefinementStrategy.h
@@ -265,7 +265,7 @@ private:
       Vertex* v8 = e71->sub_vertex();
 
       // Create new vertex at center of quad
-      Vertex& v9 = mesh_->add_vertex( q->xy() );
+      Vertex& v9 = mesh_->add_vertex( quad_center(*q) );
 
       v9.add_property( v1.properties() );
       v9.add_property( v3.properties() );
@@ -296,6 +296,31 @@ private:
     }
   }
 
+  /*------------------------------------------------------------------
+  | Returns the location at which a quad can be subdivided. In case of
+  | non-convex quads, the sub-quads that are formed with the centroid 
+  | might overlap. These quads are subdivided at the center of their 
+  | interior diagonal, which is visible from all quad edges.
+  ------------------------------------------------------------------*/
+  static Vec2d quad_center(const Quad& q)
+  {
+    const Vec2d& a = q.v1().xy();
+    const Vec2d& b = q.v2().xy();
+    const Vec2d& c = q.v3().xy();
+    const Vec2d& d = q.v4().xy();
+
+    const bool ac_inside = is_left(a,c,d) && is_left(c,a,b);
+    const bool bd_inside = is_left(b,d,a) && is_left(d,b,c);
+
+    if ( ac_inside && !bd_inside )
+      return 0.5 * (a + c);
+
+    if ( bd_inside && !ac_inside )
+      return 0.5 * (b + d);
+
+    return q.xy();
+  }
+
   /*------------------------------------------------------------------
   | Remove old entities 
   ------------------------------------------------------------------*/
-- 
2.43.0


From c8210f104b6741ad9702c46bcaf325fef2b6859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:56 +0000
Subject: [PATCH 05/45] fix: quad layers must not shift domain corners,
 interfaces or vertices of existing elements

---
 src/algorithm/QuadLayering.h | 64 ++++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 743eaf5..22e9c46 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -141,7 +141,8 @@ public:
   | projected base vertices. In the case of a QuadLayerVertices that 
   | is not closed, adjacent edges are eventually refined. 
   ------------------------------------------------------------------*/
-  void setup_vertex_projection(Mesh& mesh, Front& front)
+  void setup_vertex_projection(Mesh& mesh, Front& front,
+                               const Domain& domain)
   {
     // Update coordinates of projected base vertices
     for ( size_t i = 1; i < base_edges_.size(); ++i )
@@ -153,8 +154,10 @@ public:
     }
     else
     {
-      place_start_vertex(mesh.vertices(), front, mesh.boundary_edges());
-      place_end_vertex(mesh.vertices(), front, mesh.boundary_edges());
+      place_start_vertex(mesh.vertices(), front, 
+                         mesh.boundary_edges(), domain);
+      place_end_vertex(mesh.vertices(), front, 
+                       mesh.boundary_edges(), domain);
     }
 
   } // QuadLayerVertices::setup_vertex_projection()
@@ -255,7 +258,8 @@ private:
   ------------------------------------------------------------------*/
   void place_start_vertex(Vertices& mesh_vertices, 
                           Front&    front, 
-                          EdgeList& mesh_bdry_edges)
+                          EdgeList& mesh_bdry_edges,
+                          const Domain& domain)
   {
     // The edge adjacent to the starting edge
     Edge* e_prev = e_start_->get_prev_edge();
@@ -290,8 +294,9 @@ private:
       Vec2d delta_2 = v1_proj_xy_[0] - v1_base_[0]->xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_prev_new = v1_base_[0]->xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
-      v1_proj_xy_[0] = v_prev_new;
+      if ( is_movable_along_edge(v_prev, *e_prev, v_prev_new, domain) )
+        MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
+      v1_proj_xy_[0] = v_prev.xy();
       return;
     }
 
@@ -374,7 +379,8 @@ private:
   ------------------------------------------------------------------*/
   void place_end_vertex(Vertices& verts, 
                         Front&    front, 
-                        EdgeList& bdry_edges)
+                        EdgeList& bdry_edges,
+                        const Domain& domain)
   {
     // The edge adjacent to the starting edge
     Edge* e_next = e_end_->get_next_edge();
@@ -415,8 +421,9 @@ private:
       Vec2d delta_2 = v2_proj_xy_.back() - v_end.xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_next_new = v_end.xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
-      v2_proj_xy_.back() = v_next_new;
+      if ( is_movable_along_edge(v_next, *e_next, v_next_new, domain) )
+        MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
+      v2_proj_xy_.back() = v_next.xy();
       return;
     }
 
@@ -475,6 +482,43 @@ private:
 
   } // QuadLayerVertices::place_end_vertex()
 
+  /*------------------------------------------------------------------
+  | A vertex v may only be shifted along its adjacent edge e to a new
+  | position, if this does not alter the shape of the mesh boundary or 
+  | any existing mesh element. Thus, the vertex must not be part of the
+  | domain definition, all of its edges must be located on a straight 
+  | line with the same color, they must not be shared with another mesh
+  | and the new position must be located between their outer ends.
+  ------------------------------------------------------------------*/
+  static bool is_movable_along_edge(const Vertex& v, const Edge& e,
+                                    const Vec2d& xy_new,
+                                    const Domain& domain)
+  {
+    if ( v.is_fixed() || v.facets().size() > 0 )
+      return false;
+
+    for ( const auto& v_ptr : domain.vertices() )
+      if ( (v_ptr->xy() - v.xy()).norm_sqr() < CPPUTILS_SMALL )
+        return false;
+
+    for ( const Edge* e_adj : v.edges() )
+    {
+      if ( e_adj->color() != e.color() || e_adj->twin_edge() )
+        return false;
+
+      if ( ABS( cross(e.tangent(), e_adj->tangent()) ) > 1.0E-10 )
+        return false;
+
+      const Vec2d& xy_end = (e_adj->v1() == v) ? e_adj->v2().xy() 
+                                               : e_adj->v1().xy();
+      if ( dot(xy_new - xy_end, v.xy() - xy_end) <= 0.0 )
+        return false;
+    }
+
+    return true;
+
+  } // QuadLayerVertices::is_movable_along_edge()
+
   /*------------------------------------------------------------------
   | Add a new edge to the quad layer structure
   ------------------------------------------------------------------*/
@@ -636,7 +680,7 @@ private:
                                           closed_layer_, height,
                                           angle_factor_ };
     quad_layer_verts.smooth_heights( domain_ );
-    quad_layer_verts.setup_vertex_projection( mesh_, front_ );
+    quad_layer_verts.setup_vertex_projection( mesh_, front_, domain_ );
 
     // For each base edge in the quad layer, try to create a quad
     // element with its given projected coordinates
-- 
2.43.0


From f6dc698b069293dfddb1b3f0d9646773b24e47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:56 +0000
Subject: [PATCH 06/45] fix: quad layer generation on an exhausted advancing
 front

---
 src/algorithm/QuadLayering.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 22e9c46..0d0984c 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -966,6 +966,10 @@ private:
   bool find_start_and_ending_edges(const Vec2d& xy_start,
                                    const Vec2d& xy_end)
   {
+    // There is nothing left to mesh, if the front is already empty
+    if ( front_.edges().size() < 1 )
+      return false;
+
     // Find closest vertices in current front structure to  
     // current start and ending vertex coordinates
     Vertex& v_start = front_.get_closest_vertex( xy_start );
-- 
2.43.0


From 39e41c91219b3834a5bd700a4e61ce3e601f1a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 07/45] fix: quad layers must not split interface edges or
 edges of existing elements

---
 src/algorithm/QuadLayering.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 0d0984c..e3dd586 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -309,6 +309,12 @@ private:
       Edge* e_bdry_rem 
         = mesh_bdry_edges.get_edge(e_prev->v1(), e_prev->v2());
 
+      // Only boundary edges can be split, since other front edges are
+      // already part of mesh elements. For the same reason, boundary
+      // edges that are shared with another mesh must not be split.
+      if ( !e_bdry_rem || e_bdry_rem->twin_edge() )
+        return;
+
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_prev.xy() - v_start.xy();
       const Vec2d d2 = v1_proj_xy_[0] - v_start.xy();
@@ -435,6 +441,12 @@ private:
       // since it will be removed later on
       Edge* e_bdry_rem = bdry_edges.get_edge(e_next->v1(), e_next->v2());
 
+      // Only boundary edges can be split, since other front edges are
+      // already part of mesh elements. For the same reason, boundary
+      // edges that are shared with another mesh must not be split.
+      if ( !e_bdry_rem || e_bdry_rem->twin_edge() )
+        return;
+
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_next.xy() - v_end.xy();
       const Vec2d d2 = v2_proj_xy_.back() - v_end.xy();
-- 
2.43.0


From cd85754488b17f30d7b7bc902b44ab285cd808e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 08/45] fix: identify merge interfaces by edge ownership and
 refuse unmeshed interfaces

---
 src/algorithm/MeshMerger.h | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/algorithm/MeshMerger.h b/src/algorithm/MeshMerger.h
index 492fd5d..e6b4f8a 100644
--- a/src/algorithm/MeshMerger.h
+++ b/src/algorithm/MeshMerger.h
@@ -57,6 +57,13 @@ public:
     MeshCleanup::assign_mesh_indices(*receiver_);
     MeshCleanup::assign_mesh_indices(*donor_);
 
+    // The interface must be completely meshed from both sides
+    for ( const auto& e_ptr : receiver_->boundary_edges() )
+      if ( is_interface_to( *e_ptr, *donor_ ) && 
+           ( NullFacet::is_null( e_ptr->facet_l() ) ||
+             NullFacet::is_null( e_ptr->twin_edge()->facet_l() ) ) )
+        return false;
+
     // Search for vertices that are located on the inteface
     // boundary between donor and receiver
     // -> These vertices will not be copied
@@ -93,6 +100,15 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Check if a given boundary edge is an interface to another mesh
+  ------------------------------------------------------------------*/
+  static bool is_interface_to(const Edge& e, Mesh& mesh)
+  {
+    Edge* e_twin = e.twin_edge();
+    return ( e_twin && &e_twin->edgelist() == &mesh.boundary_edges() );
+  }
+
   /*------------------------------------------------------------------
   | Loop over all the receiver's boundary edges and loacte all twin 
   | edges that are connected to the donor mesh. 
@@ -106,14 +122,7 @@ private:
     {
       Edge* e_twin = e_ptr->twin_edge();
 
-      if ( !e_twin )
-        continue;
-
-      Facet* f_twin = e_twin->facet_l();
-      ASSERT( f_twin, "MeshBuilder::merge_meshes(): "
-        "Invalid boundary edge connectivity." );
-
-      if ( f_twin->mesh() != donor_ )
+      if ( !is_interface_to( *e_ptr, *donor_ ) )
         continue;
 
       auto v1_index = e_twin->v1().index();
@@ -240,9 +249,7 @@ private:
       Edge* e_twin = e_ptr->twin_edge();
 
       // Skip if edge is an interface to this mesh
-      if ( e_twin && 
-           e_twin->facet_l() && 
-           e_twin->facet_l()->mesh() == receiver_ )
+      if ( is_interface_to( *e_ptr, *receiver_ ) )
         continue;
 
       auto v1_index = e_ptr->v1().index();
@@ -278,14 +285,7 @@ private:
     {
       Edge* e_twin = e_ptr->twin_edge();
 
-      if ( !e_twin )
-        continue;
-
-      Facet* f_twin = e_twin->facet_l();
-      ASSERT( f_twin, "MeshMerger::convert_boundary_interface_edges(): "
-          "Invalid boundary edge connectivity." );
-
-      if ( f_twin->mesh() != donor_ )
+      if ( !is_interface_to( *e_ptr, *donor_ ) )
         continue;
 
       auto v1_index = e_twin->v1().index();
-- 
2.43.0


From ce42c895b533428cf5fd0dbdb39100c08e5e359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 09/45] fix: report failed mesh merges

---
 src/algorithm/MeshGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 8132eb1..61c2737 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -134,7 +134,7 @@ public:
       meshes_.erase( it );
     }
 
-    return true;
+    return success;
 
   } // MeshGenerator::merge_meshes()
 
-- 
2.43.0


From 883d78e4ccd450908318127dcc83d31f24baaea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 10/45] fix: tri-to-quad conversion must keep element colors
 and fixed vertices

---
 src/algorithm/MeshCleanup.h          | 21 +++++++++++++++++++--
 src/algorithm/ModificationStrategy.h |  3 ++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index 6d4fb65..e930d13 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -272,6 +272,14 @@ public:
         if ( element_marker[nbr_1->index()] )
           continue;
 
+        // Fixed vertices must not be removed
+        if ( v2.is_fixed() )
+          continue;
+
+        // Elements with different colors must not be merged
+        if ( nbr_1->color() != q_cur->color() )
+          continue;
+
         // In this stage, we address only quad / quad connections
         if ( nbr_1->n_vertices() < 4 )
           continue;
@@ -345,7 +353,8 @@ public:
       Vertex* o2 = opposing_vertices[i].second;
 
       // Create new quad 
-      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3 );
+      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3, 
+                                   quads_to_remove[i].first->color() );
       q_new.is_active(true);
     }
 
@@ -483,6 +492,14 @@ public:
         if ( element_marker[nbr_1->index()] )
           continue;
 
+        // Fixed vertices must not be removed
+        if ( v2.is_fixed() )
+          continue;
+
+        // Elements with different colors must not be merged
+        if ( nbr_1->color() != q_cur->color() )
+          continue;
+
         // In this stage, we address only quad / triangle connections
         if ( nbr_1->n_vertices() > 3 )
           continue;
@@ -537,7 +554,7 @@ public:
       Vertex& v3 = q->vertex( MOD(id_v+3, 4) );
 
       // Create new triangle 
-      Triangle& t_new = mesh.add_triangle( v1, v2, v3 );
+      Triangle& t_new = mesh.add_triangle( v1, v2, v3, q->color() );
       t_new.is_active(true);
     }
 
diff --git a/src/algorithm/ModificationStrategy.h b/src/algorithm/ModificationStrategy.h
index bf1208c..9006f79 100644
--- a/src/algorithm/ModificationStrategy.h
+++ b/src/algorithm/ModificationStrategy.h
@@ -111,7 +111,8 @@ private:
       Facet* f_r = e_ptr->facet_r();
 
       if (  ( NullFacet::is_not_null(f_l) && f_l->n_vertices() == 3 )
-         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 ) )
+         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 )
+         && f_l->color() == f_r->color() )
         tri_edges_.push_back( e_ptr.get() );
     }
 
-- 
2.43.0


From 64e1abcd3fea7533797291614a2693a0977208c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 11/45] fix: apply the collected boundary directions in quad
 layer smoothing

---
 src/algorithm/SmoothingStrategy.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index ec3570a..611f24d 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -78,8 +78,12 @@ protected:
     if ( !quad_layer_smoothing_ )
       return;
 
+    std::size_t i_v = 0;
+
     for ( auto& v_ptr : vertices )
     {
+      Vec2d& bdry_dir = bdry_direction_[i_v++];
+
       // Skip all vertices except those located in quad layers
       if ( !v_ptr->has_property(VertexProperty::in_quad_layer) )
         continue;
@@ -103,7 +107,9 @@ protected:
       const Vec2d p_xy = e1_xy + t * delta_e;
       const Vec2d delta_p = p_xy - v_xy;
 
-      bdry_direction_.push_back( delta_p / delta_p.norm() );
+      // Boundary vertices are not smoothed
+      if ( delta_p.norm_sqr() > 0.0 )
+        bdry_dir = delta_p / delta_p.norm();
     }
 
   } // collect_dispalcement_directions()
-- 
2.43.0


From 3cc3c40b9a6062038a624c26ed4f62ac198d26ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 12/45] fix: keep the meshed area up to date when smoothing
 incomplete meshes

---
 src/algorithm/SmoothingStrategy.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index 611f24d..3d03886 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -331,6 +331,17 @@ protected:
 
   } // SmoothingStrategy::new_vertex_position_is_valid()
 
+  /*------------------------------------------------------------------
+  | Returns the total area of all facets that are adjacent to a vertex
+  ------------------------------------------------------------------*/
+  static double adjacent_facet_area(const Vertex& v)
+  {
+    double area = 0.0;
+    for ( const Facet* f_ptr : v.facets() )
+      area += f_ptr->area();
+    return area;
+  }
+
   /*------------------------------------------------------------------
   | This is the general loop for smoothing strategies
   ------------------------------------------------------------------*/
@@ -373,10 +384,16 @@ protected:
 
       if ( check_new_vertex_coordinate( xy_n, v ) )
       {
+        const double area_old = adjacent_facet_area( v );
+
         MeshCleanup::set_vertex_coordinates(v, xy_n);
 
         if ( !new_vertex_position_is_valid(v, (xy_old-xy_n).norm()) )
           MeshCleanup::set_vertex_coordinates(v, xy_old);
+        else
+          // The meshed area changes if v is located on the front of an
+          // incomplete mesh
+          mesh_->add_area( adjacent_facet_area( v ) - area_old );
       }
     }
 
-- 
2.43.0


From 3164d88026c7d467af62d36237f8f071c491d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:05 +0000
Subject: [PATCH 13/45] fix: algorithms of a merged mesh must not be reused for
 a new mesh at the same address

---
 src/algorithm/MeshGenerator.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 61c2737..e18db42 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -131,6 +131,8 @@ public:
       if ( !mesh_builder_.remove_mesh_and_domain(donor) )
         return false;
 
+      clear_algorithms( donor );
+
       meshes_.erase( it );
     }
 
@@ -248,6 +250,26 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Clear all algorithms that refer to a given mesh. This is required 
+  | if the mesh gets deleted, since a new mesh might be allocated at 
+  | the same address.
+  ------------------------------------------------------------------*/
+  void clear_algorithms(const Mesh& mesh)
+  {
+    if ( meshing_algorithm_ && &meshing_algorithm_->mesh() == &mesh )
+      meshing_algorithm_type_ = MeshingAlgorithm::None;
+
+    if ( smoothing_algorithm_ && &smoothing_algorithm_->mesh() == &mesh )
+      smoothing_algorithm_type_ = SmoothingAlgorithm::None;
+
+    if ( refinement_algorithm_ && &refinement_algorithm_->mesh() == &mesh )
+      refinement_algorithm_type_ = RefinementAlgorithm::None;
+
+    if ( modification_algorithm_ && &modification_algorithm_->mesh() == &mesh )
+      modification_algorithm_type_ = ModificationAlgorithm::None;
+  }
+
   /*------------------------------------------------------------------
   | Set a mesh generation algorithm for a specified mesh.
   | Returns false if the mesh is not connected to this MeshGenerator
-- 
2.43.0


From 95b36df78092b2a756a76e034c137808e475bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:05 +0000
Subject: [PATCH 14/45] fix: update neighbor meshes before the export of
 interface edges

---
 src/algorithm/MeshWriter.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index b382b83..6d0cb6f 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -53,6 +53,7 @@ public:
     MeshCleanup::assign_size_function_to_vertices(*mesh_, *domain_);
     MeshCleanup::assign_mesh_indices(*mesh_);
     MeshCleanup::setup_facet_connectivity(*mesh_);
+    update_neighbor_meshes();
 
     switch (export_type)
     {
@@ -72,6 +73,28 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | The interface edges of this mesh refer to elements of neighboring 
+  | meshes. Make sure that the indices and the facet connectivity of
+  | these meshes are up to date
+  ------------------------------------------------------------------*/
+  void update_neighbor_meshes()
+  {
+    std::vector<Mesh*> neighbors {};
+
+    for ( Edge* e : mesh_->get_interface_edges() )
+      for ( Facet* f : e->twin_edge()->v1().facets() )
+        if ( std::find(neighbors.begin(), neighbors.end(), f->mesh()) 
+             == neighbors.end() )
+          neighbors.push_back( f->mesh() );
+
+    for ( Mesh* neighbor : neighbors )
+    {
+      MeshCleanup::assign_mesh_indices(*neighbor);
+      MeshCleanup::setup_facet_connectivity(*neighbor);
+    }
+  }
+
   /*------------------------------------------------------------------
   | Export the mesh to a text file
   ------------------------------------------------------------------*/
-- 
2.43.0


From ebd34cbafa82fbdc994e0a6a1e01f5f0f9708574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:13 +0000
Subject: [PATCH 15/45] fix: report failed mesh exports

---
 src/algorithm/MeshWriter.h | 6 ++----
 src/utils/VtkIO.h          | 6 ++++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index 6d0cb6f..d83086e 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -113,7 +113,7 @@ private:
 
     outfile.close();
 
-    return true;
+    return !outfile.fail();
 
   } // MeshWriter::write_to_txt()
 
@@ -207,9 +207,7 @@ private:
     writer.add_cell_data( max_angle, "max_angle", 1 );
     writer.add_cell_data( cell_quality, "cell_quality", 1 );
 
-    writer.write( fullpath );
-
-    return true;
+    return writer.write( fullpath );
 
   } // MeshWriter::write_to_vtu()
 
diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 7add4a4..571b873 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -177,9 +177,9 @@ public:
   }
 
   /*------------------------------------------------------------------
-  | Write the VTU file
+  | Write the VTU file. Returns false if the file could not be written
   ------------------------------------------------------------------*/
-  void write(const std::string& file_name)
+  bool write(const std::string& file_name)
   {
     std::ofstream outfile;
     outfile.open(file_name);
@@ -221,6 +221,8 @@ public:
 
     outfile.close();
 
+    return !outfile.fail();
+
   } // VtuWriter::write()
 
 private:
-- 
2.43.0


From ac1093f98981af0fc0a827ee42e89c42314a3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 16/45] fix: boundary discretization must stay on the edge for
 fast growing size functions

---
 src/algorithm/Front.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/algorithm/Front.h b/src/algorithm/Front.h
index 846329a..f87a0c6 100644
--- a/src/algorithm/Front.h
+++ b/src/algorithm/Front.h
@@ -463,8 +463,23 @@ private:
         [rho_tot](double &v){ return v/rho_tot; });
 
     // Distribute cropped distance among new vertices
+    std::vector<Vec2d> xy_uncropped { xy_new };
+    bool in_order = true;
+    double l_prev = 0.0;
     for ( std::size_t i = 1; i < xy_new.size()-1; i++)
+    {
       xy_new[i] += rho_i[i] * d_cr;
+      const double l_i = (xy_new[i] - v_a.xy()).dot(tang);
+      in_order = in_order && (l_i > l_prev) && (l_i < e.length());
+      l_prev = l_i;
+    }
+
+    // If the size function grows too fast along the edge, the cropped 
+    // distance exceeds the spacing of the new vertices
+    // --> Shrink the entire distribution to the edge length instead
+    if ( !in_order )
+      for ( std::size_t i = 1; i < xy_new.size()-1; i++)
+        xy_new[i] = v_a.xy() + (xy_uncropped[i] - v_a.xy()) / s_last;
 
 #ifndef NDEBUG
     // Check that all nodes are ordered ascendingly
-- 
2.43.0


From cf0fa67f2d76809fcc60cd619e011e13fc68c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:34 +0000
Subject: [PATCH 17/45] fix: consider long front edges in the intersection
 checks of new triangles

---
 src/algorithm/FrontUpdate.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/FrontUpdate.h b/src/algorithm/FrontUpdate.h
index ec9f55c..090c059 100644
--- a/src/algorithm/FrontUpdate.h
+++ b/src/algorithm/FrontUpdate.h
@@ -337,7 +337,16 @@ private:
     if ( !tri.is_valid() )
       return false;
 
-    if ( tri.intersects_front( front_, range ) )
+    // Front edges are located by their midpoints. Thus, the search range 
+    // must also account for edges that are longer than the local size
+    double l_front = 0.0;
+    for ( const auto& e_ptr : front_ )
+      l_front = MAX( l_front, e_ptr->length() );
+
+    const double front_range 
+      = MAX( range, tri.max_edge_length() + 0.5 * l_front );
+
+    if ( tri.intersects_front( front_, front_range ) )
     { DEBUG_LOG("  > FRONT INTERSECTION"); return false; }
 
     if ( tri.intersects_domain( domain_ ) )
-- 
2.43.0


From 9108387df8c298abe22978aa87e9e8342019b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 18/45] fix: quad layer gaps whose sides left the front must
 not be closed

---
 src/algorithm/QuadLayering.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index e3dd586..acdd34c 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -924,6 +924,11 @@ private:
   ------------------------------------------------------------------*/
   void close_quad_layer_gap(Vertex& v_a, Vertex& v_b, Vertex& v_c)
   {
+    // There is no gap to close, if its sides are no longer part of the 
+    // advancing front
+    if ( !front_.get_edge(v_a, v_b) || !front_.get_edge(v_b, v_c) )
+      return;
+
     const Vec2d l1 = v_a.xy()-v_b.xy();
     const Vec2d l2 = v_c.xy()-v_b.xy();
     const double alpha = angle(l1,l2);
-- 
2.43.0


From b7b0df5a3135ae96019685c976612cdf08755cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:47 +0000
Subject: [PATCH 19/45] fix: corner angles of straight corners must not become
 NaN

---
 src/algorithm/FacetGeometry.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/FacetGeometry.h b/src/algorithm/FacetGeometry.h
index e37a6e7..bad7e75 100644
--- a/src/algorithm/FacetGeometry.h
+++ b/src/algorithm/FacetGeometry.h
@@ -96,9 +96,9 @@ public:
     double l2 = edge_lengths[1];
     double l3 = edge_lengths[2];
 
-    double a1 = acos( dot( q-p,  r-p ) / (l1*l3) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( p-r,  q-r ) / (l2*l3) );
+    double a1 = acos( CLAMP( dot( q-p,  r-p ) / (l1*l3), -1.0, 1.0 ) );
+    double a2 = acos( CLAMP( dot( p-q,  r-q ) / (l1*l2), -1.0, 1.0 ) );
+    double a3 = acos( CLAMP( dot( p-r,  q-r ) / (l2*l3), -1.0, 1.0 ) );
 
     return { a1, a2, a3 };
   }
@@ -423,10 +423,10 @@ public:
     double l3 = edge_lengths[2];
     double l4 = edge_lengths[3];
 
-    double a1 = acos( dot( q-p,  s-p ) / (l4*l1) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( s-r,  q-r ) / (l2*l3) );
-    double a4 = acos( dot( r-s,  p-s ) / (l3*l4) );
+    double a1 = acos( CLAMP( dot( q-p,  s-p ) / (l4*l1), -1.0, 1.0 ) );
+    double a2 = acos( CLAMP( dot( p-q,  r-q ) / (l1*l2), -1.0, 1.0 ) );
+    double a3 = acos( CLAMP( dot( s-r,  q-r ) / (l2*l3), -1.0, 1.0 ) );
+    double a4 = acos( CLAMP( dot( r-s,  p-s ) / (l3*l4), -1.0, 1.0 ) );
 
     return { a1, a2, a3, a4 };
   }
-- 
2.43.0


From d2c7758329e71b8a4858be896c3b9782424517d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:00 +0000
Subject: [PATCH 20/45] fix: smoothing must not alter its relaxation factor for
 later calls

---
 src/algorithm/SmoothingStrategy.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index 3d03886..161f43d 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -404,12 +404,17 @@ protected:
   ------------------------------------------------------------------*/
   void smoothing_loop(int iterations) 
   {
+    // Keep the initial relaxation factor for the next smoothing 
+    const double eps_init = eps_;
+
     for (int iter = 0; iter < iterations; ++iter)
     {
       smoothing_iteration();
       eps_ *= -decay_;
     }
 
+    eps_ = eps_init;
+
   } // SmoothingStrategy::smoothing_loop() 
 
   /*------------------------------------------------------------------
@@ -662,6 +667,9 @@ public:
     torsion.init_vertex_connectivity();
     torsion.collect_dispalcement_directions();
 
+    // Keep the initial relaxation factor for the next smoothing 
+    const double eps_init = eps_;
+
     for (int i = 0; i < iterations; ++i)
     {
       torsion.smoothing_iteration();
@@ -672,6 +680,8 @@ public:
       laplace.epsilon( eps_ );
       torsion.epsilon( eps_ );
     }
+
+    eps_ = eps_init;
     
     return true;
 
-- 
2.43.0


From 14e66883dda3341309390c1e0f7c2e0f3f19c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:48 +0000
Subject: [PATCH 21/45] fix: nearest neighbor search of the quad tree missed
 items, removal of unknown items corrupted it

---
 src/utils/QuadTree.h | 63 +++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 31cbb9f..9254028 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -186,22 +186,10 @@ public:
   T* get_nearest(const Vec2<V>& query,
                  NearestQuery qfun = &(quadtree_nearest_query_fun)) const
   {
-    auto quad = get_leaf(query);
-
-    V min_dist_sqr = 4 * quad->scale() * quad->scale();
+    V min_dist_sqr = std::numeric_limits<V>::max();
     T* winner      = nullptr;
 
-    for ( auto item : quad->items() )
-      if ( qfun(item, query, min_dist_sqr ) )
-        winner = item;
-
-    Vector found {};
-    
-    get_items(query, 4 * sqrt(min_dist_sqr), found);
-
-    for ( auto item : found )
-      if ( qfun(item, query, min_dist_sqr ) )
-        winner = item;
+    search_nearest(query, qfun, min_dist_sqr, winner);
 
     return winner;
   }
@@ -360,8 +348,8 @@ public:
          (  children_[0]->remove(item) || children_[1]->remove(item)
          || children_[2]->remove(item) || children_[3]->remove(item) );
 
-      ASSERT( child_removed, "Failed to remove item from QuadTree children.");
-      (void) child_removed;
+      if ( !child_removed )
+        return false;
 
       if (n_items_ <= max_item_) 
       {
@@ -378,12 +366,11 @@ public:
       items_.remove( item );
       size_t new_size = items_.size();
 
-      ASSERT( (new_size < orig_size), 
-          "Failed to remove item from QuadTree." );
-      add_item_number( -1 );
+      // This quad does not contain the item
+      if ( new_size == orig_size )
+        return false;
 
-      (void) orig_size;
-      (void) new_size;
+      add_item_number( -1 );
     }
 
     return true;
@@ -392,6 +379,40 @@ public:
 
 protected:
 
+  /*------------------------------------------------------------------ 
+  | Search for the nearest item in all quads, that might contain an 
+  | item which is closer than the current winner
+  ------------------------------------------------------------------*/
+  void search_nearest(const Vec2<V>& query, NearestQuery qfun,
+                      V& min_dist_sqr, T*& winner) const
+  {
+    const V dx = std::max( { lowleft_.x - query.x, V{},
+                             query.x - upright_.x } );
+    const V dy = std::max( { lowleft_.y - query.y, V{},
+                             query.y - upright_.y } );
+
+    if ( winner && dx*dx + dy*dy > min_dist_sqr )
+      return;
+
+    if ( split_ )
+    {
+      // Start with the children that enclose the query
+      for ( auto child : children_ )
+        if ( in_on_rect(query, child->lowleft_, child->upright_) )
+          child->search_nearest(query, qfun, min_dist_sqr, winner);
+
+      for ( auto child : children_ )
+        if ( !in_on_rect(query, child->lowleft_, child->upright_) )
+          child->search_nearest(query, qfun, min_dist_sqr, winner);
+    }
+    else
+    {
+      for ( auto item : items_ )
+        if ( qfun(item, query, min_dist_sqr) )
+          winner = item;
+    }
+  }
+
   /*------------------------------------------------------------------ 
   | Initialize the quadtree geometry
   ------------------------------------------------------------------*/
-- 
2.43.0


From 03dc35d991385de866d964a6c0a5f6e34e309abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:52 +0000
Subject: [PATCH 22/45] fix: items moved onto the edge of a quad tree leaf were
 not found afterwards

---
 src/utils/Container.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index 1fc3946..dac2f5b 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -194,7 +194,8 @@ public:
   {
     auto quad = qtree_.get_leaf( item.xy() );
 
-    if ( in_on_rect(xy_new, quad->lowleft(), quad->upright()) )
+    // Locations on the edge of a quad might belong to its neighbors
+    if ( in_rect(xy_new, quad->lowleft(), quad->upright()) )
     {
       item.xy_ = xy_new;
       return true;
-- 
2.43.0


From a51f7cdb3ad2fb1964ce8a0e95129e0166175308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:18 +0000
Subject: [PATCH 23/45] fix: pass custom query functions to the leafs of the
 quad tree

---
 src/utils/QuadTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 9254028..a588e84 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -236,7 +236,7 @@ public:
       for ( auto child : children_ )
       {
         ASSERT( child, "QuadTree structure is corrupted." );
-        n_found += child->get_items(lowleft,upright,found);
+        n_found += child->get_items(lowleft,upright,found,qfun);
       }
     }
     else
@@ -277,7 +277,7 @@ public:
       for ( auto child : children_ )
       {
         ASSERT( child, "QuadTree structure is corrupted." );
-        n_found += child->get_items(center, radius, found);
+        n_found += child->get_items(center, radius, found, qfun);
       }
     }
     else
-- 
2.43.0


From 9eb4f095fb386fe76916d4317876910195519159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:54 +0000
Subject: [PATCH 24/45] fix: refuse domains with a boundary that has no edges

---
 src/algorithm/EntityChecks.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 0df8450..41de6e4 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -62,6 +62,12 @@ public:
     // Check if domain boundaries are traversable
     for ( const auto& boundary : domain )
     {
+      if ( boundary->size() < 1 )
+      {
+        LOG(ERROR) << "Invalid domain: Boundary without edges.";
+        return false;
+      }
+
       Edge& e_start = boundary->edges()[0];
 
       if ( !boundary->is_traversable(e_start, e_start) )
-- 
2.43.0


From 9b403958e90f1a4e14131f9e07614282d1f2868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:03 +0000
Subject: [PATCH 25/45] fix: extent of a domain always included the origin

---
 src/algorithm/Domain.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 6a64271..f984739 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -222,6 +222,13 @@ public:
     Vec2d x_extent { 0.0, 0.0 };
     Vec2d y_extent { 0.0, 0.0 };
 
+    if ( verts_.size() > 0 )
+    {
+      const Vec2d& xy = verts_[0].xy();
+      x_extent = { xy.x, xy.x };
+      y_extent = { xy.y, xy.y };
+    }
+
     for ( const auto& v : verts_ )
     {
       x_extent[0] = MIN( x_extent[0], v->x() );
-- 
2.43.0


From a44bfcb616142775e37a821014d97d513ede7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:03 +0000
Subject: [PATCH 26/45] fix: area of an edge list was not updated when edges
 are removed or split

---
 src/algorithm/EdgeList.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 51085ab..03396d7 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -156,7 +156,15 @@ public:
   /*------------------------------------------------------------------
   | Remove an edge from the edge list
   ------------------------------------------------------------------*/
-  bool remove(Edge& edge) { return edges_.remove( edge ); }
+  bool remove(Edge& edge) 
+  { 
+    const bool removed = edges_.remove( edge ); 
+
+    if ( orient_ != Orientation::NONE )
+      compute_area();
+
+    return removed;
+  }
 
   /*------------------------------------------------------------------
   | Clear all edges and eventually the associated vertices
-- 
2.43.0


From 40e78c0248596b482da4d89b38c20409ad7f65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:43 +0000
Subject: [PATCH 27/45] fix: intersections of long boundary edges were not
 detected

---
 src/algorithm/EdgeList.h | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 03396d7..dc2ad56 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -417,16 +417,13 @@ public:
       const Vec2d& xy_1 = e_ptr->v1().xy();
       const Vec2d& xy_2 = e_ptr->v2().xy();
 
-      const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
-      const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
-
-      auto found_edges = edges_.get_items(ll, ur);
-
-      for ( const auto& e_found : found_edges )
+      // All edges must be considered, since intersecting edges 
+      // may be located far away from each other's midpoint
+      for ( const auto& e_found : edges_ )
       {
-        if ( e_found == e_ptr.get()) continue;
-        if ( e_found == e_prev) continue;
-        if ( e_found == e_next) continue;
+        if ( e_found == e_ptr ) continue;
+        if ( e_found.get() == e_prev) continue;
+        if ( e_found.get() == e_next) continue;
 
         const Vec2d& xy_1_e = e_found->v1().xy();
         const Vec2d& xy_2_e = e_found->v2().xy();
@@ -451,12 +448,7 @@ public:
       const Vec2d& xy_1 = e_ptr->v1().xy();
       const Vec2d& xy_2 = e_ptr->v2().xy();
 
-      const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
-      const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
-
-      auto found_edges = edge_list.edges().get_items(ll, ur);
-
-      for ( const auto& e_found : found_edges )
+      for ( const auto& e_found : edge_list.edges() )
       {
         const Vec2d& xy_1_e = e_found->v1().xy();
         const Vec2d& xy_2_e = e_found->v2().xy();
-- 
2.43.0


From 3aebfc70a7989f8f71ce017baa98c51eafb987c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:23 +0000
Subject: [PATCH 28/45] fix: points on non-horizontal edges were not treated as
 inside

---
 src/algorithm/EdgeList.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index dc2ad56..def5afc 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -255,9 +255,8 @@ public:
         return true;
 
       // Object on edge
-      if ( EQ( obj.y, v2.y ) && EQ( obj.y, v1.y ) )
-        if ( in_on_segment(v1, v2, obj) )
-          return true;
+      if ( in_on_segment(v1, v2, obj) )
+        return true;
 
       // Crossing lines
       if (  ( obj.y > v2.y  &&  obj.y <= v1.y )
-- 
2.43.0


From 8cc4632563ad10b704fb78ca04e34b3bcb58278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:38 +0000
Subject: [PATCH 29/45] fix: refuse domains whose interior boundaries lie
 outside of the domain

---
 src/algorithm/EntityChecks.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 41de6e4..973ffaa 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -99,6 +99,28 @@ public:
       }
     }
 
+    // Check if interior boundaries are located within the domain
+    for ( const auto& boundary : domain )
+    {
+      if ( !boundary->is_interior() )
+        continue;
+
+      for ( const auto& nbr_boundary : domain )
+      {
+        if (nbr_boundary == boundary)
+          continue;
+
+        for ( const auto& e_ptr : boundary->edges() )
+        {
+          if ( nbr_boundary->is_inside( *e_ptr ) != nbr_boundary->is_exterior() )
+          {
+            LOG(ERROR) << "Invalid domain: Interior boundary outside of the domain.";
+            return false;
+          }
+        }
+      }
+    }
+
     return true;
 
   } // check_domain_validity()
-- 
2.43.0


From a4e3c23521039973d5abe8965012ae6ca5d11321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:42 +0000
Subject: [PATCH 30/45] fix: refuse domains whose boundaries are defined in the
 wrong direction

---
 src/algorithm/EntityChecks.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 973ffaa..172bc9f 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -77,6 +77,19 @@ public:
       }
     }
 
+    // Check if exterior (interior) boundaries are defined in 
+    // counter-clockwise (clockwise) direction
+    for ( const auto& boundary : domain )
+    {
+      const double area = boundary->area();
+
+      if ( boundary->is_exterior() ? area <= 0.0 : area >= 0.0 )
+      {
+        LOG(ERROR) << "Invalid domain: Wrong boundary orientation.";
+        return false;
+      }
+    }
+
     // Check if domain boundary edges are intersecting
     for ( const auto& boundary : domain )
     {
-- 
2.43.0


From bd88cc24884d808f580e4301ff208d3df4881c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:28 +0000
Subject: [PATCH 31/45] fix: overlaps between quads and other elements that
 share corners were not detected

---
 src/algorithm/FacetGeometry.h | 18 +++------
 src/utils/Geometry.h          | 69 +++++++++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+), 12 deletions(-)

diff --git a/src/algorithm/FacetGeometry.h b/src/algorithm/FacetGeometry.h
index bad7e75..0002ade 100644
--- a/src/algorithm/FacetGeometry.h
+++ b/src/algorithm/FacetGeometry.h
@@ -263,19 +263,17 @@ public:
       const Vec2d& q1 = q->v2().xy();
       const Vec2d& r1 = q->v3().xy();
       const Vec2d& s1 = q->v4().xy();
-      const Vec2d& c1 = q->xy();
 
       const Vec2d& p2 = tri.v1().xy();
       const Vec2d& q2 = tri.v2().xy();
       const Vec2d& r2 = tri.v3().xy();
-      const Vec2d& c2 = tri.xy();
 
       // Check for edge intersection
       if ( tri_quad_intersection( p2,q2,r2, p1,q1,r1,s1 ) )
         return true;
 
-      // Check if one element contains the other
-      if ( in_triangle( c1, p2,q2,r2 ) || in_quad( c2, p1,q1,r1,s1 ) )
+      // Check if the elements overlap
+      if ( tri_quad_overlap( p2,q2,r2, p1,q1,r1,s1 ) )
         return true;
     }
 
@@ -544,20 +542,18 @@ public:
       const Vec2d& p1 = t->v1().xy();
       const Vec2d& q1 = t->v2().xy();
       const Vec2d& r1 = t->v3().xy();
-      const Vec2d& c1 = t->xy();
 
       const Vec2d& p2 = quad.v1().xy();
       const Vec2d& q2 = quad.v2().xy();
       const Vec2d& r2 = quad.v3().xy();
       const Vec2d& s2 = quad.v4().xy();
-      const Vec2d& c2 = quad.xy();
 
       // Check for edge intersection
       if ( tri_quad_intersection( p1,q1,r1, p2,q2,r2,s2 ) )
         return true;
 
-      // Check if one element contains the other
-      if ( in_triangle( c2, p1,q1,r1 ) || in_quad( c1, p2,q2,r2,s2 ) )
+      // Check if the elements overlap
+      if ( tri_quad_overlap( p1,q1,r1, p2,q2,r2,s2 ) )
         return true;
     }
 
@@ -585,20 +581,18 @@ public:
       const Vec2d& q1 = q->v2().xy();
       const Vec2d& r1 = q->v3().xy();
       const Vec2d& s1 = q->v4().xy();
-      const Vec2d& c1 = q->xy();
 
       const Vec2d& p2 = quad.v1().xy();
       const Vec2d& q2 = quad.v2().xy();
       const Vec2d& r2 = quad.v3().xy();
       const Vec2d& s2 = quad.v4().xy();
-      const Vec2d& c2 = quad.xy();
 
       // Check for edge intersection
       if ( quad_quad_intersection( p2,q2,r2,s2, p1,q1,r1,s1 ) )
         return true;
 
-      // Check if one quad contains the other
-      if ( in_quad( c1, p2,q2,r2,s2 ) || in_quad( c2, p1,q1,r1,s1 ) )
+      // Check if the quads overlap
+      if ( quad_quad_overlap( p2,q2,r2,s2, p1,q1,r1,s1 ) )
         return true;
     }
 
diff --git a/src/utils/Geometry.h b/src/utils/Geometry.h
index cf4e661..f98c582 100644
--- a/src/utils/Geometry.h
+++ b/src/utils/Geometry.h
@@ -364,6 +364,75 @@ static inline bool tri_quad_intersection(const Vec2<T>& p1,
 }
 
 
+/*--------------------------------------------------------------------
+| Check if the interiors of two triangles (p1,q1,r1) and (p2,q2,r2) 
+| overlap. Both triangles must be defined counter-clockwise.
+--------------------------------------------------------------------*/
+template <typename T>
+static inline bool tri_tri_overlap(const Vec2<T>& p1,
+                                   const Vec2<T>& q1,
+                                   const Vec2<T>& r1,
+                                   const Vec2<T>& p2,
+                                   const Vec2<T>& q2,
+                                   const Vec2<T>& r2)
+{
+  // The interiors are disjoint, if any triangle edge (a,b) separates 
+  // the triangle from the vertices (u,v,w) of the other one
+  auto separates = [](const Vec2<T>& a, const Vec2<T>& b,
+                      const Vec2<T>& u, const Vec2<T>& v, 
+                      const Vec2<T>& w)
+  { return !is_left(a,b,u) && !is_left(a,b,v) && !is_left(a,b,w); };
+
+  return !(  separates(p1,q1, p2,q2,r2) || separates(q1,r1, p2,q2,r2) 
+          || separates(r1,p1, p2,q2,r2) || separates(p2,q2, p1,q1,r1)
+          || separates(q2,r2, p1,q1,r1) || separates(r2,p2, p1,q1,r1) );
+}
+
+/*--------------------------------------------------------------------
+| Check if the interiors of a triangle (p1,q1,r1) and a quad 
+| (p2,q2,r2,s2) overlap. Both must be defined counter-clockwise.
+--------------------------------------------------------------------*/
+template <typename T>
+static inline bool tri_quad_overlap(const Vec2<T>& p1,
+                                    const Vec2<T>& q1,
+                                    const Vec2<T>& r1,
+                                    const Vec2<T>& p2,
+                                    const Vec2<T>& q2,
+                                    const Vec2<T>& r2,
+                                    const Vec2<T>& s2)
+{
+  // Split the quad along its interior diagonal
+  if ( is_lefton(p2,q2,r2) && is_lefton(r2,s2,p2) )
+    return ( tri_tri_overlap(p1,q1,r1, p2,q2,r2) || 
+             tri_tri_overlap(p1,q1,r1, r2,s2,p2)  );
+
+  return ( tri_tri_overlap(p1,q1,r1, q2,r2,s2) || 
+           tri_tri_overlap(p1,q1,r1, s2,p2,q2)  );
+}
+
+/*--------------------------------------------------------------------
+| Check if the interiors of two quads (p1,q1,r1,s1) and (p2,q2,r2,s2) 
+| overlap. Both quads must be defined counter-clockwise.
+--------------------------------------------------------------------*/
+template <typename T>
+static inline bool quad_quad_overlap(const Vec2<T>& p1,
+                                     const Vec2<T>& q1,
+                                     const Vec2<T>& r1,
+                                     const Vec2<T>& s1,
+                                     const Vec2<T>& p2,
+                                     const Vec2<T>& q2,
+                                     const Vec2<T>& r2,
+                                     const Vec2<T>& s2)
+{
+  // Split the first quad along its interior diagonal
+  if ( is_lefton(p1,q1,r1) && is_lefton(r1,s1,p1) )
+    return ( tri_quad_overlap(p1,q1,r1, p2,q2,r2,s2) || 
+             tri_quad_overlap(r1,s1,p1, p2,q2,r2,s2)  );
+
+  return ( tri_quad_overlap(q1,r1,s1, p2,q2,r2,s2) || 
+           tri_quad_overlap(s1,p1,q1, p2,q2,r2,s2)  );
+}
+
 /*--------------------------------------------------------------------
 | Check if two rectangles a & b overlap. The rectangles
 | are defined by their lower left and upper right 
-- 
2.43.0


From 35157613b20dcafe3d260b1d90bb95505bdfdf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:28 +0000
Subject: [PATCH 32/45] fix: refuse domains with nested exterior boundaries,
 accept holes in domains with several exterior boundaries

---
 src/algorithm/EntityChecks.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 172bc9f..6eed007 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -112,24 +112,23 @@ public:
       }
     }
 
-    // Check if interior boundaries are located within the domain
+    // Check if interior boundaries are located within the domain and
+    // exterior boundaries outside of it
     for ( const auto& boundary : domain )
     {
-      if ( !boundary->is_interior() )
-        continue;
-
-      for ( const auto& nbr_boundary : domain )
+      for ( const auto& e_ptr : boundary->edges() )
       {
-        if (nbr_boundary == boundary)
-          continue;
+        // Count the exterior minus the interior boundaries around the edge
+        int n_around = 0;
+
+        for ( const auto& nbr_boundary : domain )
+          if ( nbr_boundary != boundary && nbr_boundary->is_inside( *e_ptr ) )
+            n_around += nbr_boundary->is_exterior() ? 1 : -1;
 
-        for ( const auto& e_ptr : boundary->edges() )
+        if ( n_around != ( boundary->is_interior() ? 1 : 0 ) )
         {
-          if ( nbr_boundary->is_inside( *e_ptr ) != nbr_boundary->is_exterior() )
-          {
-            LOG(ERROR) << "Invalid domain: Interior boundary outside of the domain.";
-            return false;
-          }
+          LOG(ERROR) << "Invalid domain: Misplaced boundary.";
+          return false;
         }
       }
     }
-- 
2.43.0


From 6ee903d2a62bd2263568d9b1da1a0df555805c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:55 +0000
Subject: [PATCH 33/45] fix: data sets of the VTU export were deleted through a
 base class without virtual destructor

---
 src/utils/VtkIO.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 571b873..bd122e4 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -76,6 +76,7 @@ inline const char* VtkIOTypeTraits<double>::name = "Float64";
 class VtkIODataInterface
 {
 public:
+  virtual ~VtkIODataInterface() = default;
   virtual const std::string& name() const = 0;
   virtual size_t dim() const = 0;
   virtual const char* type() const = 0;
-- 
2.43.0


From a1f61174144bd1b40a56c461935fd02ceab69dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:55 +0000
Subject: [PATCH 34/45] fix: application reported success when the mesh file
 could not be written

---
 src/app/TQMeshApp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 59d0a18..c0aaca8 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -209,13 +209,15 @@ private:
     {
       std::string filename { output_prefix_ + ".vtu" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
+      if ( !mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU) )
+        throw_error("Failed to write mesh file " + filename);
     }
     else if ( output_format_ == "TXT" || output_format_ == "txt" )
     {
       std::string filename { output_prefix_ + ".txt" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
+      if ( !mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT) )
+        throw_error("Failed to write mesh file " + filename);
     }
     else
     {
-- 
2.43.0


From bb605ae84c728752a1341ad6b3f429062806e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:55 +0000
Subject: [PATCH 35/45] fix: refuse invalid size function expressions

---
 src/app/size_function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/size_function.cpp b/src/app/size_function.cpp
index e2c8831..2ff2739 100644
--- a/src/app/size_function.cpp
+++ b/src/app/size_function.cpp
@@ -33,7 +33,8 @@ UserSizeFunction init_size_function(const std::string& expr)
   symbol_table.add_variable("x", x_size_function);
   symbol_table.add_variable("y", y_size_function);
   expression.register_symbol_table(symbol_table);
-  parser.compile(expr, expression);
+  if ( !parser.compile(expr, expression) )
+    throw_error("Invalid size function definition: " + expr);
 
   UserSizeFunction f = [](const Vec2d& p) 
   { 
-- 
2.43.0


From 6c9ea15213234566ced8310211794f1d36482870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:55 +0000
Subject: [PATCH 36/45] fix: parameter reader interpreted trailing comments as
 data

---
 src/utils/ParaReader.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index b3d65e7..16eb2c5 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -936,8 +936,9 @@ private:
       if ( l_cpy[0] == '#' )
         continue;
       
-      // Add line to content, if it not a comment line
-      content->push_back(line);
+      // Add line to content, if it not a comment line 
+      // -> Everything behind the comment identifier is ignored
+      content->push_back( line.substr(0, line.find(ParaFileComment)) );
     }
 
     if (!ifs.eof()) 
-- 
2.43.0


From e155bf9fdfe7a1ab9935efe1061d929e102f6974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:55 +0000
Subject: [PATCH 37/45] fix: parameter reader turned empty lines of a matrix
 into rows of default values

---
 src/utils/ParaReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index 16eb2c5..d7496b5 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -853,6 +853,10 @@ private:
 
     for ( size_t i = 0; i < sub_strings.size(); ++i )
     {
+      // Empty lines do not define any data
+      if ( std::all_of(sub_strings[i].begin(), sub_strings[i].end(), isspace) )
+        continue;
+
       string s;
       std::stringstream ss( sub_strings[i] );
 
-- 
2.43.0


From 8af724e3c3b27278565b1454c9a67a3810c74a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:55 +0000
Subject: [PATCH 38/45] fix: error messages of the application read beyond the
 end of string literals

---
 src/app/TQMeshApp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index c0aaca8..1eb95e2 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -858,10 +858,10 @@ private:
   void query_mandatory_parameters(ParaReader& mesh_reader)
   {
     if ( !mesh_reader.query<std::string>("output_prefix") )
-      throw_error("No output file prefix defined for mesh " + mesh_id_ );
+      throw_error("No output file prefix defined for mesh " + std::to_string(mesh_id_) );
 
     if ( !mesh_reader.query<std::string>("output_format") )
-      throw_error("No output format defined for mesh " + mesh_id_ ); 
+      throw_error("No output format defined for mesh " + std::to_string(mesh_id_) ); 
 
     output_prefix_ = mesh_reader.get_value<std::string>("output_prefix");
     output_format_ = mesh_reader.get_value<std::string>("output_format");
@@ -870,7 +870,7 @@ private:
     print_parameter<std::string>(mesh_reader, "output_format");
 
     if ( !mesh_reader.query<std::string>("size_function") )
-      throw_error("Invalid size function definition for mesh " + mesh_id_);
+      throw_error("Invalid size function definition for mesh " + std::to_string(mesh_id_) );
 
   } // MeshConstruction::query_mandatory_parameters()
 
-- 
2.43.0


From e29bd0214359a1062e44f09bbc6a2223b4ee10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:23 +0000
Subject: [PATCH 39/45] fix: parameter reader turned empty matrices into a row
 of stale values

---
 src/utils/ParaReader.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index d7496b5..8457bad 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -263,6 +263,12 @@ public:
     values_.resize( ncol_ ); 
   }
 
+  void clear() 
+  { 
+    nrow_ = 0;
+    values_.assign( ncol_, T{} ); 
+  }
+
   /*------------------------------------------------------------------
   | Setters
   ------------------------------------------------------------------*/
@@ -770,16 +776,19 @@ private:
 
     for ( size_t j = 0; j < n_rows; ++j )
     {
+      if ( j > 0 )
+        para.add_row();
+
       for ( size_t i = 0; i < para.columns(); ++i )
       {
         size_t index = i + j * para.columns();
         para.set_value(index, out[index]);
       }
-
-      if ( j < n_rows-1 )
-        para.add_row();
     }
 
+    if ( n_rows == 0 )
+      para.clear();
+
     para.found( true);
 
 
-- 
2.43.0


From 6c4b93aed2ec8c9418a0f88b7c11f2796561c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:23 +0000
Subject: [PATCH 40/45] fix: parameter reader silently ignored definitions that
 are not terminated

---
 src/utils/ParaReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index 8457bad..9981fcb 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -631,7 +631,7 @@ public:
     auto end_data = block.get_query_data(block.end_key(), *content_ );
 
     if ( !end_data.found )
-      return false;
+      error("Missing \"" + block.end_key() + "\" in input file.");
 
     // Set start and end of this block
     block.block_start( start_data.line_index );
@@ -752,7 +752,7 @@ private:
     auto end_data = para.get_query_data(para.end_key(), content );
 
     if ( !end_data.found )
-      return false;
+      error("Missing \"" + para.end_key() + "\" in input file.");
 
     // Gather sub strings
     std::vector<string> sub_strings {};
-- 
2.43.0


From e577d31689326f994b88419d0090b02b6250ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:44 +0000
Subject: [PATCH 41/45] fix: parameter reader silently ignored definitions with
 invalid values

---
 src/utils/ParaReader.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index 9981fcb..4460704 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -684,7 +684,7 @@ private:
     }
     catch (...)
     {
-      return false;
+      error("Invalid value for \"" + para.start_key() + "\" in input file.");
     }
 
     return true;
@@ -723,9 +723,9 @@ private:
                                               use_default_value, 
                                               default_value);
 
-    // Return false,  if not enough parameters
+    // Throw error, if not enough parameters
     if ( out.size() < para.columns() )
-      return false;
+      error("Missing values for \"" + para.start_key() + "\" in input file.");
 
     // write data into parameter object
     // --> consider only defined parameter size
@@ -769,7 +769,7 @@ private:
     size_t n_rows = out.size() / para.columns();
 
     if ( out.size() != para.columns()*n_rows ) 
-      return false;
+      error("Invalid values for \"" + para.start_key() + "\" in input file.");
 
     // Resize the parameter values to initial size 
     para.resize();
-- 
2.43.0


From 41f8cce3583861cd97206fab8bce0e1afce2aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:44 +0000
Subject: [PATCH 42/45] fix: application crashed if boundary shapes exceed the
 extent of the boundary vertices

---
 src/app/TQMeshApp.h | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 1eb95e2..434c1f8 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -800,7 +800,7 @@ private:
   } // MeshConstruction::init_mesh_domain()
 
   /*------------------------------------------------------------------
-  | Initialize the mesh vertices and estimate the domain extent
+  | Initialize the mesh vertices and the domain extent
   ------------------------------------------------------------------*/
   void init_mesh_vertices(ParaReader& mesh_reader)
   {
@@ -820,9 +820,6 @@ private:
 
       print_parameter<double>(mesh_reader, "vertices");
 
-      Vec2d xy_min {  DBL_MAX,  DBL_MAX };
-      Vec2d xy_max { -DBL_MAX, -DBL_MAX };
-
       for ( size_t i = 0; i < para_vertices.rows(); ++i )
       {
         double x = para_vertices.get_value(0, i);
@@ -834,21 +831,13 @@ private:
         vertex_props_.push_back( {s, r} );
         vertex_fixed_.push_back( false );
 
-        // Estimate domain extents
-        domain_extent_ = MAX(domain_extent_, ABS(x));
-        domain_extent_ = MAX(domain_extent_, ABS(y));
       }
-
-      // Double extent and enlarge slightly
-      domain_extent_ *= 2.1;
-    }
-    // No input vertices given 
-    // -> Set domain extent to large value
-    else
-    {
-      domain_extent_  = TQ_MAX;
     }
 
+    // Set domain extent to large value, since further boundaries
+    // might exceed the extent of the given input vertices
+    domain_extent_  = TQ_MAX;
+
   } // MeshConstruction::init_mesh_vertices()
 
 
-- 
2.43.0


From 90d6fcf05a78a2ed52b328d50ff4258d81924de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:58 +0000
Subject: [PATCH 43/45] fix: parameter reader shifted the entries of matrices
 with trailing delimiters

---
 src/utils/ParaReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index 4460704..795ec99 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -875,6 +875,10 @@ private:
       // into "out" vector
       while(std::getline(ss, s, ParaFileDelimiter))
       {
+        // Consider only defined parameter size
+        if ( use_default_value && j >= para.columns() )
+          break;
+
         // Remove parantheses
         s.erase(std::remove(s.begin(), s.end(), '('), s.end());
         s.erase(std::remove(s.begin(), s.end(), ')'), s.end());
-- 
2.43.0


From 1903ffdb76884d0f9bb557ae4effae27c99da049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:50 +0000
Subject: [PATCH 44/45] fix: application crashed on an exterior boundary edge
 with the first index beyond its vertices

---
 src/app/TQMeshApp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 434c1f8..8e7b730 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -604,7 +604,7 @@ private:
         int    m  = para_extr_bdry.get_value(2, i);
 
         // Throw error if indices are larger than number of vertices
-        if ( i1 > n_vertices || i2 > n_vertices )
+        if ( i1 >= n_vertices || i2 >= n_vertices )
           throw_error("Invalid exterior boundary definition: " 
             "Some vertex index is larger that the number of "
             "provided input vertices.");
-- 
2.43.0


From 13593698c27e916e58dfa38d5c0a3096e9c2275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:18 +0000
Subject: [PATCH 45/45] fix: mesh the parts of a domain edge that are not
 covered by a neighbouring mesh

A domain edge that is only partly covered by the boundary of an existing
mesh was replaced by the covered part alone, which left the boundary of
the new mesh open: it was accepted, but could not be meshed.
---
 src/algorithm/FrontInitData.h | 42 ++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/FrontInitData.h b/src/algorithm/FrontInitData.h
index 998aa27..4bd70bd 100644
--- a/src/algorithm/FrontInitData.h
+++ b/src/algorithm/FrontInitData.h
@@ -128,8 +128,7 @@ private:
 
         // Add edges from adjacent mesh
         if ( nbr_edges.size() > 0 )
-          for ( Edge* nbr_e : nbr_edges )
-            add_edge_data( *nbr_e, true );
+          add_neighbor_edge_data( *e, nbr_edges );
         // Add edges from domain boundary
         else
           add_edge_data( *e, false );
@@ -225,6 +224,42 @@ private:
     colors_.push_back( e.color() );
   }
 
+  /*------------------------------------------------------------------
+  | Add the given neighbor mesh edges, which are located on the domain 
+  | boundary edge <e>, as well as the remaining segments of <e> 
+  | that are not covered by them.
+  ------------------------------------------------------------------*/
+  void add_neighbor_edge_data(const Edge& e, const EdgeVector& nbr_edges)
+  {
+    const Vertex* v_last = &e.v1();
+
+    // Neighbor edges are oriented in the opposite direction
+    for ( Edge* nbr_e : nbr_edges )
+    {
+      add_edge_segment( e, *v_last, nbr_e->v2() );
+      add_edge_data( *nbr_e, true );
+      v_last = &nbr_e->v1();
+    }
+
+    add_edge_segment( e, *v_last, e.v2() );
+  }
+
+  /*------------------------------------------------------------------
+  | Add the segment (v1,v2) of a domain boundary edge <e>
+  ------------------------------------------------------------------*/
+  void add_edge_segment(const Edge& e, const Vertex& v1, const Vertex& v2)
+  {
+    const Vec2d delta = v2.xy() - v1.xy();
+
+    if ( dot(delta, e.tangent()) <= edge_segment_tolerance_ * e.length() )
+      return;
+
+    vertex_ids_.push_back( { add_edge_vertex( v1 ), add_edge_vertex( v2 ) } );
+    edges_.push_back( const_cast<Edge*>( &e ) );
+    is_twin_edge_.push_back( false );
+    colors_.push_back( e.color() );
+  }
+
   /*------------------------------------------------------------------
   | 
   ------------------------------------------------------------------*/
@@ -256,7 +291,8 @@ private:
   BoolVector    is_twin_edge_ {};
   
 
-  double edge_overlap_range_ { 1.5 };
+  double edge_overlap_range_     { 1.5 };
+  double edge_segment_tolerance_ { 1.0E-08 };
 
 }; // FrontInitData
 
-- 
2.43.0

