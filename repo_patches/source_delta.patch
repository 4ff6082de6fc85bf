From eb440d57cd625bd98249886831c9cfb55d5c0a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:22 +0000
Subject: [PATCH 01/48] fix: polygon volume reads its origin through the point
 accessor (did not compile)

---
 viennagrid/algorithm/volume.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 4f7d491..af864f0 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -112,7 +112,7 @@ namespace viennagrid
       VertexOnCellIterator it1 = range.begin();
       VertexOnCellIterator it2 = it1; ++it2;
 
-      PointType origin = it1->point();
+      PointType origin = accessor(*it1);
 
       NumericType volume = 0;
 
-- 
2.43.0


From f5fe0c9642b3766333d98886991736e7102b923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:17 +0000
Subject: [PATCH 02/48] fix: quadrilateral volume splits along a diagonal of
 the reference vertex order

---
 viennagrid/algorithm/volume.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index af864f0..35c8468 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -92,7 +92,7 @@ namespace viennagrid
       PointType const & p2 = accessor( vertices(cell)[2] );
       PointType const & p3 = accessor( vertices(cell)[3] );
 
-      return spanned_volume(p0, p1, p3) + spanned_volume(p1, p2, p3); //sum up the two triangular parts
+      return spanned_volume(p0, p1, p2) + spanned_volume(p1, p3, p2); //sum up the two triangular parts
     }
 
 
-- 
2.43.0


From b23cb302d4b49bc3f7c69dfaa3d7fb702a35b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:17 +0000
Subject: [PATCH 03/48] fix: hexahedron volume decomposition follows the
 reference vertex order

---
 viennagrid/algorithm/volume.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 35c8468..50ed301 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -161,12 +161,12 @@ namespace viennagrid
       PointType const & p7 = accessor( vertices(cell)[7] );
 
       //decompose hexahedron into six tetrahedra
-      return spanned_volume(p0, p1, p3, p4)
-             + spanned_volume(p4, p1, p3, p7)
-             + spanned_volume(p4, p1, p7, p5)
-             + spanned_volume(p1, p2, p3, p7)
-             + spanned_volume(p1, p2, p7, p5)
-             + spanned_volume(p5, p2, p7, p6);
+      return spanned_volume(p0, p1, p2, p4)
+             + spanned_volume(p4, p1, p2, p6)
+             + spanned_volume(p4, p1, p6, p5)
+             + spanned_volume(p1, p3, p2, p6)
+             + spanned_volume(p1, p3, p6, p5)
+             + spanned_volume(p5, p3, p6, p7);
     }
 
 
-- 
2.43.0


From b602a2b961e15606528307ca201e2953dc0735d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:17 +0000
Subject: [PATCH 04/48] fix: hexahedron edge e6 connects vertices 2 and 6

---
 viennagrid/topology/hexahedron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/topology/hexahedron.hpp b/viennagrid/topology/hexahedron.hpp
index a456043..fae8b53 100644
--- a/viennagrid/topology/hexahedron.hpp
+++ b/viennagrid/topology/hexahedron.hpp
@@ -111,7 +111,7 @@ namespace viennagrid
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(2), 0 );
-        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(5), 1 );
+        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(6), 1 );
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(3), 0 );
-- 
2.43.0


From b35d24392c0f5a68851c820d7823b7d42b86d7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 05/48] fix: centroid of a mesh or segment without an explicit
 accessor (did not compile)

---
 viennagrid/algorithm/centroid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/algorithm/centroid.hpp b/viennagrid/algorithm/centroid.hpp
index c2ffa3e..3cf0b6a 100644
--- a/viennagrid/algorithm/centroid.hpp
+++ b/viennagrid/algorithm/centroid.hpp
@@ -210,7 +210,7 @@ namespace viennagrid
   typename viennagrid::result_of::point< mesh<WrappedConfigT> >::type
   centroid(mesh<WrappedConfigT> const & mesh_obj)
   {
-    return centroid<ElementTOrTagT>(mesh_obj, default_point_accessor(mesh_obj));
+    return detail::centroid_mesh<ElementTOrTagT>(mesh_obj, default_point_accessor(mesh_obj));
   }
 
   /** @brief The public interface function for the computation of a centroid of a mesh. Cells are used for centroid calculation, will fail if there is more than one cell type.
@@ -222,7 +222,7 @@ namespace viennagrid
   centroid(mesh<WrappedConfigT> const & mesh_obj)
   {
     typedef typename viennagrid::result_of::cell_tag< mesh<WrappedConfigT> >::type CellTag;
-    return centroid<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
+    return detail::centroid_mesh<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
   }
 
 
@@ -262,7 +262,7 @@ namespace viennagrid
   typename viennagrid::result_of::point< segment_handle<SegmentationT> >::type
   centroid(segment_handle<SegmentationT> const & segment)
   {
-    return centroid<ElementTOrTagT>(segment, default_point_accessor(segment));
+    return detail::centroid_mesh<ElementTOrTagT>(segment, default_point_accessor(segment));
   }
 
   /** @brief The public interface function for the computation of a centroid of a segment. Cells are used for centroid calculation, will fail if there is more than one cell type.
@@ -274,7 +274,7 @@ namespace viennagrid
   centroid(segment_handle<SegmentationT> const & segment)
   {
     typedef typename viennagrid::result_of::cell_tag< segment_handle<SegmentationT> >::type CellTag;
-    return centroid<CellTag>(segment, default_point_accessor(segment));
+    return detail::centroid_mesh<CellTag>(segment, default_point_accessor(segment));
   }
 } //namespace viennagrid
 #endif
-- 
2.43.0


From 2cc679348858de4b659e269dbc3183e18dd34f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:41 +0000
Subject: [PATCH 06/48] fix: an explicit id equal to the next generated id
 advances the id generator

---
 viennagrid/storage/id_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/id_generator.hpp b/viennagrid/storage/id_generator.hpp
index e594fe4..5930e06 100644
--- a/viennagrid/storage/id_generator.hpp
+++ b/viennagrid/storage/id_generator.hpp
@@ -120,7 +120,7 @@ namespace viennagrid
       using base::set_max_id;
       void set_max_id( id_type last_id_ )
       {
-        if (last_id_ > last_id)
+        if (last_id_ >= last_id)
         {
           last_id = last_id_;
           ++last_id;
-- 
2.43.0


From cb8be63769e5e8c913dd88ad4c5f5fc18151c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:30 +0000
Subject: [PATCH 07/48] fix: is_boundary(host element, element) iterates the
 elements of the host (did not compile)

---
 viennagrid/algorithm/boundary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/boundary.hpp b/viennagrid/algorithm/boundary.hpp
index 40118d2..f55c3e8 100644
--- a/viennagrid/algorithm/boundary.hpp
+++ b/viennagrid/algorithm/boundary.hpp
@@ -282,7 +282,7 @@ namespace viennagrid
                    viennagrid::element<ElementTag2, WrappedConfigT2> const & element)
   {
 
-    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag2, WrappedConfigT2>, ElementTag1>::type   BoundaryRange;
+    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag1, WrappedConfigT1>, ElementTag2>::type   BoundaryRange;
     typedef typename viennagrid::result_of::iterator<BoundaryRange>::type               BoundaryIterator;
 
     BoundaryRange bnd_cells(host_element);
-- 
2.43.0


From c272b6697749c32260165dff9dc2243993673dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:04 +0000
Subject: [PATCH 08/48] fix: erase(segment, element) removes the element
 itself, not only the elements referencing it

---
 viennagrid/mesh/segmentation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index b24bc77..acf3872 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -2158,6 +2158,7 @@ namespace viennagrid
   {
     typedef typename viennagrid::result_of::mesh_view<SegmentHandleT>::type ToEraseViewT;
     ToEraseViewT elements_to_erase = viennagrid::make_view(segment);
+    viennagrid::elements< viennagrid::element<ElementTagT, WrappedConfigT> >(elements_to_erase).insert_unique_handle( viennagrid::handle(segment, element) );
     viennagrid::mark_referencing_elements( segment, elements_to_erase, viennagrid::handle(segment, element) );
 
     detail::non_recursive_erase_functor<SegmentHandleT> functor( segment );
-- 
2.43.0


From 69533e8f1b5e02b189417578851fa6da8d478e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:04 +0000
Subject: [PATCH 09/48] fix: clearing a segmentation also forgets the segment
 names and the collected elements

---
 viennagrid/mesh/segmentation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index acf3872..d01e865 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -916,7 +916,9 @@ namespace viennagrid
     {
       highest_id = -1;
       segment_id_map.clear();
+      segment_name_map.clear();
       segments.clear();
+      all_elements_ = viennagrid::make_view(*mesh_);
       appendix_ = appendix_type();
     }
 
-- 
2.43.0


From f1b181cf58e8473623df2998c54f15de36f0e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:04 +0000
Subject: [PATCH 10/48] fix: segmentation::at with a segment name (did not
 compile)

---
 viennagrid/mesh/segmentation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index d01e865..e33ada7 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -798,7 +798,7 @@ namespace viennagrid
       typename segment_name_map_type::const_iterator it = segment_name_map.find(segment_name);
       if( it == segment_name_map.end() )
         throw viennagrid::segment_name_not_found_exception(segment_name);
-      return it->second;
+      return *(it->second);
     }
 
 
-- 
2.43.0


From 29589d305e63d59ca4fd126320be6fc753a98bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:04 +0000
Subject: [PATCH 11/48] fix: what() of the segment and point index exceptions
 returned a dangling pointer

---
 viennagrid/mesh/segmentation.hpp | 36 ++++++++++++++++----------------
 viennagrid/point.hpp             | 14 +++++++------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index e33ada7..c06d292 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -34,19 +34,19 @@ namespace viennagrid
   class segment_name_collision_exception : public std::exception
   {
     public:
-      virtual const char* what() const throw()
+      virtual const char* what() const throw() { return message_.c_str(); }
+
+      segment_name_collision_exception(std::string cn)
       {
         std::stringstream ss;
-        ss << "* ViennaGrid: Collision with segment names: " << collision_name_ << "!";
-        return ss.str().c_str();
+        ss << "* ViennaGrid: Collision with segment names: " << cn << "!";
+        message_ = ss.str();
       }
 
-      segment_name_collision_exception(std::string cn) : collision_name_(cn) {}
-
       virtual ~segment_name_collision_exception() throw() {}
 
     private:
-      std::string collision_name_;
+      std::string message_;
   };
 
   /** @brief A segment defines a submesh within a segmentation. The segment_handle is used to deal with segments, since segments are not represented by a dedicated class.
@@ -475,19 +475,19 @@ namespace viennagrid
   class segment_id_not_found_exception : public std::exception
   {
     public:
-      virtual const char* what() const throw()
+      virtual const char* what() const throw() { return message_.c_str(); }
+
+      segment_id_not_found_exception(long id)
       {
         std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment with ID " << id_ << "!";
-        return ss.str().c_str();
+        ss << "* ViennaGrid: Cannot find segment with ID " << id << "!";
+        message_ = ss.str();
       }
 
-      segment_id_not_found_exception(long id) : id_(id) {}
-
       virtual ~segment_id_not_found_exception() throw() {}
 
     private:
-      long id_;
+      std::string message_;
   };
 
 
@@ -495,19 +495,19 @@ namespace viennagrid
   class segment_name_not_found_exception : public std::exception
   {
     public:
-      virtual const char* what() const throw()
+      virtual const char* what() const throw() { return message_.c_str(); }
+
+      segment_name_not_found_exception(std::string const & name)
       {
         std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment  " << name_ << "!";
-        return ss.str().c_str();
+        ss << "* ViennaGrid: Cannot find segment  " << name << "!";
+        message_ = ss.str();
       }
 
-      segment_name_not_found_exception(std::string const & name) : name_(name) {}
-
       virtual ~segment_name_not_found_exception() throw() {}
 
     private:
-      std::string name_;
+      std::string message_;
   };
 
 
diff --git a/viennagrid/point.hpp b/viennagrid/point.hpp
index a2b7b88..3ebe261 100644
--- a/viennagrid/point.hpp
+++ b/viennagrid/point.hpp
@@ -510,17 +510,19 @@ namespace viennagrid
   class point_index_out_of_bounds_exception : public std::exception
   {
   public:
-    point_index_out_of_bounds_exception(std::size_t i) : i_(i) {}
-
-    virtual const char* what() const throw()
+    point_index_out_of_bounds_exception(std::size_t i)
     {
       std::stringstream ss;
-      ss << "Point index " << i_ << " out of bounds!";
-      return ss.str().c_str();
+      ss << "Point index " << i << " out of bounds!";
+      message_ = ss.str();
     }
 
+    virtual ~point_index_out_of_bounds_exception() throw() {}
+
+    virtual const char* what() const throw() { return message_.c_str(); }
+
   private:
-    std::size_t i_;
+    std::string message_;
   };
 
 
-- 
2.43.0


From 35326b01e34b64f5ecfbe593052c058910d8dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:54 +0000
Subject: [PATCH 12/48] fix: clear(segment) removes the membership information
 and leaves the segment usable

---
 viennagrid/mesh/segmentation.hpp | 48 ++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index c06d292..f11e82c 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -147,15 +147,6 @@ namespace viennagrid
     segment_type * segment_;
   };
 
-  /** @brief Completely clears a segmentation
-    *
-    */
-  template<typename SegmentationT>
-  void clear( segment_handle<SegmentationT> & segment_ )
-  {
-    segment_.view().clear();
-  }
-
   namespace result_of
   {
     /** \cond */
@@ -2094,6 +2085,31 @@ namespace viennagrid
 //     return erase( segment, viennagrid::make_accessor<element_type>( element_segment_mapping_collection(segment) ), element );
 //   }
 
+    /** @brief For internal use only */
+    template<typename SegmentHandleT>
+    struct erase_segment_info_functor
+    {
+      erase_segment_info_functor(SegmentHandleT & segment_) : segment(segment_) {}
+
+      template<typename ElementT>
+      void operator() ( ElementT & element )
+      {
+        erase( segment, viennagrid::make_accessor<ElementT>( element_segment_mapping_collection(segment) ), element );
+
+        if (segment_ids(segment.parent(), element).empty())
+          viennagrid::elements<ElementT>( segment.parent().all_elements() ).erase_handle( viennagrid::handle( segment.parent().mesh(), element ) );
+      }
+
+      SegmentHandleT & segment;
+    };
+
+    /** @brief For internal use only */
+    struct clear_container_functor
+    {
+      template<typename ContainerT>
+      void operator() ( ContainerT & container ) { container.clear(); }
+    };
+
     template<typename SegmentHandleT>
     struct non_recursive_erase_functor
     {
@@ -2167,6 +2183,20 @@ namespace viennagrid
     viennagrid::for_each(elements_to_erase, functor);
   }
 
+  /** @brief Completely clears a segment: no element is in the segment afterwards
+    *
+    */
+  template<typename SegmentationT>
+  void clear( segment_handle<SegmentationT> & segment )
+  {
+    detail::erase_segment_info_functor< segment_handle<SegmentationT> > functor( segment );
+    viennagrid::for_each(segment.view(), functor);
+
+    detail::clear_container_functor clear_functor;
+    viennagrid::detail::for_each(segment.view().element_collection(), clear_functor);
+    detail::increment_change_counter( segment.view() );
+  }
+
 
   namespace detail
   {
-- 
2.43.0


From b089e01d02a5d980a02c2df92c95598126e3cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:46 +0000
Subject: [PATCH 13/48] fix: segment queries for elements which were never
 added to a segment

---
 viennagrid/mesh/segmentation.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index f11e82c..8b68b98 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1583,7 +1583,7 @@ namespace viennagrid
   bool is_in_segment( SegmentHandleT const & segment, viennagrid::element<ElementTagT, WrappedConfigT> const & element )
   {
     typedef viennagrid::element<ElementTagT, WrappedConfigT> element_type;
-    return detail::is_in_segment( segment, viennagrid::make_accessor<element_type>( element_segment_mapping_collection(segment) ), element );
+    return detail::is_in_segment( segment, viennagrid::make_field<element_type>( element_segment_mapping_collection(segment) ), element );
   }
 
 
@@ -1596,6 +1596,9 @@ namespace viennagrid
   {
   public:
 
+    /** @brief For internal use only */
+    typedef SegmentInfoT segment_info_type;
+
     segment_id_range_t(SegmentInfoT & segment_info) : segment_info_(&segment_info) {}
 
     /** @brief An iterator for iterating over all segment IDs */
@@ -1708,7 +1711,13 @@ namespace viennagrid
   {
     typedef typename result_of::segment_id_range< SegmentationT, viennagrid::element<ElementTagT, WrappedConfigT> >::type SegmentIDRangeType;
     typedef viennagrid::element<ElementTagT, WrappedConfigT> ElementType;
-    return SegmentIDRangeType( viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) )(element) );
+    typedef typename SegmentIDRangeType::segment_info_type SegmentInfoType;
+
+    // the range refers to the segment information, so it has to outlive this function
+    static SegmentInfoType const no_segments = SegmentInfoType();
+
+    SegmentInfoType * segment_info = viennagrid::make_accessor<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) ).find(element);
+    return SegmentIDRangeType( segment_info ? *segment_info : no_segments );
   }
 
 
@@ -1789,7 +1798,7 @@ namespace viennagrid
   segment_element_info( SegmentHandleT const & segment, viennagrid::element<ElementTagT, WrappedConfigT> const & element )
   {
     typedef viennagrid::element<ElementTagT, WrappedConfigT> element_type;
-    return detail::segment_element_info( segment, viennagrid::make_accessor<element_type>( element_segment_mapping_collection(segment) ), element );
+    return detail::segment_element_info( segment, viennagrid::make_field<element_type>( element_segment_mapping_collection(segment) ), element );
   }
 
   /** @brief Returns a pointer to additional segment element information. Segment element information is meta information for a combination of a segment and an element, e.g. the orientation of a triangle in a segment in a 3D hull mesh. Const version
-- 
2.43.0


From 3dedafece4009ec8955cf5d2023c3bfe55033cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:21 +0000
Subject: [PATCH 14/48] fix: a segment name collision leaves the segmentation
 unchanged, and creating a named segment does not collide on the default name

---
 viennagrid/mesh/segmentation.hpp | 38 ++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 8b68b98..2a04239 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -668,22 +668,9 @@ namespace viennagrid
       if (it != segment_id_map.end())
           return it->second; // segment already is present
 
-      segments.push_back( segment(this, mesh(), segment_id) );
-      segment & new_segment = segments.back();
-
-      if ( highest_id < segment_id )
-          highest_id = segment_id;
-
-      it = segment_id_map.insert( std::make_pair(segment_id, segment_handle_type(new_segment)) ).first;
-
       std::stringstream ss;
       ss << segment_id;
-      segments.back().name = ss.str();
-
-      if (!segment_name_map.insert(std::make_pair(ss.str(), &it->second)).second)
-        throw segment_name_collision_exception(ss.str());
-
-      return it->second;
+      return make_segment_impl( segment_id, ss.str() );
     }
 
     /** @brief Returns the segment with the given ID, will create a new segment if no segment with the given ID is present
@@ -698,9 +685,7 @@ namespace viennagrid
       if (it != segment_name_map.end())
           return *(it->second); // segment already is present
 
-      segment_handle_type & segment = make_segment();
-      segment.set_name(segment_name);
-      return segment;
+      return make_segment_impl( highest_id+1, segment_name );
     }
 
 
@@ -919,6 +904,25 @@ namespace viennagrid
 
   private:
 
+    /** @brief Creates a new segment with a given ID and name, nothing is changed if the name is already present */
+    segment_handle_type & make_segment_impl( segment_id_type const & segment_id, std::string const & segment_name )
+    {
+      if (segment_name_map.find(segment_name) != segment_name_map.end())
+        throw segment_name_collision_exception(segment_name);
+
+      segments.push_back( segment(this, mesh(), segment_id) );
+      segment & new_segment = segments.back();
+      new_segment.name = segment_name;
+
+      if ( highest_id < segment_id )
+          highest_id = segment_id;
+
+      segment_handle_type & new_handle = segment_id_map.insert( std::make_pair(segment_id, segment_handle_type(new_segment)) ).first->second;
+      segment_name_map[segment_name] = &new_handle;
+
+      return new_handle;
+    }
+
     view_type all_elements_;
 
     segment_id_type highest_id;
-- 
2.43.0


From e5ded7db6992e84d82cb73ad52142848a0bd1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:54 +0000
Subject: [PATCH 15/48] fix: is_boundary forgets elements which left a segment

---
 viennagrid/algorithm/boundary.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/algorithm/boundary.hpp b/viennagrid/algorithm/boundary.hpp
index f55c3e8..0638103 100644
--- a/viennagrid/algorithm/boundary.hpp
+++ b/viennagrid/algorithm/boundary.hpp
@@ -153,6 +153,7 @@ namespace viennagrid
 
         dst_boundary_information_container_wrapper_type & dst_boundary_information_container_wrapper = detail::boundary_information_collection<element_tag>( mesh_obj_ );
 
+        dst_boundary_information_container_wrapper.container.clear(); // forget elements which are not in the mesh any more
         transfer_boundary_information(mesh_obj_,
                                       viennagrid::make_field<facet_type>( src_boundary_information_container_wrapper.container ),
                                       viennagrid::make_field<element_type>( dst_boundary_information_container_wrapper.container ));
@@ -212,6 +213,7 @@ namespace viennagrid
                 facet_tag
               >::type boundary_information_container_wrapper_type;
       boundary_information_container_wrapper_type & boundary_information_container_wrapper = detail::boundary_information_collection<facet_tag>(mesh_obj);
+      boundary_information_container_wrapper.container.clear(); // forget elements which are not in the mesh any more
       detect_boundary( mesh_obj, viennagrid::make_field<facet_type>( boundary_information_container_wrapper.container ) );
 
       transfer_boundary_information(mesh_obj);
-- 
2.43.0


From f1d249dd86bd74de8bd5bc035a1ee38b9620bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:54 +0000
Subject: [PATCH 16/48] fix: interface detection forgets outdated flags and
 does not depend on the order of the segments

---
 viennagrid/algorithm/interface.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index 72a9d92..c47e32b 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -86,7 +86,7 @@ namespace viennagrid
         {
           const FacetType & facet = *fit;
 
-          if (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end()) accessor(facet) = true;
+          if (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end() && is_boundary(seg1, facet)) accessor(facet) = true;
         }
 
       }
@@ -135,6 +135,7 @@ namespace viennagrid
                 >::type::segment_interface_information_wrapper_type dst_interface_information_container_wrapper_type;
 
         dst_interface_information_container_wrapper_type & dst_interface_information_container_wrapper = interface_information_collection<element_tag>( seg0, seg1 );
+        dst_interface_information_container_wrapper.container.clear(); // information from a previous detection is obsolete
         typename viennagrid::result_of::accessor< typename dst_interface_information_container_wrapper_type::container_type, element_type >::type dst_accessor( dst_interface_information_container_wrapper.container );
 
         transfer_boundary_information(seg0, viennagrid::make_field<facet_type>(src_interface_information_container_wrapper.container), dst_accessor);
@@ -229,6 +230,7 @@ namespace viennagrid
     interface_information_container_wrapper_type & interface_information_container_wrapper = detail::interface_information_collection<FacetTag>( seg0, seg1 );
 
 
+    interface_information_container_wrapper.container.clear(); // information from a previous detection is obsolete
     detail::detect_interface( seg0, seg1, viennagrid::make_field<FacetType>(interface_information_container_wrapper.container) );
 
     transfer_interface_information( seg0, seg1 );
-- 
2.43.0


From 302c7ec5b05505c713dfd3f713cc4844879eb6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:27 +0000
Subject: [PATCH 17/48] fix: erasing elements keeps the keys of the remaining
 boundary elements

---
 viennagrid/mesh/element_deletion.hpp | 46 ++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/viennagrid/mesh/element_deletion.hpp b/viennagrid/mesh/element_deletion.hpp
index 0be50e1..c4a6ffc 100644
--- a/viennagrid/mesh/element_deletion.hpp
+++ b/viennagrid/mesh/element_deletion.hpp
@@ -82,6 +82,37 @@ namespace viennagrid
     }
 
 
+    /** @brief For internal use only. Erases an element by moving the last element of the container into its place */
+    template<typename ContainerT>
+    struct erase_element_impl
+    {
+      template<typename MeshT, typename ElementRangeT, typename ElementIteratorT>
+      static void erase(MeshT & mesh_obj, ElementRangeT & elements, ElementIteratorT to_erase_it)
+      {
+        ElementIteratorT back_it = --elements.end();
+
+        if (back_it != to_erase_it)
+        {
+          typename ElementRangeT::handle_type old_handle = back_it.handle();
+          std::swap( *back_it, *to_erase_it );
+          typename ElementRangeT::handle_type new_handle = to_erase_it.handle();
+
+          switch_handle( mesh_obj, old_handle, new_handle );
+        }
+
+        elements.erase( back_it );
+      }
+    };
+
+    /** @brief For internal use only. The position in a hidden_key_map is determined by the key of the element, so elements must not be moved. There is no need to do so because erasing does not affect other elements. */
+    template<typename KeyT, typename ElementT, typename HandleTagT>
+    struct erase_element_impl< viennagrid::detail::container< hidden_key_map<KeyT, ElementT>, HandleTagT > >
+    {
+      template<typename MeshT, typename ElementRangeT, typename ElementIteratorT>
+      static void erase(MeshT &, ElementRangeT & elements, ElementIteratorT to_erase_it)
+      { elements.erase( to_erase_it ); }
+    };
+
     /** @brief For internal use only */
     template<typename MeshT, typename MeshViewT>
     struct erase_functor
@@ -94,7 +125,7 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_range<MeshViewT, ElementT>::type ToEraseElementRangeType;
         typedef typename viennagrid::result_of::iterator<ToEraseElementRangeType>::type ToEraseElementRangeIterator;
 
-        typedef typename viennagrid::result_of::handle<MeshT, ElementT>::type ElementHandle;
+        typedef typename viennagrid::result_of::container_of< typename viennagrid::result_of::element_collection<MeshT>::type, ElementT >::type ContainerType;
         typedef typename viennagrid::result_of::element_range<MeshT, ElementT>::type ElementRangeType;
         typedef typename viennagrid::result_of::iterator<ElementRangeType>::type ElementRangeIterator;
 
@@ -113,18 +144,7 @@ namespace viennagrid
         for (typename std::deque<id_type>::iterator it = ids_to_erase.begin(); it != ids_to_erase.end(); ++it)
         {
           ElementRangeIterator to_erase_it = find( mesh_obj_, *it );
-          ElementRangeIterator back_it = --elements.end();
-
-          if (back_it != to_erase_it)
-          {
-            ElementHandle old_handle = back_it.handle();
-            std::swap( *back_it, *to_erase_it );
-            ElementHandle new_handle = to_erase_it.handle();
-
-            switch_handle( mesh_obj_, old_handle, new_handle );
-          }
-
-          elements.erase( back_it );
+          erase_element_impl<ContainerType>::erase( mesh_obj_, elements, to_erase_it );
         }
       }
 
-- 
2.43.0


From 973dd731768ebb1ae8a9f7862a8adaf1a8e8552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:25 +0000
Subject: [PATCH 18/48] fix: copying a mesh view no longer overwrites boundary
 element handles of the mesh

---
 viennagrid/mesh/mesh.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/mesh.hpp b/viennagrid/mesh/mesh.hpp
index a825e32..7fb01d8 100644
--- a/viennagrid/mesh/mesh.hpp
+++ b/viennagrid/mesh/mesh.hpp
@@ -1641,12 +1641,20 @@ namespace viennagrid
         SourceBoundaryElementRangeType      source_boundary_elements(source_element_);
         DestinationBoundaryElementRangeType destination_boundary_elements(destination_element_);
 
+        typedef typename viennagrid::result_of::element_range<MeshT, BoundaryElementT>::type                    MeshElementRangeType;
+        typedef typename viennagrid::result_of::iterator<MeshElementRangeType>::type                            MeshElementRangeIterator;
+
+        MeshElementRangeType mesh_elements(mesh_obj_);
+
         SourceBoundaryElementRangeIterator      sit = source_boundary_elements.begin();
         DestinationBoundaryElementRangeIterator dit = destination_boundary_elements.begin();
 
         for (; sit != source_boundary_elements.end(); ++sit, ++dit)
         {
-          dit.handle() = viennagrid::find( mesh_obj_, sit->id() ).handle();
+          // a view does not necessarily include the boundary elements of its elements
+          MeshElementRangeIterator mit = mesh_elements.find( sit->id() );
+          if (mit != mesh_elements.end())
+            dit.handle() = mit.handle();
         }
       }
 
-- 
2.43.0


From c0cad849ab7e091a916e8dc2a7378bcd305a478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:25 +0000
Subject: [PATCH 19/48] fix: self-assignment of a segmented_mesh keeps its
 content

---
 viennagrid/mesh/segmented_mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmented_mesh.hpp b/viennagrid/mesh/segmented_mesh.hpp
index ac09a28..5ff3d95 100644
--- a/viennagrid/mesh/segmented_mesh.hpp
+++ b/viennagrid/mesh/segmented_mesh.hpp
@@ -58,7 +58,8 @@ namespace viennagrid
 
     SelfType & operator=(SelfType const & other)
     {
-      copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
+      if (this != &other)
+        copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
       return *this;
     }
 
-- 
2.43.0


From 147680e380302ea4be9e70485ae520cd59dca6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:25 +0000
Subject: [PATCH 20/48] fix: copy_element() compiles and returns the handle of
 the copy

---
 viennagrid/mesh/element_creation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 742e34e..815fe19 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -390,7 +390,7 @@ namespace viennagrid
 
     VertexRangeType vertices(element);
     for (VertexRangeIterator vit = vertices.begin(); vit != vertices.end(); ++vit)
-      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit)), tolerance );
+      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit), tolerance) );
 
     return make_element<ElementTag>( mesh_segment, vertex_handles.begin(), vertex_handles.end() );
   }
@@ -402,7 +402,7 @@ namespace viennagrid
       typename viennagrid::result_of::element_tag<ElementT>::type
     >::type copy_element( ElementT const & element, MeshOrSegmentHandleT & mesh_segment )
   {
-    copy_element(element, mesh_segment, -1.0);
+    return copy_element(element, mesh_segment, -1.0);
   }
 
   namespace detail
-- 
2.43.0


From dc6cdf8a7cdfdd5bdee2eb2ef9064d396d885547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:19 +0000
Subject: [PATCH 21/48] fix: tetrahedra from a three-edge refinement all keep
 the orientation of the refined tetrahedron

---
 viennagrid/algorithm/detail/refine_tet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/detail/refine_tet.hpp b/viennagrid/algorithm/detail/refine_tet.hpp
index 3e2b2af..b1f93f4 100644
--- a/viennagrid/algorithm/detail/refine_tet.hpp
+++ b/viennagrid/algorithm/detail/refine_tet.hpp
@@ -747,7 +747,7 @@ namespace viennagrid
           if (stable_line_is_longer(mesh, vertices, 0, 1, 1, 2)) //split edge 01 again, introduce line 42
           {
             add_refinement_element( element_vertices, vertices, 0, 4, 2, 6);
-            add_refinement_element( element_vertices, vertices, 6, 4, 5, 2);
+            add_refinement_element( element_vertices, vertices, 4, 6, 5, 2);
           }
           else //split edge 12 again, introduce line 50
           {
-- 
2.43.0


From 156abe8fcaac23a02a7d02f2162746cc90b1db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:21 +0000
Subject: [PATCH 22/48] fix: the interface area of an edge does not extend
 beyond the mesh boundary

---
 viennagrid/algorithm/voronoi.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/voronoi.hpp b/viennagrid/algorithm/voronoi.hpp
index 49edba8..217e946 100644
--- a/viennagrid/algorithm/voronoi.hpp
+++ b/viennagrid/algorithm/voronoi.hpp
@@ -428,10 +428,12 @@ namespace viennagrid
 
               // contribution from other cell containing the circumcenter:
               interface_contribution = spanned_volume(edge_intersection, circ_center);
-              interface_area_accessor(*eocit) += interface_contribution;
               //if ( other_cell != NULL)
               if (!detail::is_handle_invalid( other_cells, other_cell ))
+              {
+                interface_area_accessor(*eocit) += interface_contribution;
                 voronoi_unique_quantity_update(interface_area_cell_contribution_accessor(*eocit), std::make_pair( other_cell, interface_contribution) );
+              }
 
 
               //
-- 
2.43.0


From fb70ea01abf2e64bee4f60e89467cc585a5994dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:17 +0000
Subject: [PATCH 23/48] fix: quantity_transfer from lower to higher dimensional
 elements reads the values of the source elements

---
 viennagrid/algorithm/quantity_transfer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/quantity_transfer.hpp b/viennagrid/algorithm/quantity_transfer.hpp
index 8956976..f63e720 100644
--- a/viennagrid/algorithm/quantity_transfer.hpp
+++ b/viennagrid/algorithm/quantity_transfer.hpp
@@ -136,7 +136,7 @@ namespace viennagrid
                                 ++sodit)
           {
             if (filter_src(*sodit))
-              destination_value_container.push_back(accessor_src(*dit));
+              destination_value_container.push_back(accessor_src(*sodit));
           }
 
           //
-- 
2.43.0


From 974cc72754978b8023cb7a2836a8f583bf5e2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:27 +0000
Subject: [PATCH 24/48] fix: default constructed fields are invalid instead of
 holding an uninitialised container pointer

---
 viennagrid/accessor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0c7b53a..0081891 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -693,7 +693,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -768,7 +768,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -828,7 +828,7 @@ namespace viennagrid
     typedef value_type *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -897,7 +897,7 @@ namespace viennagrid
     typedef value_type const *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
-- 
2.43.0


From 49a25ca1f96a5bc13ce587d6f31c465d935962b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:27 +0000
Subject: [PATCH 25/48] fix: dynamic_accessor_wrapper calls the member
 functions that accessors have

---
 viennagrid/accessor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0081891..1b23f22 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -622,11 +622,11 @@ namespace viennagrid
     virtual pointer find( access_type const & element ) { return accessor.find(element); }
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
 
-    virtual reference operator()( access_type const & element )       { return access(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
+    virtual reference operator()( access_type const & element )       { return accessor(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
 
-    virtual reference at( access_type const & element ) { return accessor.access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual reference at( access_type const & element ) { return accessor.at(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
@@ -652,8 +652,8 @@ namespace viennagrid
     dynamic_accessor_wrapper(AccessorType accessor_) : accessor(accessor_) {}
 
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
-- 
2.43.0


From fec2c07c3f0b865d82f7c8dc10a3a0ccfd35439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:27 +0000
Subject: [PATCH 26/48] fix: non-const at() of map based accessors and fields
 throws out_of_range instead of inserting

---
 viennagrid/accessor.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 1b23f22..775408b 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -369,7 +369,10 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_accessor::at() failed");
+
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
@@ -863,7 +866,10 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_field::at() failed");
+
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
-- 
2.43.0


From 9cf89418cf86f62d8556935025782cb3f5a22944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 27/48] fix: vtk_reader reads vector data registered for a
 segment within bounds

---
 viennagrid/io/vtk_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 40a5776..9739659 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -542,7 +542,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_vertex_vector_data.find(name) != current_registered_segment_vertex_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
               VertexType const & vertex = viennagrid::elements<viennagrid::vertex_tag>(mesh_obj)[global_vertex_id];
@@ -636,7 +636,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_cell_vector_data.find(name) != current_registered_segment_cell_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
 
-- 
2.43.0


From 34f1914a574668cbdead12b5787db7b6406cc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 28/48] fix: vtk_reader reads a data array without number of
 components as scalar data

---
 viennagrid/io/vtk_reader.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 9739659..5dc53b9 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -362,6 +362,7 @@ namespace viennagrid
           tag.check_attribute("name", "");
           name = tag.get_value("name");
 
+          components = 1;
           if (tag.has_attribute("numberofcomponents"))
             components = static_cast<std::size_t>(atoi(tag.get_value("numberofcomponents").c_str()));
 
-- 
2.43.0


From c42eb234b7bd727fdfae60970d8bb9d54f52c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 29/48] fix: vtk_reader does not loop forever on a file that
 ends within a data array

---
 viennagrid/io/vtk_reader.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 5dc53b9..887e2f5 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -229,6 +229,13 @@ namespace viennagrid
         }
       }
 
+      /** @brief Reads the next token of the file, throws if there is none */
+      void readToken(std::string & token)
+      {
+        if (!(reader >> token))
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::readToken(): Unexpected end of file!");
+      }
+
       /** @brief Reads the coordinates of the points/vertices in the mesh */
       void readNodeCoordinates(std::size_t nodeNum, std::size_t numberOfComponents, segment_id_type seg_id)
       {
@@ -266,7 +273,7 @@ namespace viennagrid
       {
         std::size_t cellNode = 0;
         std::string token;
-        reader >> token;
+        readToken(token);
 
         while (token != "</DataArray>")
         {
@@ -275,7 +282,7 @@ namespace viennagrid
           cellNode = static_cast<std::size_t>(atoi(token.c_str()));
           local_cell_vertices[seg_id].push_back(cellNode);
 
-          reader >> token;
+          readToken(token);
         }
       }
 
@@ -289,7 +296,7 @@ namespace viennagrid
 
           std::string token;
           std::size_t offset = 0;
-          reader >> token;
+          readToken(token);
 
           while(token != "</DataArray>")
           {
@@ -299,7 +306,7 @@ namespace viennagrid
             local_cell_offsets[seg_id].push_back(offset);
 
             //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
+            readToken(token);
           }
       }
 
@@ -315,7 +322,7 @@ namespace viennagrid
 #ifndef NDEBUG
           long type = 0;
 #endif
-          reader >> token;
+          readToken(token);
 
           while(token != "</DataArray>")
           {
@@ -325,7 +332,7 @@ namespace viennagrid
             assert(type == detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value && "Error in VTK reader: Type mismatch!");
 #endif
             //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
+            readToken(token);
           }
       }
 
@@ -333,12 +340,12 @@ namespace viennagrid
       void readData(std::deque<double> & container)
       {
         std::string token;
-        reader >> token;
+        readToken(token);
 
         while (string_to_lower(token) != "</dataarray>")
         {
           container.push_back( atof(token.c_str()) );
-          reader >> token;
+          readToken(token);
         }
       }
 
-- 
2.43.0


From c421577f1afad4152ff11cec83f4a4cae7e4562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 30/48] fix: vtk_reader reports missing and malformed .vtu
 files and can be used again after a failure

---
 viennagrid/io/vtk_reader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 887e2f5..3bfcfc5 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -189,6 +189,9 @@ namespace viennagrid
       /** @brief Opens a file */
       void openFile(std::string const & filename)
       {
+        if (reader.is_open()) //left open if reading a previous file failed
+          reader.close();
+        reader.clear();
         reader.open(filename.c_str());
         if(!reader)
         {
@@ -797,6 +800,7 @@ namespace viennagrid
         catch (std::exception const & ex) {
           std::cerr << "Problems while reading file " << filename << std::endl;
           std::cerr << "what(): " << ex.what() << std::endl;
+          throw;
         }
 
       }
-- 
2.43.0


From baf0d5b702432391b30fb6decbc77a47f045439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 31/48] fix: vtk_writer writes the data registered for the only
 segment of a segmentation

---
 viennagrid/io/vtk_writer.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index c59dec9..79a4a45 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -124,6 +124,20 @@ namespace viennagrid
         map.clear();
       }
 
+      /** @brief Moves the data registered for a segment to the data registered for the mesh */
+      template<typename map_type>
+      void move_data( map_type & from, map_type & to )
+      {
+        for (typename map_type::iterator it = from.begin(); it != from.end(); ++it)
+        {
+          typename map_type::iterator jt = to.find(it->first);
+          if (jt != to.end())
+            delete jt->second;
+          to[it->first] = it->second;
+        }
+        from.clear();
+      }
+
       void clear()
       {
         clear_map(vertex_scalar_data);
@@ -458,7 +472,17 @@ namespace viennagrid
        */
       void operator()(MeshType const & mesh_obj, SegmentationType const & segmentation, std::string const & filename)
       {
-          if (segmentation.size() <= 1) return (*this)(mesh_obj, filename);
+          if (segmentation.size() <= 1)
+          {
+            for (typename SegmentationType::const_iterator it = segmentation.begin(); it != segmentation.end(); ++it)
+            {
+              move_data( segment_vertex_scalar_data[(*it).id()], vertex_scalar_data );
+              move_data( segment_vertex_vector_data[(*it).id()], vertex_vector_data );
+              move_data( segment_cell_scalar_data[(*it).id()], cell_scalar_data );
+              move_data( segment_cell_vector_data[(*it).id()], cell_vector_data );
+            }
+            return (*this)(mesh_obj, filename);
+          }
 
           //
           // Step 1: Write meta information
-- 
2.43.0


From b5df83e61fa62250be4a36cd438d13b0315c66c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 32/48] fix: import_vtk and export_vtk compile

---
 viennagrid/io/vtk_reader.hpp | 7 +++++--
 viennagrid/io/vtk_writer.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 3bfcfc5..b93907d 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -18,6 +18,7 @@
  *  @brief    This is a simple vtk-reader implementation. Refer to the vtk-standard (cf. http://www.vtk.org/pdf/file-formats.pdf) and make sure the same order of XML tags is preserved.
  */
 
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -1245,7 +1246,8 @@ namespace viennagrid
     int import_vtk(MeshType & mesh_obj, SegmentationType & segmentation, std::string const & filename)
     {
       vtk_reader<MeshType, SegmentationType> vtk_reader;
-      return vtk_reader(mesh_obj, segmentation, filename);
+      vtk_reader(mesh_obj, segmentation, filename);
+      return EXIT_SUCCESS;
     }
 
     /** @brief Convenience function for importing a mesh using a single line of code. */
@@ -1253,7 +1255,8 @@ namespace viennagrid
     int import_vtk(MeshType & mesh_obj, std::string const & filename)
     {
       vtk_reader<MeshType> vtk_reader;
-      return vtk_reader(mesh_obj, filename);
+      vtk_reader(mesh_obj, filename);
+      return EXIT_SUCCESS;
     }
 
 
diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index 79a4a45..cbfe1c4 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -14,6 +14,7 @@
 ======================================================================= */
 
 
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <iostream>
@@ -726,7 +727,8 @@ namespace viennagrid
     int export_vtk(MeshType const & mesh_obj, SegmentationType const & segmentation, std::string const & filename)
     {
       vtk_writer<MeshType> vtk_writer;
-      return vtk_writer(mesh_obj, segmentation, filename);
+      vtk_writer(mesh_obj, segmentation, filename);
+      return EXIT_SUCCESS;
     }
 
     /** @brief Convenience function that exports a mesh to file directly. Does not export quantities */
@@ -734,7 +736,8 @@ namespace viennagrid
     int export_vtk(MeshType const & mesh_obj, std::string const & filename)
     {
       vtk_writer<MeshType> vtk_writer;
-      return vtk_writer(mesh_obj, filename);
+      vtk_writer(mesh_obj, filename);
+      return EXIT_SUCCESS;
     }
 
 
-- 
2.43.0


From 32ceeb7bb5b56249f1cb2d81e421de5c6746595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 33/48] fix: netgen_reader reports unreadable numbers and
 unknown vertices

---
 viennagrid/io/netgen_reader.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/viennagrid/io/netgen_reader.hpp b/viennagrid/io/netgen_reader.hpp
index 0ba1eed..a02597b 100644
--- a/viennagrid/io/netgen_reader.hpp
+++ b/viennagrid/io/netgen_reader.hpp
@@ -76,8 +76,8 @@ namespace viennagrid
         //
         // Read vertices:
         //
-        reader >> node_num;
-        assert(node_num > 0);
+        if (!(reader >> node_num) || node_num <= 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Number of vertices expected.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << node_num << " vertices... " << std::endl;
@@ -95,6 +95,9 @@ namespace viennagrid
           for (std::size_t j=0; j<static_cast<std::size_t>(point_dim); j++)
             reader >> p[j];
 
+          if (!reader)
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Coordinates of a vertex expected.");
+
           viennagrid::make_vertex_with_id( mesh_obj, typename VertexType::id_type(i), p );
         }
 
@@ -105,7 +108,8 @@ namespace viennagrid
         //
         // Read cells:
         //
-        reader >> cell_num;
+        if (!(reader >> cell_num) || cell_num < 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Number of cells expected.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << cell_num << " cells... " << std::endl;
@@ -120,14 +124,16 @@ namespace viennagrid
             throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (segment index expected).");
 
           int segment_index;
-          reader >> segment_index;
+          if (!(reader >> segment_index))
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Segment index of a cell expected.");
 
           for (std::size_t j=0; j<static_cast<std::size_t>(boundary_elements<CellTag, vertex_tag>::num); ++j)
           {
             if (!reader.good())
               throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (cell ID expected).");
 
-            reader >> vertex_num;
+            if (!(reader >> vertex_num) || vertex_num < 1 || vertex_num > static_cast<std::size_t>(node_num))
+              throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Vertex number of a cell expected.");
             cell_vertex_handles[j] = viennagrid::vertices(mesh_obj).handle_at(vertex_num-1);
           }
 
-- 
2.43.0


From 07a39787d03810753952cf4813fdbd6643d67720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 34/48] fix: bnd_reader reports incomplete and inconsistent
 files instead of looping forever or ignoring the problem

---
 viennagrid/io/bnd_reader.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/viennagrid/io/bnd_reader.hpp b/viennagrid/io/bnd_reader.hpp
index 023b9c0..109d192 100644
--- a/viennagrid/io/bnd_reader.hpp
+++ b/viennagrid/io/bnd_reader.hpp
@@ -249,6 +249,9 @@ namespace viennagrid
 
         try{
 
+          // an incomplete file is a problem
+          reader.exceptions(std::ios::failbit | std::ios::badbit);
+
           std::string token;
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -464,7 +467,7 @@ namespace viennagrid
                 reader >> face;
                 index_type mapped_face = map(face);
 
-                polygon_type polygon = polygon_cont[mapped_face];
+                polygon_type polygon = polygon_cont.at(mapped_face);
 
                 polygon_type polygon_new;
                 std::map<index_type, bool>  uniquer;
@@ -474,7 +477,7 @@ namespace viennagrid
                   index_type vertex = polygon[vi];
                   index_type mapped_vertex = map(vertex);
 
-                  edge_type edge = edge_cont[mapped_vertex];
+                  edge_type edge = edge_cont.at(mapped_vertex);
 
                   if(vertex < 0) std::reverse(edge.begin(),edge.end());
 
@@ -509,7 +512,7 @@ namespace viennagrid
                 reader >> face;
                 index_type mapped_face = map(face);
 
-                edge_type edge = edge_cont[mapped_face];
+                edge_type edge = edge_cont.at(mapped_face);
 
                 //std::cout << "adapt: " << polygon_new;
                 //std::cout << "adding edge: " << edge[0] << " " << edge[1] << std::endl;
@@ -572,8 +575,6 @@ namespace viennagrid
           segment_id_cont.resize(domainsize);
           std::size_t region_cnt = 0;
 
-          contact_groups.resize(number_of_regions-domainsize);
-
           while(1)
           {
             std::getline(reader, token);
@@ -620,6 +621,7 @@ namespace viennagrid
                   {
                     // store the contact name
                     contact_id_cont.push_back(name);
+                    contact_groups.resize(contact_id_cont.size());
 
                     for(std::size_t i = 0; i < elements; i++)
                     {
@@ -629,11 +631,11 @@ namespace viennagrid
                       // determine the contact cells
                       if(DIMG == 2)
                       {
-                        contact_groups[contact_id_cont.size()-1].push_back(contact_face_cont[ei-domainsize]);
+                        contact_groups[contact_id_cont.size()-1].push_back(contact_face_cont.at(ei-domainsize));
                       }
                       else // 3D
                       {
-                        contact_face_type edge_index_cont = contact_face_cont[ei-domainsize];
+                        contact_face_type edge_index_cont = contact_face_cont.at(ei-domainsize);
 
                         std::map<index_type, bool>  uniquer;
                         contact_face_type contact_triangle;
@@ -642,7 +644,7 @@ namespace viennagrid
                         {
                           index_type edge_index = edge_index_cont[ei];
                           index_type mapped_edge_index = map(edge_index);
-                          edge_type edge = edge_cont[mapped_edge_index];
+                          edge_type edge = edge_cont.at(mapped_edge_index);
                           if(edge_index < 0) std::reverse(edge.begin(),edge.end());
 
                           if(!uniquer[edge[0]])
@@ -669,7 +671,7 @@ namespace viennagrid
                       reader >> ei;
 
                       // store the name and material info on the related segment id
-                      segment_id_cont[ei] = std::pair<std::string, std::string>(name, material);
+                      segment_id_cont.at(ei) = std::pair<std::string, std::string>(name, material);
                     }
                   }
                   break;
@@ -681,6 +683,7 @@ namespace viennagrid
 
         } catch (...) {
           std::cerr << "Problems while reading file " << filename << std::endl;
+          return EXIT_FAILURE;
         }
 
         return EXIT_SUCCESS;
@@ -715,7 +718,7 @@ namespace viennagrid
 
       point_type& point(std::size_t index)
       {
-         return geometry[index];
+         return geometry.at(index);
       }
 
       std::size_t geometry_size()
-- 
2.43.0


From 3eede00c49f4fe5feefac187752f76ecb21e0d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 35/48] fix: tetgen_poly_reader reports missing numbers and
 unknown vertices, the number of holes of a facet is optional

---
 viennagrid/io/tetgen_poly_reader.hpp | 48 ++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/viennagrid/io/tetgen_poly_reader.hpp b/viennagrid/io/tetgen_poly_reader.hpp
index 7880e7d..7fd27d7 100644
--- a/viennagrid/io/tetgen_poly_reader.hpp
+++ b/viennagrid/io/tetgen_poly_reader.hpp
@@ -129,6 +129,7 @@ namespace viennagrid
         typedef typename VertexType::id_type VertexIDType;
 
         typedef typename result_of::handle<MeshT, line_tag>::type            LineHandleType;
+        typedef typename result_of::vertex_range<MeshT>::type                VertexRangeType;
 
         std::ifstream reader(filename.c_str());
 
@@ -193,6 +194,9 @@ namespace viennagrid
           for (std::size_t j=0; j<point_dim; j++)
             current_line >> p[j];
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Id and coordinates of a vertex expected.");
+
           viennagrid::make_vertex_with_id( mesh_obj, VertexIDType(id), p );
         }
 
@@ -209,7 +213,10 @@ namespace viennagrid
 
 
         current_line.str(tmp); current_line.clear();
-        current_line >> facet_num >> boundary_marker_num;
+        if (!(current_line >> facet_num))
+          throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of facets expected.");
+        boundary_marker_num = 0;
+        current_line >> boundary_marker_num;
 
         if (facet_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 facets");
@@ -220,17 +227,22 @@ namespace viennagrid
         std::cout << "* netgen_reader::operator(): Reading " << cell_num << " cells... " << std::endl;
         #endif
 
+        VertexRangeType mesh_vertices(mesh_obj);
+        typename result_of::iterator<VertexRangeType>::type vertices_end = mesh_vertices.end();
+
         for (int i=0; i<facet_num; ++i)
         {
           long polygon_num;
-          long hole_num;
+          long hole_num = 0;
 
           if (!get_valid_line(reader, tmp))
             throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": EOF encountered when reading information");
 
 
           current_line.str(tmp); current_line.clear();
-          current_line >> polygon_num >> hole_num;
+          if (!(current_line >> polygon_num))
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of polygons of a facet expected.");
+          current_line >> hole_num;
 
           if (polygon_num < 0)
             throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY facet has less than 0 polygons");
@@ -249,18 +261,23 @@ namespace viennagrid
 
 
             current_line.str(tmp); current_line.clear();
-            current_line >> vertex_num;
+            if (!(current_line >> vertex_num))
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of vertices of a polygon expected.");
 
-            if (vertex_num < 0)
-              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has less than 0 vertices");
+            if (vertex_num < 1)
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has less than 1 vertex");
 
             std::vector<VertexHandleType> vertex_handles(static_cast<std::size_t>(vertex_num));
 
             for (std::size_t k = 0; k<static_cast<std::size_t>(vertex_num); ++k)
             {
               typename VertexIDType::base_id_type id;
-              current_line >> id;
-              vertex_handles[k] = viennagrid::find( mesh_obj, VertexIDType(id) ).handle();
+              typename viennagrid::result_of::iterator<VertexRangeType>::type vit = vertices_end;
+              if (current_line >> id)
+                vit = viennagrid::find( mesh_obj, VertexIDType(id) );
+              if (vit == vertices_end)
+                throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Vertex of a polygon expected.");
+              vertex_handles[k] = vit.handle();
             }
 
             if (vertex_num == 1)
@@ -298,6 +315,9 @@ namespace viennagrid
             for (std::size_t k=0; k<point_dim; k++)
               current_line >> p[k];
 
+            if (!current_line)
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Hole point of a facet expected.");
+
             hole_points_read.push_back(p);
           }
 
@@ -323,7 +343,8 @@ namespace viennagrid
         }
 
         current_line.str(tmp); current_line.clear();
-        current_line >> hole_num;
+        if (!(current_line >> hole_num))
+          throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of holes expected.");
 
         if (hole_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 holes");
@@ -342,6 +363,9 @@ namespace viennagrid
           for (std::size_t j=0; j < point_dim; j++)
             current_line >> hole_point[j];
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Hole point expected.");
+
           hole_points.push_back( hole_point );
         }
 
@@ -357,7 +381,8 @@ namespace viennagrid
         }
 
         current_line.str(tmp); current_line.clear();
-        current_line >> segment_num;
+        if (!(current_line >> segment_num))
+          throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of regions expected.");
 
         if (segment_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 segments");
@@ -379,6 +404,9 @@ namespace viennagrid
 
           current_line >> segment_id;
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Region point and id expected.");
+
           seed_points.push_back( std::make_pair(seed_point, segment_id) );
         }
       } //operator()
-- 
2.43.0


From ca10d6da751fdfc5c9ba1dae0b47fcea5806b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 36/48] fix: neper_tess_reader reports incomplete files and
 unknown vertices, reading without seed points compiles

---
 viennagrid/io/neper_tess_reader.hpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index 31a8f3b..46b9d65 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -44,11 +44,11 @@ namespace viennagrid
        * @param filename      Name of the file
        */
       template <typename MeshT>
-      int operator()(MeshT & mesh_obj, std::string const & filename) const
+      void operator()(MeshT & mesh_obj, std::string const & filename) const
       {
         std::vector< std::pair<typename viennagrid::result_of::point<MeshT>::type, int> > seed_points;
 
-        return (*this)(mesh_obj, filename, seed_points);
+        (*this)(mesh_obj, filename, seed_points);
       }
 
       /** @brief The functor interface triggering the read operation. Segmentations are not supported in this version.
@@ -103,12 +103,15 @@ namespace viennagrid
             current_line.str(tmp); current_line.clear();
             current_line >> num_vertices;
 
+            if (!current_line)
+              throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Number of vertices expected.");
+
             for (int i = 0; i < num_vertices; ++i)
             {
               std::getline(reader, tmp);
               int vertex_id;
               current_line.str(tmp); current_line.clear();
-              current_line >> vertex_id;
+              bool id_read = !(current_line >> vertex_id).fail();
 
               std::getline(reader, tmp);
               std::getline(reader, tmp);
@@ -118,6 +121,9 @@ namespace viennagrid
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
 
+              if (!current_line || !reader || !id_read)
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Id and coordinates of a vertex expected.");
+
               vertices[vertex_id] = viennagrid::make_vertex(mesh_obj, p);
             }
           }
@@ -132,6 +138,9 @@ namespace viennagrid
             current_line.str(tmp); current_line.clear();
             current_line >> num_faces;
 
+            if (!current_line)
+              throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Number of faces expected.");
+
             for (int i = 0; i < num_faces; ++i)
             {
               std::getline(reader, tmp);
@@ -142,11 +151,15 @@ namespace viennagrid
               int num_vertex_ids;
               std::vector<int> vertex_ids;
               current_line.str(tmp); current_line.clear();
-              current_line >> num_vertex_ids;
+              if (!(current_line >> num_vertex_ids) || num_vertex_ids < 1 || !reader)
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Number of vertices of a face expected.");
               vertex_ids.resize(num_vertex_ids);
 
               for (int j = 0; j < num_vertex_ids; ++j)
-                current_line >> vertex_ids[j];
+              {
+                if (!(current_line >> vertex_ids[j]) || vertices.find(vertex_ids[j]) == vertices.end())
+                  throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Vertex of a face expected.");
+              }
 
               std::vector<LineHandleType> plc_line_handles;
               for (int j = 1; j < num_vertex_ids; ++j)
@@ -202,6 +215,9 @@ namespace viennagrid
             current_line.str(tmp); current_line.clear();
             current_line >> num_polyhedrons;
 
+            if (!current_line)
+              throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Number of polyhedra expected.");
+
             for (int i = 0; i < num_polyhedrons; ++i)
             {
               std::getline(reader, tmp);
@@ -213,6 +229,9 @@ namespace viennagrid
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
 
+              if (!current_line || !reader)
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Id and seed point of a polyhedron expected.");
+
               seed_points.push_back( std::make_pair(p, polyherdon_id) );
               std::getline(reader, tmp);
               std::getline(reader, tmp);
-- 
2.43.0


From e0fae66f43916eca462ae1120d510f1b421fd05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 37/48] fix: opendx_writer refers to vertices by their position
 in the file, not by their id

---
 viennagrid/io/opendx_writer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 3fd7723..19f643e 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -127,11 +127,15 @@ namespace viennagrid
           writer << pointnum << " data follows" << std::endl;
 
           //Nodes:
+          std::map<typename VertexType::id_type, std::size_t> vertex_index_map;
           VertexRange vertices = viennagrid::elements<vertex_tag>(mesh_obj);
           for (VertexIterator vit = vertices.begin();
               vit != vertices.end();
               ++vit)
           {
+            std::size_t vertex_index = vertex_index_map.size();
+            vertex_index_map[vit->id()] = vertex_index;
+
             PointWriter<geometric_dim>::write(writer, viennagrid::point( mesh_obj, *vit ) );
             writer << std::endl;
           }
@@ -152,7 +156,7 @@ namespace viennagrid
                 ++vocit)
             {
               VertexType const & vertex = *vocit;
-              writer << vertex.id() << " ";
+              writer << vertex_index_map[vertex.id()] << " ";
             }
             writer << std::endl;
           }
-- 
2.43.0


From a31c3a615318fef45045df191c62e6692535f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 38/48] fix: opendx_writer ignores further data, as it warns

---
 viennagrid/io/opendx_writer.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 19f643e..a1d2693 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -232,9 +232,12 @@ namespace viennagrid
         template <typename T>
         void add_scalar_data_on_vertices(T const accessor, std::string name)
         {
-          if (vertex_scalar_data.size() > 0)
+          if (vertex_scalar_data.size() > vertex_scalar_data.count(name))
+          {
             std::cout << "* ViennaGrid: Warning: OpenDX vertex data " << name
                       << " will be ignored, because other data is already available!" << std::endl;
+            return;
+          }
 
           add_to_container( vertex_scalar_data, accessor, name );
         }
@@ -243,9 +246,12 @@ namespace viennagrid
         template <typename T>
         void add_scalar_data_on_cells(T const accessor, std::string name)
         {
-          if (cell_scalar_data.size() > 0)
+          if (cell_scalar_data.size() > cell_scalar_data.count(name))
+          {
             std::cout << "* ViennaGrid: Warning: OpenDX cell data " << name
                       << " will be ignored, because other cell data is already available!" << std::endl;
+            return;
+          }
 
           if (vertex_scalar_data.size() > 0)
             std::cout << "* ViennaGrid: Warning: OpenDX cell data " << name
-- 
2.43.0


From 9bbbdf25b8c0a3ea14cb1fb70e196b1e076ddab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 39/48] fix: mphtxt_writer writes 0 for tetrahedra without
 segment and reports files that cannot be created

---
 viennagrid/io/mphtxt_writer.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/mphtxt_writer.hpp b/viennagrid/io/mphtxt_writer.hpp
index aba11b9..c0d614d 100644
--- a/viennagrid/io/mphtxt_writer.hpp
+++ b/viennagrid/io/mphtxt_writer.hpp
@@ -21,6 +21,8 @@
 #include "viennagrid/algorithm/boundary.hpp"
 #include "viennagrid/algorithm/geometry.hpp"
 
+#include "viennagrid/io/helper.hpp"
+
 #include "viennagrid/mesh/coboundary_iteration.hpp"
 #include "viennagrid/mesh/neighbor_iteration.hpp"
 
@@ -181,6 +183,8 @@ namespace viennagrid
         else
           ss << filename << ".mphtxt";
         std::ofstream writer(ss.str().c_str());
+        if (!writer)
+          throw cannot_open_file_exception("* ViennaGrid: mphtxt_writer::operator(): File " + ss.str() + ": Cannot open file!");
 
         // writing the file header
         writer << "# Created by ViennaGrid mphtxt writer\n";
@@ -402,7 +406,10 @@ namespace viennagrid
           typedef typename viennagrid::result_of::segment_id_range<SegmentationT, TetrahedronType>::type SegmentIDRange;
 
           SegmentIDRange segment_ids = viennagrid::segment_ids( segmentation, *tit );
-          writer << *(segment_ids.begin())+1 << "\n";
+          if (segment_ids.begin() == segment_ids.end())
+            writer << 0 << "\n";
+          else
+            writer << *(segment_ids.begin())+1 << "\n";
         }
 
         writer << "\n";
-- 
2.43.0


From bd2022f648d7f8cfc8c2fc113485f8208d8c8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 40/48] fix: vmesh_writer reports files that cannot be created

---
 viennagrid/io/vmesh_writer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/io/vmesh_writer.hpp b/viennagrid/io/vmesh_writer.hpp
index 39ff3a3..9577813 100644
--- a/viennagrid/io/vmesh_writer.hpp
+++ b/viennagrid/io/vmesh_writer.hpp
@@ -64,6 +64,8 @@ namespace viennagrid
         else
           ss << outputfile << ".vmesh";
         std::ofstream writer(ss.str().c_str());
+        if (!writer)
+          throw cannot_open_file_exception("* ViennaGrid: vmesh_writer::operator(): File " + ss.str() + ": Cannot open file!");
 
         writer << "<mesh>" << std::endl;
         writer << indent_ << "<file>" << inputfile << "</file>" << std::endl;
-- 
2.43.0


From 0afc55c6b1cc95379fbabf8007d0038f1a7787d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:36 +0000
Subject: [PATCH 41/48] fix: post-increment of element iterators returns the
 position before the step

---
 viennagrid/storage/container.hpp | 32 ++++++++++++++++----------------
 viennagrid/storage/view.hpp      | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index d934cbb..29d511d 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -95,10 +95,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -125,10 +125,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -159,10 +159,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -195,10 +195,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -233,10 +233,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const &  value() const { return base_const_iterator::operator*(); }
@@ -264,10 +264,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -299,10 +299,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -336,10 +336,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 52fed04..2d289a7 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -89,10 +89,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -123,10 +123,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -156,10 +156,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -190,10 +190,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -353,10 +353,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -387,10 +387,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -420,10 +420,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -454,10 +454,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
-- 
2.43.0


From 3ca124e0b100c63755587812eb7610608d900626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:27 +0000
Subject: [PATCH 42/48] fix: let const iterators of views be built from
 iterators, so const ranges compile

---
 viennagrid/storage/view.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 2d289a7..8d07ef8 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -65,8 +65,11 @@ namespace viennagrid
 
 
 
+    class const_iterator;
+
     class iterator : public handle_container_type::iterator
     {
+      friend class view::const_iterator;
       typedef typename handle_container_type::iterator base;
     public:
       iterator(view & view_obj, const base & foo) : base(foo), view_(&view_obj) {}
@@ -329,8 +332,11 @@ namespace viennagrid
 
 
 
+    class const_iterator;
+
     class iterator : public handle_container_type::iterator
     {
+      friend class view::const_iterator;
       typedef typename handle_container_type::iterator base;
     public:
       iterator(view & view_obj, const base & foo) : base(foo), view_(&view_obj) {}
-- 
2.43.0


From ed351aac06c77d52be65eaad5d53814dfabaf4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:58 +0000
Subject: [PATCH 43/48] fix: compare id handles by their value in sets of
 handles

---
 viennagrid/storage/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index 29d511d..8b4bfad 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -541,7 +541,7 @@ namespace viennagrid
     {
       bool operator() ( smart_id<ValueT, BaseIDType> const & lhs, smart_id<ValueT, BaseIDType> const & rhs) const
       {
-        return lhs->id() < rhs->id();
+        return lhs < rhs;
       }
     };
   }
-- 
2.43.0


From b2f2470441c72b700eae71a0382bc4c177a9a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:58 +0000
Subject: [PATCH 44/48] fix: operator-> of edge and face iterators gives the
 element, not the stored pair

---
 viennagrid/storage/hidden_key_map.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/viennagrid/storage/hidden_key_map.hpp b/viennagrid/storage/hidden_key_map.hpp
index 6f47117..8252c32 100644
--- a/viennagrid/storage/hidden_key_map.hpp
+++ b/viennagrid/storage/hidden_key_map.hpp
@@ -38,6 +38,8 @@ namespace viennagrid
 
     reference operator* () { return base::operator*().second; }
     const_reference operator* () const { return base::operator*().second; }
+
+    pointer operator->() const { return &base::operator*().second; }
   };
 
   /** @brief A const-iterator over all values of a hidden_key_map */
@@ -56,6 +58,8 @@ namespace viennagrid
     typedef typename HiddenKeyMapT::const_pointer pointer;
 
     const_reference operator* () const { return base::operator*().second; }
+
+    pointer operator->() const { return &base::operator*().second; }
   };
 
   /** @brief A iterator over all values of a hidden_key_map in reverse direction */
@@ -74,6 +78,8 @@ namespace viennagrid
 
     reference operator* () { return base::operator*().second; }
     const_reference operator* () const { return base::operator*().second; }
+
+    pointer operator->() const { return &base::operator*().second; }
   };
 
   /** @brief A const-iterator over all values of a hidden_key_map in reverse direction */
@@ -92,6 +98,8 @@ namespace viennagrid
     typedef typename HiddenKeyMapT::const_pointer pointer;
 
     const_reference operator* () const { return base::operator*().second; }
+
+    pointer operator->() const { return &base::operator*().second; }
   };
 
 
@@ -268,7 +276,7 @@ namespace viennagrid
             HandleTagT
           > const & rhs )
       {
-        return lhs->second.id() < rhs->second.id();
+        return lhs->id() < rhs->id();
       }
     };
 
-- 
2.43.0


From a04ad36a307271e2f2acd27239b88b7cb5779a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:28 +0000
Subject: [PATCH 45/48] fix: elements of a copied mesh resolve id handles in
 the copy

---
 viennagrid/mesh/mesh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viennagrid/mesh/mesh.hpp b/viennagrid/mesh/mesh.hpp
index 7fb01d8..491dcb0 100644
--- a/viennagrid/mesh/mesh.hpp
+++ b/viennagrid/mesh/mesh.hpp
@@ -1646,6 +1646,9 @@ namespace viennagrid
 
         MeshElementRangeType mesh_elements(mesh_obj_);
 
+        // id handles are resolved in the container of the destination mesh
+        destination_boundary_elements.get_base_container()->set_base_container( *mesh_elements.get_base_container() );
+
         SourceBoundaryElementRangeIterator      sit = source_boundary_elements.begin();
         DestinationBoundaryElementRangeIterator dit = destination_boundary_elements.begin();
 
-- 
2.43.0


From 8ba599ef0284fe95f9a9cd5b0611d1a9d3ba145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:30 +0000
Subject: [PATCH 46/48] fix: vtk_reader can be used with thin meshes

---
 viennagrid/io/vtk_reader.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index b93907d..3b2d427 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -72,11 +72,7 @@ namespace viennagrid
       typedef typename viennagrid::result_of::vertex_range<MeshType>::type   VertexRange;
       typedef typename viennagrid::result_of::iterator<VertexRange>::type                             VertexIterator;
 
-      typedef typename viennagrid::result_of::line_range<MeshType>::type     EdgeRange;
-      typedef typename viennagrid::result_of::iterator<EdgeRange>::type                               EdgeIterator;
 
-      typedef typename viennagrid::result_of::facet_range<MeshType>::type   FacetRange;
-      typedef typename viennagrid::result_of::iterator<FacetRange>::type                                   FacetIterator;
 
       typedef typename viennagrid::result_of::cell_range<MeshType>::type     CellRange;
       typedef typename viennagrid::result_of::iterator<CellRange>::type                  CellIterator;
-- 
2.43.0


From 2ece25d894a45e29a793e5c389fd272becaa7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:30 +0000
Subject: [PATCH 47/48] fix: coboundary iteration in views that have cells
 without their boundary elements

---
 viennagrid/mesh/coboundary_iteration.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/viennagrid/mesh/coboundary_iteration.hpp b/viennagrid/mesh/coboundary_iteration.hpp
index 926dc6d..8292513 100644
--- a/viennagrid/mesh/coboundary_iteration.hpp
+++ b/viennagrid/mesh/coboundary_iteration.hpp
@@ -240,11 +240,21 @@ namespace viennagrid
         element_on_coboundary_element_range_type elements_on_coboundary_element( *it );
         for (element_on_coboundary_element_range_iterator jt = elements_on_coboundary_element.begin(); jt != elements_on_coboundary_element.end(); ++jt)
         {
-//           is this line needed??
-//           if ( viennagrid::find(mesh_obj, *jt) !=  viennagrid::elements<element_type_or_tag>(mesh_obj).end() )
-          accessor.at( *jt ).insert_handle( it.handle() );
+          // a boundary element of an element in the view need not be in the view
+          accessor( *jt ).clear();
+          accessor( *jt ).set_base_container( viennagrid::get< coboundary_type >( element_collection(mesh_obj) ) );
         }
       }
+
+      for (coboundary_element_range_iterator it = coboundary_elements.begin(); it != coboundary_elements.end(); ++it)
+      {
+        typedef typename viennagrid::result_of::element_range< coboundary_type, element_tag >::type element_on_coboundary_element_range_type;
+        typedef typename viennagrid::result_of::iterator< element_on_coboundary_element_range_type >::type element_on_coboundary_element_range_iterator;
+
+        element_on_coboundary_element_range_type elements_on_coboundary_element( *it );
+        for (element_on_coboundary_element_range_iterator jt = elements_on_coboundary_element.begin(); jt != elements_on_coboundary_element.end(); ++jt)
+          accessor.at( *jt ).insert_handle( it.handle() );
+      }
     }
 
 
-- 
2.43.0


From 91ac5c7bd53d9d15a4e758fe21569159ff0b64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:30 +0000
Subject: [PATCH 48/48] fix: smallest_boundary_volume and
 largest_boundary_volume compile

---
 viennagrid/algorithm/surface.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/viennagrid/algorithm/surface.hpp b/viennagrid/algorithm/surface.hpp
index 671d008..c492046 100644
--- a/viennagrid/algorithm/surface.hpp
+++ b/viennagrid/algorithm/surface.hpp
@@ -134,11 +134,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume < best_volume)
       {
         best_handle = it.handle();
@@ -163,11 +163,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume < best_volume)
       {
         best_handle = it.handle();
@@ -191,11 +191,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume > best_volume)
       {
         best_handle = it.handle();
@@ -219,11 +219,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume > best_volume)
       {
         best_handle = it.handle();
-- 
2.43.0

