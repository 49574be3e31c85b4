From ac1a04602e43e2f4be747434f65cf3aed25b4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 01/18] fix: track_set::first_frame returned 0 for sets whose
 tracks all start later

---
 vital/types/track_set.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 2c84c6f..809496f 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -120,13 +120,15 @@ track_set
 ::first_frame() const
 {
   frame_id_t first_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() < first_frame )
+    if( ! t->empty() && ( ! found || t->first_frame() < first_frame ) )
     {
       first_frame = t->first_frame();
+      found = true;
     }
   }
 
-- 
2.43.0


From 46b8da6840521f346ecbee0ae795f54eb549eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 02/18] fix: track_set treated tracks without states as states
 on frame 0

new_tracks and terminated_tracks selected them on frame 0, and
last_frame_features and last_frame_descriptors read the element before the
start of an empty history.
---
 vital/types/track_set.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 809496f..9dbe9da 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -207,7 +207,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() == frame_number )
+    if( ! t->empty() && t->first_frame() == frame_number )
     {
       new_tracks.push_back(t);
     }
@@ -228,7 +228,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == frame_number )
+    if( ! t->empty() && t->last_frame() == frame_number )
     {
       terminated_tracks.push_back(t);
     }
@@ -277,7 +277,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_features.push_back((t->end()-1)->feat);
     }
@@ -298,7 +298,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_descriptors.push_back((t->end()-1)->desc);
     }
-- 
2.43.0


From 4c2cd98f047d68fbdb3bd858053ce8cbe7e9a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 03/18] fix: config_block views kept their own read-only and
 location lists

Marking a key read-only through a view did not protect it: sets are
delegated to the viewed block, which did not know about the mark.  Source
locations had the same problem.  Both now go to the viewed block like every
other access.
---
 vital/config/config_block.cxx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index e888069..d667b09 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -227,6 +227,11 @@ bool
 config_block
 ::is_read_only( config_block_key_t const& key ) const
 {
+  if ( m_parent )
+  {
+    return m_parent->is_read_only( m_name + block_sep + key );
+  }
+
   return 0 != m_ro_list.count( key );
 }
 
@@ -237,6 +242,12 @@ void
 config_block
 ::mark_read_only( config_block_key_t const& key )
 {
+  if ( m_parent )
+  {
+    m_parent->mark_read_only( m_name + block_sep + key );
+    return;
+  }
+
   m_ro_list.insert( key );
 }
 
@@ -400,6 +411,12 @@ void
 config_block
 ::set_location( config_block_key_t const& key, std::shared_ptr< std::string > file, int line )
 {
+  if ( m_parent )
+  {
+    m_parent->set_location( m_name + block_sep + key, file, line );
+    return;
+  }
+
   m_def_store[key] = source_location( file, line );
 }
 
@@ -411,6 +428,11 @@ config_block
                 std::string& f,
                 int& l) const
 {
+  if ( m_parent )
+  {
+    return m_parent->get_location( m_name + block_sep + key, f, l );
+  }
+
   location_t::const_iterator i = m_def_store.find( key );
   if ( i != m_def_store.end() )
   {
-- 
2.43.0


From 611add50402943a362a33cc4bd4aa6adf60fe283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 04/18] fix: allocate room for the terminator of C error
 messages

POPULATE_EH copied strlen(msg)+1 bytes into a buffer of strlen(msg) bytes.
---
 vital/bindings/c/helpers/c_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 16ec7ae..72452b1 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -70,7 +70,8 @@ static auto m_logger( kwiver::vital::get_logger( "vital.c_utils" ) );
       vital_error_handle_t *PEH_eh_ptr_cast =                                \
         reinterpret_cast<vital_error_handle_t*>(eh_ptr);                     \
       PEH_eh_ptr_cast->error_code = ec;                                      \
-      PEH_eh_ptr_cast->message = (char*)malloc(sizeof(char) * strlen(msg));  \
+      PEH_eh_ptr_cast->message =                                             \
+        (char*)malloc(sizeof(char) * (strlen(msg) + 1));                     \
       strcpy(PEH_eh_ptr_cast->message, msg);                                 \
     }                                                                        \
   } while(0)
-- 
2.43.0


From be81161ff672004a3d66b46d66a6c05d7a169780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 05/18] fix: allocate room for the terminator of C string list
 entries

make_string_list wrote one byte past the end of every string it returned.
---
 vital/bindings/c/helpers/c_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index f21dff0..6876968 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -46,7 +46,7 @@ void make_string_list( std::vector<std::string> const &list,
   strings = (char**)malloc( sizeof(char*) * length );
   for( unsigned int i = 0; i < length; i++ )
   {
-    strings[i] = (char*)malloc(sizeof(char) * list[i].length());
+    strings[i] = (char*)malloc(sizeof(char) * (list[i].length() + 1));
     std::strcpy( strings[i], list[i].c_str() );
   }
 }
-- 
2.43.0


From b1d3e57477b9abb993b78027d3643ab1efbff15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 06/18] fix: report config file errors through POPULATE_EH in
 the C interface

The hand written copies overran their buffer by the terminating byte and
dereferenced the error handle even when the caller passed NULL.
---
 vital/bindings/c/config_block.cxx | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 6437c1a..79f2ef8 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -404,21 +404,15 @@ read_config_file_helper( vital_error_handle_t* eh, Args... args )
   }
   catch ( kwiver::vital::config_file_not_found_exception const& e )
   {
-    eh->error_code = 1;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 1, e.what() );
   }
   catch ( kwiver::vital::config_file_not_read_exception const& e )
   {
-    eh->error_code = 2;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 2, e.what() );
   }
   catch ( kwiver::vital::config_file_not_parsed_exception const& e )
   {
-    eh->error_code = 3;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 3, e.what() );
   }
 
   return 0;
@@ -478,9 +472,7 @@ vital_config_block_file_write( vital_config_block_t*  cb,
     }
     catch ( kwiver::vital::config_file_write_exception const& e )
     {
-      eh->error_code = 1;
-      eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-      strcpy( eh->message, e.what() );
+      POPULATE_EH( eh, 1, e.what() );
     }
 
                 );
-- 
2.43.0


From 7b6311f8b51ab2b51445a82a6271a3a235a64a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 07/18] fix: return the result of check_configuration from the
 C interface

vital_algorithm_check_impl_configuration returned false for every
configuration.
---
 vital/bindings/c/algorithm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 81f399e..5f73fac 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -122,7 +122,7 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
 {
   STANDARD_CATCH(
     "C::algorithm::check_impl_configuration", eh,
-    kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
+    return kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
       kwiver::vital_c::CONFIG_BLOCK_SPTR_CACHE.get( cb )
     );
   );
-- 
2.43.0


From 16ba2d655108391b0f71ffe5a3b00589f28a2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 08/18] fix: keep allocation failures inside
 vital_image_new_from_data

It was the only C entry point without STANDARD_CATCH, so std::bad_alloc
escaped to C callers asking for too large an image.
---
 vital/bindings/c/image.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vital/bindings/c/image.cxx b/vital/bindings/c/image.cxx
index dce4c51..e6bc311 100644
--- a/vital/bindings/c/image.cxx
+++ b/vital/bindings/c/image.cxx
@@ -71,7 +71,15 @@ vital_image_t* vital_image_new_from_data( unsigned char const *first_pixel,
                                           size_t width, size_t height, size_t depth,
                                           int32_t w_step, int32_t h_step, int32_t d_step )
 {
-  kwiver::vital::image* new_image = new kwiver::vital::image( width, height, depth );
+  kwiver::vital::image* new_image = 0;
+  STANDARD_CATCH(
+    "C::image::new_from_data", 0,
+    new_image = new kwiver::vital::image( width, height, depth );
+  );
+  if ( ! new_image )
+  {
+    return 0;
+  }
   for ( unsigned int d = 0; d < depth; ++d )
   {
     // This is a little crazy, but it is used to convert BGR to RGB
-- 
2.43.0


From 75eb97e64762c978a0683b87cdccb23f57c28227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 09/18] fix: export the algorithm and camera map functions of
 the C interface

They were defined inside namespace kwiver, so the declared C functions did
not exist in the library.
---
 vital/bindings/c/algorithm.cxx  |  5 ++---
 vital/bindings/c/camera_map.cxx | 25 ++++++++++++-------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 5f73fac..a9faf6f 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -52,7 +52,7 @@ namespace vital_c {
 SharedPointerCache< kwiver::vital::algorithm,
                     vital_algorithm_t > ALGORITHM_SPTR_CACHE( "algorithm" );
 
-}
+} }
 
 
 // ===========================================================================
@@ -127,5 +127,4 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
     );
   );
   return false;
-
-} } // end namespace
+}
diff --git a/vital/bindings/c/camera_map.cxx b/vital/bindings/c/camera_map.cxx
index 2d3c432..df9cd55 100644
--- a/vital/bindings/c/camera_map.cxx
+++ b/vital/bindings/c/camera_map.cxx
@@ -49,7 +49,7 @@ namespace vital_c {
 SharedPointerCache< vital::camera_map,
                     vital_camera_map_t > CAM_MAP_SPTR_CACHE( "camera_map" );
 
-}
+} }
 
 
 /// New, simple camera map
@@ -66,13 +66,13 @@ vital_camera_map_t* vital_camera_map_new( size_t length,
     // Create std::map of the paired items given
     // This assumes that the sptr type defined in the cache type is the same as
     // the type defined in C++-land (which is should be?)
-    vital::camera_map::map_camera_t cmap;
+    kwiver::vital::camera_map::map_camera_t cmap;
     for( size_t i=0; i < length; i++ )
     {
-      cmap[frame_numbers[i]] = vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
+      cmap[frame_numbers[i]] = kwiver::vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
     }
-    vital::camera_map_sptr cm_sptr( new vital::simple_camera_map( cmap ) );
-    vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
+    kwiver::vital::camera_map_sptr cm_sptr( new kwiver::vital::simple_camera_map( cmap ) );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
     return reinterpret_cast<vital_camera_map_t*>( cm_sptr.get() );
   );
   return 0;
@@ -85,7 +85,7 @@ void vital_camera_map_destroy( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::destroy", eh,
-    vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
   );
 }
 
@@ -96,7 +96,7 @@ size_t vital_camera_map_size( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::size", eh,
-    return vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
+    return kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
   );
   return 0;
 }
@@ -111,19 +111,18 @@ void vital_camera_map_get_map( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::get_map", eh,
-    vital::camera_map::map_camera_t map_cams =
-      vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
+    kwiver::vital::camera_map::map_camera_t map_cams =
+      kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
     *length = map_cams.size();
     *frame_numbers = (unsigned int*)malloc(sizeof(unsigned int) * *length);
     *cameras = (vital_camera_t**)malloc(sizeof(vital_camera_t*) * *length);
     size_t i=0;
-    VITAL_FOREACH( vital::camera_map::map_camera_t::value_type const& p, map_cams )
+    VITAL_FOREACH( kwiver::vital::camera_map::map_camera_t::value_type const& p, map_cams )
     {
       (*frame_numbers)[i] = static_cast< unsigned int >(p.first);
-      vital_c::CAMERA_SPTR_CACHE.store( p.second );
+      kwiver::vital_c::CAMERA_SPTR_CACHE.store( p.second );
       (*cameras)[i] = reinterpret_cast<vital_camera_t*>( p.second.get() );
       ++i;
     }
   );
-
-} }
+}
-- 
2.43.0


From e9c8348374864b610f63c323119f31a7f5a30f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 10/18] fix: convert all elements of a covariance, not only the
 first N

---
 vital/types/covariance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 9c0b8e3..1dad0c4 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -68,7 +68,7 @@ public:
   {
     const U* in = other.data();
     T* out = this->data_;
-    for ( unsigned i = 0; i < N; ++i, ++in, ++out )
+    for ( unsigned i = 0; i < data_size; ++i, ++in, ++out )
     {
       *out = static_cast< T > ( *in );
     }
-- 
2.43.0


From e117765a4fd81bcad0efafb908e6fede05670232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 11/18] fix: copy the covariance when converting features and
 landmarks

---
 vital/types/feature.cxx  | 1 +
 vital/types/landmark.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index 1a3361b..a728594 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -88,6 +88,7 @@ feature_< T >
   magnitude_( static_cast< T > ( f.magnitude() ) ),
   scale_( static_cast< T > ( f.scale() ) ),
   angle_( static_cast< T > ( f.angle() ) ),
+  covar_( f.covar() ),
   color_( f.color() )
 {
 }
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 79682e8..2a15000 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -86,6 +86,7 @@ landmark_< T >
   : loc_( lm.loc().cast< T > () ),
     scale_( static_cast< T > ( lm.scale() ) ),
     normal_( lm.normal().cast< T > () ),
+    covar_( lm.covar() ),
     color_( lm.color() ),
     observations_( lm.observations() )
 {
-- 
2.43.0


From 6955638634436e249742ca10fc90a011af1b55b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 12/18] fix: copy the data of dynamically sized descriptors
 instead of sharing it

---
 vital/types/descriptor.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vital/types/descriptor.h b/vital/types/descriptor.h
index 928ddc2..b422e3b 100644
--- a/vital/types/descriptor.h
+++ b/vital/types/descriptor.h
@@ -39,6 +39,7 @@
 #include <vital/vital_export.h>
 #include <vital/vital_config.h>
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <memory>
@@ -163,6 +164,29 @@ public:
   : data_( new T[len] ),
   length_( len ) { }
 
+  /// Copy constructor
+  descriptor_dynamic< T > ( const descriptor_dynamic< T >& other )
+  : descriptor_array_of< T > ( other ),
+  data_( new T[other.length_] ),
+  length_( other.length_ )
+  {
+    std::copy( other.data_, other.data_ + length_, data_ );
+  }
+
+  /// Assignment operator
+  descriptor_dynamic< T >& operator=( const descriptor_dynamic< T >& other )
+  {
+    if ( this != &other )
+    {
+      T* data = new T[other.length_];
+      std::copy( other.data_, other.data_ + other.length_, data );
+      delete [] data_;
+      data_ = data;
+      length_ = other.length_;
+    }
+    return *this;
+  }
+
   /// Destructor
   virtual ~descriptor_dynamic< T > ( ) { delete [] data_; }
 
-- 
2.43.0


From 6e4ae751e830669fe925ddd06c2b7af426c4dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:17 +0000
Subject: [PATCH 13/18] fix: add the second tangential distortion derivative to
 J(1,1)

---
 vital/types/camera_intrinsics.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/camera_intrinsics.cxx b/vital/types/camera_intrinsics.cxx
index b6b2c3e..5aef4db 100644
--- a/vital/types/camera_intrinsics.cxx
+++ b/vital/types/camera_intrinsics.cxx
@@ -223,7 +223,7 @@ distortion_jacobian( const Eigen::Matrix< T, 2, 1 >& pt,
     J( 0, 0 ) += ay + 3 * ax;
     J( 0, 1 ) += axy;
     J( 1, 0 ) += axy;
-    J( 0, 0 ) += 3 * ay + ax;
+    J( 1, 1 ) += 3 * ay + ax;
   }
   return J;
 }
-- 
2.43.0


From 5ad00149f683c9b3cd7382e11f5f2894b5b147db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:41 +0000
Subject: [PATCH 14/18] fix: enumerating a sparse matrix without rows or
 columns does not read past its index array

---
 vital/util/enumerate_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/util/enumerate_matrix.h b/vital/util/enumerate_matrix.h
index a159334..4928a8b 100644
--- a/vital/util/enumerate_matrix.h
+++ b/vital/util/enumerate_matrix.h
@@ -123,9 +123,9 @@ template < typename ValueT, int Options, typename IndexT >
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::iterator(Eigen::SparseMatrix< ValueT, Options, IndexT > const& mat)
   : m_matrix(&mat), m_end(mat.outerSize()), m_outer(0),
-    m_inner(new iterator_t(mat, 0))
+    m_inner(mat.outerSize() > 0 ? new iterator_t(mat, 0) : 0)
 {
-  if (!(*(this->m_inner)))
+  if (this->m_inner && !(*(this->m_inner)))
   {
     ++(*this);
   }
-- 
2.43.0


From 05b66a646abbab1e22c0515b2e5619997b382542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:55 +0000
Subject: [PATCH 15/18] fix: accept configuration keys of one or two characters

---
 vital/config/config_parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 85fc5a5..f9eb5b2 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -537,7 +537,7 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
+    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
     static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
-- 
2.43.0


From cb42583334547bbcec520cbd9f945d2e00ba2c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:55 +0000
Subject: [PATCH 16/18] fix: recognise configuration keywords only in word
 tokens

---
 vital/config/config_parser.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index f9eb5b2..d056513 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -229,7 +229,7 @@ public:
       } // end EOF
 
       // ------------------------------------------------------------------
-      if ( token.value == "include" )
+      if ( token.type == token_t::TK_WORD && token.value == "include" )
       {
         /*
          * Handle "include" <file-path>
@@ -281,7 +281,7 @@ public:
       }
 
       // ------------------------------------------------------------------
-      if ( token.value == "block" )
+      if ( token.type == token_t::TK_WORD && token.value == "block" )
       {
         /*
          * Handle "block" <block-name>
@@ -318,7 +318,7 @@ public:
       }
 
       // ------------------------------------------------------------------
-      if ( token.value == "endblock" )
+      if ( token.type == token_t::TK_WORD && token.value == "endblock" )
       {
         /*
          * Handled "endblock" keyword
@@ -342,7 +342,7 @@ public:
 
       // ------------------------------------------------------------------
       bool rel_path(false);
-      if ( token.value == "relativepath" )
+      if ( token.type == token_t::TK_WORD && token.value == "relativepath" )
       {
         /*
          * Handle "relatiepath" <key> = <filepath>
-- 
2.43.0


From 577c591f83482f08998f3a03fbb1ead1192643be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:55 +0000
Subject: [PATCH 17/18] fix: report a configuration file that includes itself
 instead of recursing without end

---
 vital/config/config_parser.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index d056513..2bb2f0c 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -273,6 +273,17 @@ public:
           throw config_file_not_found_exception( resolv_filename, sstr.str() );
         }
 
+        // A file that is still being processed can not be included again.
+        if ( std::find( m_include_stack.begin(), m_include_stack.end(),
+                        resolv_filename ) != m_include_stack.end() )
+        {
+          std::ostringstream sstr;
+          sstr << "file \"" << resolv_filename << "\" includes itself at "
+               << file_path << ":" << current_line;
+
+          throw config_file_not_parsed_exception( file_path, sstr.str() );
+        }
+
         process_file( resolv_filename ); // process included file
 
         m_line_number = current_line; // restore line number
-- 
2.43.0


From 10305ba4c1c0a04ffb102ca1d98099edff2f0ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:55 +0000
Subject: [PATCH 18/18] fix: report configuration files that can not be
 written, leave the file alone when there is nothing to write

---
 vital/config/config_block_io.cxx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index ba47e56..d423726 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -371,6 +371,13 @@ write_config_file( config_block_sptr const& config,
   using std::cerr;
   using std::endl;
 
+  // Nothing to write: leave the file system alone.
+  if ( config->available_values().empty() )
+  {
+    throw config_file_write_exception( file_path,
+          "No parameters in the given config_block!" );
+  }
+
   // If the given path is a directory, we obviously can't write to it.
   if ( kwiversys::SystemTools::FileIsDirectory( file_path ) )
   {
@@ -394,9 +401,19 @@ write_config_file( config_block_sptr const& config,
 
   // open output file and write each key/value to a line.
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path,
+          "The file could not be opened for writing." );
+  }
 
   write_config( config, ofile );
   ofile.close();
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path,
+          "Not everything could be written to the file." );
+  }
 }
 
 
-- 
2.43.0

