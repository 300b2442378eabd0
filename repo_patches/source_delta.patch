From d6135a44a404c07b95402c66e4ccb3e7824d86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 01/48] fix: size the shell results with the number of ribs

---
 src/shell.cc         | 1 +
 toolbox/src/shell.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0f17f9a..310d749 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0f17f9a..310d749 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
-- 
2.43.0


From bf3425e6c0473e80dba26a071d0f40703e5248f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 02/48] fix: shell setup on flat ground reports contact if any
 rib is in contact

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 310d749..37c6bcd 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 310d749..37c6bcd 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
-- 
2.43.0


From 01becf243d4cb85c6a00fc1c1786e2f467500313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 03/48] fix: total contact area sums the ribs areas

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 37c6bcd..0b02eb7 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 37c6bcd..0b02eb7 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 8f70391264b3a48e243fea1912fe5147e61c6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 04/48] fix: average contact depth when the contact volume
 vanishes

---
 src/shell.cc         | 4 +++-
 toolbox/src/shell.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 0b02eb7..98ff43d 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -685,7 +685,9 @@ namespace enve
     this->contactVolume(volume_sum);
     if (volume_sum < EPSILON_ENVE)
     {
-      depth = volume_sum / size;
+      for (size_t i = 0; i < size; ++i)
+        {depth += this->m_out[i].depth;}
+      depth /= size;
     }
     else
     {
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0b02eb7..98ff43d 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -685,7 +685,9 @@ namespace enve
     this->contactVolume(volume_sum);
     if (volume_sum < EPSILON_ENVE)
     {
-      depth = volume_sum / size;
+      for (size_t i = 0; i < size; ++i)
+        {depth += this->m_out[i].depth;}
+      depth /= size;
     }
     else
     {
-- 
2.43.0


From 44870bf431817d630e3a1ed523ebae5e6f6f7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 05/48] fix: resize the output of the ribs contact frames and
 relative angles

---
 src/shell.cc         | 2 ++
 toolbox/src/shell.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 98ff43d..e916105 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -844,6 +844,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -886,6 +887,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 98ff43d..e916105 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -844,6 +844,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -886,6 +887,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
-- 
2.43.0


From ab2f8d4078ac59e14deaad0e766cd3fbaa17d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 06/48] fix: copy the lateral position of the rib

---
 src/rib.cc         | 1 +
 toolbox/src/rib.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index d3ecc4e..c12bf5c 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d3ecc4e..c12bf5c 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
-- 
2.43.0


From 933a02fa82070748f11cf6696fc4374e7b2ba517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 07/48] fix: rib contact on mesh ground, skip degenerate chords
 and avoid division by a null volume

---
 src/rib.cc         | 6 +++---
 toolbox/src/rib.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index c12bf5c..b6dd62d 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -264,7 +264,6 @@ namespace enve
         if(t_b < t_a)
         {
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
@@ -272,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
@@ -306,7 +305,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index c12bf5c..b6dd62d 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -264,7 +264,6 @@ namespace enve
         if(t_b < t_a)
         {
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
@@ -272,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
@@ -306,7 +305,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-- 
2.43.0


From c9b2c13e6c7946a1389a3dc53230cde2c5180caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 08/48] fix: reject an invalid enveloping method even if no
 triangle is near the shell

---
 src/shell.cc         | 3 +++
 toolbox/src/shell.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index e916105..40626cc 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -447,6 +447,9 @@ namespace enve
   {
     #define CMD "enve::shell::setup(...): "
 
+    ENVE_ASSERT(method == "geometric" || method == "sampling",
+      CMD "invalid enveloping method.");
+
     // Set the new reference frame
     this->transform(pose);
     this->updateBBox();
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index e916105..40626cc 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -447,6 +447,9 @@ namespace enve
   {
     #define CMD "enve::shell::setup(...): "
 
+    ENVE_ASSERT(method == "geometric" || method == "sampling",
+      CMD "invalid enveloping method.");
+
     // Set the new reference frame
     this->transform(pose);
     this->updateBBox();
-- 
2.43.0


From 1ece1560201171c4d845990a67ceef6e61f56b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 09/48] fix: refuse mesh elements naming nodes the file does
 not define

---
 src/mesh.cc         | 12 ++++++++++++
 toolbox/src/mesh.cc | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index db7bf1c..4fbee4e 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -308,6 +308,12 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index exceeds the number of nodes.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index exceeds the number of nodes.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index exceeds the number of nodes.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -424,6 +430,12 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index exceeds the number of nodes.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index exceeds the number of nodes.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index exceeds the number of nodes.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index db7bf1c..4fbee4e 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -308,6 +308,12 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index exceeds the number of nodes.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index exceeds the number of nodes.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index exceeds the number of nodes.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -424,6 +430,12 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index exceeds the number of nodes.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index exceeds the number of nodes.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index exceeds the number of nodes.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
-- 
2.43.0


From 087fb3a752adf79fa108a78defc5c654db42241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 10/48] fix: skip the empty lines of an *.rdf mesh

---
 src/mesh.cc         | 2 +-
 toolbox/src/mesh.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 4fbee4e..466266c 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -273,7 +273,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 4fbee4e..466266c 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -273,7 +273,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
-- 
2.43.0


From bf63c4136c20658faae59b0d0b3d5d9939e1458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 11/48] fix: a mesh load replaces the mesh, and leaves it
 unchanged when the file is refused

---
 src/mesh.cc         | 24 ++++++++++++++----------
 toolbox/src/mesh.cc | 24 ++++++++++++++----------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 466266c..f2bb23b 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -239,7 +239,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -318,7 +319,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -331,18 +332,19 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
       }
       else
       {
-        // Update the local intersected triangles list
+        // Replace the mesh triangles and update the AABB tree
+        this->m_triangles = std::move(triangles);
         std::cout
           << "Building AABB tree... ";
         this->buildAABBtree();
@@ -389,7 +391,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -438,7 +441,7 @@ namespace enve
             CMD "element 2 index exceeds the number of nodes.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -456,18 +459,19 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
       }
       else
       {
-        // Update the local intersected triangles list
+        // Replace the mesh triangles and update the AABB tree
+        this->m_triangles = std::move(triangles);
         std::cout << "Building AABB tree... ";
         this->buildAABBtree();
         std::cout
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 466266c..f2bb23b 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -239,7 +239,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -318,7 +319,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -331,18 +332,19 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
       }
       else
       {
-        // Update the local intersected triangles list
+        // Replace the mesh triangles and update the AABB tree
+        this->m_triangles = std::move(triangles);
         std::cout
           << "Building AABB tree... ";
         this->buildAABBtree();
@@ -389,7 +391,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -438,7 +441,7 @@ namespace enve
             CMD "element 2 index exceeds the number of nodes.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -456,18 +459,19 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
       }
       else
       {
-        // Update the local intersected triangles list
+        // Replace the mesh triangles and update the AABB tree
+        this->m_triangles = std::move(triangles);
         std::cout << "Building AABB tree... ";
         this->buildAABBtree();
         std::cout
-- 
2.43.0


From bf266f0b1b96a6ed42385738752378909e484158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 12/48] fix: keep the mesh boxes and tree in step with the
 triangles on copy and clear

---
 src/mesh.cc         | 2 ++
 toolbox/src/mesh.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index f2bb23b..6b79704 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,7 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index f2bb23b..6b79704 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,7 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 6dadff7cedfe9a99c53b887266c058255bddbac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 13/48] fix: queries on an empty AABB tree find nothing

---
 toolbox/src/AABBtree.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index a7aee91..5e1d124 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -218,6 +218,8 @@ namespace acme
   )
     const
   {
+    if (this->isEmpty() || tree.isEmpty())
+      return;
     if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
       return;
     integer icase = (this->m_children.empty() ? 0 : 1) +
@@ -325,6 +327,8 @@ namespace acme
   )
     const
   {
+    if (this->isEmpty())
+      return;
     real distance = this->minimumExteriorDistance(query, *this, INFTY);
     this->selectLessThanDistance(query, distance, *this, candidate_list);
   }
-- 
2.43.0


From 6c99b23e6f466fd354f794599cdd1bce15ee7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 14/48] fix: distance of a point from a box that is flat along
 an axis

---
 toolbox/src/aabb.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/aabb.cc b/toolbox/src/aabb.cc
index 5905b90..5431631 100644
--- a/toolbox/src/aabb.cc
+++ b/toolbox/src/aabb.cc
@@ -323,12 +323,9 @@ namespace acme
     point center((this->m_max + this->m_min) / real(2.0));
     point point_max_centered(this->m_max - center);
     point point_centered(point_in - center);
-    real  x_scale = std::abs(real(1.0) / point_max_centered.x());
-    real  y_scale = std::abs(real(1.0) / point_max_centered.y());
-    real  z_scale = std::abs(real(1.0) / point_max_centered.z());
-    real  dx      = std::max(real(0.0), std::abs(point_centered.x()) * x_scale - real(1.0)) / x_scale;
-    real  dy      = std::max(real(0.0), std::abs(point_centered.y()) * y_scale - real(1.0)) / y_scale;
-    real  dz      = std::max(real(0.0), std::abs(point_centered.z()) * z_scale - real(1.0)) / z_scale;
+    real  dx = std::max(real(0.0), std::abs(point_centered.x()) - std::abs(point_max_centered.x()));
+    real  dy = std::max(real(0.0), std::abs(point_centered.y()) - std::abs(point_max_centered.y()));
+    real  dz = std::max(real(0.0), std::abs(point_centered.z()) - std::abs(point_max_centered.z()));
     return std::sqrt(dx * dx + dy * dy + dz * dz);
   }
 
-- 
2.43.0


From 6e5038089b1a3478afb66906d0a7358fc63b6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 15/48] fix: copy the id of the triangleground

---
 src/triangleground.cc         | 1 +
 toolbox/src/triangleground.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/triangleground.cc b/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
-- 
2.43.0


From 1f8fd8594469d1c33d42ae8b4dc4edbb62bf3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 16/48] fix: compare the ground geometry with the given
 tolerance

---
 src/flat.cc                   | 2 +-
 src/triangleground.cc         | 2 +-
 toolbox/src/flat.cc           | 2 +-
 toolbox/src/triangleground.cc | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flat.cc b/src/flat.cc
index b09581b..fec3f81 100644
--- a/src/flat.cc
+++ b/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/src/triangleground.cc b/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
diff --git a/toolbox/src/flat.cc b/toolbox/src/flat.cc
index b09581b..fec3f81 100644
--- a/toolbox/src/flat.cc
+++ b/toolbox/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
-- 
2.43.0


From 5da7d8f918b452c4c543d850499e7a4eea32523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 17/48] fix: mesh queries find the triangles by position,
 whatever their id

---
 src/mesh.cc         | 4 +++-
 toolbox/src/mesh.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 6b79704..253afd4 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -535,8 +535,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
+        // The box id is the triangle position in the mesh
+        aabb const & bbox = this->m_triangles[i]->bbox();
         this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
+          std::make_shared<aabb const>(bbox.min(), bbox.max(), integer(i), bbox.pos())
         );
       }
     }
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 6b79704..253afd4 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -535,8 +535,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
+        // The box id is the triangle position in the mesh
+        aabb const & bbox = this->m_triangles[i]->bbox();
         this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
+          std::make_shared<aabb const>(bbox.min(), bbox.max(), integer(i), bbox.pos())
         );
       }
     }
-- 
2.43.0


From a8a22f5b97d0e865d2f23ebe4daf8dd6f6d21734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 18/48] fix: dispatch the entity intersection with the given
 tolerance

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 01aa3d3..2ac7caa 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -189,7 +189,7 @@ namespace acme
         break;
       }
     }
-    else if (IsCollinear(entity0_in, entity1_in))
+    else if (IsCollinear(entity0_in, entity1_in, tolerance))
     {
       switch (slide)
       {
@@ -306,7 +306,7 @@ namespace acme
         break;
       }
     }
-    else if (IsCoplanar(entity0_in, entity1_in))
+    else if (IsCoplanar(entity0_in, entity1_in, tolerance))
     {
       switch (slide)
       {
-- 
2.43.0


From b032268839616aa6cde8e8001f412b61ebfe5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 19/48] fix: create the result of the plane/disk intersection

---
 toolbox/src/intersection.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 2ac7caa..0d9a441 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -837,6 +837,7 @@ namespace acme
         break;
 
       case 508:
+        entity_out = new segment();
         collide = Intersection(
           *dynamic_cast<plane const *>(entity0_in),
           *dynamic_cast<disk const *>(entity1_in),
-- 
2.43.0


From be60a7d65c4de7429245a3c4a0097a32da4852aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 20/48] fix: return the triangle lying on the plane in either
 operand order

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 0d9a441..a9c8a20 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -556,11 +556,11 @@ namespace acme
         break;
 
       case 705:
-        entity_out = new segment();
+        entity_out = new triangle();
         collide    = Intersection(
           *dynamic_cast<plane const *>(entity1_in),
           *dynamic_cast<triangle const *>(entity0_in),
-          *dynamic_cast<segment *>(entity_out),
+          *dynamic_cast<triangle *>(entity_out),
           tolerance);
         break;
 
-- 
2.43.0


From 2c971d0a02b3a1a6cf316298b50568878cbc2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 21/48] fix: collinear rays that do not overlap have no
 intersection

---
 toolbox/src/intersection.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index a9c8a20..23838f1 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -253,12 +253,6 @@ namespace acme
           *dynamic_cast<ray const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
           tolerance);
-        if (!collide)
-          {delete entity_out;}
-        else
-          {break;}
-
-        ACME_ERROR(CMD "exception not handled (ray/ray intersection).")
         break;
 
       case 406:
-- 
2.43.0


From a78e77754231a864d13157d59d0d1a46b46e9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 22/48] fix: lines, rays and segments that are not coplanar
 have no intersection

---
 toolbox/src/intersection.cc | 89 +++++--------------------------------
 1 file changed, 11 insertions(+), 78 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 23838f1..e34a764 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -653,26 +653,22 @@ namespace acme
       switch (slide)
       {
 
-        // - - - - - - - - - - - - - - LINE - - - - - - - - - - - - - -
+        // - - - - - - - - - - - - - - SKEW - - - - - - - - - - - - - -
 
       case 303:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 304:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 306:
+      case 403:
+      case 404:
+      case 406:
+      case 603:
+      case 604:
+      case 606:
+        collide = false;
         break;
 
+        // - - - - - - - - - - - - - - LINE - - - - - - - - - - - - - -
+
       case 305:
         entity_out = new point();
         collide    = Intersection(
@@ -682,15 +678,6 @@ namespace acme
           tolerance);
         break;
 
-      case 306:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 307:
         entity_out = new point();
         collide    = Intersection(
@@ -720,24 +707,6 @@ namespace acme
 
         // - - - - - - - - - - - - - - RAY - - - - - - - - - - - - - -
 
-      case 403:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
-      case 404:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 405:
         entity_out = new point();
         collide    = Intersection(
@@ -747,15 +716,6 @@ namespace acme
           tolerance);
         break;
 
-      case 406:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 407:
         entity_out = new point();
         collide    = Intersection(
@@ -850,24 +810,6 @@ namespace acme
 
         // - - - - - - - - - - - - - - SEGMENT - - - - - - - - - - - - - -
 
-      case 603:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
-      case 604:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 605:
         entity_out = new point();
         collide    = Intersection(
@@ -877,15 +819,6 @@ namespace acme
           tolerance);
         break;
 
-      case 606:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 607:
         entity_out = new point();
         collide    = Intersection(
-- 
2.43.0


From 056fbf49937aceb1b51f19a199c86b66b44abb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 23/48] fix: a line is orthogonal to a plane if it is parallel
 to its normal

---
 toolbox/src/orthogonal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/orthogonal.cc b/toolbox/src/orthogonal.cc
index 8af59fa..d36c7df 100644
--- a/toolbox/src/orthogonal.cc
+++ b/toolbox/src/orthogonal.cc
@@ -512,7 +512,7 @@ namespace acme
     real          tolerance
   )
   {
-    return IsOrthogonal(line_in.direction(), plane_in.normal(), tolerance);
+    return IsParallel(line_in.direction(), plane_in.normal(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From cf0f152ab5542f6d551266bb3d459cc5e7d7988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 24/48] fix: compare the directions of both rays in the
 collinearity test

---
 toolbox/src/collinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collinear.cc b/toolbox/src/collinear.cc
index d9f0ee7..978b13a 100644
--- a/toolbox/src/collinear.cc
+++ b/toolbox/src/collinear.cc
@@ -160,7 +160,7 @@ namespace acme
     real        tolerance)
   {
     return IsParallel(ray0_in.direction(), ray0_in.origin()-ray1_in.origin(), tolerance) &&
-           IsParallel(ray1_in.direction(), ray1_in.direction(), tolerance);
+           IsParallel(ray0_in.direction(), ray1_in.direction(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 1814d767393ba5afd40775a1f0ab2862c98f4735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 25/48] fix: the intersection of two planes does not depend on
 the length of their normals

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index e34a764..d16ed41 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2212,8 +2212,8 @@ namespace acme
   {
     vec3 normal0(plane0_in.normal().normalized());
     vec3 normal1(plane1_in.normal().normalized());
-    real d0 = -plane0_in.d();
-    real d1 = -plane1_in.d();
+    real d0 = plane0_in.origin().dot(normal0);
+    real d1 = plane1_in.origin().dot(normal1);
 
     vec3 direction = normal0.cross(normal1);
     real dot       = normal0.dot(normal1);
-- 
2.43.0


From 12e69824f0ced0153ed72431c9cd015981514075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 26/48] fix: the intersection of a segment and a ball measures
 distances along the segment

---
 toolbox/src/intersection.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index d16ed41..df23b8c 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2713,7 +2713,8 @@ namespace acme
   )
   {
     vec3 origin(segment_in.vertex(0));
-    vec3 direction(segment_in.toVector());
+    vec3 direction(segment_in.toUnitVector());
+    real length = segment_in.length();
     vec3 diff(origin - ball_in.center());
     real a0    = diff.dot(diff) - ball_in.radius() * ball_in.radius();
     real a1    = direction.dot(diff);
@@ -2723,12 +2724,12 @@ namespace acme
       real root = std::sqrt(discr);
       real t0   = -a1 - root;
       real t1   = -a1 + root;
-      if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > real(1.0) && t1 > real(1.0)))
+      if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > length && t1 > length))
         {return false;}
       t0 = std::max(t0, real(0.0));
-      t0 = std::min(t0, real(1.0));
+      t0 = std::min(t0, length);
       t1 = std::max(t1, real(0.0));
-      t1 = std::min(t1, real(1.0));
+      t1 = std::min(t1, length);
       segment_out.vertex(0) = origin + t0 * direction;
       segment_out.vertex(1) = origin + t1 * direction;
       return true;
-- 
2.43.0


From 74dd3590915fdc43c9d8b4269b54c97e6612efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 27/48] fix: a ray starting on a plane intersects it

---
 toolbox/src/intersection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index df23b8c..2477471 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2437,7 +2437,7 @@ namespace acme
     if (std::abs(det) > tolerance)
     {
       real t = -(origin - plane_in.origin()).dot(plane_in.normal()) / det;
-      if (t > tolerance)
+      if (t >= -tolerance)
       {
         point_out = origin + t * direction;
         return true;
-- 
2.43.0


From 600c1f222b073a4b1d8e3da7563fad367b348b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 28/48] fix: triangles or disks that do not reach the common
 line of their planes have no intersection

---
 toolbox/src/intersection.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 2477471..6f93892 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2279,9 +2279,9 @@ namespace acme
     if (Intersection(triangle0_in.layingPlane(), triangle1_in.layingPlane(), tmp_line, tolerance))
     {
       segment tmp_segment0, tmp_segment1;
-      Intersection(tmp_line, triangle0_in, tmp_segment0, tolerance);
-      Intersection(tmp_line, triangle1_in, tmp_segment1, tolerance);
-      return Intersection(tmp_segment0, tmp_segment1, segment_out, tolerance);
+      return Intersection(tmp_line, triangle0_in, tmp_segment0, tolerance) &&
+             Intersection(tmp_line, triangle1_in, tmp_segment1, tolerance) &&
+             Intersection(tmp_segment0, tmp_segment1, segment_out, tolerance);
     }
     else
     {
@@ -2303,9 +2303,9 @@ namespace acme
     if (Intersection(disk0_in.layingPlane(), disk1_in.layingPlane(), tmp_line, tolerance))
     {
       segment tmp_segment0, tmp_segment1;
-      Intersection(tmp_line, disk0_in, tmp_segment0, tolerance);
-      Intersection(tmp_line, disk1_in, tmp_segment1, tolerance);
-      return Intersection(tmp_segment0, tmp_segment1, segment_out, tolerance);
+      return Intersection(tmp_line, disk0_in, tmp_segment0, tolerance) &&
+             Intersection(tmp_line, disk1_in, tmp_segment1, tolerance) &&
+             Intersection(tmp_segment0, tmp_segment1, segment_out, tolerance);
     }
     else
     {
-- 
2.43.0


From 35155a2bb93ea2d9047bda063cd09cf982a9d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 29/48] fix: triangles of the same plane overlap when their
 edges cross

---
 toolbox/src/intersection.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 6f93892..43d29b7 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1787,6 +1787,16 @@ namespace acme
     if (!IsCoplanar(triangle0_in, triangle1_in, tolerance)) {
       return Intersection(triangle0_in, triangle1_in, DUMMY_SEGMENT, tolerance);
     }
+    // Overlapping triangles without a vertex inside each other have crossing edges
+    for (size_t i = 0; i < 3; ++i)
+    {
+      for (size_t j = 0; j < 3; ++j)
+      {
+        point tmp_point;
+        if (Intersection(triangle0_in.edge(i), triangle1_in.edge(j), tmp_point, tolerance))
+          {return true;}
+      }
+    }
     return triangle0_in.isInside(triangle1_in.vertex(0), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(1), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(2), tolerance) ||
-- 
2.43.0


From 523b1ecd7b0df38d40e1d9721c15fecddfcda844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 30/48] fix: the distance of a point from a plane does not
 depend on the length of its normal

---
 toolbox/src/plane.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/plane.cc b/toolbox/src/plane.cc
index 954b217..ef5b77f 100644
--- a/toolbox/src/plane.cc
+++ b/toolbox/src/plane.cc
@@ -189,7 +189,7 @@ namespace acme
   )
     const
   {
-    return (point_in - this->m_origin).dot(this->m_normal);
+    return (point_in - this->m_origin).dot(this->unitNormal());
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 8029ed1e28c83becc4e5a49f4d8b43c1441b9eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 31/48] fix: exchange the formulas of perimeter and area of a
 disk

---
 toolbox/src/disk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/disk.cc b/toolbox/src/disk.cc
index 8b78724..ee4b409 100644
--- a/toolbox/src/disk.cc
+++ b/toolbox/src/disk.cc
@@ -193,7 +193,7 @@ namespace acme
   disk::perimeter(void)
     const
   {
-    return PI * this->m_radius * this->m_radius;
+    return real(2.0) * PI * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -202,7 +202,7 @@ namespace acme
   disk::area(void)
     const
   {
-    return real(2.0) * PI * this->m_radius;
+    return PI * this->m_radius * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From eae5f1fc45c3cd7471d2b32039c52d408779bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 32/48] fix: initialise a default point with not-a-number

---
 toolbox/src/point.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/point.cc b/toolbox/src/point.cc
index b75f576..e8abcb5 100644
--- a/toolbox/src/point.cc
+++ b/toolbox/src/point.cc
@@ -49,7 +49,7 @@ namespace acme
 
   point::point(void)
   {
-    this->Constant(QUIET_NAN);
+    this->setConstant(QUIET_NAN);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 7438678b2f02ee3eefc8dd5a046ea85fd19607b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 33/48] fix: a collection contains degenerated entities as soon
 as one of them is

---
 toolbox/src/collection.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index d1efa19..43fc6e3 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -754,10 +754,10 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isDegenerated(tolerance))
-        {return false;}
+      if (this->m_entities[i]->isDegenerated(tolerance))
+        {return true;}
     }
-    return true;
+    return false;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 1f332637821789c2b43391e2750db51da81fd8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 34/48] fix: a collection is made of segments when its entities
 are segments

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 43fc6e3..ba2242a 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -502,7 +502,7 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isBall())
+      if (!this->m_entities[i]->isSegment())
         {return false;}
     }
     return true;
-- 
2.43.0


From efdfd50a64f3c498b12aac90ed8593f0d5403993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 35/48] fix: count the non-clampable entities, not the others

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index ba2242a..ec16338 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -945,7 +945,7 @@ namespace acme
     integer count = 0;
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isNonClampable())
+      if (this->m_entities[i]->isNonClampable())
         {++count;}
     }
     return count;
-- 
2.43.0


From 5f6a136066348bfcccf5f7329218e3ae65701dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 36/48] fix: entities removed from a collection leave it

---
 toolbox/src/collection.cc | 88 +++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index ec16338..f857470 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -195,10 +195,13 @@ namespace acme
   void
   collection::removeNone(void)
   {
-    std::remove_if(
-      this->m_entities.begin(),
-      this->m_entities.end(),
-      [] (entity::ptr & entity) {return entity->isNone();}
+    this->m_entities.erase(
+      std::remove_if(
+        this->m_entities.begin(),
+        this->m_entities.end(),
+        [] (entity::ptr & entity) {return entity->isNone();}
+      ),
+      this->m_entities.end()
     );
   }
 
@@ -261,11 +264,14 @@ namespace acme
   void
   collection::removePoint(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPoint();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -327,11 +333,14 @@ namespace acme
   void
   collection::removeLine(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isLine();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -393,11 +402,14 @@ namespace acme
   void
   collection::removeRay(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isRay();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -458,11 +470,14 @@ namespace acme
   void
   collection::removePlane(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPlane();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -524,11 +539,14 @@ namespace acme
   void
   collection::removeSegment(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isSegment();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -590,11 +608,14 @@ namespace acme
   void
   collection::removeTriangle(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isTriangle();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -656,11 +677,14 @@ namespace acme
   void
   collection::removeDisk(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isDisk();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -722,11 +746,14 @@ namespace acme
   void
   collection::removeBall(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isBall();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -795,11 +822,14 @@ namespace acme
     real tolerance
   )
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [tolerance](entity::ptr & entity){return entity->isDegenerated(tolerance);}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -863,11 +893,14 @@ namespace acme
   void
   collection::removeClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -929,11 +962,14 @@ namespace acme
   void
   collection::removeNonClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isNonClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 65a2447fde570d116799c45aa4c35f8663bc98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 37/48] fix: building the tree of a collection leaves those of
 its copies alone

---
 toolbox/src/collection.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index f857470..bc3c17e 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -1052,6 +1052,7 @@ namespace acme
   {
     aabb::vecptr ptrVecbox;
     this->clamp(ptrVecbox);
+    this->m_AABBtree = std::make_shared<AABBtree>();
     this->m_AABBtree->build(ptrVecbox);
   }
 
-- 
2.43.0


From 70571739fe923e67cc8b4c62cbbec445ae0cc8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 38/48] fix: release the ground and the shell at the end of the
 S-function

---
 sfun/src_sfun/enve_sfun_interface.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sfun/src_sfun/enve_sfun_interface.cc b/sfun/src_sfun/enve_sfun_interface.cc
index 023b99d..ce5ea89 100755
--- a/sfun/src_sfun/enve_sfun_interface.cc
+++ b/sfun/src_sfun/enve_sfun_interface.cc
@@ -96,6 +96,9 @@ extern "C"
       *Ly
     );
 
+    // Release the objects of a previous initialization
+    enve_sfun_end();
+
     // Store pointers
     MeshPtr  = static_cast<void *>(mesh);
     FlatPtr  = static_cast<void *>(flat);
@@ -215,9 +218,13 @@ extern "C"
   {
     #define CMD "enve_sfun_end(...): "
 
-    //delete static_cast<enve::ground::mesh *>(MeshPtr);
-    //delete static_cast<enve::ground::flat *>(FlatPtr);
-    //delete static_cast<enve::flat *>(ShellPtr);
+    delete static_cast<enve::shell *>(ShellPtr);
+    delete static_cast<enve::ground::flat *>(FlatPtr);
+    delete static_cast<enve::ground::mesh *>(MeshPtr);
+
+    ShellPtr = nullptr;
+    FlatPtr  = nullptr;
+    MeshPtr  = nullptr;
 
     #undef CMD
   }
-- 
2.43.0


From 14b9ec4043f75ad8ac298b99ac01e541a2a1893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 39/48] fix: refuse a step of the S-function before its
 initialization

---
 sfun/src_sfun/enve_sfun_interface.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfun/src_sfun/enve_sfun_interface.cc b/sfun/src_sfun/enve_sfun_interface.cc
index ce5ea89..471ae0d 100755
--- a/sfun/src_sfun/enve_sfun_interface.cc
+++ b/sfun/src_sfun/enve_sfun_interface.cc
@@ -121,6 +121,10 @@ extern "C"
     enve::ground::flat *flat  = static_cast<enve::ground::flat *>(FlatPtr);
     enve::shell        *shell = static_cast<enve::shell *>(ShellPtr);
 
+    // Check initialization
+    if (shell == nullptr || mesh == nullptr || flat == nullptr)
+      {ENVE_ERROR(CMD "S-function not initialized.");}
+
     // Store temporaries
     int size = shell->size();
 
-- 
2.43.0


From b090ba421f76dfde86b065bd9572390850cd6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 40/48] fix: check that a transformation is orthonormal, not
 only of unit determinant

---
 src/shell.cc         | 4 +++-
 toolbox/src/shell.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 40626cc..74ab741 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -336,7 +336,9 @@ namespace enve
   )
     const
   {
-    if (std::abs(pose.determinant() - real(1.0)) < tolerance)
+    mat3 const linear(pose.topLeftCorner<3, 3>());
+    if (std::abs(pose.determinant() - real(1.0)) < tolerance &&
+        (linear * linear.transpose() - IDENTITY_MAT3).norm() < tolerance)
       {return true;}
     else
       {return false;}
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 40626cc..74ab741 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -336,7 +336,9 @@ namespace enve
   )
     const
   {
-    if (std::abs(pose.determinant() - real(1.0)) < tolerance)
+    mat3 const linear(pose.topLeftCorner<3, 3>());
+    if (std::abs(pose.determinant() - real(1.0)) < tolerance &&
+        (linear * linear.transpose() - IDENTITY_MAT3).norm() < tolerance)
       {return true;}
     else
       {return false;}
-- 
2.43.0


From aa607496ac34ca28b04e5082d27dbe7ab71020eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 41/48] fix: define the declared accessors of the rib
 identifier

---
 src/rib.cc         | 17 +++++++++++++++++
 toolbox/src/rib.cc | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index b6dd62d..b81f990 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -91,6 +91,15 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  integer const &
+  rib::id(void)
+    const
+  {
+    return this->m_id;
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   real const &
   rib::width(void)
     const
@@ -109,6 +118,14 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  integer &
+  rib::id(void)
+  {
+    return this->m_id;
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   real &
   rib::width(void)
   {
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index b6dd62d..b81f990 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -91,6 +91,15 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  integer const &
+  rib::id(void)
+    const
+  {
+    return this->m_id;
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   real const &
   rib::width(void)
     const
@@ -109,6 +118,14 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  integer &
+  rib::id(void)
+  {
+    return this->m_id;
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   real &
   rib::width(void)
   {
-- 
2.43.0


From 462d4421fb1d5c584e737dc630e5667cfb3b489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 42/48] fix: define the declared shell constructor from a shape
 and transformation by a matrix

---
 src/shell.cc         | 24 ++++++++++++++++++++++++
 toolbox/src/shell.cc | 24 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 74ab741..1d4d7dd 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -67,6 +67,20 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  shell::shell(
+    size_t        size,
+    shape const & shape_obj
+  )
+    : m_shape(std::make_shared<shape>(shape_obj)),
+      m_bbox(std::make_shared<aabb>())
+  {
+    this->m_affine.matrix() = IDENTITY_MAT4;
+    this->resize(size);
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   void
   shell::resize(
     size_t size
@@ -320,6 +334,16 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  void
+  shell::transform(
+    mat4 const & pose
+  )
+  {
+    this->transform(affine(pose));
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   affine const &
   shell::transformation(void)
     const
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 74ab741..1d4d7dd 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -67,6 +67,20 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  shell::shell(
+    size_t        size,
+    shape const & shape_obj
+  )
+    : m_shape(std::make_shared<shape>(shape_obj)),
+      m_bbox(std::make_shared<aabb>())
+  {
+    this->m_affine.matrix() = IDENTITY_MAT4;
+    this->resize(size);
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   void
   shell::resize(
     size_t size
@@ -320,6 +334,16 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  void
+  shell::transform(
+    mat4 const & pose
+  )
+  {
+    this->transform(affine(pose));
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   affine const &
   shell::transformation(void)
     const
-- 
2.43.0


From bb0d28ab94d11dd00f7a1e3871d18f512caa11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 43/48] fix: refuse negative vertex and edge indices of a
 triangle

---
 toolbox/src/triangle.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toolbox/src/triangle.cc b/toolbox/src/triangle.cc
index 9f4439c..8039c4e 100644
--- a/toolbox/src/triangle.cc
+++ b/toolbox/src/triangle.cc
@@ -114,7 +114,7 @@ namespace acme
   {
     #define CMD "acme::triangle::vertex(): "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -130,7 +130,7 @@ namespace acme
   {
     #define CMD "acme::triangle::vertex(): "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -147,7 +147,7 @@ namespace acme
   {
     #define CMD "acme::triangle::operator[]: "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -163,7 +163,7 @@ namespace acme
   {
     #define CMD "acme::triangle::operator[]: "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -189,7 +189,7 @@ namespace acme
   {
     #define CMD "acme::triangle::edge(): "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     if (i == 0)
       {return segment(this->m_vertex[0], this->m_vertex[1]);}
-- 
2.43.0


From ca1cb7d0c2a199b8cbf331ed2f67e566aa58b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:47 +0000
Subject: [PATCH 44/48] fix: MATLAB commands accept matrices of the wrong size

---
 toolbox/src_mex/mex_flat.cc           |  8 ++++----
 toolbox/src_mex/mex_mesh.cc           |  2 +-
 toolbox/src_mex/mex_shell.cc          | 12 ++++++------
 toolbox/src_mex/mex_triangleground.cc |  6 +++---
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 86c4b53..81344ee 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -146,14 +146,14 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_2, rows1, cols1, CMD "error in first input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     ox = matrix1_ptr[0];
     oy = matrix1_ptr[1];
     oz = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_3, rows2, cols2, CMD "error in second input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     nx = matrix2_ptr[0];
     ny = matrix2_ptr[1];
     nz = matrix2_ptr[2];
@@ -203,7 +203,7 @@ do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->origin() = acme::point(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
@@ -239,7 +239,7 @@ do_setNormal(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->normal() = acme::vec3(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 23b77bc..79e4cfb 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -148,7 +148,7 @@ do_new(int nlhs, mxArray *plhs[],
       mwSize rows, cols;
       real_type const *matrix_ptr;
       matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-      UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+      UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
       acme::affine pose;
       pose.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                        matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 79df100..2d01a8d 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -403,7 +403,7 @@ do_translate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   real_type x = matrix_ptr[0];
   real_type y = matrix_ptr[1];
   real_type z = matrix_ptr[2];
@@ -443,7 +443,7 @@ do_rotate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *vector_ptr;
   mwSize           rows, cols;
   vector_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading axis vector");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::vec3 vector(vector_ptr[0], vector_ptr[1], vector_ptr[2]);
   self->rotate(angle, vector);
 #undef CMD
@@ -486,7 +486,7 @@ do_transform(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -540,7 +540,7 @@ do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -638,7 +638,7 @@ do_setupFlat(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -664,7 +664,7 @@ do_setupMesh(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index 7ed1d99..b5abb94 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -169,21 +169,21 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_3, rows1, cols1, CMD "error in reading 3rd input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     x1 = matrix1_ptr[0];
     y1 = matrix1_ptr[1];
     z1 = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_4, rows2, cols2, CMD "error in reading 4th input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     x2 = matrix2_ptr[0];
     y2 = matrix2_ptr[1];
     z2 = matrix2_ptr[2];
     real_type const *matrix3_ptr;
     mwSize           rows3, cols3;
     matrix3_ptr = utils::mex_matrix_pointer(arg_in_5, rows3, cols3, CMD "error in reading 5th input matrix");
-    UTILS_MEX_ASSERT(rows3 == 3 || cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
+    UTILS_MEX_ASSERT(rows3 == 3 && cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
     x3 = matrix3_ptr[0];
     y3 = matrix3_ptr[1];
     z3 = matrix3_ptr[2];
-- 
2.43.0


From 35e0b8cc7ccd921f1ab94819927bc3cd8db32e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:47 +0000
Subject: [PATCH 45/48] fix: MATLAB command 'rotation' returned the transposed
 matrix

---
 toolbox/src_mex/mex_shell.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 2d01a8d..717337d 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -462,13 +462,13 @@ do_rotation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
   acme::mat3   outmat(self->rotation());
   output[0] = outmat(0,0);
-  output[1] = outmat(0,1);
-  output[2] = outmat(0,2);
-  output[3] = outmat(1,0);
+  output[1] = outmat(1,0);
+  output[2] = outmat(2,0);
+  output[3] = outmat(0,1);
   output[4] = outmat(1,1);
-  output[5] = outmat(1,2);
-  output[6] = outmat(2,0);
-  output[7] = outmat(2,1);
+  output[5] = outmat(2,1);
+  output[6] = outmat(0,2);
+  output[7] = outmat(1,2);
   output[8] = outmat(2,2);
 #undef CMD
 }
-- 
2.43.0


From b2b736f8fe31f7bfe0be7a5b50c35ba31ad5337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:58 +0000
Subject: [PATCH 46/48] fix: argument counts of the MATLAB commands
 'checkTransformation' and 'setOrigin'

---
 toolbox/src_mex/mex_flat.cc  | 3 +++
 toolbox/src_mex/mex_shell.cc | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 81344ee..c8ec18b 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -199,6 +199,9 @@ static void
 do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 #define CMD "mex_flat( 'setOrigin', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
   enve::ground::flat *self = DATA_GET(arg_in_1);
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 717337d..873ea6a 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -80,7 +80,7 @@
   "%   OUT = mex_shell( 'rotation', OBJ );                               %\n" \
   "%         mex_shell( 'transform', OBJ, MATRIX );                      %\n" \
   "%   OUT = mex_shell( 'transformation', OBJ );                         %\n" \
-  "%   OUT = mex_shell( 'checkTransformation', OBJ );                    %\n" \
+  "%   OUT = mex_shell( 'checkTransformation', OBJ, MATRIX );            %\n" \
   "%   OUT = mex_shell( 'x', OBJ );                                      %\n" \
   "%   OUT = mex_shell( 'y', OBJ );                                      %\n" \
   "%   OUT = mex_shell( 'z', OBJ );                                      %\n" \
@@ -532,8 +532,8 @@ do_transformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 static void
 do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
-#define CMD "mex_shell( 'checkTransformation', OBJ ): "
-  UTILS_MEX_ASSERT(nrhs == 2, CMD "expected 2 inputs, nrhs = " << nrhs << "\n");
+#define CMD "mex_shell( 'checkTransformation', OBJ, MATRIX ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-- 
2.43.0


From 965b6cee9fc6aa263352a4fed0193c765600764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:58 +0000
Subject: [PATCH 47/48] fix: int8 arguments of MATLAB commands read as
 unsigned, sixteenth output aliased the fifteenth

---
 toolbox/src_mex/mex_utils.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index f1aa19a..61da37d 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -80,7 +80,7 @@
 #define arg_out_12 plhs[12]
 #define arg_out_13 plhs[13]
 #define arg_out_14 plhs[14]
-#define arg_out_15 plhs[14]
+#define arg_out_15 plhs[15]
 #define arg_out_16 plhs[16]
 #define arg_out_17 plhs[17]
 #define arg_out_18 plhs[18]
@@ -199,7 +199,7 @@ namespace utils {
     int64_t res = 0;
     void *ptr = mxGetData(arg);
     switch (category)  {
-      case mxINT8_CLASS:   res = *static_cast<uint8_t*>(ptr); break;
+      case mxINT8_CLASS:   res = *static_cast<int8_t*>(ptr);   break;
       case mxUINT8_CLASS:  res = *static_cast<uint8_t*>(ptr);  break;
       case mxINT16_CLASS:  res = *static_cast<int16_t*>(ptr);  break;
       case mxUINT16_CLASS: res = *static_cast<uint16_t*>(ptr); break;
-- 
2.43.0


From a1ea6bf6a73e84564f5e6d69ffaa8c71c574f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:58 +0000
Subject: [PATCH 48/48] fix: MATLAB command 'load' demanded an output it never
 sets

---
 toolbox/src_mex/mex_mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 79e4cfb..e9139a3 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -285,7 +285,7 @@ do_load(int nlhs, mxArray *plhs[],
 {
 #define CMD "mex_mesh( 'load', OBJ, PATH, [, FRICTION] ): "
   UTILS_MEX_ASSERT(nrhs == 3 || nrhs == 4, CMD "expected 3 or 4 inputs, nrhs = " << nrhs << "\n");
-  UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
   string path = mxArrayToString(arg_in_2);
-- 
2.43.0

