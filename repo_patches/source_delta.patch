From bebbb117ead55b04e4205d9c2d0039473b10649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 01/32] fix: reject an unparsable robot description instead of
 dereferencing null

---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 313ca8c..7d72010 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -19,6 +19,9 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   }
   urdf::ModelInterfaceSharedPtr robot_urdf_interface =
       urdf::parseURDF(xml_string);
+  if (robot_urdf_interface == nullptr) {
+    throw std::runtime_error("failed to parse the robot description");
+  }
 
   // numbering link id
   std::vector<urdf::LinkSharedPtr> links;
-- 
2.43.0


From 9f70491f64d2121433be9c8cab245adfcf81e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 02/32] fix: reject descriptions whose joints do not form a
 tree

---
 urdf_parser/include/urdf_model/model.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/urdf_parser/include/urdf_model/model.h b/urdf_parser/include/urdf_model/model.h
index 8b7ced8..dd9a5e6 100644
--- a/urdf_parser/include/urdf_model/model.h
+++ b/urdf_parser/include/urdf_model/model.h
@@ -137,6 +137,19 @@ public:
           throw ParseError("parent link [" + parent_link_name + "] of joint [" + joint->first + "] not found.  This is not valid according to the URDF spec. Every link you refer to from a joint needs to be explicitly defined in the robot description. To fix this problem you can either remove this joint [" + joint->first + "] from your urdf file, or add \"<link name=\"" + parent_link_name + "\" />\" to your urdf file.");
         }
         
+        // the joints must form a tree: no link has two parents or is its own ancestor
+        if (child_link->getParent())
+        {
+          throw ParseError("link [" + child_link_name + "] has more than one parent joint");
+        }
+        for (LinkSharedPtr ancestor = parent_link; ancestor; ancestor = ancestor->getParent())
+        {
+          if (ancestor == child_link)
+          {
+            throw ParseError("joint [" + joint->first + "] closes a kinematic loop");
+          }
+        }
+
         //set parent link for child link
         child_link->setParent(parent_link);
 
-- 
2.43.0


From c3b0bf21d91937c867be1a605910752ca3e3aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 03/32] fix: do not read past the end of text that stops inside
 a UTF-8 sequence

---
 urdf_parser/tinyxml/tinyxml.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxml.h b/urdf_parser/tinyxml/tinyxml.h
index 23694c6..257d367 100644
--- a/urdf_parser/tinyxml/tinyxml.h
+++ b/urdf_parser/tinyxml/tinyxml.h
@@ -350,10 +350,13 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			// A truncated sequence must not run past the null terminator.
+			int i = 0;
+			for( ; i<*length && p[i]; ++i ) {
 				_value[i] = p[i];
 			}
-			return p + (*length);
+			*length = i;
+			return p + i;
 		}
 		else
 		{
-- 
2.43.0


From 3678782c371d7c6d9fd69287570a76bc44cfdab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 04/32] fix: do not loop forever on a truncated UTF-8 sequence
 when tracking the cursor

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 81b7eae..7f2e18f 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// Truncated sequence at the end of the text.
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From e82ed8d7fb9fd0ec35a6b9851423954fabbed3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 05/32] fix: grow the transform stack when a link is added

---
 src/tinyfk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 7d72010..d0dd461 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -254,6 +254,7 @@ urdf::LinkSharedPtr KinematicModel::add_new_link(const std::string &link_name,
   links_.push_back(new_link);
   links_[parent_id]->child_links.push_back(new_link);
   transform_cache_.extend();
+  transform_stack_ = SizedStack<LinkIdAndTransform>(links_.size());
 
   this->update_rptable(); // set _rptable
 
-- 
2.43.0


From a563d50372e81037983bf808475229b1990589b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 06/32] fix: clear the pose cache in set_joint_angle

---
 include/tinyfk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyfk.hpp b/include/tinyfk.hpp
index e71910f..63ad270 100644
--- a/include/tinyfk.hpp
+++ b/include/tinyfk.hpp
@@ -145,6 +145,7 @@ public: // functions
 
   void set_joint_angle(size_t joint_id, double angle) {
     joint_angles_[joint_id] = angle;
+    this->clear_cache();
   }
 
   urdf::LinkSharedPtr add_new_link(const std::string &link_name,
-- 
2.43.0


From c5c520d34c8e088243ac932cff1d8ca4dfaa3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 07/32] fix: take the orientation of the inertial frame into
 account

---
 src/tinyfk.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index d0dd461..28b30da 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -98,10 +98,8 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
         continue;
       }
       const auto com_dummy_link_name = link->name + "_com";
-      Transform new_link_pose;
-      new_link_pose.position.x = link->inertial->origin.position.x;
-      new_link_pose.position.y = link->inertial->origin.position.y;
-      new_link_pose.position.z = link->inertial->origin.position.z;
+      // the inertia tensor is expressed in the (possibly rotated) inertial frame
+      const Transform new_link_pose = link->inertial->origin;
       const auto new_link =
           this->add_new_link(com_dummy_link_name, link->id, new_link_pose);
       // set new link's inertial as the same as the parent
-- 
2.43.0


From 4b3004eb58da6bd60c59654e06ea0c665d994a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 08/32] fix: treat missing velocity and effort limits as
 unbounded

---
 src/tinyfk.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 28b30da..ddb7cab 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -185,7 +185,9 @@ std::vector<double> KinematicModel::get_joint_velocity_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->velocity;
+    // a continuous joint may come without a limit element
+    limits[i] = joint->limits ? joint->limits->velocity
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
@@ -196,7 +198,9 @@ std::vector<double> KinematicModel::get_joint_effort_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->effort;
+    // a continuous joint may come without a limit element
+    limits[i] = joint->limits ? joint->limits->effort
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
-- 
2.43.0


From 56fa86a6ce4e92ce959f7b92a2539eea7f7cc15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 09/32] fix: keep the quaternion sign when differentiating the
 base rotation

---
 src/kinematics.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/kinematics.cpp b/src/kinematics.cpp
index d837d2d..f84e518 100644
--- a/src/kinematics.cpp
+++ b/src/kinematics.cpp
@@ -224,10 +224,15 @@ KinematicModel::get_jacobian(size_t elink_id,
         jacobian(5, idx_col) = erpy_diff.z / eps;
       }
       if (rot_type == RotationType::XYZW) {
-        jacobian(3, idx_col) = (pose_out.rotation.x - erot.x) / eps;
-        jacobian(4, idx_col) = (pose_out.rotation.y - erot.y) / eps;
-        jacobian(5, idx_col) = (pose_out.rotation.z - erot.z) / eps;
-        jacobian(6, idx_col) = (pose_out.rotation.w - erot.w) / eps;
+        // q and -q are the same rotation: differentiate along the same branch
+        const Rotation &qrot = pose_out.rotation;
+        const double dot = qrot.x * erot.x + qrot.y * erot.y +
+                           qrot.z * erot.z + qrot.w * erot.w;
+        const double sign = (dot < 0.0) ? -1.0 : 1.0;
+        jacobian(3, idx_col) = (sign * qrot.x - erot.x) / eps;
+        jacobian(4, idx_col) = (sign * qrot.y - erot.y) / eps;
+        jacobian(5, idx_col) = (sign * qrot.z - erot.z) / eps;
+        jacobian(6, idx_col) = (sign * qrot.w - erot.w) / eps;
       }
     }
   }
-- 
2.43.0


From 9ea60bb4236312b91ce3e8d9f1031886c39cc2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 10/32] fix: report a read error in load_urdf instead of
 returning part of the file

---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index ddb7cab..53519d6 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -296,6 +296,9 @@ std::string load_urdf(const std::string &urdf_path) {
     std::getline(xml_file, line);
     xml_string += (line + "\n");
   }
+  if (xml_file.bad()) {
+    throw std::runtime_error("failed to read " + urdf_path);
+  }
   xml_file.close();
   return xml_string;
 }
-- 
2.43.0


From b0951796c7dcc7aebfc7f7b905075fb343ae165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 11/32] fix: report a failed fclose when saving a document

---
 urdf_parser/tinyxml/tinyxml.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/urdf_parser/tinyxml/tinyxml.cpp b/urdf_parser/tinyxml/tinyxml.cpp
index 9c161df..0e4a6fb 100644
--- a/urdf_parser/tinyxml/tinyxml.cpp
+++ b/urdf_parser/tinyxml/tinyxml.cpp
@@ -1088,7 +1088,9 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
 	if ( fp )
 	{
 		bool result = SaveFile( fp );
-		fclose( fp );
+		// buffered data is written by fclose, which may fail
+		if ( fclose( fp ) != 0 )
+			result = false;
 		return result;
 	}
 	return false;
-- 
2.43.0


From dae4092f1029a71338e54776b5211657a0aa93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 12/32] fix: export the origin of joints of every type

---
 urdf_parser/src/joint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/joint.cpp b/urdf_parser/src/joint.cpp
index 82b43da..cad11d1 100644
--- a/urdf_parser/src/joint.cpp
+++ b/urdf_parser/src/joint.cpp
@@ -602,7 +602,9 @@ bool exportJoint(Joint &joint, TiXmlElement* xml)
   else if (joint.type == urdf::Joint::FIXED)
     joint_xml->SetAttribute("type", "fixed");
   else
+  {
     //CONSOLE_BRIDGE_logError("ERROR:  Joint [%s] type [%d] is not a defined type.\n",joint.name.c_str(), joint.type);
+  }
 
   // origin
   exportPose(joint.parent_to_joint_origin_transform, joint_xml);
-- 
2.43.0


From f0d8f8807d6f1435632c8afec836d417ac649606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 13/32] fix: write numbers in the classic locale

---
 urdf_parser/src/pose.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/pose.cpp b/urdf_parser/src/pose.cpp
index 2b5961f..01b3dbc 100644
--- a/urdf_parser/src/pose.cpp
+++ b/urdf_parser/src/pose.cpp
@@ -37,6 +37,7 @@
 
 #include <urdf_model/pose.h>
 #include <fstream>
+#include <locale>
 #include <sstream>
 #include <algorithm>
 //#include <console_bridge/console.h>
@@ -48,6 +49,7 @@ namespace urdf_export_helpers {
 std::string values2str(unsigned int count, const double *values, double (*conv)(double))
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     for (unsigned int i = 0 ; i < count ; i++)
     {
         if (i > 0)
-- 
2.43.0


From e7a99cd1589369c315df0dd04f42fc1fdc0ef924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 14/32] fix: do not swallow bad_alloc when parsing a number

---
 urdf_parser/include/urdf_model/utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/include/urdf_model/utils.h b/urdf_parser/include/urdf_model/utils.h
index f9f59c1..12c6717 100644
--- a/urdf_parser/include/urdf_model/utils.h
+++ b/urdf_parser/include/urdf_model/utils.h
@@ -74,6 +74,8 @@ static inline double strToDouble(const char *in)
 {
   std::stringstream ss;
   ss.imbue(std::locale::classic());
+  // do not turn a failed allocation into a malformed number
+  ss.exceptions(std::ios::badbit);
 
   ss << in;
 
-- 
2.43.0


From f0b374954c15542d610daebda96d083592372cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 15/32] fix: clear the pose cache without allocating, so that
 setters cannot leave it stale

---
 include/data_structure.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/data_structure.hpp b/include/data_structure.hpp
index 69bb83a..4de64c8 100644
--- a/include/data_structure.hpp
+++ b/include/data_structure.hpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <vector>
 
 namespace tinyfk {
@@ -29,7 +30,10 @@ public:
     cache_predicate_vector_.push_back(false);
     this->clear();
   }
-  void clear() { cache_predicate_vector_ = std::vector<bool>(cache_size_); }
+  void clear() { // must not fail, so it must not allocate
+    std::fill(cache_predicate_vector_.begin(), cache_predicate_vector_.end(),
+              false);
+  }
 
 private:
   int cache_size_;
-- 
2.43.0


From b301eee4bbcc15385395fb538d23fe748fc3380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 16/32] fix: undo add_new_link when it runs out of memory

---
 src/tinyfk.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 53519d6..37f91c9 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -252,13 +252,22 @@ urdf::LinkSharedPtr KinematicModel::add_new_link(const std::string &link_name,
   new_link->name = link_name;
   new_link->id = link_id;
 
-  link_ids_[link_name] = link_id;
-  links_.push_back(new_link);
-  links_[parent_id]->child_links.push_back(new_link);
-  transform_cache_.extend();
-  transform_stack_ = SizedStack<LinkIdAndTransform>(links_.size());
-
-  this->update_rptable(); // set _rptable
+  auto &siblings = links_[parent_id]->child_links;
+  const size_t n_sibling = siblings.size();
+  try {
+    link_ids_[link_name] = link_id;
+    links_.push_back(new_link);
+    siblings.push_back(new_link);
+    transform_cache_.extend();
+    transform_stack_ = SizedStack<LinkIdAndTransform>(links_.size());
+
+    this->update_rptable(); // set _rptable
+  } catch (...) { // out of memory: leave the model as it was
+    siblings.resize(n_sibling);
+    links_.resize(link_id);
+    link_ids_.erase(link_name);
+    throw;
+  }
 
   return new_link;
 }
@@ -285,7 +294,7 @@ void KinematicModel::update_rptable() {
       }
     }
   }
-  rptable_ = rptable;
+  rptable_ = std::move(rptable);
 }
 
 std::string load_urdf(const std::string &urdf_path) {
-- 
2.43.0


From 011319cf78a8033839af81b70a80ec50fa9c0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 17/32] fix: give a copied model its own links and joints

---
 include/tinyfk.hpp |  8 ++++++++
 src/tinyfk.cpp     | 43 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/include/tinyfk.hpp b/include/tinyfk.hpp
index 63ad270..2849497 100644
--- a/include/tinyfk.hpp
+++ b/include/tinyfk.hpp
@@ -77,6 +77,14 @@ public: // members
 public: // functions
   KinematicModel(const std::string &xml_string);
 
+  KinematicModel(const KinematicModel &other);
+  KinematicModel(KinematicModel &&other) = default;
+  KinematicModel &operator=(const KinematicModel &other) {
+    KinematicModel copied(other);
+    return *this = std::move(copied);
+  }
+  KinematicModel &operator=(KinematicModel &&other) = default;
+
   virtual ~KinematicModel() {}
 
   void set_joint_angles( // this will clear all the cache stored
diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 37f91c9..de4264f 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -114,6 +114,49 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   this->set_base_pose(Transform()); // initial base pose
 }
 
+KinematicModel::KinematicModel(const KinematicModel &other)
+    : robot_urdf_interface_(other.robot_urdf_interface_),
+      root_link_id_(other.root_link_id_), links_(other.links_),
+      link_ids_(other.link_ids_), com_dummy_links_(other.com_dummy_links_),
+      joints_(other.joints_), joint_ids_(other.joint_ids_),
+      joint_angles_(other.joint_angles_), base_pose_(other.base_pose_),
+      rptable_(other.rptable_), num_dof_(other.num_dof_),
+      total_mass_(other.total_mass_), transform_stack_(other.transform_stack_),
+      transform_cache_(other.transform_cache_) {
+  // links and joints refer to each other and change when a link is added, so
+  // the copy needs its own ones
+  std::unordered_map<const urdf::Joint *, urdf::JointSharedPtr> joint_map;
+  for (auto &link : links_) {
+    link = std::make_shared<urdf::Link>(*link);
+    if (link->parent_joint != nullptr) {
+      auto joint = std::make_shared<urdf::Joint>(*link->parent_joint);
+      if (joint->getChildLink() != nullptr) {
+        joint->setChildLink(link);
+      }
+      joint_map[link->parent_joint.get()] = joint;
+      link->parent_joint = joint;
+    }
+  }
+  for (auto &link : links_) {
+    const auto parent = link->getParent();
+    if (parent != nullptr) {
+      link->setParent(links_[parent->id]);
+    }
+    for (auto &child : link->child_links) {
+      child = links_[child->id];
+    }
+    for (auto &joint : link->child_joints) {
+      joint = joint_map.at(joint.get());
+    }
+  }
+  for (auto &link : com_dummy_links_) {
+    link = links_[link->id];
+  }
+  for (auto &joint : joints_) {
+    joint = joint_map.at(joint.get());
+  }
+}
+
 void KinematicModel::set_joint_angles(const std::vector<size_t> &joint_ids,
                                       const std::vector<double> &joint_angles) {
   this->_set_joint_angles(joint_ids, joint_angles);
-- 
2.43.0


From 071eb4f626fbd7ea4cf94b348db7618bef9d8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 18/32] fix: do not snap rotations up to 0.26 degrees away from
 gimbal lock onto it

---
 urdf_parser/include/urdf_model/pose.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/urdf_parser/include/urdf_model/pose.h b/urdf_parser/include/urdf_model/pose.h
index 691a96e..9262254 100644
--- a/urdf_parser/include/urdf_model/pose.h
+++ b/urdf_parser/include/urdf_model/pose.h
@@ -142,11 +142,11 @@ public:
     // Cases derived from https://orbitalstation.wordpress.com/tag/quaternion/
     double sarg = -2 * (this->x*this->z - this->w*this->y);
     const double pi_2 = 1.57079632679489661923;
-    if (sarg <= -0.99999) {
+    if (sarg <= -0.99999999999999) {
       pitch = -pi_2;
       roll  = 0;
       yaw   = 2 * atan2(this->x, -this->y);
-    } else if (sarg >= 0.99999) {
+    } else if (sarg >= 0.99999999999999) {
       pitch = pi_2;
       roll  = 0;
       yaw   = 2 * atan2(-this->x, this->y);
@@ -175,11 +175,11 @@ public:
     const double pi_2 = 1.57079632679489661923;
 
     double roll, pitch, yaw;
-    if (sarg <= -0.99999) {
+    if (sarg <= -0.99999999999999) {
       pitch = -pi_2;
       roll  = 0;
       yaw   = 2 * atan2(this->x, -this->y);
-    } else if (sarg >= 0.99999) {
+    } else if (sarg >= 0.99999999999999) {
       pitch = pi_2;
       roll  = 0;
       yaw   = 2 * atan2(-this->x, this->y);
-- 
2.43.0


From 0788b9123cb3046999b3f74127e9a588304f9ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 19/32] fix: unwrap the roll-pitch-yaw difference when
 differentiating the base rotation

---
 src/kinematics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kinematics.cpp b/src/kinematics.cpp
index f84e518..9ad2643 100644
--- a/src/kinematics.cpp
+++ b/src/kinematics.cpp
@@ -218,7 +218,10 @@ KinematicModel::get_jacobian(size_t elink_id,
       jacobian(2, idx_col) = pos_diff.z / eps;
       if (rot_type == RotationType::RPY) {
         auto erpy_tweaked = pose_out.rotation.getRPY();
-        const auto erpy_diff = erpy_tweaked - erpy;
+        auto erpy_diff = erpy_tweaked - erpy;
+        for (size_t k = 0; k < 3; k++) { // roll and yaw are defined modulo 2 pi
+          erpy_diff[k] = std::remainder(erpy_diff[k], 2 * M_PI);
+        }
         jacobian(3, idx_col) = erpy_diff.x / eps;
         jacobian(4, idx_col) = erpy_diff.y / eps;
         jacobian(5, idx_col) = erpy_diff.z / eps;
-- 
2.43.0


From 38cfac390d2cdf7f0828ee10cc198fc825a04d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 20/32] fix: do not answer centre of mass and inertia queries
 from a stale pose cache

---
 src/wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 663678d..d5b1419 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -135,7 +135,7 @@ public:
     Eigen::MatrixXd coms = Eigen::MatrixXd::Zero(3, n_wp);
     Eigen::MatrixXd J = Eigen::MatrixXd::Zero(3 * n_wp, n_dof);
     for (size_t i = 0; i < n_wp; ++i) {
-      this->_set_joint_angles(joint_ids, qs[i]);
+      this->set_joint_angles(joint_ids, qs[i]);
       if (with_base) {
         auto xyzrpy_begin = std::prev(qs[i].end(), 6);
         set_base_pose(xyzrpy_begin);
@@ -182,7 +182,7 @@ public:
   compute_total_inertia_matrix(const std::vector<double> &q,
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
-    this->_set_joint_angles(joint_ids, q);
+    this->set_joint_angles(joint_ids, q);
     return this->get_total_inertia_matrix();
   }
 
-- 
2.43.0


From 3cb8ffb5eea263ca3bdc765d270f1f155c225e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 21/32] fix: do not inspect the first waypoint of an empty
 batch

---
 src/wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index d5b1419..4e2c149 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -71,7 +71,8 @@ public:
     auto n_joints = joint_ids.size();
     auto n_dof = (with_base ? n_joints + 6 : n_joints);
 
-    if (with_base && (n_joints != joint_angles_sequence[0].size() - 6)) {
+    if (with_base && n_wp > 0 &&
+        (n_joints != joint_angles_sequence[0].size() - 6)) {
       throw std::invalid_argument(
           "dof mismatch!! Probably you forget base's (x, y, theta)");
       // TODO this check try to prevent the potentionally buggy procedure below
-- 
2.43.0


From e46960dac8959bc1a9b768aa72275080e1f51f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 22/32] fix: return one column per input of solve_com_fk for a
 planar base

---
 python/tinyfk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 40376b7..780dd9c 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -193,6 +193,11 @@ class KinematicModel:
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
         )
+        if base_type == BaseType.PLANER:
+            extrac_indices = np.hstack(
+                (np.arange(n_joint), np.array([n_joint, n_joint + 1, n_joint + 5]))
+            )
+            J = J[:, extrac_indices]
         return P, J
 
     def compute_total_inertia_matrix(self, q: np.ndarray, joint_ids: List[int]) -> np.ndarray:
-- 
2.43.0


From deaad261694eaf3d639345da26052ae9236a6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 23/32] fix: do not record rejected calls in the pickling
 history

---
 python/tinyfk/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 780dd9c..88a63b1 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -77,9 +77,6 @@ class KinematicModel:
     def set_q(
         self, joint_ids: List[int], q: np.ndarray, base_type: BaseType = BaseType.FIXED
     ) -> None:
-        args = [joint_ids, q, base_type]
-        self._set_joint_angles_history.append(args)
-
         if base_type == BaseType.PLANER:
             assert len(q) == len(joint_ids) + 3, "{} != {}".format(len(q), len(joint_ids) + 3)
             joint_angles, base_xytheta = q[:-3], q[-3:]
@@ -95,6 +92,9 @@ class KinematicModel:
             assert len(q) == len(joint_ids), "{} != {}".format(len(q), len(joint_ids))
             self._robot.set_joint_angles(joint_ids, q)
 
+        args = [joint_ids, q, base_type]
+        self._set_joint_angles_history.append(args)
+
     def _modify_input_with_3dof_base(self, n_joint, joint_angles_sequence):
         n_seq, n_dof = joint_angles_sequence.shape
         joint_angles_sequence_modified = np.zeros((n_seq, n_dof + 3))
@@ -228,13 +228,13 @@ class KinematicModel:
     def add_new_link(
         self, link_name: str, parent_id: int, position: np.ndarray, rpy: Optional[np.ndarray] = None
     ):
-        args = [link_name, parent_id, position, rpy]
-        self._add_new_link_history.append(args)
-
         if rpy is None:
             rpy = np.zeros(3)
         self._robot.add_new_link(link_name, parent_id, position, rpy)
 
+        args = [link_name, parent_id, position, rpy]
+        self._add_new_link_history.append(args)
+
     def compute_inter_link_sqdists(
         self,
         qs: Union[List[np.ndarray], np.ndarray],
-- 
2.43.0


From 6bd0c7c07892ba00907151ac33c3394b7aa73b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 24/32] fix: copy the caller's arrays into the pickling history

---
 python/tinyfk/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 88a63b1..46ff5a7 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -92,7 +92,7 @@ class KinematicModel:
             assert len(q) == len(joint_ids), "{} != {}".format(len(q), len(joint_ids))
             self._robot.set_joint_angles(joint_ids, q)
 
-        args = [joint_ids, q, base_type]
+        args = [list(joint_ids), np.array(q), base_type]
         self._set_joint_angles_history.append(args)
 
     def _modify_input_with_3dof_base(self, n_joint, joint_angles_sequence):
@@ -232,7 +232,7 @@ class KinematicModel:
             rpy = np.zeros(3)
         self._robot.add_new_link(link_name, parent_id, position, rpy)
 
-        args = [link_name, parent_id, position, rpy]
+        args = [link_name, parent_id, np.array(position), np.array(rpy)]
         self._add_new_link_history.append(args)
 
     def compute_inter_link_sqdists(
-- 
2.43.0


From b24570a6b045fd13b868c8223a493eb19071ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 25/32] fix: keep the history of a restored model so that it
 can be pickled again

---
 python/tinyfk/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 46ff5a7..719b7ca 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -286,10 +286,12 @@ class KinematicModel:
         self.__dict__.update(state)
         self._robot = _tinyfk.RobotModel(self._xml_text)
 
-        for arg in copy.deepcopy(self._add_new_link_history):
+        # replaying records the calls again, in lists not shared with the original
+        self._add_new_link_history = []
+        self._set_joint_angles_history = []
+
+        for arg in copy.deepcopy(state["_add_new_link_history"]):
             self.add_new_link(*arg)
 
-        for arg in copy.deepcopy(self._set_joint_angles_history):
+        for arg in copy.deepcopy(state["_set_joint_angles_history"]):
             self.set_q(*arg)
-        self._add_new_link_history = []
-        self._set_joint_angles_history = []
-- 
2.43.0


From f993a279f4c91ca0d8ceb3baa63ad845b1352290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 26/32] fix: never leave incomplete robot files behind a failed
 or concurrent first import

---
 python/tinyfk/__init__.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 719b7ca..5ad3b53 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -1,5 +1,6 @@
 import copy
 import os
+import tempfile
 from enum import Enum
 from pathlib import Path
 from typing import Any, List, Optional, Tuple, Union
@@ -10,12 +11,15 @@ import numpy as np
 from . import _tinyfk  # type: ignore
 
 _cache_dir = Path("~/.tinyfk").expanduser()
-if not _cache_dir.exists():
-    _cache_dir.mkdir()
-    addr_pr2 = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/pr2.urdf"
-    addr_fetch = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/fetch.urdf"
-    urlretrieve(addr_pr2, os.path.join(_cache_dir, "pr2.urdf"))
-    urlretrieve(addr_fetch, os.path.join(_cache_dir, "fetch.urdf"))
+_cache_dir.mkdir(exist_ok=True)
+for _name in ["pr2.urdf", "fetch.urdf"]:
+    if not (_cache_dir / _name).exists():
+        _addr = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/" + _name
+        # an interrupted download must not leave an incomplete file behind under the final name
+        with tempfile.TemporaryDirectory(dir=_cache_dir) as _tmp_dir:
+            _tmp_path = os.path.join(_tmp_dir, _name)
+            urlretrieve(_addr, _tmp_path)
+            os.replace(_tmp_path, _cache_dir / _name)
 
 
 def pr2_urdfpath():
-- 
2.43.0


From fd5a3d3ad898692c56c91d90e7be98753eb6a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 27/32] fix: set up the Jacobian's relevance table of a robot
 without inertial elements

---
 src/tinyfk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index de4264f..437e155 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -87,6 +87,7 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   num_dof_ = num_dof;
   total_mass_ = total_mass;
   joint_angles_ = joint_angles;
+  this->update_rptable(); // needed even if no link is added below
 
   // add COM of each link as new link
   {
-- 
2.43.0


From 398c093d4687d8dbc9e0237e61fdedb343b981f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 28/32] fix: check the lengths of the vectors given to the
 inertia, distance and action force calls

---
 python/tinyfk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 5ad3b53..2a90da7 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -194,6 +194,7 @@ class KinematicModel:
         if action_link_ids is None:
             action_link_ids = []
             action_forces = []
+        assert action_forces is not None and len(action_forces) == len(action_link_ids)
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
         )
@@ -205,6 +206,7 @@ class KinematicModel:
         return P, J
 
     def compute_total_inertia_matrix(self, q: np.ndarray, joint_ids: List[int]) -> np.ndarray:
+        assert len(q) == len(joint_ids), "{} != {}".format(len(q), len(joint_ids))
         return self._robot.compute_total_inertia_matrix(q, joint_ids)
 
     def get_joint_names(self) -> List[str]:
@@ -249,6 +251,9 @@ class KinematicModel:
         use_cache: bool = False,
     ) -> Tuple[np.ndarray, np.ndarray]:
 
+        n_base_dof = {BaseType.FIXED: 0, BaseType.PLANER: 3, BaseType.FLOATING: 6}[base_type]
+        assert all(len(q) == len(joint_ids) + n_base_dof for q in qs)
+
         if base_type == BaseType.PLANER:
             if isinstance(qs, list):
                 qs = np.array(qs)
-- 
2.43.0


From 64d8145d9425ab8310af0821666db91249790564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 29/32] fix: let set_q check all coordinates before it applies
 any

---
 python/tinyfk/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 2a90da7..b5a4a2f 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -81,6 +81,7 @@ class KinematicModel:
     def set_q(
         self, joint_ids: List[int], q: np.ndarray, base_type: BaseType = BaseType.FIXED
     ) -> None:
+        q = np.array([float(x) for x in q])  # a bad value must not be noticed halfway
         if base_type == BaseType.PLANER:
             assert len(q) == len(joint_ids) + 3, "{} != {}".format(len(q), len(joint_ids) + 3)
             joint_angles, base_xytheta = q[:-3], q[-3:]
@@ -96,7 +97,7 @@ class KinematicModel:
             assert len(q) == len(joint_ids), "{} != {}".format(len(q), len(joint_ids))
             self._robot.set_joint_angles(joint_ids, q)
 
-        args = [list(joint_ids), np.array(q), base_type]
+        args = [list(joint_ids), q, base_type]
         self._set_joint_angles_history.append(args)
 
     def _modify_input_with_3dof_base(self, n_joint, joint_angles_sequence):
-- 
2.43.0


From 39946b20a496ca5d9ca74291f8de8bf518419c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 30/32] fix: report a failed allocation while exporting numbers
 instead of truncating them

---
 urdf_parser/src/pose.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/pose.cpp b/urdf_parser/src/pose.cpp
index 01b3dbc..eae0968 100644
--- a/urdf_parser/src/pose.cpp
+++ b/urdf_parser/src/pose.cpp
@@ -50,6 +50,8 @@ std::string values2str(unsigned int count, const double *values, double (*conv)(
 {
     std::stringstream ss;
     ss.imbue(std::locale::classic());
+    // do not turn a failed allocation into a truncated number
+    ss.exceptions(std::ios::badbit);
     for (unsigned int i = 0 ; i < count ; i++)
     {
         if (i > 0)
-- 
2.43.0


From 370a519e381fdb136c87ffbc4a19f5357137d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 31/32] fix: keep the names of visual and collision elements
 when exporting

---
 urdf_parser/src/link.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urdf_parser/src/link.cpp b/urdf_parser/src/link.cpp
index 009a7e0..61f6301 100644
--- a/urdf_parser/src/link.cpp
+++ b/urdf_parser/src/link.cpp
@@ -615,6 +615,8 @@ bool exportVisual(Visual &vis, TiXmlElement *xml)
   //   <material name="Grey"/>
   // </visual>
   TiXmlElement * visual_xml = new TiXmlElement("visual");
+  if (!vis.name.empty())
+    visual_xml->SetAttribute("name", vis.name);
 
   exportPose(vis.origin, visual_xml);
 
@@ -638,6 +640,8 @@ bool exportCollision(Collision &col, TiXmlElement* xml)
   //   <material name="Grey"/>
   // </collision>
   TiXmlElement * collision_xml = new TiXmlElement("collision");
+  if (!col.name.empty())
+    collision_xml->SetAttribute("name", col.name);
 
   exportPose(col.origin, collision_xml);
 
-- 
2.43.0


From 03d90f41614bbc012e7ef0397c685a83af3345ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 32/32] fix: differentiate by the given base pitch also beyond
 90 degrees

---
 src/wrapper.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 4e2c149..dfd3518 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -6,6 +6,7 @@ tinyfk: https://github.com/HiroIshida/tinyfk
 
 #include "tinyfk.hpp"
 #include <Eigen/Dense>
+#include <cmath>
 #include <pybind11/detail/common.h>
 #include <pybind11/eigen.h>
 #include <pybind11/pybind11.h>
@@ -53,6 +54,13 @@ public:
     return base_vec;
   }
 
+  // get_jacobian derives the base columns for the angles read back from the
+  // base rotation, whose pitch lies within 90 degrees. An input pitch beyond
+  // that stands for the same rotation with its pitch running the other way.
+  static double base_pitch_sign(const std::vector<double> &q) {
+    return std::cos(*std::prev(q.end(), 2)) < 0.0 ? -1.0 : 1.0;
+  }
+
   std::string get_root_link_name() {
     return this->links_[this->root_link_id_]->name;
   }
@@ -118,6 +126,10 @@ public:
           const size_t elink_id = elink_ids[j];
           J.block(head, 0, n_pose_dim, n_dof) =
               this->get_jacobian(elink_id, joint_ids, rot_type, with_base);
+          if (with_base) {
+            J.block(head, n_joints + 4, n_pose_dim, 1) *=
+                base_pitch_sign(joint_angles_sequence[i]);
+          }
         }
       }
     }
@@ -175,6 +187,9 @@ public:
           J.block(3 * i, 0, 3, n_dof) /= vertical_force_sum;
         }
       }
+      if (with_jacobian && with_base) {
+        J.block(3 * i, joint_ids.size() + 4, 3, 1) *= base_pitch_sign(qs[i]);
+      }
     }
     return std::array<Eigen::MatrixXd, 2>{coms.transpose(), J};
   }
@@ -231,6 +246,9 @@ public:
               link_ids2[j], joint_ids, RotationType::IGNORE, with_base);
           const auto grad = 2 * (jac1 - jac2).transpose() * diff_vec;
           grads.block(head, 0, 1, n_joint) = grad.transpose();
+          if (with_base) {
+            grads(head, joint_ids.size() + 4) *= base_pitch_sign(qs[i]);
+          }
         }
       }
     }
-- 
2.43.0

