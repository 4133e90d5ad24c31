From e64a18e91c9e4ea21fcb7469fecc8b390994f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:42 +0000
Subject: [PATCH 01/12] fix: surface anisotropy field lacked mu0 and followed
 the triangle orientation

The right-hand side of Tri::integrales used 2 Ks/dMs, while dMs is a jump of
magnetization in A/m: the field of the surface energy is 2 Ks/(mu0 Ms), and its
sign must not depend on the side the normal points to.
---
 src/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triangle.cpp b/src/triangle.cpp
index 800560b..bb8db61 100644
--- a/src/triangle.cpp
+++ b/src/triangle.cpp
@@ -5,7 +5,7 @@ using namespace Nodes;
 
 void Tri::integrales(Triangle::prm const &params)
     {
-    double Kbis = 2.0*params.Ks / dMs;
+    double Kbis = 2.0*params.Ks / (mu0*std::abs(dMs));  // orientation independent
     
     Eigen::Matrix<double,DIM,NPI> u;
     interpolation(Nodes::get_u<CURRENT>, u);
-- 
2.43.0


From d9c8d052fe15228c1ce340863a7bc701e3849b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 02/12] fix: bounding box of a mesh lying at negative
 coordinates

The maximum search started from the smallest positive double, so the box of a sample entirely
at negative coordinates extended to zero.
---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 3f6eaad..1334beb 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -418,7 +418,7 @@ private:
     /** return the maximum of all nodes coordinate along coord axis */
     inline double maxNodes(const Nodes::index coord /**< [in] */) const
         {
-        return doOnNodes(__DBL_MIN__, coord, [](const double a, const double b)
+        return doOnNodes(-__DBL_MAX__, coord, [](const double a, const double b)
                         { return a > b; });
         }
 
-- 
2.43.0


From 0a728374023562f3e5abe100e61c21eeafef36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 03/12] fix: space dependent applied field of meshes with
 non-magnetic regions

extSpaceField is read at the index of the tetrahedron, but it was filled at the rank of the
tetrahedron among the magnetic ones.
---
 src/mesh.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 6afad41..a772d40 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -376,14 +376,12 @@ double mesh::surface(std::vector<int> &triIndices) const
 
 void mesh::setExtSpaceField()
     {
-    extSpaceField.resize(magTet.size());
-    int k(0);
-    std::for_each(magTet.begin(), magTet.end(), [this,&k](const int idx)
+    extSpaceField.resize(tet.size());
+    std::for_each(magTet.begin(), magTet.end(), [this](const int idx)
         {
         const Tetra::Tet &t = tet[idx];
         Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> pg = t.getPtGauss();
         for(int i=0;i<Tetra::NPI;i++)
-            { extSpaceField[k].col(i) = settings.getFieldSpace(pg.col(i)); }
-        k++;
+            { extSpaceField[idx].col(i) = settings.getFieldSpace(pg.col(i)); }
         });
     }
-- 
2.43.0


From 7d2b10667aa877e62969f072148b8381e84d5eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 04/12] fix: maximum angle in presence of non-magnetic nodes

The nan of a non-magnetic node could end up as the result of the reduction, or hide other edges.
Rounding could also bring a dot product below -1.
---
 src/mesh.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 1334beb..6e74792 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -298,11 +298,14 @@ public:
                 [](const double a, const double b){ return std::min(a, b); },
                 [this](const Edge &edge)
                     {
+                    // magnetization is undefined (nan) on the non-magnetic nodes
+                    if (!magNode[edge.first] || !magNode[edge.second])
+                        { return 1.0; }
                     Eigen::Vector3d m1 = getNode_u(edge.first);
                     Eigen::Vector3d m2 = getNode_u(edge.second);
                     return m1.dot(m2);
                     });
-        return std::acos(min_dot_product);
+        return std::acos(std::max(min_dot_product, -1.0));
         }
 
     /** text file (tsv) writing function for a solution, node indices are zero based
-- 
2.43.0


From 13360ee393201fa752ad73f34087a699945a874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 05/12] fix: spin accumulation system accumulated over the time
 steps

The matrix and the right-hand side were never cleared, so each computation solved the sum of all
the systems since the start.
---
 src/spinAccumulationSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 965e84f..14649a3 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -166,6 +166,8 @@ bool spinAcc::compute(void)
 bool spinAcc::solve(void)
     {
     iter.reset();
+    K.clear();
+    std::fill(L_rhs.begin(), L_rhs.end(), 0);
 
     for (Tetra::Tet &elem : msh->tet)
         {
-- 
2.43.0


From e6b9960907b5179a46f3d179be12f3338393ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 06/12] fix: uninitialized domain wall speed

DW_vz is only set by its setter, which nobody calls, and enters the drift term when recentering.
---
 src/linear_algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_algebra.h b/src/linear_algebra.h
index fa15855..90fa756 100644
--- a/src/linear_algebra.h
+++ b/src/linear_algebra.h
@@ -115,7 +115,7 @@ private:
     const int verbose;
 
     /** speed of the domain wall */
-    double DW_vz;
+    double DW_vz = 0;
 
     /** maximum speed of the magnetization in the whole physical object */
     double v_max;
-- 
2.43.0


From 9df585a880d3dde7247279e6dfad1491cb67eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 07/12] fix: recentering ignored the configured direction

The index of the axis was compared to the characters X, Y and Z, so the recentering was always
along Z.
---
 src/fem.h           |  4 ++--
 src/recentering.cpp | 12 +-----------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index 3d016e9..d9a1f60 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -116,7 +116,7 @@ public:
 
         if (mySets.recenter)
             {
-            direction(Nodes::IDX_Z);
+            direction(mySets.recentering_direction);
             } /* DW propagation direction for recentering */
         }
 
@@ -179,7 +179,7 @@ public:
     */
 
     bool recenter(double thres /**< [in] threshold parameter */,
-                  char recentering_direction /**< [in] X|Y|Z */);
+                  enum Nodes::index idx_dir /**< [in] axis of the recentering */);
 
     /** performs the time integration of the LLG problem, with spin accumulation if any */
     int time_integration(Settings &settings /**< [in] */,
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 76dbb10..8916a7e 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -44,18 +44,8 @@ void Fem::direction(const enum index idx_dir)
     annDeallocPt(queryPt);
     }
 
-bool Fem::recenter(double thres, const char recentering_direction)
+bool Fem::recenter(double thres, const enum index idx_dir)
     {
-    enum index idx_dir;
-
-    switch (recentering_direction)
-        {
-        case 'X': idx_dir = IDX_X; break;
-        case 'Y': idx_dir = IDX_Y; break;
-        case 'Z': idx_dir = IDX_Z; break;
-        default: idx_dir = IDX_Z; break;
-        }
-
     thres = abs(thres);
     double m_i = msh.avg(Nodes::get_u_comp, idx_dir);
     if (fabs(m_i) < thres) return false;
-- 
2.43.0


From 729923b6708c8209918627307ca34f4c988172db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:26 +0000
Subject: [PATCH 08/12] fix: restore every .sol file written by savesol, refuse
 the others

Files with 'nan' (non magnetic nodes) or with spin accumulation columns could not be read back;
incomplete files and files of a larger mesh were accepted.
---
 src/read.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/read.cpp b/src/read.cpp
index 036f451..1dec341 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -1,4 +1,6 @@
+#include <cstdlib>
 #include <fstream>
+#include <sstream>
 #include <algorithm>
 #include <gmsh.h>
 
@@ -196,6 +198,18 @@ void mesh::readTriangles()
         } );// end for_each on entities
     }
 
+/** extract a number from a line of a .sol file, including the "nan" written on the nodes which are
+ * not magnetic: operator>>(double &) would not accept it. Returns false if there is no number. */
+static bool readNumber(std::istringstream &line, double &x)
+    {
+    std::string word;
+    if (!(line >> word))
+        { return false; }
+    char *end;
+    x = strtod(word.c_str(), &end);
+    return *end == '\0';
+    }
+
 double mesh::readSol(bool VERBOSE, const std::string& fileName)
     {
     double t(0);
@@ -231,18 +245,25 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
 
     for (unsigned int i = 0; i < node.size(); i++)
         {
-        double mx,my,mz;
+        Nodes::dataNode &dn = node[node_index[i]].d[Nodes::NEXT];
         unsigned int i_;
-        int node_idx = node_index[i];
-        fin >> i_ >> mx >> my >> mz >> node[node_idx].d[Nodes::NEXT].phi;
-        node[node_idx].d[Nodes::NEXT].u = Eigen::Vector3d(mx,my,mz);
-        if (i != i_)
+        getline(fin, str);
+        std::istringstream line(str);  // the columns after phi, if any, are ignored
+        if (!fin || !(line >> i_) || (i != i_) || !readNumber(line, dn.u[Nodes::IDX_X])
+            || !readNumber(line, dn.u[Nodes::IDX_Y]) || !readNumber(line, dn.u[Nodes::IDX_Z])
+            || !readNumber(line, dn.phi))
             {
             std::cerr << "error: mesh node index mismatch between mesh and input .sol file\n";
             fin.close();
             SYSTEM_ERROR;
             }
         }
+    if (fin >> str)
+        {
+        std::cerr << "error: more nodes in input .sol file than in the mesh\n";
+        fin.close();
+        SYSTEM_ERROR;
+        }
     fin.close();
 
     return t;
-- 
2.43.0


From 7e40243d57fe9d3294d52f5bff6a416c57161176 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:25:41 +0000
Subject: [PATCH 09/12] fix: settings: keep the recentering direction of an
 earlier document

A settings file with a `recentering' section that does not mention the
direction reset it to Z, overriding the user defaults file.
---
 src/settings.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 0ffd9a1..17fc7c1 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -484,14 +484,18 @@ void Settings::read(YAML::Node yaml)
     if (recentering && !recentering.IsNull())
         {
         assign(recenter, recentering["enable"]);
-        std::string direction = recentering["direction"].as<std::string>("Z");
-        if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
-            { error("recentering.direction should be X, Y or Z."); }
-        switch (direction[0])
+        YAML::Node direction_node = recentering["direction"];
+        if (direction_node)
             {
-            case 'X': recentering_direction = IDX_X; break;
-            case 'Y': recentering_direction = IDX_Y; break;
-            case 'Z': recentering_direction = IDX_Z; break;
+            std::string direction = direction_node.as<std::string>();
+            if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
+                { error("recentering.direction should be X, Y or Z."); }
+            switch (direction[0])
+                {
+                case 'X': recentering_direction = IDX_X; break;
+                case 'Y': recentering_direction = IDX_Y; break;
+                case 'Z': recentering_direction = IDX_Z; break;
+                }
             }
         assign(threshold, recentering["threshold"]);
         }  // recentering
-- 
2.43.0


From 251444ba783ff3718a48cb24c7b90a274fd7e5bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:25:41 +0000
Subject: [PATCH 10/12] fix: settings: the last initial magnetization and field
 given are the ones used

A file name read first (e.g. from the user defaults) was still restored
when a later document gave expressions or a function, and toYaml() kept
printing a function that later expressions had replaced.
---
 src/settings.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 17fc7c1..b01b5aa 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -458,10 +458,14 @@ void Settings::read(YAML::Node yaml)
             {
             std::string s_mag = magnetization.as<std::string>();
             if (s_mag.find("function") == std::string::npos || s_mag.find('{') == std::string::npos)
-                { restoreFileName = s_mag; }
+                {
+                restoreFileName = s_mag;
+                sM.clear();
+                }
             else
                 {
                 sM = s_mag;
+                restoreFileName.clear();
                 mag_parser.set_function(sM);
                 }
             }
@@ -473,6 +477,8 @@ void Settings::read(YAML::Node yaml)
             sMy = magnetization[1].as<std::string>();
             sMz = magnetization[2].as<std::string>();
             mag_parser.set_expressions("x,y,z", sMx, sMy, sMz);
+            sM.clear();
+            restoreFileName.clear();
             }
         else
             { error("initial_magnetization should be a file name or a vector of expressions."); }
@@ -517,6 +523,7 @@ void Settings::read(YAML::Node yaml)
             sBy = field[1].as<std::string>();
             sBz = field[2].as<std::string>();
             field_parser.set_expressions("t", sBx, sBy, sBz);
+            sB.clear();
             field_type = RtoR3;
             }
         else
-- 
2.43.0


From 50cc1c1f480ab35fbb237262c6eada1da6f3aeaa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:25:41 +0000
Subject: [PATCH 11/12] fix: settings: make the output of toYaml() readable
 again

The current density was printed under a name the reader ignores, vectors
that are not defined were printed as [nan, nan, nan], which is not valid
YAML for numbers, quotes inside expressions were not escaped, and an
empty list of columns was printed as a missing one.
---
 src/settings.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index b01b5aa..01b2c63 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -84,6 +84,8 @@ static const char *str(const bool x) { return x ? "true" : "false"; }
 // with C++20 we should use std::format
 static const std::string str(Eigen::Vector3d v)
     {
+    if (isnan(v.norm()))
+        { return ""; }  // undefined, i.e. null
     char buffer[100];
     std::sprintf(buffer,"[%g, %g, %g]",v.x(),v.y(),v.z());
     return std::string(buffer);
@@ -159,7 +161,7 @@ void Settings::toYaml()
     std::cout << "  file_basename: " << simName << "\n";
     std::cout << "  evol_time_step: " << time_step << "\n";
     std::cout << "  final_time: " << tf << "\n";
-    std::cout << "  evol_columns:\n";
+    std::cout << "  evol_columns:" << (evol_columns.empty() ? " []" : "") << "\n";
     for (auto it = evol_columns.begin(); it != evol_columns.end(); ++it)
         { std::cout << "    - " << *it << "\n"; }
 
@@ -206,7 +208,7 @@ void Settings::toYaml()
         std::cout << "      Ks: " << it->Ks << "\n";
         if (it->Ks != 0)
             { std::cout << "      uk: " << str(it->uk) << "\n"; }
-        std::cout <<  "      J:";
+        std::cout <<  "      jn:";
         if (isnan(it->jn))
             { std::cout << "\n"; }
         else
@@ -226,7 +228,7 @@ void Settings::toYaml()
     if (!sM.empty())
         { std::cout << str(sM) << "\n"; }
     else if (restoreFileName.empty())
-        { std::cout << "[\"" << sMx << "\", \"" << sMy << "\", \"" << sMz << "\"]\n"; }
+        { std::cout << '[' << str(sMx) << ", " << str(sMy) << ", " << str(sMz) << "]\n"; }
     else
         { std::cout << restoreFileName << "\n"; }
     std::cout << "initial_time:";
@@ -254,7 +256,7 @@ void Settings::toYaml()
     else if (!sB.empty())
         { std::cout << str(sB) << "\n"; }
     else
-        { std::cout << "[\"" << sBx << "\", \"" << sBy << "\", \"" << sBz << "\"]\n"; }
+        { std::cout << '[' << str(sBx) << ", " << str(sBy) << ", " << str(sBz) << "]\n"; }
     std::cout << "spin_accumulation:\n";
     std::cout << "  enable: " << str(spin_acc) << "\n";
     if (spin_acc)
-- 
2.43.0


From 385f13a4db39546859bca938eb8a733cab06d4dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:25:41 +0000
Subject: [PATCH 12/12] fix: settings: build a header without columns or with
 empty metadata

evolMetadata() read out of bounds if evol_columns was empty, and
commonMetadata() took the last character of an empty string.
---
 src/settings.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 01b2c63..0679e40 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -285,7 +285,7 @@ std::ostringstream Settings::commonMetadata() const
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
         {
         std::string value = it->second;
-        if (value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
+        if (!value.empty() && value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
         replace(value, "\n", "\n##  ");  // escape and indent continuation lines
         ss << "## " << it->first << ": " << value << '\n';
         }
@@ -296,9 +296,9 @@ std::string Settings::evolMetadata() const
     {
     std::ostringstream ss = commonMetadata();
     ss << tags::evol::columns << ' ';
-    for (unsigned int i = 0; i < (evol_columns.size() - 1); i++)
-        { ss << evol_columns[i] << '\t'; }
-    ss << evol_columns[evol_columns.size() - 1] << "\n";
+    for (unsigned int i = 0; i < evol_columns.size(); i++)
+        { ss << (i == 0 ? "" : "\t") << evol_columns[i]; }
+    ss << "\n";
     return ss.str();
     }
 
-- 
2.43.0

