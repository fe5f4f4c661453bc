From 604c952848f2411bd2385e0ccedb3dd2cb26600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 01/72] fix: add missing semicolon after VTKMeshReader
 destructor

UnstructuredMesh.h did not compile because of it.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 5c0f017..d4e8a08 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -21,7 +21,7 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     VTKMeshReader(const MeshElements<MeshDimension, IndexType, Real, Reserve...>&){}
 
-    virtual ~VTKMeshReader() = default
+    virtual ~VTKMeshReader() = default;
 };
 
 
-- 
2.43.0


From 0b8d07fce90d2d575bfaed1813fda8de2598523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 02/72] fix: include <fstream> and <memory> in
 UnstructuredMesh.h

load() and write() use std::ifstream, std::ofstream and std::unique_ptr; with
UNDEBUG defined nothing else includes these headers.
---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 7370697..cb65c99 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -2,6 +2,8 @@
 #define UNSTRUCTUREDMESH_H
 #include "MeshElements/MeshElements.h"
 #include "vector"
+#include <fstream>
+#include <memory>
 #include <type_traits>
 #include "MeshFunctions/MeshFunctions.h"
 #include "MeshIO/MeshReader/FPMAMeshReader.h"
-- 
2.43.0


From fa622116de7da394c782e63d2769a78fe4a357c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 03/72] fix: give ElementIndex a default constructor

Connections and neighborhoods with ORDER_ORIGINAL resize vectors of
ElementIndex and did not compile without it.
---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index c3795e9..6920ab3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -10,6 +10,8 @@ template<unsigned int ElementDimension, typename IndexType = unsigned int>
 struct ElementIndex {
     IndexType index;
 
+    ElementIndex() : index() {}
+
     ElementIndex(const ElementIndex&) = default;
     ElementIndex& operator=(const ElementIndex& rhs){
         index = rhs.index;
-- 
2.43.0


From db95b8a964467bc41274bb5ac1fabe419b6567ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 04/72] fix: make the conversion of ElementIndex to the index
 const

The const overload of MeshElements::getElement did not compile without it.
---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index 6920ab3..3448ea6 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -31,7 +31,7 @@ struct ElementIndex {
         return index == rhs.index;
     }
 
-    operator IndexType() {
+    operator IndexType() const {
         return index;
     }
 
-- 
2.43.0


From 03f8542be020730a437ea48f7d363854c94066e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 05/72] fix: use the right element dimensions in FPMAMeshWriter

The mismatched ElementIndex types made every 3D UnstructuredMesh::write
fail to compile.
---
 .../UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index a018999..4d0d174 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -26,13 +26,13 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
      */
-    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 2> faceVert;
+    MeshDataContainer<std::vector<ElementIndex<0, IndexType>>, 2> faceVert;
 
     /**
      * @brief cellFace<HR>
      * original order of faces
      */
-    MeshDataContainer<std::vector<ElementIndex<3, IndexType>>, 3> cellFace;
+    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 3> cellFace;
 
     /**
      * @brief This funcion return indexes of vertices of a face in correct order
@@ -47,7 +47,7 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
     template<unsigned int ...Reserve>
     void indexFace(MeshElements<3, IndexType, Real, Reserve...>& mesh,
                    typename MeshElements<3, IndexType, Real, Reserve...>::Face& face,
-                   std::vector<ElementIndex<3, IndexType>>& verticesIndexed){
+                   std::vector<ElementIndex<0, IndexType>>& verticesIndexed){
 
         // export the face in "left" direction see VTK export
         IndexType startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
-- 
2.43.0


From c64d37727d66ce1833e74c119a0fdcb18a242dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 06/72] fix: make SubelementContainer::removeSubelement compile

Both variants failed to compile; the static one also wrote behind the last
subelement.
---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 8a74afb..eeb163e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -98,8 +98,8 @@ public:
             for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
                 this->at(i) = this->at(i+1);
             }
-            this->at(numberOfElements) = {INVALID_INDEX(IndexType), false};
             numberOfElements--;
+            this->at(numberOfElements) = INVALID_INDEX(IndexType);
         } else {
             throw(std::runtime_error(
                         "removing index " + std::to_string(atIndex) +
@@ -135,7 +135,7 @@ public:
     }
 
     void removeSubelement(unsigned char atIndex){
-        this->erase(atIndex);
+        this->erase(this->begin() + atIndex);
     }
 };
 
-- 
2.43.0


From 0fffc97de6cd24fed6170d1983bac78f0ddc4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 07/72] fix: let UnstructuredMesh::initializeCenters(centers)
 modify the elements

It iterated over const references and did not compile.
---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index cb65c99..c037ceb 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -56,10 +56,10 @@ public:
                            ::Vertex<MeshDimension, Real>,
                            dimensionSeq> &centers)
     {
-        for (const auto &face : this->getFaces()) {
+        for (auto &face : this->getFaces()) {
             face.setCenter(centers[face]);
         }
-        for (const auto &cell : this->getCells()) {
+        for (auto &cell : this->getCells()) {
             cell.setCenter(centers[cell]);
         }
     }
-- 
2.43.0


From a2711c07b925265caf2382a7d578861488d1f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 08/72] fix: compute 3D face normals in the Real type of the
 mesh

The sign was always a double, so meshes with Real = float did not compile.
---
 src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
index 50f44e6..05afedd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
@@ -26,7 +26,7 @@ struct _ComputeNormals{
                         const MeshElements<MeshDimension, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
@@ -82,7 +82,7 @@ struct _ComputeNormals<3, Method>{
                         const MeshElements<3, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
-- 
2.43.0


From 876c856a2fa0bc48c2556b564e723b338444cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 09/72] fix: write meshes with any index and real type

UnstructuredMesh::write instantiated the writers for size_t and double
only, so it did not compile for other meshes.
---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index c037ceb..84d733c 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -375,13 +375,13 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
         if (checkExtension(filePath, ".fpma")){
             DBGMSG("file recognized as FPMA");
-            writer_ptr = std::make_unique<FPMAMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<FPMAMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
@@ -412,13 +412,13 @@ public:
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension>)){
+            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (!checkExtension(filePath, ".vtk")){
                     DBGMSG("The writer type and file name does not match!");
                     writer = write(filePath, cellTypes, dataHeader);
                 } else {
                     DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension>*>(writer.get());
+                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     writer_loc->writeHeader(file, dataHeader);
                     if (cellTypes.template getDataByPos<0>().size() == 0) {
                         MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
@@ -429,13 +429,13 @@ public:
                 }
             }
 
-            else if (typeid (*writer.get()).hash_code() == typeid (FPMAMeshWriter<MeshDimension>).hash_code()){
+            else if (typeid (*writer.get()).hash_code() == typeid (FPMAMeshWriter<MeshDimension, IndexType, Real>).hash_code()){
                 if (!checkExtension(filePath, ".fpma")){
                     DBGMSG("The writer type and file name does not match!");
                     writer = write(filePath, cellTypes, dataHeader);
                 } else {
                     DBGMSG("writer recognized as FPMA");
-                    auto reader = dynamic_cast<FPMAMeshWriter<MeshDimension>*>(writer.get());
+                    auto reader = dynamic_cast<FPMAMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     reader->writeToStream(file, *this);
                 }
             }
@@ -463,7 +463,7 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
@@ -489,10 +489,10 @@ public:
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension>)){
+            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (checkExtension(filePath, ".vtk")){
                     DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension>*>(writer.get());
+                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     writer_loc->writeHeader(file, dataHeader);
                     if (cellTypes.template getDataByPos<0>().size() == 0) {
                         MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
-- 
2.43.0


From 958b1e0920f05f9508edeaa28a2bc12c26021e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 10/72] fix: clear the mesh before loading it from FPMA

Loading into a mesh that already held elements kept its edges and the
old subelements and cell indexes of its faces.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 415ad17..0a3d861 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -156,6 +156,8 @@ public:
     void loadFromStream(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         ist.seekg(ist.beg);
 
+        mesh.clear();
+
         loadVertices(ist, mesh);
 
         loadFaces(ist, mesh);
-- 
2.43.0


From a3b0a428a0a68d12ac8678c30b2e2fdfb15a48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 11/72] fix: clear the boundary cells with the rest of the mesh

After clear() and a reload, setupBoundaryCells appended to the stale
boundary cells, whose faces no longer existed.
---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 69dcc8d..e475ca9 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -157,6 +157,7 @@ public:
      */
     void clear() {
         _ClearMesh<Dimension>::clear(*this);
+        BoundaryCells.clear();
     }
 
     void appendBoundaryCell(IndexType cellIndex, IndexType faceIndex){
-- 
2.43.0


From c6be3a6b985d602076043b4dfc5547df3d304903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 12/72] fix: orient the exported VTK cells consistently

When the first edge of the base face was not left oriented and the cell
was the right cell of the face, the vertices were written in the opposite
orientation, i.e. the exported cell was inverted.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 1e1b92b..2e5d032 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -242,7 +242,7 @@ public:
 
         IndexType startVertex = INVALID_INDEX(IndexType);
         IndexType nextVertex = INVALID_INDEX(IndexType);
-        if (faceEdgeOri[face][0] == true && cell.getIndex() == face.getCellLeftIndex()){ // the edge is left to the face
+        if (faceEdgeOri[face][0] == (cell.getIndex() == face.getCellLeftIndex())){ // the edge is left to the face wrt the cell
             startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
             nextVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexAIndex();
         } else {
-- 
2.43.0


From 603880b859a045277c2de4fcb130c958dd2c3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 13/72] fix: initialize lastHash in VTKMeshWriter<2> and
 FPMAMeshWriter

The indeterminate value may equal the hash of the mesh (e.g. a writer
declared in a loop body finds the value left by the previous one); the mesh
was then not indexed and the file was written without the cells.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h | 2 +-
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index 4d0d174..90cdb57 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -21,7 +21,7 @@ template<typename IndexType, typename Real>
 class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
 
      using writer = MeshWriter<3>;
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 2e5d032..9bc640c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -36,7 +36,7 @@ private:
      * @brief lastHash<HR>
      * The hash of the last written mesh.
      */
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief cellVert<HR>
      * Vertices of all cells in correct order for vtk export.
-- 
2.43.0


From 7df2e5724c0b3e09320bc578c137d1a73a988262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 14/72] fix: reindex the exported mesh when the cell types
 change

VTKMeshWriter<3> reused the index of the previous export even if it was
made for other cell types, e.g. a tessellated export after a native one.
---
 .../MeshIO/MeshWriter/VTKMeshWriter.h               | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 9bc640c..32b0e90 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -209,6 +209,12 @@ public:
     MeshDataContainer<std::vector<IndexType>, 3> cellVert;
     MeshDataContainer<typename writer::elementType::ElementType, 3> cellTypes;
 
+    /**
+     * @brief lastCellTypes<HR>
+     * The cell types the mesh was last indexed with.
+     */
+    std::vector<typename writer::elementType::ElementType> lastCellTypes;
+
     /**
      * @brief totalNumberOfWrittenElements<HR>
      * Information required by VTK format.
@@ -585,12 +591,13 @@ DBGMSG("indexing mesh");
                        MeshDataContainer<typename writer::elementType::ElementType, 3> cellTypes){
         // create index of mesh if the mesh has changed
         size_t curHash = writer::computeHash(mesh);
-        // if the mesh is not the same as it was,
-        // then update the index
-        if (lastHash != curHash){
+        // if the mesh or the types of its cells are not the same
+        // as they were, then update the index
+        if (lastHash != curHash || lastCellTypes != cellTypes.template getDataByPos<0>()){
             indexMesh(mesh, cellTypes);
         }
         lastHash = curHash;
+        lastCellTypes = cellTypes.template getDataByPos<0>();
 
 
         // first write verices
-- 
2.43.0


From fefc76d95ae177082a0078474cf91d06fa304865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 15/72] fix: make the mesh signature depend on the order of
 subelements and on faces

The signature of a mesh with dynamic subelements was an exclusive or of
the subelement indexes (indexes occurring twice cancel out) and ignored the
cells of the faces. A writer reused for such a changed mesh exported the
cells of the previous one.
---
 .../MeshElements/MeshElements.h               | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index e475ca9..d1d6d34 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -198,6 +198,24 @@ public:
      */
 private:
 
+    static void combineHash(size_t& hash, size_t value) {
+        hash ^= value + 0x9e3779b9 + (hash << 6) + (hash >> 2);
+    }
+
+    // Hash of the properties that only the boundary elements of cells have
+    static void hashBoundaryElement(size_t&, const emptyStruct&) {}
+
+    static void hashBoundaryElement(size_t& hash, const Face& face) {
+        std::hash<IndexType> indexHasher;
+        combineHash(hash, indexHasher(face.getCellLeftIndex()));
+        combineHash(hash, indexHasher(face.getCellRightIndex()));
+        combineHash(hash, indexHasher(face.getNextBElemWRTCL()));
+        combineHash(hash, indexHasher(face.getNextBElemWRTCR()));
+        for (unsigned int i = 0; i < Dimension; i++) {
+            combineHash(hash, std::hash<Real>()(face.getCenter()[i]));
+        }
+    }
+
     template<unsigned int Dim = Dimension, typename Void = void>
     struct HashOfMeshElements{
 
@@ -209,9 +227,11 @@ private:
             // Hash of generic element eg. face
             size_t elemHash = mesh.getElements<Dim>().size();
             for(auto& element : mesh.getElements<Dim>()) {
+                combineHash(elemHash, element.getSubelements().size());
                 for (auto& subElement : element.getSubelements()) {
-                    elemHash ^= indexHasher(subElement);
+                    combineHash(elemHash, indexHasher(subElement));
                 }
+                hashBoundaryElement(elemHash, element);
             }
             return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
         }
-- 
2.43.0


From ab3ea2ffe642e52f5ce150b27545e917e981192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 16/72] fix: throw the exception about an unsupported cell type
 in VTKMeshReader

The exception was constructed, but not thrown.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index d4e8a08..9caef0f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -141,7 +141,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
@@ -420,7 +420,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
-- 
2.43.0


From f73ac5ab966dcdccfa0e36454c05ac9926ad726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 17/72] fix: update the mesh signature after loading a 2D VTK
 mesh

The signature stayed indeterminate, unlike after loading a 3D mesh.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 9caef0f..4cf653a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -188,6 +188,7 @@ public:
             loadCellTypes(ist, mesh);
         }
 
+        mesh.updateSignature();
     }
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
-- 
2.43.0


From 47939ac099c3413b65569a5c1c4c3f3d75fceda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 18/72] fix: use the tessellated computation of cell measures
 when it is chosen

computeElementMeasures<METHOD_TESSELLATED> dropped the method on the way to
the cells, so the volumes of cells with nonplanar faces were wrong.
---
 .../MeshFunctions/ComputeMeasures.h              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
index 624b2a2..058627c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
@@ -111,7 +111,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, mesh);
     }
 
     template <typename IndexType, typename Real, unsigned int ...Reserve>
@@ -128,7 +128,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, centers, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, centers, mesh);
     }
 };
 
@@ -229,7 +229,7 @@ struct _ComputeMeasures<2, 3, Method>{
             }
             surfaceMeasures.at(faceIndex) = measure;
         }
-        _ComputeMeasures<3, 3>::compute(measures, mesh);
+        _ComputeMeasures<3, 3, Method>::compute(measures, mesh);
     }
 };
 
@@ -248,19 +248,19 @@ struct _ComputeMeasures<3, 3, METHOD_TESSELLATED>{
         auto& cellMeasures = measures.template getDataByDim<3>();
 
         for (IndexType cellIndex = 0; cellIndex < mesh.getCells().size(); cellIndex++) {
-            typename MeshElements<3, IndexType, Real, Reserve...>::template ElementType<3>& cell = mesh.getCells().at(cellIndex);
-            Vertex<3,Real>& cellCenter = cell.getCenter();
+            const auto& cell = mesh.getCells().at(cellIndex);
+            const Vertex<3,Real>& cellCenter = cell.getCenter();
             Real measure = Real();
             MeshApply<3,2>::apply(
                         cellIndex,
                         mesh,
                 [&cellCenter, &cellMeasures, &mesh, &measure](IndexType , IndexType faceIndex){
 
-                Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
+                const Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
 
                 MeshApply<2,1>::apply(faceIndex, mesh, [&](IndexType , IndexType edgeIndex){
-                    Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
-                    Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
+                    const Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
+                    const Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
 
                     std::array<Vertex<3,Real>, 3> pyramidVec = {vertA - faceCenter, vertB - faceCenter, cellCenter - faceCenter};
                     std::array<Real, 3> norms;
-- 
2.43.0


From bfeb75952a6a01539e279445735d68affa3d6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 19/72] fix: orient the cell center difference of a face
 without the left cell

The difference goes from the left to the right cell. With only the right
cell present it went the other way round, unlike after setupBoundaryCells.
---
 .../MeshFunctions/ComputeCellsCenterDifference.h                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
index ce8bbf0..ba6aa46 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
@@ -24,7 +24,7 @@ MeshDataContainer<Vector<Dimension, Real>, Dimension - 1> computeCellsCenterDiff
                 connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellLeftIndex()).getCenter();
 
             } else if (isInvalidIndex(face.getCellLeftIndex()) && !isInvalidIndex(face.getCellRightIndex())) {
-                connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellRightIndex()).getCenter();
+                connectingLines.at(face) = mesh.getCells().at(face.getCellRightIndex()).getCenter() - face.getCenter();
             }
         }
 
-- 
2.43.0


From c41eaa372c4da1c4ceb2c40f03a42716c71b5b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 20/72] fix: swap the next boundary elements in swapCellsLR of
 boundary elements

After swapping only the cell indexes, walking the boundary of either cell
continued to the next element of the other one.
---
 .../MeshElements/CellBoundaryConnection.h           | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
index 2d75d41..bd608c2 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
@@ -39,6 +39,11 @@ public:
 
     IndexType getNextBElem(IndexType cellIndex) const;
 
+    /**
+     * @brief swaps the left and right cell indexes together with
+     * the next boundary elements with respect to them
+     */
+    void swapCellsLR();
 
 };
 
@@ -172,6 +177,14 @@ IndexType CellBoundaryConnection<IndexType>::getNextBElem(IndexType cellIndex) c
     }
 }
 
+template<typename IndexType>
+void CellBoundaryConnection<IndexType>::swapCellsLR() {
+    CellConnection<IndexType>::swapCellsLR();
+
+    IndexType nextLeft = getNextBElemWRTCR();
+    setNextBElemWRTCR(getNextBElemWRTCL());
+    setNextBElemWRTCL(nextLeft);
+}
 
 
 
-- 
2.43.0


From 7a7455055873011ac53d60ba848cf19513a5d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 21/72] fix: return the result of the subtraction of a
 temporary traited object

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index eb63aad..bb8ab1d 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -206,7 +206,7 @@ typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator-(const TraitT& op1, TraitT&& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<BinaryMinus>::evaluate(op2, op1, op2);
-
+    return op2;
 }
 
 
-- 
2.43.0


From c7d7a3bdb3604411efd074fb8f284d97e0eb63a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 22/72] fix: keep the reading position of BinarySerializer
 valid when its data change

---
 .../BinarySerializer/BinarySerializer.h       | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 38fc76c..fa27baa 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -65,13 +65,16 @@ public:
     template <typename T>
     void read(T& data) {
         resetIteratorIfNotValid();
-        readNext(mDataIterator, data);
+        ByteContainerIterator it = mData.cbegin() + mPosition;
+        readNext(it, data);
+        mPosition = it - mData.cbegin();
     }
 
     template <typename T>
     T read() {
-        resetIteratorIfNotValid();
-        return readNext<T>(mDataIterator);
+        T data;
+        read(data);
+        return data;
     }
 
     template <typename T>
@@ -81,11 +84,11 @@ public:
     }
 
     void resetIterator() {
-        mDataIterator = mData.cbegin();
+        mPosition = 0;
     }
 
     bool isIteratorValid() {
-        return mData.begin() <= mDataIterator && mData.end() > mDataIterator;
+        return mPosition < mData.size();
     }
 
     void resetIteratorIfNotValid() {
@@ -101,7 +104,7 @@ public:
      */
     void clear() {
         mData.clear();
-        mDataIterator = {};
+        resetIterator();
     }
 
     const ByteContainer& getData() {
@@ -128,12 +131,14 @@ public:
             mData.resize(file_size);
             file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
             file.close();
+            resetIterator();
         }
     }
 
 private:
     ByteContainer mData;
-    ByteContainerIterator mDataIterator;
+    /// Position of the next value to be read. It remains valid when the data are reallocated.
+    size_t mPosition = 0;
 };
 
 #include "Serializers/SerializeCustom.h"
-- 
2.43.0


From 99274006320083d0d649f7998f37d73a6660beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 23/72] fix: clear the associative container before its
 deserialization

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 884f637..0894c81 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -38,6 +38,7 @@ struct DeserializeAsociativeMap {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             std::pair<typename T::key_type,typename T::mapped_type> val;
             BinarySerializer::readNext(dataIterator, val);
@@ -53,6 +54,7 @@ struct DeserializeAsociativeSet {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             typename T::key_type val;
             BinarySerializer::readNext(dataIterator, val);
-- 
2.43.0


From 2e8fd29f1707942ee0ceae7a1e642d0e208d9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 24/72] fix: let random coloring accept a mesh without the
 colored elements

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
index 9557cf2..1a74f3c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
@@ -127,6 +127,10 @@ struct _MeshColoring <ColoredDim, ConnectingDim, METHOD_RANDOM, Descend> {
         auto result = _MeshColoring<ColoredDim, ConnectingDim, METHOD_GREEDY>::color(mesh);
 
         // get maximal color index
+        if (result.template getDataByPos<0>().empty()) {
+            return result;
+        }
+
         auto max = std::max_element(result.template getDataByPos<0>().begin(), result.template getDataByPos<0>().end());
 
         unsigned int reserve = *max + 1;
-- 
2.43.0


From 0a770eb871a23661e98d7f819ec4230259fbe439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 25/72] fix: terminate the JSON log exactly once

---
 src/GTMesh/Debug/JSONLogger.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 71c3ff8..3dcbddb 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -41,10 +41,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy();
         firstWrite = true;
         logFile = new std::ofstream(fileName);
         (*logFile) << "{\n\"logs\":[\n";
@@ -57,6 +54,7 @@ public:
 
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
-- 
2.43.0


From 75dd8ccfdaf1f749fc83705670e41cc811c7fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 26/72] fix: terminate the HTML log exactly once

---
 src/GTMesh/Debug/HTMLLogger.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index dc020f0..6536713 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -43,10 +43,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy();
         logFile = new std::ofstream(fileName);
 
 
@@ -58,6 +55,7 @@ public:
             writeEndScritpt();
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
-- 
2.43.0


From 637d5c9c8974f408dfe0e295472f76ca4491e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 27/72] fix: escape the backslashes at the beginning of a file
 name in JSONLogger

---
 src/GTMesh/Debug/JSONLogger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 3dcbddb..8e3eba3 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -150,8 +150,9 @@ public:
     std::string doubleBackSlash(const char * str){
         std::string res = str;
         size_t pos = 0;
-        while((pos = res.find("\\", pos + 2)) != res.npos){
+        while((pos = res.find("\\", pos)) != res.npos){
             res.replace(pos, 1, "\\\\");
+            pos += 2;
         }
         return res;
     }
-- 
2.43.0


From e29b54807dfe3fc4e186071b202648a99eee87a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 28/72] fix: print unsigned int to stdout without the extra d

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 941086e..b3c0644 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -42,7 +42,7 @@ struct PrintExportable {
 
     static void print(const unsigned int& d, ...)
     {
-        printf("%ud", d);
+        printf("%u", d);
     }
 
 
-- 
2.43.0


From aaea974197022015fff16effa555d40c28d864c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 29/72] fix: print long integers to stdout as numbers

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index b3c0644..2b15a1a 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -46,6 +46,17 @@ struct PrintExportable {
     }
 
 
+    static void print(const long& d, ...)
+    {
+        printf("%ld", d);
+    }
+
+    static void print(const unsigned long& d, ...)
+    {
+        printf("%lu", d);
+    }
+
+
     static void print(const long long& d, ...)
     {
         printf("%lld", d);
-- 
2.43.0


From 22fb4518f4bdaf73e5d7dee24ec9018f07ad205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 30/72] fix: pass the function and the file to writeVarC in the
 declared order

---
 src/GTMesh/Debug/Debug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index a843112..682cd3b 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -33,7 +33,7 @@ namespace dbg {
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND(condition, ...) if(condition) DBGVAR(__VA_ARGS__)
 
-#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __FILE__, __func__, FOR_EACH(STRVAR, __VA_ARGS__))
+#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND_STDIO(condition, ...) if(condition) DBGVAR_STDIO(__VA_ARGS__)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
-- 
2.43.0


From 06e1c45ab9bfc662e253176451690c9a6490f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 31/72] fix: pass the arguments of writeMessageC in the
 declared order

---
 src/GTMesh/Debug/ConsoleLogger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index da7eecc..26fd6f0 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -197,8 +197,8 @@ public:
 
     template<typename MSGTYPE, typename... MSGTYPES>
     static void writeMessageC(const char* prefix, int line, const char* funcName, const char* sourceFile, const MSGTYPE& message, const MSGTYPES&... rest) {
-        writeMessageC(prefix, funcName, line, sourceFile, message);
-        writeMessageC(prefix, funcName, line, sourceFile, rest...);
+        writeMessageC(prefix, line, funcName, sourceFile, message);
+        writeMessageC(prefix, line, funcName, sourceFile, rest...);
     }
 
 
-- 
2.43.0


From 1d5461a5c1d73e88628913976458678f125873d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 32/72] fix: reset the identation of ConsoleLogger to its
 default

---
 src/GTMesh/Debug/ConsoleLogger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index 26fd6f0..0609dc1 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -52,7 +52,7 @@ public:
         mOnlyFilename = false; //!< If true then the filename is exported without its path.
         mPrintFunction = true; //!< If true then the name of the function the export is called from is printed.
         mPrintAggregated = true; //!< Prints the information about the origin of the message only once.
-        mIdentation = std::string("...     "); //!< The identation of the single exports when PrintAggregated is true.
+        mIdentation = std::string("||     "); //!< The identation of the single exports when PrintAggregated is true.
     }
 public:
 
-- 
2.43.0


From 5bcfbd1c444f7fd7a942d80ab078c228bb7e8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 33/72] fix: export and import a single DataContainer in VTK
 format

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h            | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 44bccec..a6aa80d 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -150,7 +150,7 @@ public:
 
         std::map<std::string, std::istream::pos_type> dataPositions = indexData(ist);
 
-        readData(ist, data, dataPositions);
+        constexprFor<ReadData, DefaultIOTraits<T>::size()>(ist, data, dataPositions, DefaultIOTraits<T>::getTraits());
     }
     // Search for importable containers
 
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 4cb8086..19e9404 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -226,7 +226,6 @@ public:
         static_assert (HasDefaultIOTraits<type>::value, "The class T must have defined traits for example using macro MAKE_ATTRIBUTE_TRAIT in header Traits.h");
         ost << "CELL_DATA " << writer.getNumberOfCells() << std::endl;
         constexprFor<WriteData, DefaultIOTraits<T>::size()>(ost, data, writer, DefaultIOTraits<T>::getTraits());
-        writeData(ost, data, writer);
     }
 
 private:
-- 
2.43.0


From 1210fd6913a245d4d1c7d33baa815b031b966a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 34/72] fix: read VTK data into more containers

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index a6aa80d..3ef514a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -181,7 +181,7 @@ public:
             using type =
                 typename MeshDataContainer<T, Dimensions...>::template DataContainerType<Index>::type;
 
-            MeshDataIterator<Index - 1, true>::writeToStream(ist, data, dataPositions, tupTraits);
+            MeshDataIterator<Index - 1, true>::readFromStream(ist, data, dataPositions, tupTraits);
 
             constexprFor<ReadData, SelectTraitsWithIODefault<type, TraitsTuple...>::TypeTraits::size()>(
                 ist,
-- 
2.43.0


From c7d35aaec3c98a49e96ca17cbbda13d88e0b0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 35/72] fix: read 2D vectors according to the bound traits

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 3ef514a..4d253a0 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -48,7 +48,7 @@ class VTKMeshDataReader {
                            std::map<std::string, std::istream::pos_type>& dataPositions,
                            const Traits<T, TraitsArgs...>& traits)
         -> typename std::enable_if<
-            IsIndexable<typename DefaultIOTraits<T>::traitsType::template type<Index>>::value &&
+            IsIndexable<typename Traits<T, TraitsArgs...>::template type<Index>>::value &&
             MeshDimension == 2
             >::type
     {
-- 
2.43.0


From 71aaaafb47093870fba0fe14d5f33a8806c4e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 36/72] fix: export tensors under the VTK keyword and import
 them

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 3 ++-
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 4d253a0..fb306a7 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -124,7 +124,8 @@ public:
         while(std::getline(ist, line, '\n')) {
 
             int flag = (line.find("SCALARS")!= line.npos ? 1
-                                                          : line.find("VECTORS") != line.npos ? 2
+                                                          : line.find("VECTORS") != line.npos
+                                                              || line.find("TENSORS") != line.npos ? 2
                                                                                               : 0 );
             if (flag != 0){
                 std::string dataName;
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 19e9404..b87dcd6 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -55,7 +55,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
@@ -149,7 +149,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
-- 
2.43.0


From 9b932426da6d196c478f5a2b1cbe591aeb7f86e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 37/72] fix: include VTKMeshDataWriter with the debug macros
 disabled

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index b87dcd6..4e3acf7 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -5,7 +5,7 @@
 #include "../MeshDataContainer.h"
 #include "../../../Debug/Debug.h"
 #include "../../MeshIO/MeshWriter/VTKMeshWriter.h"
-#include <GTMesh/Debug/Printers/PrintTraitedClass.h>
+#include <GTMesh/Debug/VariableExport.h>
 #include <GTMesh/Utils/ConstexprFor.h>
 
 #include <ostream>
-- 
2.43.0


From b8b8f21b84b4e52c367584e86e86514505091a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 38/72] fix: disable also the stdio debug macros by UNDEBUG

---
 src/GTMesh/Debug/Debug.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index 682cd3b..42cd46a 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -69,10 +69,16 @@ exit(1);}
 
 #define DBGVAR(...)
 
+#define DBGVAR_STDIO(...)
+
+#define DBGVARCOND_STDIO(condition, ...)
+
 #define DBGMSG(...)
 
 #define DBGCHECK
 
+#define DBGCHECK_STDIO
+
 #define DBGTRY(code) code
 
 #define DBGVAR_HTML(...)
-- 
2.43.0


From 8b2b72ada34f314afe4ff52b0c860a9be8382382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 39/72] fix: assign coordinates to vertices with any real type

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index eeb163e..006a3e0 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -187,7 +187,7 @@ public:
 
     }
     MeshElement<MeshDim, 0, IndexType, Real>& operator =(std::initializer_list<Real> l){
-        this->Vertex<MeshDim,double>::operator=(l);
+        this->Vertex<MeshDim, Real>::operator=(l);
         return *this;
     }
 };
-- 
2.43.0


From 8b41ba9045c7aace777ee29eaccf77d9adbbcdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 40/72] fix: refuse the removal of a sub-element at an invalid
 position of a dynamic list too

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 006a3e0..7079e94 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -135,6 +135,13 @@ public:
     }
 
     void removeSubelement(unsigned char atIndex){
+        if (atIndex >= this->size()){
+            throw(std::runtime_error(
+                        "removing index " + std::to_string(atIndex) +
+                        " is greather than number of subelements " + std::to_string(this->size())+ "."
+                        )
+                 );
+        }
         this->erase(this->begin() + atIndex);
     }
 };
-- 
2.43.0


From acf733edcc4368852dd13a735c142ac329fcf6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 41/72] fix: tell apart the appended vertices of small cells in
 VTKMeshWriter

---
 .../MeshIO/MeshWriter/VTKMeshWriter.h                | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 32b0e90..d1f09f7 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -5,6 +5,7 @@
 #include "../../MeshElements/MeshElements.h"
 #include "../../MeshDataContainer/MeshDataContainer.h"
 #include "../../MeshFunctions/MeshFunctions.h"
+#include <array>
 #include <map>
 #include <ostream>
 template<unsigned int MeshDimension, typename IndexType = size_t, typename Real = double>
@@ -427,7 +428,8 @@ DBGMSG("indexing mesh");
         // this is very expensive procedure
         auto faceEdgeOri = edgesOrientation(mesh);
 
-        std::map<std::string, IndexType> appendedVertPos;
+        // positions of the appended vertices according to their coordinates
+        std::map<std::array<Real, 3>, IndexType> appendedVertPos;
 
 
 
@@ -519,9 +521,7 @@ DBGMSG("indexing mesh");
 
                 IndexType tmpFace = cell.getBoundaryElementIndex();
                 IndexType cellCenterIndex = INVALID_INDEX(IndexType);
-                std::string cellCenterKey = std::to_string(cell.getCenter()[0]) +
-                        ";" + std::to_string(cell.getCenter()[1]) +
-                        ";" + std::to_string(cell.getCenter()[2]);
+                std::array<Real, 3> cellCenterKey{{cell.getCenter()[0], cell.getCenter()[1], cell.getCenter()[2]}};
                 auto it = appendedVertPos.find(cellCenterKey);
                 if (it == appendedVertPos.end()) {
                     appendedVertPos[cellCenterKey] = appendedVertices.size() + mesh.getVertices().size();
@@ -540,9 +540,7 @@ DBGMSG("indexing mesh");
                         vertWrit.reserve(4);
                         vertWrit.push_back(edge.getVertexAIndex());
                         vertWrit.push_back(edge.getVertexBIndex());
-                        std::string faceCenterKey = std::to_string(face.getCenter()[0]) +
-                                ";" + std::to_string(face.getCenter()[1]) +
-                                ";" + std::to_string(face.getCenter()[2]);
+                        std::array<Real, 3> faceCenterKey{{face.getCenter()[0], face.getCenter()[1], face.getCenter()[2]}};
                         IndexType faceCenterIndex = INVALID_INDEX(IndexType);
                         auto it = appendedVertPos.find(faceCenterKey);
                         if (it == appendedVertPos.end()) {
-- 
2.43.0


From 0d292ccc326926b140315f0cf528b26da7fc3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 42/72] fix: write and read 2D tensors as the three rows of the
 VTK format

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h   | 10 ++++++++--
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h   |  9 ++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index fb306a7..4f7aa35 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -60,9 +60,15 @@ class VTKMeshDataReader {
         for (IndexType i = 0; i < data.size(); i++) {
             for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
                 ist >> value[j];
+                // skip the third component of the row
+                if (j % MeshDimension == MeshDimension - 1) {
+                    ist >> dummy[0];
+                }
+            }
+            // skip the third row of the tensor
+            if (traits.template getValue<Index>(data.at(i)).size() == MeshDimension * MeshDimension) {
+                ist >> dummy[0] >> dummy[0] >> dummy[0];
             }
-
-            ist >> dummy[0];
 
             traits.template setValue<Index>(data.at(i), value);
         }
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 4e3acf7..2d10a59 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -156,8 +156,15 @@ class VTKMeshDataWriter {
         for (const auto& d : data){
             for(unsigned int j = 0; j < traits.template getValue<Index>(data.at(0)).size(); j++){
                 ost << traits.template getValue<Index>(d)[j] << ' ';
+                // complete the row to three components
+                if (j % MeshDimension == MeshDimension - 1) {
+                    ost << "0.0 ";
+                }
+            }
+            // complete the tensor to three rows
+            if (traits.template getValue<Index>(d).size() == MeshDimension * MeshDimension) {
+                ost << "0.0 0.0 0.0 ";
             }
-            ost << "0.0 ";
         }
     }
 
-- 
2.43.0


From 4d97323e767c0dd76be2e97b82b61e14ad3386e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 43/72] fix: read vectors of integers of 2D data

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h      | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 4f7aa35..70c71f7 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -55,19 +55,21 @@ class VTKMeshDataReader {
 
         ist.seekg(dataPositions[traits.template getName<Index>()]);
 
-        typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
+        typename Traits<T, TraitsArgs...>::template type<Index> value;
+        // the components which complete the value to three dimensions
+        double dummy;
 
         for (IndexType i = 0; i < data.size(); i++) {
             for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
                 ist >> value[j];
                 // skip the third component of the row
                 if (j % MeshDimension == MeshDimension - 1) {
-                    ist >> dummy[0];
+                    ist >> dummy;
                 }
             }
             // skip the third row of the tensor
             if (traits.template getValue<Index>(data.at(i)).size() == MeshDimension * MeshDimension) {
-                ist >> dummy[0] >> dummy[0] >> dummy[0];
+                ist >> dummy >> dummy >> dummy;
             }
 
             traits.template setValue<Index>(data.at(i), value);
-- 
2.43.0


From f1076edb9b046bbdb99f4e53b9308598e5bb1a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 44/72] fix: allocate data containers by another data container

---
 .../UnstructuredMesh/MeshDataContainer/MeshDataContainer.h  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 20e9588..8c6510c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -116,9 +116,9 @@ private:
         allocateMemory<pos + 1>(mesh, initialValue);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
@@ -533,7 +533,7 @@ private:
 
     template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<std::tuple<_DataTypes...>, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
-- 
2.43.0


From bb779e879ac61d258611329bdac3f55cb1ea7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 45/72] fix: access the data of a tuple container by position

---
 .../UnstructuredMesh/MeshDataContainer/MeshDataContainer.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 8c6510c..547fb3c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -619,7 +619,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) {
         return getDataByPos<Pos>();
     }
@@ -635,7 +635,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    const DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    const DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) const {
         return getDataByPos<Pos>();
     }
-- 
2.43.0


From e166a8d6217b5f310618c8298d2cf8d697b937cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 46/72] fix: name the data of a container by the whole number
 of the dimension

---
 .../MeshDataContainerTraits/MeshDataContainerTraits.h        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
index 6bcd7d0..af885e3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
@@ -17,13 +17,14 @@ public:
             int i = 4;
             for (unsigned int mod = 100; mod > 0; mod /= 10){
                 int digit = dim / mod;
-                if (digit > 0) {
+                // only the leading zeros are omitted
+                if (digit > 0 || i > 4 || mod == 1) {
                     name[i] = '0' + char(digit);
                     i++;
                 }
                 dim -= digit * mod;
             }
-            name[i + 1] = '\0';
+            name[i] = '\0';
         }
     };
 
-- 
2.43.0


From 5cbb349d1e33f975a84342fc067dcf69905f038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 47/72] fix: write attributes of objects given by a pointer
 through setter functions

---
 src/GTMesh/Traits/MemberAccess/GetSetAccess.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
index 8e2bb37..9750014 100644
--- a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
+++ b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
@@ -123,7 +123,7 @@ public:
     template<typename typeClass, typename typeValue>
     inline void setValue(typeClass *c, const typeValue &val) const
     {
-        set(c, val);
+        set(*c, val);
     }
 
     template<typename typeClass, typename typeValue>
@@ -150,7 +150,7 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c, val); }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c, val); }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c, val); }
 };
@@ -172,11 +172,11 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c) = val; }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c) = val; }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c) = val; }
 
-    inline auto &getAttr(_typeClass *c) const { return set(c); }
+    inline auto &getAttr(_typeClass *c) const { return set(*c); }
 
     inline auto &getAttr(_typeClass &c) const { return set(c); }
 };
-- 
2.43.0


From 2f8cd6b246f3069e3c19a62a9530d5fc87741a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 48/72] fix: keep the real type in abs of traited classes and
 numbers

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index bb8ab1d..bde8f92 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -720,6 +720,26 @@ operator-(TraitT&& op1) noexcept {
 /// Absolute value
 ///
 
+template <typename T>
+typename std::enable_if<
+    !std::is_class<T>::value && !std::is_unsigned<T>::value,
+    T
+>::type
+abs(const T& arg) noexcept {
+
+    return  std::abs(arg);
+}
+
+template <typename T>
+typename std::enable_if<
+    std::is_unsigned<T>::value,
+    T
+>::type
+abs(const T& arg) noexcept {
+
+    return  arg;
+}
+
 template< typename T1 >
 struct Abs
 {
@@ -753,15 +773,6 @@ abs(TraitT&& op1) noexcept {
 
 
 
-template <typename T>
-typename std::enable_if<
-    !std::is_class<T>::value,
-    T
->::type
-abs(const T& arg) noexcept {
-
-    return  abs(arg);
-}
 
 template <typename T>
 typename std::enable_if<
-- 
2.43.0


From 66019e1e62935e87d1560df010c22e9aa16de935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:44 +0000
Subject: [PATCH 49/72] fix: return the results of operations with temporary
 traited objects by value

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index bde8f92..64176c5 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -365,7 +365,7 @@ struct Pow
 /// Power of traited class to a real number
 ///
 template <typename TraitT, typename Real>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(TraitT&& op1, const Real& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<Pow>::evaluate(op1, op1, op2);
@@ -463,7 +463,7 @@ struct Exp
 /// E to each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 exp(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Exp>::evaluate(op1, op1);
@@ -505,7 +505,7 @@ struct Log
 /// Logarithm of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 log(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Log>::evaluate(op1, op1);
@@ -545,7 +545,7 @@ struct Log2
 /// Logarithm of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 log2(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Log2>::evaluate(op1, op1);
@@ -586,7 +586,7 @@ struct Log10
 /// Logarithm of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 log10(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Log10>::evaluate(op1, op1);
@@ -627,7 +627,7 @@ struct Sqrt
 /// Sqrt of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 sqrt(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Sqrt>::evaluate(op1, op1);
@@ -666,7 +666,7 @@ struct Cbrt
 /// Cbrt of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 cbrt(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Cbrt>::evaluate(op1, op1);
@@ -707,7 +707,7 @@ operator-(const TraitT& op1) noexcept {
 }
 
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator-(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<UnaryMinus>::evaluate(op1, op1);
-- 
2.43.0


From 6d30c1d226919badaa9832d49c478adce451fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 50/72] fix: apply exp, logarithms and cbrt to nested traited
 classes

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 64176c5..366b169 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -450,9 +450,10 @@ pow(const T& array, const Real& p) noexcept {
 template< typename T1 >
 struct Exp
 {
-   static auto evaluate( const T1& a ) -> decltype( std::exp(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::exp(a);
+        using std::exp;
+        return exp(a);
    }
 };
 
@@ -492,9 +493,10 @@ exp(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::log(a);
+        using std::log;
+        return log(a);
    }
 };
 
@@ -532,9 +534,10 @@ log(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log2
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log2(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::log2(a);
+        using std::log2;
+        return log2(a);
    }
 };
 
@@ -573,9 +576,10 @@ log2(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log10
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log10(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::log10(a);
+        using std::log10;
+        return log10(a);
    }
 };
 
@@ -653,9 +657,10 @@ sqrt(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Cbrt
 {
-   static auto evaluate( const T1& a ) -> decltype( std::cbrt(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::cbrt(a);
+        using std::cbrt;
+        return cbrt(a);
    }
 };
 
-- 
2.43.0


From e3703c3f28e8280f6fd2678ea68fcc683dda807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 51/72] fix: compute the power of a number to a traited object

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 366b169..a7a47c4 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -358,6 +358,15 @@ struct Pow
    }
 };
 
+template< typename T1, typename T2 >
+struct PowSwapped
+{
+   static auto evaluate( const T1& a, const T2& b ) -> decltype( pow(b,a) )
+   {
+      return pow(b,a);
+   }
+};
+
 
 
 
@@ -387,7 +396,10 @@ pow(const TraitT& op1, const Real& op2) noexcept {
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, const TraitT& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitT res;
+    TraitsBinaryExpressionProcesor<PowSwapped>::evaluate(res, op2, op1);
+    return res;
 }
 
 
@@ -395,7 +407,10 @@ pow(const Real& op1, const TraitT& op2) noexcept {
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, TraitT&& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitsBinaryExpressionProcesor<PowSwapped>::evaluate(op2, op2, op1);
+
+    return op2;
 }
 
 
-- 
2.43.0


From e4218a93483a3be7dbe2bbfafd53ccf76a158ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 52/72] fix: divide the attributes of traited classes in their
 own type

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index a7a47c4..a33c22a 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -328,11 +328,23 @@ operator*(TraitT&& op1, const TraitT& op2) noexcept {
 /// Division of traited class with a real number
 ///
 
+template< typename T1, typename T2 >
+struct BinarySlash
+{
+   static auto evaluate( const T1& a, const T2& b ) -> decltype( a / b )
+   {
+      return a / b;
+   }
+};
+
+
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(const TraitT& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitT res;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(res, op1, op2);
+    return res;
 }
 
 
@@ -340,7 +352,8 @@ template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(TraitT&& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(op1, op1, op2);
+    return op1;
 }
 
 
-- 
2.43.0


From 9a5f366e1b91eb4fc2ec7a3f9c2b0cf713b882b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 53/72] fix: aggregate arrays of any type in max, min and sum

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index a33c22a..f28e41c 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -947,16 +947,16 @@ public:
     inline static
         auto
         evaluate(const T& array) noexcept {
+        using resType = decltype (evaluate(array[0]));
         if (array.size() > 0){
-            using resType = decltype (evaluate(array[0]));
-            auto res = evaluate(array[0]);
+            resType res = evaluate(array[0]);
             for (decltype (array.size()) index = 1; index < array.size(); index++){
                 res = Operator<resType, resType>::evaluate(res, evaluate(array[index]));
             }
 
             return  res;
         }
-        return 0.0;
+        return resType();
     }
 
 
-- 
2.43.0


From e7290c4923c8f5f9aed8551c626e7353ae989310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 54/72] fix: keep the order of the operands of temporary
 traited objects

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index f28e41c..2a25144 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -145,7 +145,8 @@ template <typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator+(const TraitT& op1, TraitT&& op2) noexcept {
 
-    return op2 += op1;
+    TraitsBinaryExpressionProcesor<BinaryPlus>::evaluate(op2, op1, op2);
+    return op2;
 }
 
 
@@ -159,7 +160,7 @@ operator+(TraitT&& op1, const TraitT& op2) noexcept {
 template <typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator+(TraitT&& op1, TraitT&& op2) noexcept {
-    return op2 += op1;
+    return op1 += op2;
 }
 
 
@@ -314,7 +315,9 @@ operator*(const TraitT& op1, const TraitT& op2) noexcept {
 template <typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator*(const TraitT& op1, TraitT&& op2) noexcept {
-    return operator*=(op2, op1);
+
+    TraitsBinaryExpressionProcesor<BinaryStar>::evaluate(op2, op1, op2);
+    return op2;
 }
 
 template <typename TraitT>
-- 
2.43.0


From 331cd6e326c15d8bec9d77a0496def316fd7efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 55/72] fix: multiply two temporary traited objects

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 2a25144..da655e8 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -326,6 +326,12 @@ operator*(TraitT&& op1, const TraitT& op2) noexcept {
     return operator*=(op1, op2);
 }
 
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator*(TraitT&& op1, TraitT&& op2) noexcept {
+    return operator*=(op1, op2);
+}
+
 
 ///
 /// Division of traited class with a real number
-- 
2.43.0


From f513d62b5fbc87f06f9e0f2326d5a303c1a8d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:35 +0000
Subject: [PATCH 56/72] fix: divide vertices coordinate by coordinate

---
 .../InlineArrayOperations.h                   | 27 +++++++++++++++++++
 src/GTMesh/NumericStaticArray/Vertex.h        |  9 ++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
index 0dde6c7..8a2bb8a 100644
--- a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
+++ b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
@@ -95,5 +95,32 @@ struct inlineMultiplication<1, Real>{
 };
 
 
+template <unsigned int N, typename Real>
+struct inlineDivision{
+    template<typename RealOp>
+    static inline void computation(Real *res, const Real *x, const RealOp& alpha){
+        inlineDivision<N-1, Real>::computation(res, x, alpha);
+        res[N-1] = x[N-1] / alpha;
+    }
+    template<typename RealOp>
+    static inline void computation(Real *x, const RealOp& alpha){
+        inlineDivision<N-1, Real>::computation(x, alpha);
+        x[N-1] /= alpha;
+    }
+};
+
+template <typename Real>
+struct inlineDivision<1, Real>{
+    template<typename RealOp>
+    static inline void computation(Real *res, const Real *x, const RealOp& alpha){
+        res[0] = x[0] / alpha;
+    }
+    template<typename RealOp>
+    static inline void computation(Real *x, const RealOp& alpha){
+        x[0] /= alpha;
+    }
+};
+
+
 
 #endif // INLINE_ARRAY_OPERATIONS_H
diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 4d5f401..9ee84f6 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -133,7 +133,9 @@ Vertex<Dim, Real> operator*(const Real& x, const Vertex<Dim, Real>& vert) {
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real> Vertex<Dim, Real>::operator/(const RealOP& x) const {
-    return this->operator*(RealOP(1.0)/x);
+    Vertex<Dim, Real> res;
+    inlineDivision<Dim, Real>::computation(res.data(), this->data(), x);
+    return res;
 }
 
 
@@ -168,11 +170,12 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
     return *this;
 }
 
-// Subtracts value of coordinates of another Point
+// Divides coordinates by a real number
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator/=(const RealOP& x){
-    this->operator*=(Real(1.0)/x);
+    const RealOP divisor = x; // x can be a coordinate of this vertex
+    inlineDivision<Dim, Real>::computation(this->data(), divisor);
     return *this;
 }
 
-- 
2.43.0


From 21ba508a1873e74184541cf66bce728ac237c78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 57/72] fix: scale vertices and traited objects by their own
 coordinates and attributes

---
 src/GTMesh/NumericStaticArray/Vertex.h              | 3 ++-
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 9ee84f6..76be53a 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -166,7 +166,8 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator-=(const Vertex<Dim, Real>& v){
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
-    inlineMultiplication<Dim, Real>::computation(this->data(), x);
+    const RealOP factor = x; // x can be a coordinate of this vertex
+    inlineMultiplication<Dim, Real>::computation(this->data(), factor);
     return *this;
 }
 
diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index da655e8..6a533c8 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -250,7 +250,8 @@ template <typename TraitT, typename Real>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
 operator*=(TraitT& op1, const Real& op2) noexcept {
 
-    TraitsBinaryExpressionProcesor<BinaryStar>::evaluate(op1, op1, op2);
+    const Real factor = op2; // op2 can be an attribute of op1
+    TraitsBinaryExpressionProcesor<BinaryStar>::evaluate(op1, op1, factor);
 
     return  op1;
 }
-- 
2.43.0


From 18a7777aecc656f830766e75ab8ee6813cf1b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 58/72] fix: compute scalar products in the Real type

---
 src/GTMesh/NumericStaticArray/InlineArrayOperations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
index 8a2bb8a..5ab9775 100644
--- a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
+++ b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
@@ -13,7 +13,7 @@ struct inlineScalarProduct {
 template <typename Real>
 struct inlineScalarProduct<1, Real>
 {
-    static inline double computation(const Real *x, const Real *y){
+    static inline Real computation(const Real *x, const Real *y){
         return x[0] * y[0];
     }
 };
-- 
2.43.0


From c4f1fb0e1fa047b58e052ee36bef0508d3967677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 59/72] fix: do not serialize classes and pointers convertible
 to bool as bool

---
 src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
index b289cf8..cba22af 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
@@ -29,10 +29,6 @@ struct SerializeSimple {
         }
     }
 
-    static void serialize(std::vector<unsigned char>& dataContainer, const bool data){
-        dataContainer.push_back(data ? 1 : 0);
-    }
-
     template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, bool& data){
         switch (*dataIterator) {
-- 
2.43.0


From 4715bb7cbd81f2bd1dfb7474861236b7da32a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 60/72] fix: do not access the first element of an empty
 container when serializing

---
 .../Serializers/SerializeCompactContainer.h               | 4 ++++
 src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h  | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
index c82d814..bc3673c 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
@@ -119,6 +119,10 @@ struct SerializeCompactContainer {
             Interface::CompactContainer<T>::resize(data, size);
         }
 
+        if (size == 0) {
+            return;
+        }
+
         std::memcpy(Interface::CompactContainer<T>::data(data),
                dataIterator.base(),
                size * sizeof(typename Interface::CompactContainer<T>::value_type));
diff --git a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
index dfd96cd..be8c225 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
@@ -37,9 +37,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return size(val) == 0 ? nullptr : &val[0]; }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return size(val) == 0 ? nullptr : &val[0]; }
 };
 
 /**
@@ -67,9 +67,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return size(val) == 0 ? nullptr : &val[0]; }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return size(val) == 0 ? nullptr : &val[0]; }
 };
 }
 
-- 
2.43.0


From 8b7d8dcc6c067579c809aa7769e1fdefeeb9d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 61/72] fix: deserialize resizable sequences without subscript
 operator

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 0894c81..1036ff1 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -14,8 +14,8 @@ struct SerializeIterable {
 
 
 
-    template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
-    static Impl::void_t<decltype(T::resize)>
+    template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value && IsResizable<T>::value && !IsIndexable<T>::value, bool> = true>
+    static void
         deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
-- 
2.43.0


From a82e5358468917373a84bd2471057c683d77ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 62/72] fix: support containers without references to elements
 (std::vector<bool>)

---
 .../Serializers/SerializeIndexable.h          | 23 +++++++++++++++++--
 .../Traits/Interfaces/InterfaceIndexable.h    |  3 ++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
index 101834f..d67a7ee 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
@@ -6,6 +6,25 @@
 
 
 struct SerializeIndexable {
+private:
+    /// Determines whether the container gives access to its elements by reference.
+    template <typename T>
+    using HasElementReference = std::is_reference<decltype(std::declval<T&>()[0])>;
+
+    template <typename T, typename Size, typename ... Args, std::enable_if_t<HasElementReference<T>::value, bool> = true>
+    static void deserializeElement(std::vector<unsigned char>::const_iterator& dataIterator, T& data, const Size& index, const Args&... args) {
+        BinarySerializer::readNext(dataIterator, Interface::Indexable<T>::getElementRef(data, index), args...);
+    }
+
+    /// The elements of std::vector<bool> are accessible only by value.
+    template <typename T, typename Size, typename ... Args, std::enable_if_t<!HasElementReference<T>::value, bool> = true>
+    static void deserializeElement(std::vector<unsigned char>::const_iterator& dataIterator, T& data, const Size& index, const Args&... args) {
+        typename Interface::Indexable<T>::valueType value;
+        BinarySerializer::readNext(dataIterator, value, args...);
+        data[index] = value;
+    }
+
+public:
     template <typename T, typename ..., std::enable_if_t<Interface::Indexable<T>::value, bool> = true>
     static void serialize(std::vector<unsigned char>& dataContainer, const T& data){
 
@@ -39,7 +58,7 @@ struct SerializeIndexable {
         }
 
         for (size_type i = 0; i < size; i++) {
-            BinarySerializer::readNext(dataIterator, Interface::Indexable<T>::getElementRef(data, i));
+            deserializeElement(dataIterator, data, i);
         }
     }
 
@@ -55,7 +74,7 @@ struct SerializeIndexable {
         }
 
         for (size_type i = 0; i < size; i++) {
-            BinarySerializer::readNext(dataIterator, Interface::Indexable<T>::getElementRef(data, i), traits);
+            deserializeElement(dataIterator, data, i, traits);
         }
     }
 
diff --git a/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h b/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
index e50ab5b..d20fb42 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
@@ -22,7 +22,8 @@ struct Indexable<T, std::enable_if_t<::IsIndexable<T>::value>> : public std::tru
 
     static sizeType size(const T &val) { return val.size(); }
 
-    static const valueType& getElement(const T& array, const sizeType& index) {
+    /// The element is returned by value if the container does not provide a reference (std::vector<bool>).
+    static decltype(std::declval<const T &>()[0]) getElement(const T& array, const sizeType& index) {
         return array[index];
     }
 
-- 
2.43.0


From 688765e12a4167d05e323e5a3a46825518a1d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 63/72] fix: deserialize attributes accessed by getter and
 setter

---
 .../Serializers/SerializeTraitedClass.h       | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h b/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
index c7b1bc9..fc36451 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
@@ -29,6 +29,35 @@ protected:
         }
     };
 
+    /// Determines whether the traits provide a reference to the attribute.
+    template<typename TraitsType, size_t Index, typename = void>
+    struct ProvidesReference : public std::true_type {};
+
+    template<typename TraitsType, size_t Index>
+    struct ProvidesReference<TraitsType, Index, Impl::void_t<typename TraitsType::template memRefType<Index>>>
+        : public IsDirectAccess<typename TraitsType::template memRefType<Index>> {};
+
+    template<size_t Index, typename TraitedType, typename TraitsType,
+             std::enable_if_t<ProvidesReference<TraitsType, Index>::value, bool> = true>
+    static void deserializeAttribute(BinarySerializer::ByteContainerIterator &it,
+                                     TraitedType &var,
+                                     const TraitsType &traits)
+    {
+        BinarySerializer::readNext(it, traits.template getAttr<Index>(var));
+    }
+
+    /// Attributes accessible by getter and setter
+    template<size_t Index, typename TraitedType, typename TraitsType,
+             std::enable_if_t<!ProvidesReference<TraitsType, Index>::value, bool> = true>
+    static void deserializeAttribute(BinarySerializer::ByteContainerIterator &it,
+                                     TraitedType &var,
+                                     const TraitsType &traits)
+    {
+        std::decay_t<typename TraitsType::template type<Index>> value = traits.template getValue<Index>(var);
+        BinarySerializer::readNext(it, value);
+        traits.template setValue<Index>(var, value);
+    }
+
     struct TraitedClassBinaryDeserializer
     {
         template<size_t Index, typename TraitedType, typename TraitsType>
@@ -36,7 +65,7 @@ protected:
                          TraitedType &var,
                          const TraitsType &traits)
         {
-            BinarySerializer::readNext(it, traits.template getAttr<Index>(var));
+            deserializeAttribute<Index>(it, var, traits);
         }
 
         template<size_t Index, typename TraitedType, typename TraitsType,  typename ...TupleTraits>
@@ -45,7 +74,7 @@ protected:
                          const TraitsType &traits,
                          const std::tuple<TupleTraits...>& tupleTraits)
         {
-            BinarySerializer::readNext(it, traits.template getAttr<Index>(var));
+            deserializeAttribute<Index>(it, var, traits);
         }
     };
 
-- 
2.43.0


From 5b57a194c92bc799d232b2187b9cd9b7aaf91383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 64/72] fix: report data that could not be written to a file

---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index fa27baa..413da56 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -117,6 +117,9 @@ public:
         if (file) {
             file.write(reinterpret_cast<char *>(mData.data()), mData.size());
             file.close();
+            if (!file) {
+                throw std::runtime_error("unable to write file " + fileName);
+            }
         } else {
             throw std::runtime_error("unable to open file " + fileName);
         }
-- 
2.43.0


From 2c4eaf154d02fddf49c308f8da7b58998a24e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 65/72] fix: print a tuple into any stream, not only into a
 plain std::ostream

---
 src/GTMesh/Debug/VariableExport.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/VariableExport.h b/src/GTMesh/Debug/VariableExport.h
index ddac070..4dcc2a5 100644
--- a/src/GTMesh/Debug/VariableExport.h
+++ b/src/GTMesh/Debug/VariableExport.h
@@ -27,8 +27,10 @@ struct VariableExport {
     static void exportVariable(const T& var);
 
 
+    // a tuple printed to a stream (possibly derived from std::ostream) is not a tuple of traits
     template <typename T, typename ... TraitsTypes>
-    static void exportVariable(const T& var, const std::tuple<TraitsTypes...>&);
+    static std::enable_if_t<!std::is_base_of<std::ostream, T>::value>
+    exportVariable(const T& var, const std::tuple<TraitsTypes...>&);
 
 };
 
@@ -136,7 +138,8 @@ void VariableExport::exportVariable(const T &var)
 
 
 template<typename T, typename ... TraitsTypes>
-void VariableExport::exportVariable(const T &var, const std::tuple<TraitsTypes...>& traitsTuple)
+std::enable_if_t<!std::is_base_of<std::ostream, T>::value>
+VariableExport::exportVariable(const T &var, const std::tuple<TraitsTypes...>& traitsTuple)
 {
     SelectPrinterTraitsTuple< T, std::tuple<TraitsTypes...>,
                               PrintCustom, PrintText, PrintIterable, PrintIndexable, PrintTraitedClass,
-- 
2.43.0


From f1d03e05b81f2d627dd6a61128a55bb78fbea698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 66/72] fix: print character arrays as text and whole strings
 on standard output

---
 src/GTMesh/Debug/Printers/PrintText.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index f143369..a922af2 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -17,9 +17,16 @@ struct PrintText {
         ost << '"' << str << '"';
     }
 
+    template< size_t N >
+    static void print(std::ostream& ost, const char (&str)[N], ...) {
+        ost << '"' << str << '"';
+    }
+
     static void print(const std::string& str, ...)
     {
-        printf("\"%s\"", str.c_str());
+        putchar('"');
+        fwrite(str.data(), 1, str.size(), stdout);
+        putchar('"');
     }
 
 
-- 
2.43.0


From b29ad56f8693fed41a776388f40fe991360ff7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 67/72] fix: print signed and unsigned char on a stream as the
 numbers they are

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 2b15a1a..d8f68f1 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -19,6 +19,14 @@ struct PrintExportable {
         ost << (var == true ? "true" : "false");
     }
 
+    static void print(std::ostream& ost, const signed char& var, ...) {
+        ost << static_cast<int>(var);
+    }
+
+    static void print(std::ostream& ost, const unsigned char& var, ...) {
+        ost << static_cast<int>(var);
+    }
+
     static void print(const double& d, ...)
     {
         printf("%g", d);
-- 
2.43.0


From bc2e1e2526d85c31184fafeff04438c66eb2934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:16 +0000
Subject: [PATCH 68/72] fix: escape the names and files in the strings of HTML
 logs

---
 src/GTMesh/Debug/HTMLLogger.h | 38 +++++++++++++++--------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 6536713..a9f0eb8 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -19,6 +19,18 @@ class HtmlLogger {
 
     inline void writeScript();
     inline void writeEndScritpt();
+
+    /// Escapes the characters having a special meaning in a string of the script.
+    static std::string escape(const std::string& text) {
+        std::string res;
+        for (char c : text) {
+            if (c == '\\' || c == '\'') {
+                res += '\\';
+            }
+            res += c;
+        }
+        return res;
+    }
 public:
     HtmlLogger(){logFile = nullptr;}
 
@@ -90,7 +102,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escape(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         writeVar(line, cppFile, rest...);
@@ -103,7 +115,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escape(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         groupIndex++;
@@ -114,32 +126,14 @@ public:
     template<typename VAR_NAME, typename VAR, typename ... REST>
     void writeVar(int line, const char* cppFile, VAR_NAME name, VAR value, REST ... rest){
 
-        std::string file;
-        int i = 0;
-        while(cppFile[i] != '\0'){
-            if (cppFile[i] == '\\'){
-                file += "\\\\";
-            } else {
-                file += cppFile[i];
-            }
-            i++;
-        }
+        std::string file = escape(cppFile);
         writeVar(line, file, name, value,  rest...);
     }
 
 
     template<typename VAR_NAME, typename VAR>
     void writeVar(int line, const char* cppFile, VAR_NAME name, VAR value){
-        std::string file;
-        int i = 0;
-        while(cppFile[i] != '\0'){
-            if (cppFile[i] == '\\'){
-                file += "\\\\";
-            } else {
-                file += cppFile[i];
-            }
-            i++;
-        }
+        std::string file = escape(cppFile);
         writeVar(line, file, name, value);
     }
 
-- 
2.43.0


From af13caf4b9f0892ab68de2a98cb34af25fd5efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:42 +0000
Subject: [PATCH 69/72] fix: remove sub-elements at positions beyond 255 of the
 list

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 7079e94..13d576e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -93,9 +93,9 @@ public:
         addSubelement(index);
     }
 
-    void removeSubelement(unsigned char atIndex){
+    void removeSubelement(size_t atIndex){
         if (atIndex < numberOfElements){
-            for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
+            for(size_t i = atIndex; i < numberOfElements - 1; i++){
                 this->at(i) = this->at(i+1);
             }
             numberOfElements--;
@@ -134,7 +134,7 @@ public:
         this->push_back(IndexType{index});
     }
 
-    void removeSubelement(unsigned char atIndex){
+    void removeSubelement(size_t atIndex){
         if (atIndex >= this->size()){
             throw(std::runtime_error(
                         "removing index " + std::to_string(atIndex) +
-- 
2.43.0


From e2f003eef2ff15d344c5b4ea5580928db33c4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:01 +0000
Subject: [PATCH 70/72] fix: take only lines of the data section as headings of
 VTK attributes

---
 .../MeshDataIO/VTKMeshDataReader.h             | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 70c71f7..a3b10e4 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -131,14 +131,20 @@ public:
         ist.seekg(ist.beg);
         while(std::getline(ist, line, '\n')) {
 
-            int flag = (line.find("SCALARS")!= line.npos ? 1
-                                                          : line.find("VECTORS") != line.npos
-                                                              || line.find("TENSORS") != line.npos ? 2
-                                                                                              : 0 );
+            std::string keyword;
+            std::stringstream sstream(line);
+            sstream >> keyword;
+
+            if (keyword == "CELL_DATA") { // nothing before belongs to the data
+                dataPositions.clear();
+            }
+
+            int flag = (keyword == "SCALARS" ? 1
+                                             : keyword == "VECTORS"
+                                                 || keyword == "TENSORS" ? 2
+                                                                         : 0 );
             if (flag != 0){
                 std::string dataName;
-                std::stringstream sstream(line);
-                sstream.ignore(9, ' ');
                 sstream >> dataName;
 
                 if (flag == 1) { // scalar quantity found
-- 
2.43.0


From ea4ae7eba534caf574b3747258033b1c56788971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:51 +0000
Subject: [PATCH 71/72] fix: construct the instance of a singleton once when
 threads race

---
 src/GTMesh/Singleton/Singleton.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Singleton/Singleton.h b/src/GTMesh/Singleton/Singleton.h
index aa6e585..e9359b9 100644
--- a/src/GTMesh/Singleton/Singleton.h
+++ b/src/GTMesh/Singleton/Singleton.h
@@ -12,10 +12,9 @@ class Singleton {
     //static_assert (std::is_trivially_constructible<Class>::value, "The class in singleton must be trivially constructible.");
 public:
     static Class& getInstance(){
-        if (p == nullptr) {
-            p = std::unique_ptr<Class>(new Class); // the class must be trivially constructible
-        }
-        return *p;
+        // the initialization of a local static variable is performed once, even when threads race
+        static Class& instance = *(p = std::unique_ptr<Class>(new Class)); // the class must be trivially constructible
+        return instance;
     }
 protected:
     static std::unique_ptr<Class> p;
-- 
2.43.0


From 8e73603b69605be0c98887b7df4b52a8b8eee8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:56 +0000
Subject: [PATCH 72/72] fix: choose the reader by the format of the file, not
 by the names of its folders

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 84d733c..7c73b5c 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -251,14 +251,19 @@ public:
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
 
-        if (filePath.find(".vtk") != filePath.npos){
+        // the last format named by the path is the one of the file,
+        // the others belong to the names of its folders
+        const auto vtkPos = filePath.rfind(".vtk");
+        const auto fpmaPos = filePath.rfind(".fpma");
+
+        if (vtkPos != filePath.npos && (fpmaPos == filePath.npos || fpmaPos < vtkPos)){
             DBGMSG("file recognized as VTK");
             auto reader = new VTKMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
             reader_ptr = retType(reader);
         }
 
-        if (filePath.find(".fpma") != filePath.npos){
+        if (fpmaPos != filePath.npos && (vtkPos == filePath.npos || vtkPos < fpmaPos)){
             DBGMSG("file recognized as FPMA");
             auto reader = new FPMAMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
-- 
2.43.0

