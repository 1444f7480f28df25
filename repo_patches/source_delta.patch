From 1413d9e415a3258336cd46bc4a5c332d254ff456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 01/47] fix: count the rows of vertices and faces when writing
 meshes of fewer than four faces

max(shape) gives the number of columns for small meshes, so the headers of GDF
and NAT files announced more faces or vertices than were written.
---
 meshmagick/mmio.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 67679ae..f7895e8 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1500,8 +1500,8 @@ def _build_vtkUnstructuredGrid(vertices, faces):
     
     import vtk
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = np.shape(vertices)[0]
+    nf = np.shape(faces)[0]
 
     vtk_mesh = vtk.vtkUnstructuredGrid()
     vtk_mesh.Allocate(nf, nf)
@@ -1584,8 +1584,8 @@ def write_NAT(filename, vertices, faces):
     
     ofile = open(filename, 'w')
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = np.shape(vertices)[0]
+    nf = np.shape(faces)[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
     ofile.write('%6u%6u\n' % (nv, nf))
@@ -1640,7 +1640,7 @@ def write_GDF(filename, vertices, faces):
         numpy array of the faces' nodes connectivities
     """
 
-    nf = max(np.shape(faces))
+    nf = np.shape(faces)[0]
 
     ofile = open(filename, 'w')
 
-- 
2.43.0


From 71bf3b4585f8faf03b7b13760ac38165c086ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 02/47] fix: use the first-node convention for triangles in
 HAMS .pnl files

Triangles were written as degenerate quadrangles and triangles read from a file
were not recognized as such, since a triangle repeats its first node, not its last.
---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index f7895e8..fa6ab91 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1129,7 +1129,7 @@ def load_PNL(filename, name=None):
             if nb_corners == 3:  # Triangle
                 assert len(data) == 3
                 faces[i, 0:3] = data
-                faces[i, 3] = faces[i, 2]  # Convention for triangles in Meshmagick: repeat last vertex
+                faces[i, 3] = faces[i, 0]  # Convention for triangles in Meshmagick: repeat first vertex
             elif int(nb_corners) == 4:  # Quadrangle
                 assert len(data) == 4
                 faces[i, :] = data
@@ -1807,7 +1807,7 @@ def write_PNL(filename, vertices, faces):
         f.write('   #Start Definition of Node Relations   ! panel_number  number_of_vertices   Vertex1_ID   Vertex2_ID   Vertex3_ID   (Vertex4_ID)\n')
         for i, face in enumerate(faces):
             face = face + 1
-            if face[2] == face[3]:  # Triangle
+            if face[0] == face[3]:  # Triangle
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}\n".format(i+1, 3, *face[:3]))
             else:
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}{:>10}\n".format(i+1, 4, *face))
-- 
2.43.0


From 417510798cb3f08db5bb609c37328b7fe1ba66ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 03/47] fix: do not modify the faces of the caller when writing
 STL files

---
 meshmagick/mmio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index fa6ab91..999514b 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1723,7 +1723,8 @@ def write_STL(filename, vertices, faces):
     new_faces = faces[quads_ids].copy()
     new_faces[:, :3] = new_faces[:, t1]
     new_faces[:, -1] = new_faces[:, 0]
-    
+
+    faces = faces.copy()  # the triangulation must not change the array of the caller
     faces[quads_ids, :3] = faces[:, t2][quads_ids]
     faces[quads_ids, -1] = faces[quads_ids, 0]
 
-- 
2.43.0


From 85314f3c580545baf569bfc2decd00a696a8d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 04/47] fix: stop reading GDF files at the end of the file

A file with fewer coordinates than announced was read in an endless loop.
---
 meshmagick/mmio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 999514b..22fb6bc 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -785,7 +785,10 @@ def load_GDF(filename):
         face_coords = np.zeros((12,), dtype=float)
         
         while n_coords < 12:
-            line = np.array(ifile.readline().split())
+            line = ifile.readline()
+            if not line:
+                raise IOError("Unexpected end of GDF file %s: %u panels are announced" % (filename, nf))
+            line = np.array(line.split())
             face_coords[n_coords:n_coords+len(line)] = line
             n_coords += len(line)
 
-- 
2.43.0


From 77e55571ff16ebfbde91bcf8678efb4341fa1b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 05/47] fix: refuse truncated NAT and NEM files

Missing lines were read as empty nodes or cells and returned as a mesh.
---
 meshmagick/mmio.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 22fb6bc..e1a4344 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -733,6 +733,10 @@ def load_NAT(filename):
     faces = np.array(faces, dtype=int)
 
     ifile.close()
+
+    if vertices.shape != (nv, 3) or faces.shape != (nf, 4):
+        raise IOError("Unexpected end of NAT file %s: %u nodes and %u cells are announced" % (filename, nv, nf))
+
     return vertices, faces-1
 
 
@@ -1090,7 +1094,12 @@ def load_NEM(filename):
         faces.append(list(map(int, ifile.readline().split())))
     faces = np.asarray(faces, dtype=int)
     faces -= 1
-    
+
+    ifile.close()
+
+    if vertices.shape != (nv, 3) or faces.shape != (nf, 4):
+        raise IOError("Unexpected end of NEM file %s: %u nodes and %u cells are announced" % (filename, nv, nf))
+
     return vertices, faces
 
 
-- 
2.43.0


From 42346853dbaf7841f3f61c96d162710d0e590311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 06/47] fix: refuse truncated HST files

The lines preceding the truncation were returned as if they were the whole mesh.
---
 meshmagick/mmio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index e1a4344..8a4fe5d 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -142,6 +142,12 @@ def load_HST(filename):
     pattern_node_section = re.compile(node_section, re.MULTILINE)
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
+    for keyword in ('COORDINATES', 'PANEL'):
+        nb_begin = len(re.findall(r'^\s*%s\b' % keyword, data, re.MULTILINE))
+        nb_end = len(re.findall(r'^\s*END%s\b' % keyword, data, re.MULTILINE))
+        if nb_begin != nb_end:
+            raise IOError("Unexpected end of HST file %s: a %s section is not terminated" % (filename, keyword))
+
     vertices_tmp = []
     vertices = []
     nv = 0
-- 
2.43.0


From cf6a17e8d6ed495ffdb787235f10f190a7465391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 07/47] fix: refuse truncated Diodore DAT files

Element sections without their closing *RETURN were silently dropped.
---
 meshmagick/mmio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 8a4fe5d..48fd1ce 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -244,6 +244,10 @@ def load_DAT(filename):
 
             faces.append(quadrangle)
 
+    nb_sections = len(re.findall(r'ELEMENT\S+(?:T3C000|Q4C000)', data))
+    if not faces or nb_sections != len(triangle_sections) + len(quadrangle_sections):
+        raise IOError("Unexpected end of DAT file %s: an ELEMENT section is missing or not terminated" % filename)
+
     faces = np.array(faces, dtype=int)
     
     return vertices, faces
-- 
2.43.0


From d775b07eb202dd4be519b512b37c5895f9a8ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 08/47] fix: report failures of the VTK writers

The status returned by the XML writers was ignored so that a full disk or a
missing directory went unnoticed.
---
 meshmagick/mmio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 48fd1ce..0f113be 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1406,7 +1406,8 @@ def write_VTU(filename, vertices, faces):
         writer.SetInput(unstructured_grid)
     else:
         writer.SetInputData(unstructured_grid)
-    writer.Write()
+    if not writer.Write():
+        raise IOError("Unable to write file %s" % filename)
 
 
 def write_VTP(filename, vertices, faces):
@@ -1435,7 +1436,8 @@ def write_VTP(filename, vertices, faces):
         writer.SetInput(polydata)
     else:
         writer.SetInputData(polydata)
-    writer.Write()
+    if not writer.Write():
+        raise IOError("Unable to write file %s" % filename)
 
 
 def write_VTK(filename, vertices, faces):
-- 
2.43.0


From f82729324560b6df6b1a6ecbf29b879d6e6fe223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 09/47] fix: report the errors met by the VTK readers

Damaged or truncated VTP, VTU, VTK, OBJ and STL files were returned as partial
or empty meshes, because the readers only emit an event when they fail.
---
 meshmagick/mmio.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 0f113be..767026a 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -494,7 +494,7 @@ def load_VTU(filename):
     from vtk import vtkXMLUnstructuredGridReader
     reader = vtkXMLUnstructuredGridReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -527,7 +527,7 @@ def load_VTP(filename):
     from vtk import vtkXMLPolyDataReader
     reader = vtkXMLPolyDataReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -560,7 +560,7 @@ def load_VTK(filename):
     from vtk import vtkPolyDataReader
     reader = vtkPolyDataReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
@@ -593,13 +593,33 @@ def load_OBJ(filename):
     from vtk import vtkOBJReader
     reader = vtkOBJReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
     vertices, faces = _dump_vtk(vtk_mesh)
     return vertices, faces
 
 
+def _update_vtk_reader(reader, filename):
+    """Internal driver function that runs a VTK reader and raises an IOError if the file could not be read completely.
+
+    The VTK readers do not raise nor set an error code on damaged files, they only emit error events.
+    """
+    errors = []
+
+    def on_error(caller, event):
+        errors.append(event)
+
+    reader.AddObserver('ErrorEvent', on_error)
+    reader.GetExecutive().AddObserver('ErrorEvent', on_error)
+    reader.Update()
+
+    if errors or reader.GetErrorCode() != 0:
+        raise IOError("Unable to read file %s: it is damaged or incomplete" % filename)
+    if reader.GetOutputDataObject(0).GetNumberOfCells() == 0:
+        raise IOError("Unable to read file %s: it contains no face" % filename)
+
+
 def _dump_vtk(vtk_mesh):
     """Internal driver function that uses the VTK library to read VTK polydata or vtk unstructured grid data structures
 
@@ -658,7 +678,7 @@ def load_STL(filename):
 
     reader = vtkSTLReader()
     reader.SetFileName(filename)
-    reader.Update()
+    _update_vtk_reader(reader, filename)
 
     data = reader.GetOutputDataObject(0)
 
-- 
2.43.0


From 75d214cb69eacd35a584940717531cc59459a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 10/47] fix: report every failure while writing VTP and VTU
 files

VTK ignores errors met when the file is closed, and its unstructured grid writer
frees memory twice when the disk gets full. Let python write the document.
---
 meshmagick/mmio.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 767026a..b650ae2 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1401,6 +1401,20 @@ def write_TEC(filename, vertices, faces):
     return 1
 
 
+def _write_vtk_xml(writer, filename):
+    """Internal driver function that runs a VTK XML writer.
+
+    The document is built in memory and then written by python, because the file streams of VTK do not report every
+    failure (e.g. at the closing of the file) and its unstructured grid writer crashes when the disk is full.
+    """
+    writer.WriteToOutputStringOn()
+    if not writer.Write():
+        raise IOError("Unable to write file %s" % filename)
+
+    with open(filename, 'w') as ofile:
+        ofile.write(writer.GetOutputString())
+
+
 def write_VTU(filename, vertices, faces):
     """Writes .vtu file format for the paraview (Kitware (c)) visualisation software.
     
@@ -1419,15 +1433,13 @@ def write_VTU(filename, vertices, faces):
     from vtk import vtkXMLUnstructuredGridWriter, VTK_MAJOR_VERSION
     writer = vtkXMLUnstructuredGridWriter()
     writer.SetDataModeToAscii()
-    writer.SetFileName(filename)
 
     unstructured_grid = _build_vtkUnstructuredGrid(vertices, faces)
     if VTK_MAJOR_VERSION <= 5:
         writer.SetInput(unstructured_grid)
     else:
         writer.SetInputData(unstructured_grid)
-    if not writer.Write():
-        raise IOError("Unable to write file %s" % filename)
+    _write_vtk_xml(writer, filename)
 
 
 def write_VTP(filename, vertices, faces):
@@ -1449,15 +1461,13 @@ def write_VTP(filename, vertices, faces):
     from vtk import vtkXMLPolyDataWriter, VTK_MAJOR_VERSION
     writer = vtkXMLPolyDataWriter()
     writer.SetDataModeToAscii()
-    writer.SetFileName(filename)
 
     polydata = _build_vtkPolyData(vertices, faces)
     if VTK_MAJOR_VERSION <= 5:
         writer.SetInput(polydata)
     else:
         writer.SetInputData(polydata)
-    if not writer.Write():
-        raise IOError("Unable to write file %s" % filename)
+    _write_vtk_xml(writer, filename)
 
 
 def write_VTK(filename, vertices, faces):
-- 
2.43.0


From 88509005e9261122efdefb324db34da888b22022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 11/47] fix: refuse truncated VRML files

The VTK importer crashes, or silently returns nothing, when a node is not terminated.
---
 meshmagick/mmio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index b650ae2..35b358a 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1070,11 +1070,17 @@ def load_WRL(filename):
     _check_file(filename)
     
     # Checking version
-    with open(filename, 'r') as f:
+    with open(filename, 'r', errors='replace') as f:
         line = f.readline()
         ver = re.search(r'#VRML\s+V(\d.\d)', line).group(1)
         if not ver == '2.0':
             raise NotImplementedError('VRML loader only supports VRML 2.0 format (version %s given)' % ver)
+        data = f.read()
+
+    # The VTK importer crashes or ignores shapes on truncated files
+    data = re.sub(r'"(?:[^"\\]|\\.)*"|#.*', '', data)
+    if data.count('{') != data.count('}') or data.count('[') != data.count(']') or '"' in data:
+        raise IOError("Unexpected end of VRML file %s: a node is not terminated" % filename)
 
     importer = vtkVRMLImporter()
     importer.SetFileName(filename)
-- 
2.43.0


From a80d811dd75e140449738470b220e96ee80bbe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 12/47] fix: refuse truncated MSH files

---
 meshmagick/mmio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 35b358a..dabc18f 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -975,6 +975,10 @@ def load_MSH(filename):
     with open(filename, 'r') as file:
         data = file.read()
 
+    for section in ('Nodes', 'Elements'):
+        if not re.search(r'^\$%s\s.*^\$End%s\s*$' % (section, section), data, re.DOTALL | re.MULTILINE):
+            raise IOError("Section $%s is missing or not terminated in file %s" % (section, filename))
+
     version = float(re.search(r'\$MeshFormat\n(\d.\d).*\n\$EndMeshFormat', data, re.DOTALL).groups()[0])
 
     if 2 <= version < 3:
-- 
2.43.0


From 2d314021fffc159939b448249eac9e08ad3d1c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 13/47] fix: refuse truncated STL files

---
 meshmagick/mmio.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index dabc18f..2b7de04 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -676,6 +676,14 @@ def load_STL(filename):
 
     _check_file(filename)
 
+    # The VTK reader accepts truncated files
+    with open(filename, 'rb') as f:
+        content = f.read()
+    nb_facets = int.from_bytes(content[80:84], 'little')
+    if len(content) < 84 + 50 * nb_facets and \
+            not content.rstrip().rpartition(b'\n')[2].lstrip().lower().startswith(b'endsolid'):
+        raise IOError("Unexpected end of STL file %s" % filename)
+
     reader = vtkSTLReader()
     reader.SetFileName(filename)
     _update_vtk_reader(reader, filename)
-- 
2.43.0


From 3e2a17d48820c684f43868fcabb634abc7dc5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 14/47] fix: report read errors of the files given to the VTK
 readers

---
 meshmagick/mmio.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 2b7de04..51dc2b6 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -493,7 +493,7 @@ def load_VTU(filename):
 
     from vtk import vtkXMLUnstructuredGridReader
     reader = vtkXMLUnstructuredGridReader()
-    reader.SetFileName(filename)
+    _set_vtk_input(reader, filename)
     _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
@@ -526,7 +526,7 @@ def load_VTP(filename):
 
     from vtk import vtkXMLPolyDataReader
     reader = vtkXMLPolyDataReader()
-    reader.SetFileName(filename)
+    _set_vtk_input(reader, filename)
     _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
@@ -559,7 +559,7 @@ def load_VTK(filename):
 
     from vtk import vtkPolyDataReader
     reader = vtkPolyDataReader()
-    reader.SetFileName(filename)
+    _set_vtk_input(reader, filename)
     _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
@@ -592,7 +592,7 @@ def load_OBJ(filename):
 
     from vtk import vtkOBJReader
     reader = vtkOBJReader()
-    reader.SetFileName(filename)
+    _set_vtk_input(reader, filename)
     _update_vtk_reader(reader, filename)
     vtk_mesh = reader.GetOutput()
 
@@ -600,6 +600,25 @@ def load_OBJ(filename):
     return vertices, faces
 
 
+def _set_vtk_input(reader, filename):
+    """Internal driver function that gives the content of a file to a VTK reader.
+
+    The VTK readers take read errors for the end of the file, so that the file is read here where they are raised.
+    """
+    if not hasattr(reader, 'SetStream'):  # old VTK versions
+        reader.SetFileName(filename)
+        return
+
+    from vtk import vtkMemoryResourceStream
+    with open(filename, 'rb') as f:
+        content = f.read()
+    stream = vtkMemoryResourceStream()
+    stream.SetBuffer(content, len(content), True)
+    reader.SetStream(stream)
+    if hasattr(reader, 'ReadFromInputStreamOn'):
+        reader.ReadFromInputStreamOn()
+
+
 def _update_vtk_reader(reader, filename):
     """Internal driver function that runs a VTK reader and raises an IOError if the file could not be read completely.
 
@@ -685,7 +704,7 @@ def load_STL(filename):
         raise IOError("Unexpected end of STL file %s" % filename)
 
     reader = vtkSTLReader()
-    reader.SetFileName(filename)
+    _set_vtk_input(reader, filename)
     _update_vtk_reader(reader, filename)
 
     data = reader.GetOutputDataObject(0)
-- 
2.43.0


From e5b791f4812570adf477b24399a6c00c549749b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 15/47] fix: translations and rotations changed arrays handed
 out before, and a failure left a mixed mesh

---
 meshmagick/mesh.py | 62 +++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index c410b32..95fa95b 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -626,16 +626,18 @@ class Mesh(object):
 
     @vertices.setter
     def vertices(self, value):
-        self._vertices = np.asarray(value, dtype=float).copy()
+        vertices = np.asarray(value, dtype=float).copy()
         # self._vertices.setflags(write=False)
         self.__internals__.clear()
+        self._vertices = vertices
         return
 
     @faces.setter
     def faces(self, value):
-        self._faces = np.asarray(value, dtype=int).copy()
+        faces = np.asarray(value, dtype=int).copy()
         # self._faces.setflags(write=False)
         self.__internals__.clear()
+        self._faces = faces
         return
 
     def _faces_properties(self):
@@ -1269,20 +1271,18 @@ class Mesh(object):
         if self.has_surface_integrals():
             self._remove_surface_integrals()
 
-        self._vertices = np.transpose(np.dot(rotmat, self._vertices.copy().T))
+        vertices = np.transpose(np.dot(rotmat, self._vertices.copy().T))
+        internals = self.__internals__.copy()
 
         if self._has_faces_properties():
             # Rotating normals and centers too
             normals = self.__internals__['faces_normals']
             centers = self.__internals__['faces_centers']
-            self.__internals__['faces_normals'] = np.transpose(np.dot(rotmat, normals.T))
-            self.__internals__['faces_centers'] = np.transpose(np.dot(rotmat, centers.T))
-
-        if self.has_surface_integrals():
-            self._remove_surface_integrals()
-
-
+            internals['faces_normals'] = np.transpose(np.dot(rotmat, normals.T))
+            internals['faces_centers'] = np.transpose(np.dot(rotmat, centers.T))
 
+        # The geometry and its properties are replaced together, once everything is computed
+        self._vertices, self.__internals__ = vertices, internals
 
     def translate_x(self, tx):
         """Translates the mesh along the Ox axis.
@@ -1292,18 +1292,18 @@ class Mesh(object):
         tx : float
             Distance
         """
-        vertices = self._vertices
+        vertices = self._vertices.copy()
         vertices[:, 0] += tx
-        self._vertices = vertices
+        internals = self.__internals__.copy()
 
         # Updating properties if any
         if self._has_faces_properties():
-            centers = self.__internals__['faces_centers']
+            centers = self.__internals__['faces_centers'].copy()
             centers[:, 0] += tx
-            self.__internals__['faces_centers'] = centers
+            internals['faces_centers'] = centers
 
-        if self.has_surface_integrals():
-            self._remove_surface_integrals()
+        internals.pop('surface_integrals', None)
+        self._vertices, self.__internals__ = vertices, internals
 
         return
 
@@ -1317,16 +1317,16 @@ class Mesh(object):
         """
         vertices = self._vertices.copy()
         vertices[:, 1] += ty
-        self._vertices = vertices
+        internals = self.__internals__.copy()
 
         # Updating properties if any
         if self._has_faces_properties():
-            centers = self.__internals__['faces_centers']
+            centers = self.__internals__['faces_centers'].copy()
             centers[:, 1] += ty
-            self.__internals__['faces_centers'] = centers
+            internals['faces_centers'] = centers
 
-        if self.has_surface_integrals():
-            self._remove_surface_integrals()
+        internals.pop('surface_integrals', None)
+        self._vertices, self.__internals__ = vertices, internals
 
         return
 
@@ -1340,16 +1340,16 @@ class Mesh(object):
         """
         vertices = self._vertices.copy()
         vertices[:, 2] += tz
-        self._vertices = vertices
+        internals = self.__internals__.copy()
 
         # Updating properties if any
         if self._has_faces_properties():
-            centers = self.__internals__['faces_centers']
+            centers = self.__internals__['faces_centers'].copy()
             centers[:, 2] += tz
-            self.__internals__['faces_centers'] = centers
+            internals['faces_centers'] = centers
 
-        if self.has_surface_integrals():
-            self._remove_surface_integrals()
+        internals.pop('surface_integrals', None)
+        self._vertices, self.__internals__ = vertices, internals
 
         return
 
@@ -1366,18 +1366,18 @@ class Mesh(object):
         V[:, 0] += tx
         V[:, 1] += ty
         V[:, 2] += tz
-        self._vertices = V
+        internals = self.__internals__.copy()
 
         # Updating properties if any
         if self._has_faces_properties():
-            centers = self.__internals__['faces_centers']
+            centers = self.__internals__['faces_centers'].copy()
             centers[:, 0] += tx
             centers[:, 1] += ty
             centers[:, 2] += tz
-            self.__internals__['faces_centers'] = centers
+            internals['faces_centers'] = centers
 
-        if self.has_surface_integrals():
-            self._remove_surface_integrals()
+        internals.pop('surface_integrals', None)
+        self._vertices, self.__internals__ = V, internals
 
         return
 
-- 
2.43.0


From fe7915000d5fe6afc7299b0d3becd85bd434e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 16/47] fix: scaling a mesh kept stale surface integrals

---
 meshmagick/mesh.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 95fa95b..643f335 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1394,10 +1394,9 @@ class Mesh(object):
         # TODO: voir pourquoi il est fait une copie ici...
         vertices = self._vertices.copy()
         vertices *= float(alpha)
-        self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._vertices = vertices
 
         return
 
@@ -1413,10 +1412,9 @@ class Mesh(object):
 
         vertices = self._vertices.copy()
         vertices[:, 0] *= float(alpha)
-        self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._vertices = vertices
 
         return
 
@@ -1432,10 +1430,9 @@ class Mesh(object):
 
         vertices = self._vertices.copy()
         vertices[:, 1] *= float(alpha)
-        self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._vertices = vertices
 
         return
 
@@ -1451,10 +1448,9 @@ class Mesh(object):
 
         vertices = self._vertices.copy()
         vertices[:, 2] *= float(alpha)
-        self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._vertices = vertices
 
         return
 
-- 
2.43.0


From 35f2687e10a514530e812cd9379f5ae3780e4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 17/47] fix: flipping normals kept stale boundaries and
 modified normals handed out before

---
 meshmagick/mesh.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 643f335..8a5f4ea 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1457,14 +1457,11 @@ class Mesh(object):
     def flip_normals(self):
         """Flips every normals of the mesh."""
 
-        faces = self._faces.copy()
-        self._faces = np.fliplr(faces)
+        faces = np.fliplr(self._faces.copy())
 
-        if self._has_faces_properties():
-            self.__internals__['faces_normals'] *= -1
-
-        if self.has_surface_integrals():
-            self._remove_surface_integrals()
+        # Besides normals, flipping changes the orientation of boundaries and the way quadrangles are split
+        self.__internals__.clear()
+        self._faces = faces
 
         return
 
-- 
2.43.0


From f3bb99df69baca7e59328217b72a9c259ac9a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 18/47] fix: merging and healing vertices and faces kept stale
 derived data

---
 meshmagick/mesh.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 8a5f4ea..4e8454b 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1527,8 +1527,9 @@ class Mesh(object):
         nv_init = self.nb_vertices
 
         # Updating mesh data
-        self._vertices = uniq
-        self._faces = new_id[self._faces] # Faces vertices ids are updated here
+        faces = new_id[self._faces] # Faces vertices ids are updated here
+        self.__internals__.clear()
+        self._vertices, self._faces = uniq, faces
 
         nv_final = self.nb_vertices
 
@@ -1542,9 +1543,6 @@ class Mesh(object):
                 print(("\t--> Final number of vertices   : %u" % nv_final))
                 print(("\t--> %u vertices have been merged\n" % delta_n))
 
-        if self._has_connectivity():
-            self._remove_connectivity()
-
         if return_index:
             return new_id
         else:
@@ -1690,6 +1688,8 @@ class Mesh(object):
             faces = new_id__v[faces]
             vertices = vertices[used_v]
 
+        if self._has_connectivity():
+            self._remove_connectivity()
         self._vertices, self._faces = vertices, faces
 
         if self._verbose:
@@ -1701,9 +1701,6 @@ class Mesh(object):
             else:
                 print("\t--> No unused vertices")
 
-        if self._has_connectivity():
-            self._remove_connectivity()
-
         return
 
     def heal_triangles(self):
@@ -1711,10 +1708,7 @@ class Mesh(object):
 
         A general face is stored internally as a 4 integer array. It allows to describe indices of a quadrangle's vertices. For triangles, the first index should be equal to the last. This method ensures that this rule is applied everywhere and correct bad triangles description.
         """
-        if self._has_faces_properties():
-            self._remove_faces_properties()
-
-        faces = self._faces
+        faces = self._faces.copy()
 
         quads = faces[:, 0] != faces[:, -1]
         nquads_init = sum(quads)
@@ -1729,6 +1723,7 @@ class Mesh(object):
         quads = faces[:, 0] != faces[:, -1]
         nquads_final = sum(quads)
 
+        self.__internals__.clear()
         self._faces = faces
 
         if self._verbose:
@@ -1769,11 +1764,9 @@ class Mesh(object):
             else:
                 print('\t--> No degenerated faces')
 
+        self.__internals__.clear()
         self._faces = faces
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
-
         return
 
     def heal_mesh(self):
-- 
2.43.0


From 94e124ff110a7114ea6de46a8d69c3e3205c3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 19/47] fix: heal_normals used stale normals and damaged the
 faces connectivity

---
 meshmagick/mesh.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 4e8454b..f683b92 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1555,12 +1555,12 @@ class Mesh(object):
 
         nv = self.nb_vertices
         nf = self.nb_faces
-        faces = self._faces
+        faces = self._faces.copy()
 
         # Building connectivities
         v_v = self.vv
         v_f = self.vf
-        f_f = self.ff
+        f_f = dict((iface, adj_faces.copy()) for iface, adj_faces in self.ff.items())
         boundaries = self.boundaries
 
         if len(boundaries) > 0:
@@ -1632,15 +1632,17 @@ class Mesh(object):
             else:
                 print("\t--> Normals orientations are consistent")
 
-        self._faces = faces
-
         # Checking if the normals are outward
         if mesh_closed:
             zmax = np.max(self._vertices[:, 2])
 
-            areas = self.faces_areas
-            normals = self.faces_normals
-            centers = self.faces_centers
+            # Properties of the consistently oriented faces
+            healed = copy.copy(self)
+            healed.__internals__ = dict()
+            healed._faces = faces
+            areas = healed.faces_areas
+            normals = healed.faces_normals
+            centers = healed.faces_centers
             # areas, normals, centers = get_all_faces_properties(vertices, faces)
 
             hs = (np.array([(centers[:, 2] - zmax) * areas, ] * 3).T * normals).sum(axis=0)
@@ -1652,7 +1654,7 @@ class Mesh(object):
 
             if hs[2] < 0:
                 flipped = True
-                self.flip_normals()
+                faces = np.fliplr(faces)
             else:
                 flipped = False
 
@@ -1664,8 +1666,8 @@ class Mesh(object):
             if self._verbose:
                 print("\t--> Mesh is not closed, meshmagick cannot test if the normals are outward")
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self.__internals__.clear()
+        self._faces = faces
 
         return
 
-- 
2.43.0


From cf411e8d133ecd445210166089a75b84635b96f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 20/47] fix: heal_mesh, symmetrize, mirror and
 triangulate_quadrangles modified shared arrays and were not atomic

---
 meshmagick/mesh.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index f683b92..cd048fa 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1782,13 +1782,15 @@ class Mesh(object):
         * Triangles healing
         * Normal healing
         """
-        if self._has_faces_properties():
-            self._remove_faces_properties()
-        self.remove_unused_vertices()
-        self.remove_degenerated_faces()
-        self.merge_duplicates()
-        self.heal_triangles()
-        self.heal_normals()
+        # Every step is carried out on a work mesh, so that a failing step leaves the mesh as it was
+        healed = copy.copy(self)
+        healed.__internals__ = dict()
+        healed.remove_unused_vertices()
+        healed.remove_degenerated_faces()
+        healed.merge_duplicates()
+        healed.heal_triangles()
+        healed.heal_normals()
+        self._vertices, self._faces, self.__internals__ = healed._vertices, healed._faces, healed.__internals__
         return
 
     def triangulate_quadrangles(self):
@@ -1806,7 +1808,7 @@ class Mesh(object):
         t1 = (0, 1, 2)
         t2 = (0, 2, 3)
 
-        faces = self._faces
+        faces = self._faces.copy()
 
         # Triangulation
         new_faces = faces[self.quadrangles_ids].copy()
@@ -1843,13 +1845,14 @@ class Mesh(object):
         vertices = np.concatenate((vertices, vertices - 2 * np.outer(np.dot(vertices, plane.normal) - plane.c, plane.normal)))
         faces = np.concatenate((faces, np.fliplr(faces.copy() + self.nb_vertices)))
 
-        self._vertices, self._faces = vertices, faces
-        verbose = self.verbose
-        self.verbose_off()
-        self.merge_duplicates()
-        self.verbose = verbose
+        symmetrized = copy.copy(self)
+        symmetrized.__internals__ = dict()
+        symmetrized._vertices, symmetrized._faces = vertices, faces
+        symmetrized.verbose_off()
+        symmetrized.merge_duplicates()
 
         self.__internals__.clear()
+        self._vertices, self._faces = symmetrized._vertices, symmetrized._faces
 
         return
 
@@ -1861,9 +1864,11 @@ class Mesh(object):
         plane : Plane
             The mirroring plane
         """
-        self._vertices -= 2 * np.outer(np.dot(self._vertices, plane.normal) - plane.c, plane.normal)
-        self.flip_normals()
+        vertices = self._vertices - 2 * np.outer(np.dot(self._vertices, plane.normal) - plane.c, plane.normal)
+        faces = np.fliplr(self._faces.copy())
+
         self.__internals__.clear()
+        self._vertices, self._faces = vertices, faces
         return
 
     def _compute_faces_integrals(self, sum_faces_contrib=False): # TODO: implementer le sum_surface_contrib
-- 
2.43.0


From 55f6f11625859abf7a34018ca2588e3b5052ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 21/47] fix: merge the duplicate nodes of GDF files so that
 their triangles are triangles

Panels given with two coincident nodes were loaded as quadrangles with four
different nodes.  Clipping such a panel through its double node lost a part of it.
---
 meshmagick/mmio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 51dc2b6..212ef18 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -820,6 +820,8 @@ def load_GDF(filename):
     GDF files have a 1-indexing
     """
 
+    from .tools import merge_duplicate_rows
+
     _check_file(filename)
 
     ifile = open(filename, 'r')
@@ -859,6 +861,10 @@ def load_GDF(filename):
 
     ifile.close()
 
+    # Merging duplicate nodes, so that panels with two coincident nodes are triangles
+    vertices, new_id = merge_duplicate_rows(vertices, return_index=True)
+    faces = new_id[faces]
+
     return vertices, faces
 
 
-- 
2.43.0


From bd7899b1ae56931be917cf2deb0cda4ef6d38943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 22/47] fix: report equilibriums that do not converge

The last iterate was returned as if it were the equilibrium.
---
 meshmagick/hydrostatics.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index a3417fc..5270514 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -228,8 +228,7 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
     while True:
 
         if iter == itermax:
-            print("No convergence after %s" % itermax)
-            break
+            raise RuntimeError("No convergence after %s iterations" % itermax)
 
         try:
             hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
@@ -297,8 +296,7 @@ def full_equilibrium(mesh, cog, disp_tons, rho_water, grav, reltol=1e-6, verbose
     while True:
 
         if iter == itermax:
-            print("No convergence after %s" % itermax)
-            break
+            raise RuntimeError("No convergence after %s iterations" % itermax)
 
         wcog = cog.copy()
         wcog = np.dot(rotmat_corr, wcog)
-- 
2.43.0


From 1f8fd98dfd1ab33162c1db21df78460c3f284b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 23/47] fix: do not swallow interruptions while the clipping
 polygons are assembled

The bare except clauses took KeyboardInterrupt and MemoryError for the end of
the edges and returned incomplete polygons.
---
 meshmagick/mesh_clipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index c4af7dd..a7f4525 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -707,7 +707,7 @@ class MeshClipper(object):
                                     direct_boundary_edges.pop(v1)
                                     queue.append(v1)
                                     v0 = v1
-                                except:
+                                except KeyError:
                                     queue.reverse()
                                     line = queue + line
                                     
@@ -723,7 +723,7 @@ class MeshClipper(object):
                             closed_polygons.append(line)
                         break
 
-            except: # FIXME: specifier quelle exception est attendue ici !
+            except KeyError:  # No boundary edge left
                 # TODO: retirer les deux lines suivantes
                 if self._verbose:
                     print(("%u closed polygon\n%u open curve" % (len(closed_polygons), len(open_lines))))
-- 
2.43.0


From 2d8bdc717c353b646d5e1efbb4124ada83e84928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 24/47] fix: give every clipper its own default plane

The default plane was one object shared by all the clippers of the process,
including those of the hydrostatics computations.
---
 meshmagick/mesh_clipper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index a7f4525..14bdbe7 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -23,9 +23,10 @@ class MeshClipper(object):
     verbose : bool, optional
         False by default. If True, some messages on operations that are handled are printed.
     """
-    def __init__(self, source_mesh, plane=Plane(), vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
+    def __init__(self, source_mesh, plane=None, vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
         self._source_mesh = source_mesh
-        self._plane = plane
+        # Not a default argument, that would be shared by every clipper
+        self._plane = Plane() if plane is None else plane
 
         self._vicinity_tol = vicinity_tol
 
-- 
2.43.0


From 0718fb3c4c69161bb92edb9e3e123e1958d20a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 25/47] fix: write the debug files of a failing clipping in
 verbose mode only

A failing command left full_debug.vtp and others in the working directory,
over whatever files of these names were there.
---
 meshmagick/mesh_clipper.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 14bdbe7..0908f48 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -653,13 +653,14 @@ class MeshClipper(object):
                 boundary_edge = None
                 
             else:
-                try:
-                    from . import mmio
-                    mmio.write_VTP('full_debug.vtp', self.source_mesh.vertices, self.source_mesh.faces)
-                    # mmio.write_VTP('clipped_crown_debug.vtp', clipped_crown_mesh.vertices, clipped_crown_mesh.faces)
-                    mmio.write_VTP('crown_debug.vtp', crown_mesh.vertices, crown_mesh.faces)
-                except:
-                    pass
+                if self._verbose:
+                    try:
+                        from . import mmio
+                        mmio.write_VTP('full_debug.vtp', self.source_mesh.vertices, self.source_mesh.faces)
+                        # mmio.write_VTP('clipped_crown_debug.vtp', clipped_crown_mesh.vertices, clipped_crown_mesh.faces)
+                        mmio.write_VTP('crown_debug.vtp', crown_mesh.vertices, crown_mesh.faces)
+                    except Exception:
+                        pass
                 raise Exception("Face %u clipping case %s not known." % (face_id, face_type))
 
             # Building boundary connectivity
@@ -731,18 +732,21 @@ class MeshClipper(object):
 
                 if self._assert_closed_boundaries:
                     if len(open_lines) > 0:
-                        try:
-                            from . import mmio
-                            mmio.write_VTP('full_debug.vtp', self.source_mesh.vertices, self.source_mesh.faces)
-                            mmio.write_VTP('clipped_crown_debug.vtp', clipped_crown_mesh.vertices, clipped_crown_mesh.faces)
-                            mmio.write_VTP('crown_debug.vtp', crown_mesh.vertices, crown_mesh.faces)
-                        except:
-                            pass
-                        
+                        message = 'Open intersection curve found with assert_closed_boundaries option enabled.'
+                        if self._verbose:
+                            try:
+                                from . import mmio
+                                mmio.write_VTP('full_debug.vtp', self.source_mesh.vertices, self.source_mesh.faces)
+                                mmio.write_VTP('clipped_crown_debug.vtp', clipped_crown_mesh.vertices, clipped_crown_mesh.faces)
+                                mmio.write_VTP('crown_debug.vtp', crown_mesh.vertices, crown_mesh.faces)
+                                message += ' Files full_debug.vtp, crown_debug.vtp and clipped_crown_debug.vtp written.'
+                            except Exception:
+                                pass
+
                         for line in open_lines:
                             print(line)
                             
-                        raise RuntimeError('Open intersection curve found with assert_closed_boundaries option enabled. Files full_debug.vtp, crown_debug.vtp and clipped_crown_debug.vtp written.')
+                        raise RuntimeError(message)
 
                 break
 
-- 
2.43.0


From 14c2b616f45645193e6315ea24254a468b918a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 26/47] fix: do not hand out the default rotation of
 compute_hydrostatics

The array given as rotmat_eq was the default argument itself: changing it
changed the result of every later call.
---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 5270514..7492038 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -160,7 +160,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['grav'] = grav
     hs_data['rho_water'] = rho_water
     hs_data["mesh"] = mesh.copy()
-    hs_data["rotmat_eq"] = rotmat_corr
+    hs_data["rotmat_eq"] = np.array(rotmat_corr)  # never the default argument itself
     hs_data["z_eq"] = z_corr
     hs_data["cog"] = cog.copy()
 
-- 
2.43.0


From 9aaa3f239076419bb16b59e940a247706fba4fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 27/47] fix: return the vertices of MSH 4.1 files as an array

The list that was returned made the -lid option fail after it had written
truncated files.
---
 meshmagick/mmio.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 212ef18..9e8a121 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -960,8 +960,7 @@ def load_MSH41(filename):
             coord = list(node.get_coordinates())
             vertices.append(coord)
 
-    # vertices = np.asarray(vertices)
-    # print(vertices)
+    vertices = np.asarray(vertices, dtype=float)
 
     faces = list()
     for entity in mesh.get_element_entities():
-- 
2.43.0


From bf623e842837e24245b5fc673de55e4200ee62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 28/47] fix: mesh the lids in a temporary directory

Lid_n.msh in the current directory was read back by whichever run came
first, and was left behind.
---
 meshmagick/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 7d53c65..e021c15 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -32,7 +32,7 @@ L'autocompletion devrait etre maintenant active pour meshmagick
 """
 # TODO: move meshmagick.py at the root level of the project ?
 
-import os, sys
+import os, sys, tempfile
 from datetime import datetime
 from time import strftime
 import argparse
@@ -818,10 +818,13 @@ def main():
                     list_vertices.append([x, y])
                 geom.add_polygon(list_vertices, mesh_size=mesh_size)
                 geom.generate_mesh()
-                pygmsh.write("Lid_" + str(ilid + 1) + ".msh")
+                # The intermediate file must not be shared with another run in the same directory
+                with tempfile.TemporaryDirectory() as tmpdir:
+                    msh_file = os.path.join(tmpdir, "Lid_" + str(ilid + 1) + ".msh")
+                    pygmsh.write(msh_file)
+                    V, F = mmio.load_mesh(msh_file, "msh")
 
             # Conversation of the .msh lid files into .obj lid files.
-            V, F = mmio.load_mesh("Lid_" + str(ilid + 1) + ".msh", "msh")
             mmio.write_OBJ("Lid_" + str(ilid + 1) + ".obj", V, F)
             print("Lid_" + str(ilid + 1) + ".obj is generated.")
 
-- 
2.43.0


From e5697c055bffd61e5cbbbb0d057f552d5977b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 29/47] fix: clip the warped quadrangles that cross the plane
 more than once

Quadrangles whose vertices are alternately above and below the plane were
clipped as if they crossed it along a single segment: parts above the plane
were kept and the intersection curves left the plane.
---
 meshmagick/mesh_clipper.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 0908f48..9ec30aa 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -6,6 +6,33 @@
 from .mesh import *
 
 
+def _split_warped_face(face, position):
+    """Splits a quadrangle that does not cross the plane along a single segment into triangles.
+
+    Parameters
+    ----------
+    face : ndarray
+        The vertices ids of the face
+    position : ndarray
+        The position of these vertices: 1 above the plane, 0 on the plane, -1 below the plane
+
+    Returns
+    -------
+    list
+        The face itself or the two triangles it has been split into
+    """
+    if len(face) == 4:
+        for k in range(4):
+            face, position = np.roll(face, 1), np.roll(position, 1)
+            p0, p1, p2, p3 = position
+            # Two opposite vertices at the same side of the plane with none of the two others, or an edge on the plane
+            # with the other vertices on both sides
+            if (p0 == p2 != 0 and p1 != p0 and p3 != p0) or (p0 == 1 and p1 == p2 == 0 and p3 == -1) \
+                    or (p0 == 1 and p3 == p2 == 0 and p1 == -1):
+                return [face[[0, 1, 2]], face[[0, 2, 3]]]
+    return [face]
+
+
 class MeshClipper(object):
     """A class to perform mesh clipping operations.
 
@@ -363,9 +390,13 @@ class MeshClipper(object):
 
         index = crown_mesh.nb_vertices
 
+        positions = vertices_above_mask.astype(int) - vertices_below_mask.astype(int)
+        faces = list()
         for face_id in range(crown_mesh.nb_faces):
+            face = np.asarray(crown_mesh.get_face(face_id))
+            faces += _split_warped_face(face, positions[face])
 
-            face = crown_mesh.get_face(face_id)
+        for face_id, face in enumerate(faces):
 
             # # Determining the type of face clipping
             v_above_face = np.where(vertices_above_mask[face])[0]
-- 
2.43.0


From c7f227b26307b559bf545baf5acca8888c835d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 30/47] fix: express rigid body inertias at the right points

The reduction point setter and at_cog added the Huygens term instead of
subtracting it, so that moving the reduction point was neither reversible nor
path independent, and arrays passed in or returned were shared with the object.
---
 meshmagick/inertia.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index e246c16..6eefb01 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -43,13 +43,16 @@ class RigidBodyInertia(object):
         self._mass = float(mass)
 
         assert len(cog) == 3
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
+
+        # Center of the mass distribution, about which the inertia matrix is transported. It is kept by set_cog.
+        self._mass_center = self._cog.copy()
 
         if point is None:
-            self._point = self._cog
+            self._point = self._cog.copy()
         else:
             assert len(point) == 3
-            self._point = np.asarray(point, dtype=float)
+            self._point = np.array(point, dtype=float)
 
         self._3d_rotational_inertia = np.array([[float(xx), -float(xy), -float(xz)],
                                                 [-float(xy), float(yy), -float(yz)],
@@ -63,12 +66,12 @@ class RigidBodyInertia(object):
     @property
     def gravity_center(self):
         """The position of the center of gravity"""
-        return self._cog
+        return self._cog.copy()
 
     @property
     def inertia_matrix(self):
         """The 3D rotational inertia matrix"""
-        return self._3d_rotational_inertia
+        return self._3d_rotational_inertia.copy()
 
     @property
     def reduction_point(self):
@@ -78,15 +81,15 @@ class RigidBodyInertia(object):
         -------
         ndarray
         """
-        return self._point
+        return self._point.copy()
 
     @reduction_point.setter
     def reduction_point(self, point):
         """Set the reduction point"""
-        mat_at_cog = self.at_cog.inertia_matrix
         assert len(point) == 3
-        self._point = np.asarray(point, dtype=float)
-        self._3d_rotational_inertia = mat_at_cog + self._huygens_transport()
+        point = np.array(point, dtype=float)
+        matrix = self._3d_rotational_inertia - self._huygens_transport(self._point) + self._huygens_transport(point)
+        self._point, self._3d_rotational_inertia = point, matrix
 
     @property
     def at_cog(self):
@@ -103,7 +106,7 @@ class RigidBodyInertia(object):
         return inertia
 
     def set_cog(self, cog):
-        """Set a new center of gravity.
+        """Set a new center of gravity. The mass distribution and the inertia matrix are not changed.
 
         Parameters
         ----------
@@ -112,15 +115,14 @@ class RigidBodyInertia(object):
         """
         assert len(cog) == 3
         assert isinstance(cog, (tuple, list, np.ndarray))
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
 
     def shift_at_cog(self):
         """Shift the inertia matrix internally at cog.
 
         The reduction point is then cog.
         """
-        self._3d_rotational_inertia += self._huygens_transport()
-        self._point = self._cog
+        self.reduction_point = self._cog
 
     def is_at_cog(self):
         """Returns whether the object is expressed at cog
@@ -131,8 +133,8 @@ class RigidBodyInertia(object):
         """
         return np.all(self._point == self._cog)
 
-    def _huygens_transport(self):
-        p_g = self._cog - self._point
+    def _huygens_transport(self, point):
+        p_g = self._mass_center - point
         return self._mass * (np.dot(p_g, p_g) * np.eye(3) - np.outer(p_g, p_g))
 
     @property
-- 
2.43.0


From 48099aea22c1b543b1c2b169bee2852fd9fec407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 31/47] fix: compute the surface integrals of the products of
 coordinates

The integrals of yz, xz and xy over the faces depended on the order of their
vertices, so that the inertia products of shells were wrong.
---
 meshmagick/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index cd048fa..6abe85e 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2080,9 +2080,9 @@ class Mesh(object):
 
         s_int[0:3] = np.einsum('i, ij -> ji', delta, f1) / 6.
 
-        s_int[3] = delta * (6.*point_0.y*point_0.z + 3*(point_1.y*point_1.z + point_2.y*point_2.z) - point_0.y*f1[:, 2] - point_0.z*f1[:, 1]) / 12.
-        s_int[4] = delta * (6.*point_0.x*point_0.z + 3*(point_1.x*point_1.z + point_2.x*point_2.z) - point_0.x*f1[:, 2] - point_0.z*f1[:, 0]) / 12.
-        s_int[5] = delta * (6.*point_0.x*point_0.y + 3*(point_1.x*point_1.y + point_2.x*point_2.y) - point_0.x*f1[:, 1] - point_0.y*f1[:, 0]) / 12.
+        s_int[3] = delta * (f1.y*f1.z + point_0.y*point_0.z + point_1.y*point_1.z + point_2.y*point_2.z) / 24.
+        s_int[4] = delta * (f1.x*f1.z + point_0.x*point_0.z + point_1.x*point_1.z + point_2.x*point_2.z) / 24.
+        s_int[5] = delta * (f1.x*f1.y + point_0.x*point_0.y + point_1.x*point_1.y + point_2.x*point_2.y) / 24.
 
         s_int[6:9] = np.einsum('i, ij -> ji', delta, f2) / 12.
         s_int[9:12] = np.einsum('i, ij -> ji', delta, f3) / 20.
-- 
2.43.0


From 5388bc966dda26347e1b2705ce20471dc5a476dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 32/47] fix: compute the product moment of the waterplane

The xy moment of the waterplane, hence the roll-pitch stiffness, was wrong
whenever the waterplane was not symmetric.
---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 7492038..656e1c9 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -83,7 +83,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
             sigma0 += dy * px
             sigma1 += dy * (px * px - xi * xii)
             sigma2 += dx * (py * py - yi * yii)
-            sigma3 += dy * (py * px * px + yi * xi * xi + yii * xii * xii)
+            sigma3 += dy * (py * px * px + 2 * (yi * xi * xi + yii * xii * xii))
             sigma4 += dy * (xi * xi + xii * xii) * px
             sigma5 += dx * (yi * yi + yii * yii) * py
 
-- 
2.43.0


From ec938b58abfcd226628053df78027375c8dbcd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 33/47] fix: measure submerged lengths on the immersed faces
 only

The clipped mesh still holds unused vertices above the free surface, which
were counted in the lengths and breadths overall submerged.
---
 meshmagick/hydrostatics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 656e1c9..5259fa1 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -152,8 +152,10 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     buoyancy_center[2] -= z_corr
     buoyancy_center = np.dot(np.transpose(rotmat_corr), buoyancy_center)
 
-    # bounding box
-    xmin, xmax, ymin, ymax, zmin, zmax = cmesh.axis_aligned_bbox
+    # bounding box of the immersed faces (the clipped mesh also holds vertices above the free surface that are not used)
+    immersed_vertices = cmesh.vertices[np.unique(cmesh.faces)]
+    xmin, ymin, zmin = immersed_vertices.min(axis=0)
+    xmax, ymax, _ = immersed_vertices.max(axis=0)
 
     # Storing data
     hs_data = dict()
-- 
2.43.0


From 2e3fe8d554d57cbaa41b8b41f33efd74e783e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 34/47] fix: report the forward perpendicular in the frame of
 the mesh

The abscissa of the buoyancy centre was added to it even when the waterplane
was not expressed relatively to the buoyancy centre.
---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 5259fa1..10ce7e5 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -182,7 +182,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['length_overall_submerged'] = xmax - xmin
     hs_data['breadth_overall_submerged'] = ymax - ymin
     hs_data['draught'] = math.fabs(zmin)
-    hs_data['forward_perpendicular'] = maxx + xb
+    hs_data['forward_perpendicular'] = maxx + xb if at_cog else maxx
     hs_data['breadth'] = maxy - miny
 
     hs_data['trust_lpp'] = True
-- 
2.43.0


From 34e1c07cf72dd3883e69d66f766f9a9445c6c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 35/47] fix: leave the empty edge of triangles out of the edge
 lengths

The repeated first vertex of triangles counted as an edge of length zero, so
that the minimum edge length of meshes with triangles was always zero.
---
 meshmagick/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 6abe85e..3e77fd8 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2026,6 +2026,11 @@ class Mesh(object):
             edge = vertices[:, i, :] - vertices[:, i-1, :]
             edge_length[:, i] = np.sqrt(np.einsum('ij, ij -> i', edge, edge))
 
+        # The last vertex of triangles is the first one: it makes no edge
+        is_edge = np.ones(edge_length.shape, dtype=bool)
+        is_edge[self.triangles_ids, 0] = False
+        edge_length = edge_length[is_edge]
+
         return edge_length.min(), edge_length.max(), edge_length.mean()
 
     @property
-- 
2.43.0


From 68bc1a90b65d45bd8883b1e3dd76085a7805ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 36/47] fix: keep the orientation of planes consistent, and
 express points in their frame

---
 meshmagick/mesh.py | 57 ++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 3e77fd8..20e8285 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -168,8 +168,7 @@ class Plane(object):
 
         # Storing rotation matrix (redundant !) to speedup computations
         # Shall be _update in methods !!! --> using decorator ?
-        theta_x, theta_y = self.get_normal_orientation_wrt_z()
-        self._rot = _get_rotation_matrix(theta_x, theta_y)
+        self._rot = _get_rotation_matrix(*self._get_orientation_wrt_z(self._normal))
 
         self.name = str(name)
 
@@ -187,7 +186,13 @@ class Plane(object):
     def normal(self, value):
         """Set the plane's normal"""
         value = np.asarray(value, dtype=float)
-        self._normal = value / np.linalg.norm(value)
+        self._set_orientation(value / np.linalg.norm(value))
+
+    def _set_orientation(self, normal, rot=None, scalar=None):
+        """Sets together the unit normal, the rotation matrix bringing the z axis on it and the scalar parameter"""
+        if rot is None:
+            rot = _get_rotation_matrix(*self._get_orientation_wrt_z(normal))
+        self._normal, self._rot, self._scalar = normal, rot, self._scalar if scalar is None else scalar
 
     @property
     def c(self):
@@ -210,11 +215,13 @@ class Plane(object):
         theta_y : float
             Angle of rotation around Oy (rad)
         """
-        rot_matrix = _get_rotation_matrix(theta_x, theta_y)
-        self.normal = np.dot(rot_matrix, self.normal)
+        self._rotate(theta_x, theta_y)
 
-        # updating self._rot
-        self._rot = np.dot(rot_matrix, self._rot)
+    def _rotate(self, theta_x, theta_y, scalar=None):
+        """Rotates the normal, and sets the scalar parameter along when given"""
+        rot_matrix = _get_rotation_matrix(theta_x, theta_y)
+        normal = np.dot(rot_matrix, self._normal)
+        self._set_orientation(normal / np.linalg.norm(normal), np.dot(rot_matrix, self._rot), scalar)
 
     def set_normal_from_angles(self, theta_x, theta_y):
         """Set the normal orientation given angles theta_x and theta_y.
@@ -230,23 +237,25 @@ class Plane(object):
         theta = math.sqrt(theta_x * theta_x + theta_y * theta_y)
 
         if theta == 0.:
-            self.normal[:] = [0., 0., 1.]
-
-            # updating self._rot
-            self._rot = np.eye(3)
+            self._set_orientation(np.array([0., 0., 1.]), np.eye(3))
         else:
             stheta_theta = math.sin(theta) / theta
             ctheta = math.cos(theta)
-            self.normal[:] = np.array([stheta_theta * theta_y,
-                                       -stheta_theta * theta_x,
-                                       ctheta])
-            # Updating self._rot
-            self._rot = _get_rotation_matrix(theta_x, theta_y)
+            self._set_orientation(np.array([stheta_theta * theta_y,
+                                            -stheta_theta * theta_x,
+                                            ctheta]),
+                                  _get_rotation_matrix(theta_x, theta_y))
 
     def get_normal_orientation_wrt_z(self):
         """Returns the angles theta_x and theta_y giving the orientation of the plane normal"""
 
-        nx, ny, nz = self.normal
+        return self._get_orientation_wrt_z(self._normal)
+
+    @staticmethod
+    def _get_orientation_wrt_z(normal):
+        """Returns the angles theta_x and theta_y giving the orientation of normal"""
+
+        nx, ny, nz = normal
         stheta = math.sqrt(nx*nx + ny*ny)
         ctheta = nz
         theta_x = theta_y = 0.
@@ -279,9 +288,8 @@ class Plane(object):
             Normal angle around Oy (rad)
         """
 
-        self.rotate_normal(theta_x, theta_y)
         ctheta = math.cos(math.sqrt(theta_x * theta_x + theta_y * theta_y))
-        self._scalar = self._scalar * ctheta + scalar
+        self._rotate(theta_x, theta_y, float(self._scalar * ctheta + scalar))
 
     def get_point_dist_wrt_plane(self, points):
         """
@@ -304,9 +312,7 @@ class Plane(object):
         """
         Flips the Normal of the plane
         """
-        self.normal *= -1
-        theta_x, theta_y = self.get_normal_orientation_wrt_z()
-        self._rot = _get_rotation_matrix(theta_x, theta_y)
+        self.normal = -self._normal
 
     def coord_in_plane(self, points):
         """
@@ -323,9 +329,9 @@ class Plane(object):
             Array of points coordinates in the frame of the plane
         """
 
-        # TODO: verifier effectivement que si on prend des points se trouvant dans le plan, leurs coordonnees dans le
-        #  plan n'ont pas de composante z
-        return -self._scalar * self.normal + np.transpose(np.dot(self._rot, points.T))
+        # self._rot brings the z axis on the normal: its transpose brings the normal on the z axis, so that points of
+        # the plane have no z component
+        return np.dot(np.asarray(points) - self._scalar * self._normal, self._rot)
 
     def get_edge_intersection(self, p0, p1):
         """
@@ -367,6 +373,7 @@ class Plane(object):
             Coordinates of the projection points
         """
         # TODO: passer en vectoriel
+        points = np.asarray(points, dtype=float)
         projected_points = np.zeros_like(points)
         for point, projected_point in zip(points, projected_points):
             projected_point[:] = point - self.get_point_dist_wrt_plane(point) * self.normal
-- 
2.43.0


From a998b5ff70c55318c1e8472a9679372876bd001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 37/47] fix: use the length between perpendiculars and the
 origin given on the command line

---
 meshmagick/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index e021c15..8810652 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -920,6 +920,9 @@ def main():
             zcog = args.zcog
             has_zcog = True
 
+        # Only the final computations are reported
+        lpp_args = dict(lpp=args.lpp, orig_at_ap=args.orig_at_ap)
+
         hs_data = dict()
 
         if not has_disp and not has_cog:
@@ -930,7 +933,7 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True, **lpp_args)
 
         elif has_disp and not has_cog:
             print(">>>> Computing equilibrium of the hull for the given displacement of %f tons" % disp)
@@ -941,14 +944,15 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, z_corr=z_corr, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True, **lpp_args)
 
         elif has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given displacement and COG")
             if has_zcog:
                 warn("zcog is redundant with cog, taking cog and ignoring zcog")
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
+                                              at_cog=True, **lpp_args)
 
         elif not has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given COG, considering the current configuration presents the "
@@ -960,7 +964,7 @@ def main():
             disp = hs_data['disp_mass'] / 1000
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
             hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
-                                              at_cog=True)
+                                              at_cog=True, **lpp_args)
 
         mesh.rotate_matrix(rotmat_corr)
         mesh.translate_z(z_corr)
-- 
2.43.0


From ba8a05d6f8c6de5b16ae83767f3a5a3a073ae235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 38/47] fix: keep the numbers of vertices and faces apart in
 the NAT files of big meshes

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 9e8a121..a2228dd 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1684,7 +1684,7 @@ def write_NAT(filename, vertices, faces):
     nf = np.shape(faces)[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
-    ofile.write('%6u%6u\n' % (nv, nf))
+    ofile.write('%6u %5u\n' % (nv, nf))  # the blank keeps the numbers of big meshes apart
     for vertex in vertices:
         ofile.write('%15.6E%15.6E%15.6E\n' % (vertex[0], vertex[1], vertex[2]))
     for cell in faces+1:
-- 
2.43.0


From 61b573292048ca9122cab0937a50769b5009b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 39/47] fix: clip meshes whose faces all lie clear of the
 plane, and refuse those that only touch it from above

---
 meshmagick/mesh_clipper.py | 5 +++--
 meshmagick/tools.py        | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 9ec30aa..849cc3a 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -154,7 +154,7 @@ class MeshClipper(object):
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
-        if np.all(vertices_positions['vertices_above_mask']):
+        if not np.any(vertices_positions['vertices_below_mask']):
             # Cannot clip as this mesh is totally above or below the clipping plane. Throwing an error
             raise RuntimeError("Mesh does not crosses the clipping plane", "above")
 
@@ -702,7 +702,8 @@ class MeshClipper(object):
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
         
-        clipped_crown_mesh = Mesh(vertices, crown_faces)
+        # There may be none when no face crosses the plane (bodies lying apart on each side of it)
+        clipped_crown_mesh = Mesh(vertices, np.reshape(np.array(crown_faces, dtype=int), (-1, 4)))
 
         # TODO: faire un merge uniquement sur la liste instersections et non sur tout le maillage clipped_crown
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
diff --git a/meshmagick/tools.py b/meshmagick/tools.py
index 4e03568..8d76b10 100644
--- a/meshmagick/tools.py
+++ b/meshmagick/tools.py
@@ -69,8 +69,8 @@ def merge_duplicate_rows(arr, atol=1e-8, return_index=False):
 
             else:
                 levels_tmp.append(levels[ilevel])
-        if len(levels_tmp) == nv:
-            # No duplicate rows
+        if len(levels_tmp) >= nv:
+            # No duplicate rows (or no row at all)
             # if verbose:
             # print "\t -> No duplicate _vertices detected :)"
             if return_index:
-- 
2.43.0


From ead438b854ffd4529179527e4678abb248ee429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:45 +0000
Subject: [PATCH 40/47] fix: refuse files whose faces, read by VTK, refer to
 vertices they do not have instead of crashing

---
 meshmagick/mmio.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index a2228dd..cb784e6 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -650,6 +650,17 @@ def _dump_vtk(vtk_mesh):
         numpy array of the faces' nodes connectivities
     """
 
+    # VTK does not check the connectivities it reads, and getting cells out of wrong ones crashes the interpreter
+    for getter in ('GetCells', 'GetVerts', 'GetLines', 'GetPolys', 'GetStrips'):
+        cells = getattr(vtk_mesh, getter, lambda: None)()
+        if cells is None or not hasattr(cells, 'IsValid') or cells.GetNumberOfCells() == 0:
+            continue
+        if cells.IsValid():
+            id_min, id_max = cells.GetConnectivityArray().GetRange(0)
+            if id_min >= 0 and id_max < vtk_mesh.GetNumberOfPoints():
+                continue
+        raise IOError("The faces of the file refer to vertices it does not have")
+
     nv = vtk_mesh.GetNumberOfPoints()
     vertices = np.zeros((nv, 3), dtype=float)
     for k in range(nv):
-- 
2.43.0


From c897cbb5ff37cefb8e577f444e25ef8a7e816920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 41/47] fix: refuse mesh files without faces, or whose faces
 refer to vertices they do not contain, or whose coordinates are not numbers

---
 meshmagick/mmio.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index cb784e6..ee66748 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -47,6 +47,13 @@ def load_mesh(filename, file_format):
 
     vertices, faces = loader(filename)
 
+    if len(faces) == 0:
+        raise IOError("Unable to read file %s: it contains no face" % filename)
+    if not np.isfinite(vertices).all():
+        raise IOError("Unable to read file %s: the coordinates of some vertices are missing or damaged" % filename)
+    if np.min(faces) < 0 or np.max(faces) >= len(vertices):
+        raise IOError("Unable to read file %s: some faces refer to vertices it does not contain" % filename)
+
     return vertices, faces
 
 
-- 
2.43.0


From 11b475fafff56ddc11699de92d15d76db27ab9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:06 +0000
Subject: [PATCH 42/47] fix: follow the node numbers of HST, RAD and MSH files,
 that may be neither sorted nor consecutive

---
 meshmagick/mmio.py | 46 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index ee66748..a2a58da 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -84,7 +84,7 @@ def load_RAD(filename):
     ifile.close()
 
     # node_line = r'\s*\d+(?:\s*' + real_str + '){3}'
-    node_line = r'\s*\d+\s*(' + real_str + r')\s*(' + real_str + r')\s*(' + real_str + ')'
+    node_line = r'\s*(\d+)\s*(' + real_str + r')\s*(' + real_str + r')\s*(' + real_str + ')'
     node_section = r'((?:' + node_line + ')+)'
 
     elem_line = r'^\s*(?:\d+\s+){6}\d+\s*[\r\n]+'
@@ -97,20 +97,49 @@ def load_RAD(filename):
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
     vertices = []
+    node_ids = []
     node_section = pattern_node_section.search(data).group(1)
     for node in pattern_node_line.finditer(node_section):
-        vertices.append(list(map(float, list(node.groups()))))
+        node_ids.append(int(node.group(1)))
+        vertices.append(list(map(float, list(node.groups())[1:])))
     vertices = np.asarray(vertices, dtype=float)
 
     faces = []
     elem_section = pattern_elem_section.search(data).group(1)
     for elem in pattern_elem_line.findall(elem_section):
         faces.append(list(map(int, elem.strip().split()[3:])))
-    faces = np.asarray(faces, dtype=int) - 1
+    faces = _renumber_faces(filename, node_ids, faces)
 
     return vertices, faces
 
 
+def _renumber_faces(filename, node_ids, faces):
+    """Internal driver function that replaces the node numbers faces are described with by the positions of the nodes in
+    the file, as node numbers are neither always consecutive nor always sorted.
+
+    Parameters
+    ----------
+    filename: str
+        name of the mesh file on disk
+    node_ids: list
+        the numbers of the nodes, in the order of the file
+    faces: list
+        the node numbers of the faces
+
+    Returns
+    -------
+    faces: ndarray
+        numpy array of the faces' nodes connectivities (0-indexing)
+    """
+    position = dict(zip(node_ids, range(len(node_ids))))
+    if len(position) != len(node_ids):
+        raise IOError("Unable to read file %s: several nodes have the same number" % filename)
+    try:
+        return np.array([[position[node_id] for node_id in face] for face in faces], dtype=int)
+    except KeyError:
+        raise IOError("Unable to read file %s: some faces refer to vertices it does not contain" % filename)
+
+
 def load_HST(filename):
     """Loads HYDROSTAR (Bureau Veritas (c)) mesh files.
 
@@ -157,9 +186,11 @@ def load_HST(filename):
 
     vertices_tmp = []
     vertices = []
+    node_ids = []
     nv = 0
     for node_section in pattern_node_section.findall(data):
         for node in pattern_node_line.findall(node_section):
+            node_ids.append(int(node.split()[0]))
             vertices_tmp.append(list(map(float, node.split()[1:])))
         nv_tmp = len(vertices_tmp)
         vertices_tmp = np.asarray(vertices_tmp, dtype=float)
@@ -185,7 +216,7 @@ def load_HST(filename):
             faces = np.concatenate((faces, faces_tmp))
             nf += nf_tmp
 
-    return vertices, faces-1
+    return vertices, _renumber_faces(filename, node_ids, faces)
 
 
 def load_DAT(filename):
@@ -948,6 +979,7 @@ def load_MSH22(filename):
 
     vertices = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))[:, 1:]
     vertices = np.ascontiguousarray(vertices)
+    node_ids = list(map(int, nodes_data.split()[::4]))
     faces = []
 
     # Triangles
@@ -962,7 +994,7 @@ def load_MSH22(filename):
         quadrangle = quad_elt[-4:]
         faces.append(quadrangle)
 
-    faces = np.asarray(faces, dtype=int) - 1
+    faces = _renumber_faces(filename, node_ids, faces)
 
     return vertices, faces
 
@@ -973,8 +1005,10 @@ def load_MSH41(filename):
     mesh = gmshparser.parse(filename)
 
     vertices = list()
+    node_ids = list()
     for entity in mesh.get_node_entities():
         for node in entity.get_nodes():
+            node_ids.append(node.get_tag())
             coord = list(node.get_coordinates())
             vertices.append(coord)
 
@@ -993,7 +1027,7 @@ def load_MSH41(filename):
                     face.append(face[0])
                 faces.append(face)
 
-    faces = np.asarray(faces) - 1
+    faces = _renumber_faces(filename, node_ids, faces)
 
     return vertices, faces
 
-- 
2.43.0


From bf6c47ac4535f7410cd460b2026854beddf6c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:06 +0000
Subject: [PATCH 43/47] fix: load HST files with several COORDINATES or PANEL
 sections

---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index a2a58da..c172254 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -184,11 +184,11 @@ def load_HST(filename):
         if nb_begin != nb_end:
             raise IOError("Unexpected end of HST file %s: a %s section is not terminated" % (filename, keyword))
 
-    vertices_tmp = []
     vertices = []
     node_ids = []
     nv = 0
     for node_section in pattern_node_section.findall(data):
+        vertices_tmp = []
         for node in pattern_node_line.findall(node_section):
             node_ids.append(int(node.split()[0]))
             vertices_tmp.append(list(map(float, node.split()[1:])))
@@ -201,10 +201,10 @@ def load_HST(filename):
             vertices = np.concatenate((vertices, vertices_tmp))
             nv += nv_tmp
 
-    faces_tmp = []
     faces = []
     nf = 0
     for elem_section in pattern_elem_section.findall(data):
+        faces_tmp = []
         for elem in pattern_elem_line.findall(elem_section):
             faces_tmp.append(list(map(int, elem.split())))
         nf_tmp = len(faces_tmp)
-- 
2.43.0


From 9436a5032e261a906b6cd6eca746495382bf0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:06 +0000
Subject: [PATCH 44/47] fix: load INP files that place several bodies, or whose
 comments are not in UTF-8

---
 meshmagick/mmio.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index c172254..c553686 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -316,7 +316,7 @@ def load_INP(filename):
     _check_file(filename)
     import re
     
-    with open(filename, 'r') as f:
+    with open(filename, 'r', errors='surrogateescape') as f:  # comments are not always in UTF-8
         text = f.read()
 
     # Retrieving frames into a dictionary frames
@@ -406,6 +406,8 @@ def load_INP(filename):
                 elem = list(map(int, elem.split()))
                 # for node in elem[1:]:
                 elem = id_new[elem[1:]].tolist()
+                if min(elem) < 0:
+                    raise IOError('File {0:s}: some faces refer to nodes it does not contain'.format(file + '.DAT'))
                 if len(elem) == 3:  # Case of a triangle, we repeat the first node at the last position
                     elem.append(elem[0])
 
@@ -434,6 +436,8 @@ def load_INP(filename):
                 vertices[idx, :] = nodes.copy()
                 increment = False
             else:
+                # The following ELEMENT sections refer to these nodes
+                first_node = nb_nodes
                 vertices = np.concatenate((vertices, nodes))
                 nb_nodes = vertices.shape[0]
                 increment = True
@@ -448,7 +452,7 @@ def load_INP(filename):
             # Updating to new id of nodes
             elems = elem_section
             if increment:
-                elems += nb_nodes
+                elems += first_node
 
             if nb_elems == 0:
                 faces = elems.copy()
-- 
2.43.0


From 81647806246c132f3fbad0a881aa6c1ec5c0fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:06 +0000
Subject: [PATCH 45/47] fix: ignore the points and lines of VTK files and
 refuse cells that are no triangles nor quadrangles

---
 meshmagick/mmio.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index c553686..4313ee8 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -708,17 +708,24 @@ def _dump_vtk(vtk_mesh):
     for k in range(nv):
         vertices[k] = np.array(vtk_mesh.GetPoint(k))
 
+    from vtk import VTK_TRIANGLE, VTK_QUAD, VTK_POLYGON
     nf = vtk_mesh.GetNumberOfCells()
     faces = np.zeros((nf, 4), dtype=int)
+    is_face = np.ones(nf, dtype=bool)
     for k in range(nf):
         cell = vtk_mesh.GetCell(k)
+        if cell.GetCellDimension() < 2:  # points and lines
+            is_face[k] = False
+            continue
         nv_facet = cell.GetNumberOfPoints()
+        if cell.GetCellType() not in (VTK_TRIANGLE, VTK_QUAD, VTK_POLYGON) or nv_facet not in (3, 4):
+            raise IOError("The file has cells that are neither triangles nor quadrangles")
         for l in range(nv_facet):
             faces[k][l] = cell.GetPointId(l)
         if nv_facet == 3:
             faces[k][3] = faces[k][0]
 
-    return vertices, faces
+    return vertices, faces[is_face]
 
 
 def load_STL(filename):
-- 
2.43.0


From f43cfaf1bfaeaca8a9c23ed43535420f1ce1a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:28 +0000
Subject: [PATCH 46/47] fix: load all the ELEMENT sections of DAT files, not
 only the first of each type

---
 meshmagick/mmio.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 4313ee8..847d528 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -252,8 +252,8 @@ def load_DAT(filename):
     triangle_section_pattern = re.compile(r'ELEMENT\S+T3C000.+\s*((?:(?:\d+\s+){4})+)\*RETURN')
     triangle_sections = triangle_section_pattern.findall(data)
 
-    if len(triangle_sections) != 0:
-        for triangle in triangle_sections[0].splitlines():
+    for triangle_section in triangle_sections:
+        for triangle in triangle_section.splitlines():
             triangle_split = triangle.split()
 
             triangle = [
@@ -269,8 +269,8 @@ def load_DAT(filename):
     quadrangle_section_pattern = re.compile(r'ELEMENT\S+Q4C000.+\s*((?:(?:\d+\s+){5})+)\*RETURN')
     quadrangle_sections = quadrangle_section_pattern.findall(data)
 
-    if len(quadrangle_sections) != 0:
-        for quadrangle in quadrangle_sections[0].splitlines():
+    for quadrangle_section in quadrangle_sections:
+        for quadrangle in quadrangle_section.splitlines():
             quadrangle_split = quadrangle.split()
 
             quadrangle = [
-- 
2.43.0


From 40dcaf618c30b41b63de1121087fd97987f800d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 47/47] fix: clip meshes that have vertices at the tolerance
 from the plane, or panels with a single vertex out of the plane

---
 meshmagick/mesh_clipper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 849cc3a..610dbfd 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -25,10 +25,10 @@ def _split_warped_face(face, position):
         for k in range(4):
             face, position = np.roll(face, 1), np.roll(position, 1)
             p0, p1, p2, p3 = position
-            # Two opposite vertices at the same side of the plane with none of the two others, or an edge on the plane
-            # with the other vertices on both sides
+            # Two opposite vertices at the same side of the plane with none of the two others, an edge on the plane
+            # with the other vertices on both sides, or a single vertex out of the plane
             if (p0 == p2 != 0 and p1 != p0 and p3 != p0) or (p0 == 1 and p1 == p2 == 0 and p3 == -1) \
-                    or (p0 == 1 and p3 == p2 == 0 and p1 == -1):
+                    or (p0 == 1 and p3 == p2 == 0 and p1 == -1) or (p0 != 0 and p1 == p2 == p3 == 0):
                 return [face[[0, 1, 2]], face[[0, 2, 3]]]
     return [face]
 
@@ -150,7 +150,7 @@ class MeshClipper(object):
 
         vertices_positions = {'vertices_distances': vertices_distances,
                               'vertices_above_mask': vertices_distances > self._vicinity_tol,
-                              'vertices_on_mask': np.fabs(vertices_distances) < self._vicinity_tol,
+                              'vertices_on_mask': np.fabs(vertices_distances) <= self._vicinity_tol,
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
-- 
2.43.0

