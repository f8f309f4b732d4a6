From c02957ec4dfffb020d8e32ffe91c2bb07b2f5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:50 +0000
Subject: [PATCH 01/37] fix: exact reduction in math1 (no float division, no
 int64 wrap-around in intermediate products)

---
 src/pyqcstrc/dode2/math1.py | 59 ++++++++++++++++++-------------------
 src/pyqcstrc/ico2/math1.py  | 59 ++++++++++++++++++-------------------
 2 files changed, 56 insertions(+), 62 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 3d06b91..154676f 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -4,6 +4,7 @@
 # Copyright (c) 2021 Tsunetomo Yamada <tsunetomo.yamada@rs.tus.ac.jp>
 #
 import sys
+from math import gcd
 import numpy as np
 from numpy.typing import NDArray
 #sys.path.append('.')
@@ -12,6 +13,20 @@ from pyqcstrc.dode2.numericalc import coplanar_check_numeric_tau
 
 SIN=np.sqrt(3)/2
 
+def reduced(c1: int, c2: int, c3: int) -> NDArray[np.int64]:
+    """value with the components c1, c2, c3 in lowest terms and with a positive denominator, in SIN-style.
+    
+    The components are Python integers. A value which does not fit in int64 is kept as Python integers.
+    """
+    g=gcd(c1,c2,c3)
+    if c3<0:
+        g=-g
+    x=[c1//g,c2//g,c3//g]
+    try:
+        return np.array(x,dtype=np.int64)
+    except OverflowError:
+        return np.array(x,dtype=object)
+
 def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # summation (a+b) in SIN-style
@@ -27,18 +42,12 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
     c1=a[0]*b[2]+b[0]*a[2]
     c2=a[1]*b[2]+b[1]*a[2]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
-    if c3<0:
-        return np.array([-c1,-c2,-c3])
-    else:
-        return np.array([c1,c2,c3])
+    return reduced(c1,c2,c3)
 
 def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -55,18 +64,12 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
     c1=4*a[0]*b[0]+3*a[1]*b[1]
     c2=4*(a[0]*b[1]+a[1]*b[0])
     c3=4*a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
-    if c3<0:
-        return np.array([-c1,-c2,-c3])
-    else:
-        return np.array([c1,c2,c3])
+    return reduced(c1,c2,c3)
 
 def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -102,11 +105,13 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
-    if np.all(b[:2]==0):
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
+    if b[0]==0 and b[1]==0:
         print('ERROR_1:division error')
         return 
     else:
-        if np.all(a[:2]==0):
+        if a[0]==0 and a[1]==0:
             return np.array([0,0,1],dtype=np.int64)
         else:
             if b[1]!=0:
@@ -127,16 +132,8 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
                 c1=a[0]*b[2]
                 c2=a[1]*b[2]
                 c3=b[0]*a[2]
-            x=np.array([c1,c2,c3],dtype=np.int64)
-            g=np.gcd.reduce(x)
-            if g!=0:
-                c1=int(c1/g)
-                c2=int(c2/g)
-                c3=int(c3/g)
-                if c3<0:
-                    return np.array([-c1,-c2,-c3],dtype=np.int64)
-                else:
-                    return np.array([c1,c2,c3],dtype=np.int64)
+            if c3!=0:
+                return reduced(c1,c2,c3)
             else:
                 print('ERROR_2:division error')
                 return 
@@ -260,7 +257,7 @@ def outer_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.i
     b=mul(vt1[1],vt2[0])
     c3=sub(a,b)
     #
-    return np.array([c1,c2,c3],dtype=np.int64)
+    return np.array([c1,c2,c3])
 
 def inner_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int64]:
     """Inner product of two vectors, v1 and v2 in SIN-style.
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 393e87b..dc0f673 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -4,6 +4,7 @@
 # Copyright (c) 2021 Tsunetomo Yamada <tsunetomo.yamada@rs.tus.ac.jp>
 #
 import sys
+from math import gcd
 import numpy as np
 from numpy.typing import NDArray
 #sys.path.append('.')
@@ -11,6 +12,20 @@ from pyqcstrc.ico2.numericalc import coplanar_check_numeric_tau
 
 TAU=(1+np.sqrt(5))/2.0
 
+def reduced(c1: int, c2: int, c3: int) -> NDArray[np.int64]:
+    """value with the components c1, c2, c3 in lowest terms and with a positive denominator, in TAU-style.
+    
+    The components are Python integers. A value which does not fit in int64 is kept as Python integers.
+    """
+    g=gcd(c1,c2,c3)
+    if c3<0:
+        g=-g
+    x=[c1//g,c2//g,c3//g]
+    try:
+        return np.array(x,dtype=np.int64)
+    except OverflowError:
+        return np.array(x,dtype=object)
+
 def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # summation (a+b) in TAU-style
@@ -26,18 +41,12 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
     c1=a[0]*b[2]+b[0]*a[2]
     c2=a[1]*b[2]+b[1]*a[2]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
-    if c3<0:
-        return np.array([int(-c1),int(-c2),int(-c3)])
-    else:
-        return np.array([int(c1),int(c2),int(c3)])
+    return reduced(c1,c2,c3)
 
 def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -54,18 +63,12 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
     c1=a[0]*b[0]+a[1]*b[1]
     c2=a[0]*b[1]+a[1]*b[0]+a[1]*b[1]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
-    if c3<0:
-        return np.array([int(-c1),int(-c2),int(-c3)])
-    else:
-        return np.array([int(c1),int(c2),int(c3)])
+    return reduced(c1,c2,c3)
 
 def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -101,11 +104,13 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
-    if np.all(b[:2]==0):
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
+    if b[0]==0 and b[1]==0:
         print('ERROR_1:division error')
         return 
     else:
-        if np.all(a[:2]==0):
+        if a[0]==0 and a[1]==0:
             return np.array([0,0,1],dtype=np.int64)
         else:
             if b[1]!=0:
@@ -121,16 +126,8 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
                 c1=a[0]*b[2]
                 c2=a[1]*b[2]
                 c3=b[0]*a[2]
-            x=np.array([c1,c2,c3],dtype=np.int64)
-            g=np.gcd.reduce(x)
-            if g!=0:
-                c1=c1/g
-                c2=c2/g
-                c3=c3/g
-                if c3<0:
-                    return np.array([int(-c1),int(-c2),int(-c3)],dtype=np.int64)
-                else:
-                    return np.array([int(c1),int(c2),int(c3)],dtype=np.int64)
+            if c3!=0:
+                return reduced(c1,c2,c3)
             else:
                 print('ERROR_2:division error')
                 return 
@@ -254,7 +251,7 @@ def outer_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.i
     b=mul(vt1[1],vt2[0])
     c3=sub(a,b)
     #
-    return np.array([c1,c2,c3],dtype=np.int64)
+    return np.array([c1,c2,c3])
 
 def inner_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int64]:
     """Inner product of two vectors, v1 and v2 in TAU-style.
-- 
2.43.0


From 513810b783006a7d6c8293adeb5fa0836ae3668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:54 +0000
Subject: [PATCH 02/37] fix: math1.mul_vectors returns the result for a set of
 simplices (4d array)

---
 src/pyqcstrc/dode2/math1.py | 1 +
 src/pyqcstrc/ico2/math1.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 154676f..b857499 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -227,6 +227,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index dc0f673..6c420c3 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -221,6 +221,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
-- 
2.43.0


From 9a3957a58872818d23fbf1ee92d1df88b302e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:54 +0000
Subject: [PATCH 03/37] fix: math1.dot_product_1 index in the matrix-matrix
 product

---
 src/pyqcstrc/dode2/math1.py | 2 +-
 src/pyqcstrc/ico2/math1.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index b857499..ddf32ed 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -388,7 +388,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 6c420c3..0969900 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -382,7 +382,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
-- 
2.43.0


From 18310c8edea2fb1e47cfa868c82720e3a2a6539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:54 +0000
Subject: [PATCH 04/37] fix: math1.det_matrix referred to an undefined name

---
 src/pyqcstrc/dode2/math1.py | 2 +-
 src/pyqcstrc/ico2/math1.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index ddf32ed..3bafaef 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -652,7 +652,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 0969900..6f95211 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -668,7 +668,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
-- 
2.43.0


From 6187960061b57cdf2b2b3e10738d1e0916874d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:38 +0000
Subject: [PATCH 05/37] fix: symmetry: *_specific_symop used an undefined list
 and overwrote its index

---
 src/pyqcstrc/dode2/symmetry.py | 8 +++-----
 src/pyqcstrc/ico2/symmetry.py  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 29aa176..3abbf76 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -99,12 +99,10 @@ def generator_obj_symmetric_triangle_specific_symop(obj,centre,list_of_symmetry_
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=dodesymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
-        i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
-            i+=1
+        for i,indx in enumerate(list_of_symmetry_operation_index):
+            a[i]=symop_obj(mop[indx],obj,centre)
         return a
     else:
         print('object has an incorrect shape!')
diff --git a/src/pyqcstrc/ico2/symmetry.py b/src/pyqcstrc/ico2/symmetry.py
index aaa20dd..bb56b54 100755
--- a/src/pyqcstrc/ico2/symmetry.py
+++ b/src/pyqcstrc/ico2/symmetry.py
@@ -91,12 +91,10 @@ def generator_obj_symmetric_tetrahedron_specific_symop(obj,centre,list_of_symmet
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=icosasymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
-        i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
-            i+=1
+        for i,indx in enumerate(list_of_symmetry_operation_index):
+            a[i]=symop_obj(mop[indx],obj,centre)
         return a
     else:
         print('object has an incorrect shape!')
-- 
2.43.0


From eae23837a0c5ac9e98e5b12f58fb41bfe1659e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:38 +0000
Subject: [PATCH 06/37] fix: symmetry.generator_equivalent_vectors did not call
 the generator

---
 src/pyqcstrc/dode2/symmetry.py | 2 +-
 src/pyqcstrc/ico2/symmetry.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 3abbf76..7d76723 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -122,7 +122,7 @@ def generator_obj_symmetric_vec(vectors, centre):
 def generator_equivalent_vectors(vectors,centre):
     """
     """
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
diff --git a/src/pyqcstrc/ico2/symmetry.py b/src/pyqcstrc/ico2/symmetry.py
index bb56b54..7704d08 100755
--- a/src/pyqcstrc/ico2/symmetry.py
+++ b/src/pyqcstrc/ico2/symmetry.py
@@ -108,7 +108,7 @@ def generator_obj_symmetric_vec(vectors, centre):
     return generator_obj_symmetric_obj(vectors,centre)
 
 def generator_equivalent_vectors(vectors,centre):
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
-- 
2.43.0


From 3d63df87eaa773bd77b8281519f75d41af38e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:47 +0000
Subject: [PATCH 07/37] fix: numericalc.inside_outside_obj reported inside as
 outside; inside_outside_obj_tau used undefined names

---
 src/pyqcstrc/dode2/numericalc.py | 13 +++++--------
 src/pyqcstrc/ico2/numericalc.py  | 11 ++++-------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index c0e5034..9a07354 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -489,11 +489,8 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
     # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
+    point=get_internal_component_numerical(point)
+    obj=np.array([get_internal_component_sets_numerical(vts) for vts in obj])
     return inside_outside_obj(point,obj)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
@@ -507,14 +504,14 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
         vertex coordinates of triangle, (xyz1, xyz2, xyz3), (), (), ...
     """
     flg=0
-    for tetrahedron in obj:
+    for triangle in obj:
         if inside_outside_triangle(point,triangle):
             flg+=1
             break
     if flg==0:
-        return True # inside
-    else:
         return False # outside
+    else:
+        return True # inside
 
 def inside_outside_triangle_tau(point: NDArray[np.int64], triangle: NDArray[np.int64]) -> bool:
     """this function judges whether the point is inside a triangle or not
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index 4387b5a..fe72983 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -423,11 +423,8 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
     # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
+    point=get_internal_component_numerical(point)
+    obj=np.array([get_internal_component_sets_numerical(vts) for vts in obj])
     return inside_outside_obj(point,obj)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
@@ -446,9 +443,9 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
             flg+=1
             break
     if flg==0:
-        return True # inside
-    else:
         return False # outside
+    else:
+        return True # inside
 
 def inside_outside_tetrahedron_tau(point: NDArray[np.int64], tetrahedron: NDArray[np.int64]) -> bool:
     """this function judges whether the point is inside a tetrahedron or not
-- 
2.43.0


From db7e53035ca03b92aa1d2a53262969a0a7b1957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:20 +0000
Subject: [PATCH 08/37] fix: utils: sign of a volume/area is decided exactly
 (negative volume for thin cells)

---
 src/pyqcstrc/dode2/math1.py | 24 ++++++++++++++++++++++++
 src/pyqcstrc/dode2/utils.py |  7 ++-----
 src/pyqcstrc/ico2/math1.py  | 24 ++++++++++++++++++++++++
 src/pyqcstrc/ico2/utils.py  |  4 ++--
 4 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 3bafaef..d4c9147 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -27,6 +27,30 @@ def reduced(c1: int, c2: int, c3: int) -> NDArray[np.int64]:
     except OverflowError:
         return np.array(x,dtype=object)
 
+def sign(a: NDArray[np.int64]) -> int:
+    """Sign of a value in SIN-style, evaluated exactly (no float arithmetic).
+
+    Parameters
+    ----------
+    a: array
+        value in SIN-style
+
+    Returns
+    -------
+    int: 1, 0 or -1
+    """
+    # a = (p+q*sqrt(3))/(2*c)
+    p=2*int(a[0])
+    q=int(a[1])
+    if int(a[2])<0:
+        p,q=-p,-q
+    if p>=0 and q>=0:
+        return 1 if p>0 or q>0 else 0
+    if p<=0 and q<=0:
+        return -1
+    d=p*p-3*q*q
+    return 1 if (p>0)==(d>0) else -1
+
 def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # summation (a+b) in SIN-style
diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index a1a99ea..ec5b484 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -5,6 +5,7 @@
 #
 import sys
 from pyqcstrc.dode2.math1 import (projection3,
+                                sign,
                                 add,
                                 sub,
                                 mul,
@@ -126,11 +127,7 @@ def triangle_area(vts: NDArray[np.int64]) -> NDArray[np.int64]:
     
     v=outer_product(v1,v2)
     
-    a1=v[2][0]
-    a2=v[2][1]
-    a3=v[2][2]
-    
-    if a1+a2*TAU<0.0: # to avoid negative volume...
+    if sign(v[2])<0: # to avoid negative volume...
         return mul(v[2],np.array([-1,0,2]))
     else:
         return mul(v[2],np.array([1,0,2]))
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 6f95211..8c80779 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -26,6 +26,30 @@ def reduced(c1: int, c2: int, c3: int) -> NDArray[np.int64]:
     except OverflowError:
         return np.array(x,dtype=object)
 
+def sign(a: NDArray[np.int64]) -> int:
+    """Sign of a value in TAU-style, evaluated exactly (no float arithmetic).
+
+    Parameters
+    ----------
+    a: array
+        value in TAU-style
+
+    Returns
+    -------
+    int: 1, 0 or -1
+    """
+    # a = (p+q*sqrt(5))/(2*c)
+    p=2*int(a[0])+int(a[1])
+    q=int(a[1])
+    if int(a[2])<0:
+        p,q=-p,-q
+    if p>=0 and q>=0:
+        return 1 if p>0 or q>0 else 0
+    if p<=0 and q<=0:
+        return -1
+    d=p*p-5*q*q
+    return 1 if (p>0)==(d>0) else -1
+
 def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # summation (a+b) in TAU-style
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index b127b59..2a118bb 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -6,6 +6,7 @@
 import sys
 #sys.path.append('.')
 from pyqcstrc.ico2.math1 import (projection3,
+                                sign,
                                 add,
                                 sub,
                                 mul,
@@ -124,8 +125,7 @@ def tetrahedron_volume(vts: NDArray[np.int64]) -> NDArray[np.int64]:
     v=inner_product(v,v3)
     
     # avoid a negative value
-    val=numeric_value(v)
-    if val<0.0: # to avoid negative volume
+    if sign(v)<0: # to avoid negative volume
         return mul(v,np.array([-1,0,6]))
     else:
         return mul(v,np.array([1,0,6]))
-- 
2.43.0


From 0a7c22ab0b336cdfeac3912cca68b033a8796aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:06 +0000
Subject: [PATCH 09/37] fix: numericalc.point_on_segment missed the end point
 given by another 6d representative

---
 src/pyqcstrc/dode2/numericalc.py | 2 +-
 src/pyqcstrc/ico2/numericalc.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index 9a07354..9dfd625 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -110,7 +110,7 @@ def point_on_segment(point: NDArray[np.int64], line_segment: NDArray[np.int64])
     lBA=np.linalg.norm(vecBA)
     if lBA>0.0 and abs(np.dot(vecPA,vecBA)-lPA*lBA)<EPS:
         s=lPA/lBA
-        if s>=0.0 and s<=1.0:
+        if s>=0.0 and s<=1.0+EPS:
             return True
         elif s>1.0:
             return False #       A==B P
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index fe72983..b29255a 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -110,7 +110,7 @@ def point_on_segment(point: NDArray[np.int64], line_segment: NDArray[np.int64])
     lBA=np.linalg.norm(vecBA)
     if lBA>0.0 and abs(np.dot(vecPA,vecBA)-lPA*lBA)<EPS:
         s=lPA/lBA
-        if s>=0.0 and s<=1.0:
+        if s>=0.0 and s<=1.0+EPS:
             return True
         elif s>1.0:
             return False #       A==B P
-- 
2.43.0


From e1428db92da0945ad60b447f1a7fcc23c2cb5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:22 +0000
Subject: [PATCH 10/37] fix: numericalc.coplanar_check_numeric depended on
 random samples and returned None for (nearly) collinear sets

---
 src/pyqcstrc/dode2/numericalc.py | 46 +++++++++-----------------------
 src/pyqcstrc/ico2/numericalc.py  | 46 +++++++++-----------------------
 2 files changed, 24 insertions(+), 68 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index 9dfd625..80e52f0 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -18,7 +18,7 @@ def coplanar_check_numeric_tau(pts: NDArray[np.int64], num_iteration: int=5) ->
     pns: array
         6d coordinates of the points, xyz, in TAU-style
     num_iteration: int
-        number of iterations.
+        not used (kept for compatibility).
     
     Returns
     -------
@@ -31,14 +31,14 @@ def coplanar_check_numeric_tau(pts: NDArray[np.int64], num_iteration: int=5) ->
 def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> bool:
     """check the points (pns) are in coplanar or not
     メモ：xyz1とxyz2の選び方次第で、outer_product(v1,v2)が小さくなりcoplanarと間違って判定する場合がある。
-    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、ランダムにxyz1とxyz2の選ぶ。
+    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、最も離れた点を選ぶ（結果は乱数に依存しない）。
     
     Parameters
     ----------
     pns: array
         coordinate of the points in Eperp, xyz.
     num_iteration: int
-        number of iterations.
+        not used (kept for compatibility).
     
     Returns
     -------
@@ -46,38 +46,16 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     """
     num=len(pns)
     if num>3:
-        flag=0
-        lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
-            #
-            xyz1=pns[lst3[1]]-pns[lst3[0]]
-            xyz2=pns[lst3[2]]-pns[lst3[0]]
-            vec=np.cross(xyz1,xyz2)
-            flg=0
-            if np.all(abs(vec)<EPS):
-                pass
-            else:
-                flag=1
-                break
-        if flag==1:
-            counter=0
-            lst=list(filter(lambda x: x not in lst3, lst0))
-            for i in lst:
-            #for i in list(filter(lambda x: x not in lst3, lst0)):
-                xyzi=pns[i]-pns[lst3[0]]
-                if abs(np.dot(vec,xyzi))<1e-10:
-                    pass
-                else:
-                    counter=1
-                    break
-            if counter==0:
-                return True
-            else:
-                return False
+        # The plane is spanned by the first point, the point farthest from it (v1), and 
+        # the point farthest from the line through them.
+        v=np.asarray(pns)-pns[0]
+        v1=v[np.argmax(np.sum(v**2,axis=1))]
+        vecs=np.cross(v1,v)
+        vec=vecs[np.argmax(np.sum(vecs**2,axis=1))]
+        if np.all(abs(vec)<EPS): # all points are on a line
+            return True
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            return bool(np.all(abs(np.dot(v,vec))<1e-10))
     else:
         return True
 
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index b29255a..9be1517 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -18,7 +18,7 @@ def coplanar_check_numeric_tau(pts: NDArray[np.int64], num_iteration: int=5) ->
     pns: array
         6d coordinates of the points, xyz, in TAU-style
     num_iteration: int
-        number of iterations.
+        not used (kept for compatibility).
     
     Returns
     -------
@@ -31,14 +31,14 @@ def coplanar_check_numeric_tau(pts: NDArray[np.int64], num_iteration: int=5) ->
 def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> bool:
     """check the points (pns) are in coplanar or not
     メモ：xyz1とxyz2の選び方次第で、outer_product(v1,v2)が小さくなりcoplanarと間違って判定する場合がある。
-    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、ランダムにxyz1とxyz2の選ぶ。
+    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、最も離れた点を選ぶ（結果は乱数に依存しない）。
     
     Parameters
     ----------
     pns: array
         coordinate of the points in Eperp, xyz.
     num_iteration: int
-        number of iterations.
+        not used (kept for compatibility).
     
     Returns
     -------
@@ -46,38 +46,16 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     """
     num=len(pns)
     if num>3:
-        flag=0
-        lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
-            #
-            xyz1=pns[lst3[1]]-pns[lst3[0]]
-            xyz2=pns[lst3[2]]-pns[lst3[0]]
-            vec=np.cross(xyz1,xyz2)
-            flg=0
-            if np.all(abs(vec)<EPS):
-                pass
-            else:
-                flag=1
-                break
-        if flag==1:
-            counter=0
-            lst=list(filter(lambda x: x not in lst3, lst0))
-            for i in lst:
-            #for i in list(filter(lambda x: x not in lst3, lst0)):
-                xyzi=pns[i]-pns[lst3[0]]
-                if abs(np.dot(vec,xyzi))<1e-10:
-                    pass
-                else:
-                    counter=1
-                    break
-            if counter==0:
-                return True
-            else:
-                return False
+        # The plane is spanned by the first point, the point farthest from it (v1), and 
+        # the point farthest from the line through them.
+        v=np.asarray(pns)-pns[0]
+        v1=v[np.argmax(np.sum(v**2,axis=1))]
+        vecs=np.cross(v1,v)
+        vec=vecs[np.argmax(np.sum(vecs**2,axis=1))]
+        if np.all(abs(vec)<EPS): # all points are on a line
+            return True
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            return bool(np.all(abs(np.dot(v,vec))<1e-10))
     else:
         return True
 
-- 
2.43.0


From deb72682bc3ca331cbab9b27d34e1f77af4c4311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:14 +0000
Subject: [PATCH 11/37] fix: ico2: crossing of two line segments raised on
 every input (same algorithm as in dode2)

---
 src/pyqcstrc/ico2/intsct.py     | 46 ++++++++++++++---------
 src/pyqcstrc/ico2/numericalc.py | 66 +++++++++++++++++----------------
 2 files changed, 64 insertions(+), 48 deletions(-)

diff --git a/src/pyqcstrc/ico2/intsct.py b/src/pyqcstrc/ico2/intsct.py
index 1ac3f3e..c35a855 100755
--- a/src/pyqcstrc/ico2/intsct.py
+++ b/src/pyqcstrc/ico2/intsct.py
@@ -239,7 +239,6 @@ def check_intersection_two_tetrahedron_4(tetrahedron_1: NDArray[np.int64], tetra
         else:
             return 0 # no intersection
 
-### This function has ho be checked, although it is not used in ico2.
 def intersection_two_segment(segment_1: NDArray[np.int64], segment_2: NDArray[np.int64]) -> NDArray[np.int64]:
     """check intersection between two line segments.
     
@@ -253,32 +252,45 @@ def intersection_two_segment(segment_1: NDArray[np.int64], segment_2: NDArray[np
     
     """
     # check whether two line segments are intersecting or not by numerical calc.
-    flg=check_intersection_two_segment_numerical(segment_1,segment_2)
-    if flg!=3: # intersecting
+    if check_intersection_two_segment_numerical_6d_tau(segment_1,segment_2): # intersecting
         # calc in TAU-style
-        vec6AB=sub_vectors(segment_1[1],segment_1[0])
-        vecAB=projection3(vec6AB)                 # AB
+        vecAB_6d=sub_vectors(segment_1[1],segment_1[0])
+        vecAB=projection3(vecAB_6d)               # AB
         #
         tmp=sub_vectors(segment_2[1],segment_2[0])
         vecCD=projection3(tmp)                    # CD
         #
-        tmp=sub_vectors(segment_1[0],segment_2[0])
-        vecCA=projection3(tmp)                    # CA
+        #tmp=sub_vectors(segment_1[0],segment_2[0])
+        #vecCA=projection3(tmp)                    # CA
+        #
+        tmp=sub_vectors(segment_2[0],segment_1[0])
+        vecAC=projection3(tmp)                    # AC
         
+        # bunbo=dot_product(vecAB,vecCD)*dot_product(vecCD,vecAB)-dot_product(vecAB,vecAB)*dot_product(vecCD,vecCD)
+        tmp1=dot_product(vecAB,vecCD)
+        tmp2=dot_product(vecCD,vecAB)
+        tmp3=mul(tmp1,tmp2)
         #
-        #bunbo=vecAB[c[0]]*vecCD[c[1]]-vecCD[c[0]]*vecAB[c[1]]
-        tmp1=mul(vecAB[0],vecCD[1])
-        tmp2=mul(vecCD[0],vecAB[1])
-        bunbo=sub(tmp1,tmp2)
+        tmp1=dot_product(vecAB,vecAB)
+        tmp2=dot_product(vecCD,vecCD)
+        tmp4=mul(tmp1,tmp2)
+        bunbo=sub(tmp3,tmp4)
+        
+        # bunshi=dot_product(vecAC,vecCD)*dot_product(vecCD,vecAB)-dot_product(vecCD,vecCD)*dot_product(vecAC,vecAB)
+        tmp1=dot_product(vecAC,vecCD)
+        tmp2=dot_product(vecCD,vecAB)
+        tmp3=mul(tmp1,tmp2)
         #
-        #s=(vecCD[c[0]]*vecCA[c[1]]-vecCA[c[0]]*vecCD[c[1]])/bunbo
-        tmp1=mul(vecCD[0],vecCA[1])
-        tmp2=mul(vecCA[0],vecCD[1])
-        tmp1=sub(tmp1,tmp2)
-        s=div(tmp1,bunbo)
+        tmp1=dot_product(vecCD,vecCD)
+        tmp2=dot_product(vecAC,vecAB)
+        tmp4=mul(tmp1,tmp2)
+        bunshi=sub(tmp3,tmp4)
+        
+        # s=bunshi/bunbo
+        s=div(bunshi,bunbo)
         #
         # OP = OA + s*AB
-        tmp=mul_vector(vec6AB,s)
+        tmp=mul_vector(vecAB_6d,s)
         return add_vectors(segment_1[0],tmp)
     else: # no intersection
         return 
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index 9be1517..f133f84 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -308,41 +308,45 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
         line_segment_2: C--D
     
     Returns
-        int, out = 0 (Intersection was found when a view allong to Z-axis)
-                   1 (Intersection was found when a view allong to X-axis)
-                   2 (Intersection was found when a view allong to Y-axis)
-                   3 (No intersection was found)
     -------
-    
+    bool
     """
-    vecAB=ln1[1]-ln1[0] # AB
-    vecCD=ln2[2]-ln2[0] # CD
-    vecCA=ln1[0]-ln2[1] # CA
-    
-    # check whether two line-segments are intersecting or not.
-    comb=[\
-    [0,1,2],\
-    [1,2,0],\
-    [2,0,1]]
-    out=0
-    for c in comb:
-        bunbo=vecAB[c[0]]*vecCD[c[1]]-vecCD[c[0]]*vecAB[c[1]]
-        if abs(bunbo)<EPS:
-            t=(vecAB[c[0]]*vecCA[c[1]]-vecCA[c[0]]*vecAB[c[1]])/bunbo
-            if t>=0.0 and t<=1.0:
-                s=(vecCD[c[0]]*vecCA[c[1]]-vecCA[c[0]]*vecCD[c[1]])/bunbo
-                if s>=0.0 and s<=1.0:
-                    if abs(-s*vecAB[c[2]]+t*vecCD[c[2]]-vecCA[c[2]])<=EPS:
-                        break
-                    else:
-                        out+=1
-                else:
-                    out+=1
+    # line1-A
+    L1a=ln1[0]
+    
+    # line1-B
+    L1b=ln1[1]
+    
+    # line2-A
+    L2a=ln2[0]
+    
+    # line2-B
+    L2b=ln2[1]
+    
+    vecAB=L1b-L1a
+    vecAC=L2a-L1a
+    vecCD=L2b-L2a
+    
+    # bunshi
+    t1=np.dot(vecAC,vecCD)*np.dot(vecCD,vecAB)-np.dot(vecCD,vecCD)*np.dot(vecAC,vecAB)
+    # bunbo
+    t2=np.dot(vecAB,vecCD)*np.dot(vecCD,vecAB)-np.dot(vecAB,vecAB)*np.dot(vecCD,vecCD)
+    
+    if abs(t2)<EPS:
+        return False
+    else:
+        s=t1/t2
+        t=(-np.dot(vecAC,vecCD)+s*np.dot(vecAB,vecCD))/np.dot(vecCD,vecCD)
+        if s>=0.0 and s<=1.0 and t>=0.0 and t<=1.0:
+            dd=0
+            for i in range(3):
+                dd+=((L2a[i]-L1a[i])-s*(L1b[i]-L1a[i])+t*(L2b[i]-L2a[i]))**2
+            if dd<EPS:
+                return True # intersecting
             else:
-                out+=1
+                return False
         else:
-            out+=1
-    return out
+            return False
     
 def triangle_area(a: NDArray[np.int64]) -> float:
     """Numerial calcuration of area of given triangle, a.
-- 
2.43.0


From 37fbb5e3b634ce711c3932cecb8c668e38db5e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:29 +0000
Subject: [PATCH 12/37] fix: numericalc: crossing of two segments at an end
 point was lost by rounding (part of an intersection missing)

---
 src/pyqcstrc/dode2/numericalc.py | 2 +-
 src/pyqcstrc/ico2/numericalc.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index 80e52f0..0202726 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -399,7 +399,7 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     else:
         s=t1/t2
         t=(-np.dot(vecAC,vecCD)+s*np.dot(vecAB,vecCD))/np.dot(vecCD,vecCD)
-        if s>=0.0 and s<=1.0 and t>=0.0 and t<=1.0:
+        if s>=0.0-EPS and s<=1.0+EPS and t>=0.0-EPS and t<=1.0+EPS:
             dd=0
             for i in range(3):
                 dd+=((L2a[i]-L1a[i])-s*(L1b[i]-L1a[i])+t*(L2b[i]-L2a[i]))**2
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index f133f84..e6e5ffa 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -337,7 +337,7 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     else:
         s=t1/t2
         t=(-np.dot(vecAC,vecCD)+s*np.dot(vecAB,vecCD))/np.dot(vecCD,vecCD)
-        if s>=0.0 and s<=1.0 and t>=0.0 and t<=1.0:
+        if s>=0.0-EPS and s<=1.0+EPS and t>=0.0-EPS and t<=1.0+EPS:
             dd=0
             for i in range(3):
                 dd+=((L2a[i]-L1a[i])-s*(L1b[i]-L1a[i])+t*(L2b[i]-L2a[i]))**2
-- 
2.43.0


From 24981498a8cfe5c3e36a28add0cb37819607cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:27 +0000
Subject: [PATCH 13/37] fix: utils: surface triangles and unique
 edges/triangles compared float centroids (repeated when shared vertices have
 different 6d representatives)

---
 src/pyqcstrc/dode2/utils.py |  5 +++--
 src/pyqcstrc/ico2/utils.py  | 45 +++++++++----------------------------
 2 files changed, 13 insertions(+), 37 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index ec5b484..829bb8b 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -257,10 +257,11 @@ def generator_unique_edges(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     # (2) 重複のないユニークな辺を得る。
     #print('number of edges:',len(edges))
     num_edges=len(edges)
-    a=np.zeros((num_edges,3),dtype=np.float64)
+    # 中点の直交空間成分をTAU-styleのまま比較する（数値計算では同じ辺でも一致しないことがある）。
+    a=np.zeros((num_edges,3,3),dtype=np.int64)
     for i1 in range(num_edges):
         vt=centroid(edges[i1])
-        a[i1]=get_internal_component_numerical(vt)
+        a[i1]=projection3(vt)
     b=np.unique(a,return_index=True,axis=0)[1]
     num=len(b)
     #print('number of unique edges:',num)
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 2a118bb..06f4a20 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -244,11 +244,11 @@ def generator_surface_1(obj: NDArray[np.int64], verbose: int=0) -> NDArray[np.in
         # 三角形が重複していれば重心も同じことを利用する。重心が一致すれば重複しているとは限らないが、
         # objが正しく与えられているとすれば問題ない。
         #
-        # まず重心xyzを求める
-        xyz=np.zeros((n1*4,3),dtype=np.float64)
+        # まず重心xyzを求める (TAU-style)
+        xyz=np.zeros((n1*4,3,3),dtype=np.int64)
         for i1 in range(n1*4):
             vt=centroid(triangles[i1])
-            xyz[i1]=get_internal_component_numerical(vt)
+            xyz[i1]=projection3(vt)
         
         """
         # 以下のやり方では効率悪い。
@@ -275,35 +275,9 @@ def generator_surface_1(obj: NDArray[np.int64], verbose: int=0) -> NDArray[np.in
                 lst.append(i1)
         #===========ここまで============
         """
-        #"""
-        # xyz座標のソートをx,y,zに対して行い、重複チェックを効率化(O(n))。
-        #===========ここから============
-        # xyzをx,y,zの順で優先的にソートし、indexを得る。
-        indx_xyz=np.lexsort((xyz[:,2],xyz[:,1],xyz[:,0]))
-        #print('number of trianges:',len(indx_xyz))
-        #print('indx_xyz:',indx_xyz)
-        
         # 表面のtriangleのみを選び出すには、重複しているtriangleを除けば良い。
-        # 上でxyzをx,y,zの順で優先的にソートできていれば、着目している点をその前後と比べるだけで重複があるか判断できる。
-        lst=[]
-        if np.allclose(xyz[indx_xyz[0]],xyz[indx_xyz[1]]):
-            pass
-        else:
-            lst.append(indx_xyz[0])
-        for i1 in range(1,len(indx_xyz)-1):
-            counter=0
-            for i2 in [-1,1]:
-                if np.allclose(xyz[indx_xyz[i1]],xyz[indx_xyz[i1+i2]]): # equivalent
-                    counter+=1
-                    break
-            if counter==0:
-                lst.append(indx_xyz[i1])
-        if np.allclose(xyz[indx_xyz[-1]],xyz[indx_xyz[-2]]):
-            pass
-        else:
-            lst.append(indx_xyz[-1])
-        #===========ここまで============
-        #"""
+        _,indx,counts=np.unique(xyz,return_index=True,return_counts=True,axis=0)
+        lst=indx[counts==1]
         
         #print('lst:',lst)
         num=len(lst)
@@ -353,10 +327,10 @@ def generator_unique_triangles(obj: NDArray[np.int64]) -> NDArray[np.int64]:
         # 三角形が重複していれば重心も同じことを利用する。重心が一致すれば重複しているとは限らないが、
         # objが正しく与えられているとすれば問題ない。
         #print('number of trianges:',len(triangles))
-        a=np.zeros((n1*4,3),dtype=np.float64)
+        a=np.zeros((n1*4,3,3),dtype=np.int64)
         for i1 in range(n1*4):
             vt=centroid(triangles[i1])
-            a[i1]=get_internal_component_numerical(vt)
+            a[i1]=projection3(vt)
         b=np.unique(a,return_index=True,axis=0)[1]
         num=len(b)
         #print('number of unique trianges:',num)
@@ -449,10 +423,11 @@ def generator_unique_edges(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     # (2) 重複のないユニークな辺を得る。
     #print('number of edges:',len(edges))
     num_edges=len(edges)
-    a=np.zeros((num_edges,3),dtype=np.float64)
+    # 中点の直交空間成分をTAU-styleのまま比較する（数値計算では同じ辺でも一致しないことがある）。
+    a=np.zeros((num_edges,3,3),dtype=np.int64)
     for i1 in range(num_edges):
         vt=centroid(edges[i1])
-        a[i1]=get_internal_component_numerical(vt)
+        a[i1]=projection3(vt)
     b=np.unique(a,return_index=True,axis=0)[1]
     num=len(b)
     #print('number of unique edges:',num)
-- 
2.43.0


From f268155df8214a86011f962f0a1cdf767276045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:27 +0000
Subject: [PATCH 14/37] fix: dode2: generate_border_edges called a function
 absent from utils

---
 src/pyqcstrc/dode2/occupation_domain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index ca96e94..18499e2 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1133,8 +1133,7 @@ def generate_border_edges(obj):
             The shape is (num,2,6,3), where num=numbre_of_edge.
     
     """
-    triangle_surface=utils.generator_surface_1(obj)
-    return utils.surface_cleaner(triangle_surface)
+    return utils.surface_cleaner(obj)
 
 def outline(obj):
     """
-- 
2.43.0


From 26d2114f09dc70b0d7cecb1aa03153f2a41d10fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:37 +0000
Subject: [PATCH 15/37] fix: simplification replaced a non-convex occupation
 domain by its convex hull

---
 src/pyqcstrc/dode2/occupation_domain.py | 4 ++--
 src/pyqcstrc/ico2/occupation_domain.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 18499e2..94b5b51 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1107,8 +1107,8 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_area_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_area_6d(obj_tmp)
+        # obj is in its convex hull, so that they are identical when the hull has the same volume.
+        vol1=utils.obj_area_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 6e3aec8..22a3538 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1141,8 +1141,8 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_volume_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_volume_6d(obj_tmp)
+        # obj is in its convex hull, so that they are identical when the hull has the same volume.
+        vol1=utils.obj_volume_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
-- 
2.43.0


From 439001155aa2b06d40de151c4405d73505e2818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:37 +0000
Subject: [PATCH 16/37] fix: ico2: tetrahedralization_points raised for a
 coplanar set of points

---
 src/pyqcstrc/ico2/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 06f4a20..0f9cf81 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -827,7 +827,7 @@ def tetrahedralization_points(points: NDArray[np.int64]) -> NDArray[np.int64]:
         
     ltmp=decomposition(tmp)
     p=points
-    if ltmp!=[0]:
+    if ltmp is not None:
         counter=0
         for i in ltmp:
             tmp3=np.array([p[i[0]],p[i[1]],p[i[2]],p[i[3]]]).reshape(4,6,3)
-- 
2.43.0


From e7b9dfda5c4387687f1a20ba885a4cc20a2271d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:32 +0000
Subject: [PATCH 17/37] fix: surface_cleaner raised when all edges in a plane
 are shared (non-conforming set of tetrahedra)

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 829bb8b..ee1cb52 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -448,7 +448,7 @@ def gen_border_edges_of_coplanar_triangles(coplanar_triangles: NDArray[np.int64]
             lst.append(edge1)
         else:
             pass
-    return np.array(lst,dtype=np.int64)
+    return np.array(lst,dtype=np.int64).reshape(-1,2,6,3)
 
 #----------------------------
 # Equivalence check
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 0f9cf81..29aaad4 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -638,7 +638,7 @@ def gen_border_edges_of_coplanar_triangles(coplanar_triangles: NDArray[np.int64]
             lst.append(edge1)
         else:
             pass
-    return np.array(lst,dtype=np.int64)
+    return np.array(lst,dtype=np.int64).reshape(-1,2,6,3)
 
 #----------------------------
 # Equivalence check
-- 
2.43.0


From b87c4300ade410b750eadfa54fb23e8595130595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:49 +0000
Subject: [PATCH 18/37] fix: intersection_convex raised when no vertex is
 inside the other domain (and on every overlap in dode2)

---
 src/pyqcstrc/dode2/intsct.py | 10 +++++++++-
 src/pyqcstrc/ico2/intsct.py  |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pyqcstrc/dode2/intsct.py b/src/pyqcstrc/dode2/intsct.py
index 552b302..735d8e6 100755
--- a/src/pyqcstrc/dode2/intsct.py
+++ b/src/pyqcstrc/dode2/intsct.py
@@ -603,11 +603,12 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
     #
     counter1a=0
     #counter2a=0
+    point_a1=np.zeros((0,6,3),dtype=np.int64)
     vertices1=remove_doubling_in_perp_space(obj1_edge) # generating vertces of 1st OD
     for vrtx in vertices1:
         counter2a=0
         for triangle2 in obj2:
-            if inside_outside_ttriangle_tau(vrtx,triangle2):
+            if inside_outside_triangle_tau(vrtx,triangle2):
                 counter2a+=1
                 break
             else:
@@ -630,6 +631,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
     #
     counter1b=0
     #counter2b=0
+    point_b1=np.zeros((0,6,3),dtype=np.int64)
     vertices2=remove_doubling_in_perp_space(obj2_edge) # generating vertces of 2nd OD
     for vrtx in vertices2:
         counter2b=0
@@ -664,6 +666,9 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             for ed2 in obj2_edge:
                 if check_intersection_segment_surface_numerical_6d_tau(ed2,tr1): # intersection
                     tmp=intersection_segment_surface(ed2,tr1)
+                    if np.all(tmp==None): # the segment is inside the triangle
+                        continue
+                    tmp=tmp.reshape(-1,6,3)
                     if counter==0:
                         p=tmp
                     else:
@@ -675,6 +680,9 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             for ed1 in obj1_edge:
                 if check_intersection_segment_surface_numerical_6d_tau(ed1,tr2): # intersection
                     tmp=intersection_segment_surface(ed1,tr2)
+                    if np.all(tmp==None): # the segment is inside the triangle
+                        continue
+                    tmp=tmp.reshape(-1,6,3)
                     if counter==0:
                         p=tmp
                     else:
diff --git a/src/pyqcstrc/ico2/intsct.py b/src/pyqcstrc/ico2/intsct.py
index c35a855..b3ed3f3 100755
--- a/src/pyqcstrc/ico2/intsct.py
+++ b/src/pyqcstrc/ico2/intsct.py
@@ -693,6 +693,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
     #
     counter1a=0
     #counter2a=0
+    point_a1=np.zeros((0,6,3),dtype=np.int64)
     vertices1=remove_doubling_in_perp_space(obj1_edge) # generating vertces of 1st OD
     for vrtx in vertices1:
         counter2a=0
@@ -720,6 +721,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
     #
     counter1b=0
     #counter2b=0
+    point_b1=np.zeros((0,6,3),dtype=np.int64)
     vertices2=remove_doubling_in_perp_space(obj2_edge) # generating vertces of 2nd OD
     for vrtx in vertices2:
         counter2b=0
-- 
2.43.0


From 94091966dbdc975fa8a023da309c5bc4908b95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:15 +0000
Subject: [PATCH 19/37] fix: dode2: check_connectivity_triangles compared a
 triangle with itself; get_common_edge_in_two_triangles used undefined names

---
 src/pyqcstrc/dode2/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index ee1cb52..cd5f7af 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -707,7 +707,7 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
 def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> bool:
     """Checking whether triangle_1 and _2 are sharing an edge or not.
     """
-    a=np.vstack([triangle_1,triangle_1])
+    a=np.vstack([triangle_1,triangle_2])
     a=remove_doubling_in_perp_space(a)
     if len(a)==4:
         return True # common edge
@@ -717,8 +717,8 @@ def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDAr
 def get_common_edge_in_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> NDArray[np.int64]:
     """ Return common edge of two connected triangles.
     """
-    edge1=get_triangle_edge(triangle_1)
-    edge2=get_triangle_edge(triangle_2)
+    edges1=get_triangle_edge(triangle_1)
+    edges2=get_triangle_edge(triangle_2)
     
     count=0
     for edge_1 in edges1:
-- 
2.43.0


From 843a9639ee9b64ae352194dfeb7f412a54797e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:15 +0000
Subject: [PATCH 20/37] fix: utils.equivalent took a simplex and one of its
 faces as equivalent

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index cd5f7af..527df31 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -464,7 +464,7 @@ def equivalent(obj1: NDArray[np.int64], obj2: NDArray[np.int64]) -> bool:
     """
     def check1(a,b,n):
         n1,_,_=a.shape
-        n2,_,_=a.shape
+        n2,_,_=b.shape
         if n1==n2:
             a=np.vstack([a,b])
             a=remove_doubling_in_perp_space(a)
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 29aaad4..b2c0115 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -656,7 +656,7 @@ def equivalent(obj1: NDArray[np.int64], obj2: NDArray[np.int64]) -> bool:
     
     def check1(a,b,n):
         n1,_,_=a.shape
-        n2,_,_=a.shape
+        n2,_,_=b.shape
         if n1==n2:
             a=np.vstack([a,b])
             a=remove_doubling_in_perp_space(a)
-- 
2.43.0


From 4eb4cbce666922373abf4b8683e58c1134bf20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:55 +0000
Subject: [PATCH 21/37] fix: write_xyz: volume of each tetrahedron, numbering
 and selection of vertices, edges (always written as triangles in dode2)

---
 src/pyqcstrc/dode2/occupation_domain.py | 8 ++++----
 src/pyqcstrc/ico2/occupation_domain.py  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 94b5b51..c909653 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -979,7 +979,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=(3 if select=='vertex' or select=='v' else 4):
         print('object has an incorrect shape!')
         return 
     else:
@@ -989,17 +989,17 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
         #    if verbose>0:
         #        print('    written in %s/%s.xyz'%(path,basename))
         #    return 0
-        if select == 'triangle' or 't':
+        if select == 'triangle' or select == 't':
             generator_xyz_dim4_triangle(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'edge' or 'e':
+        elif select == 'edge' or select == 'e':
             generator_xyz_dim4_edge(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'vertex' or 'v':
+        elif select == 'vertex' or select == 'v':
             generator_xyz_dim4_vertex(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 22a3538..7a96d81 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -900,7 +900,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
         vol=utils.obj_volume_6d(obj)
         f.write('volume = %d %d %d (%8.6f)\n'%(vol[0],vol[1],vol[2],numericalc.numeric_value(vol)))
         for i1 in range(len(obj)):
-            v=utils.tetrahedron_volume_6d(tetrahedron)
+            v=utils.tetrahedron_volume_6d(obj[i1])
             f.write('%3d-the tetrahedron, %d %d %d (%8.6f)\n'\
                     %(i1,v[0],v[1],v[2],numericalc.numeric_value(v)))
         f.close()
@@ -1006,14 +1006,14 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             point[3][0],point[3][1],point[3][2],\
             point[4][0],point[4][1],point[4][2],\
             point[5][0],point[5][1],point[5][2]))
-            i1=0
+            i1+=1
         f.closed
         return 0
     
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=(3 if select=='vertex' else 4):
         print('object has an incorrect shape!')
         return 
     else:
-- 
2.43.0


From da7c0012d6d63494c6bd9739c6c05faeffc33e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:36 +0000
Subject: [PATCH 22/37] fix: write_vesta: 'normal' was written as edges in
 ico2; 'simple' and 'podatm' called a function absent from utils

---
 src/pyqcstrc/dode2/occupation_domain.py |  9 ++++-----
 src/pyqcstrc/ico2/occupation_domain.py  | 11 +++++------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index c909653..0411795 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -205,7 +205,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj,verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -640,7 +640,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
@@ -708,10 +708,9 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            for i2,pair in enumerate(pairs):
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
-                i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
-                i2+=1
+                i2+1, pair[1], pair[2], pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
             print('  0 0 0 0\
             \nSITET', file = f)
             for i2 in range(len(vertices)):
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 7a96d81..d089da2 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -188,7 +188,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     #dmax=5.0
     dmax=10.0
     
-    if select=='simple' or 'egdes':
+    if select=='simple' or select=='egdes':
         
         if np.all(obj==None):
             print('no volume obj')
@@ -197,7 +197,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj, verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -627,7 +627,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
@@ -695,10 +695,9 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            for i2,pair in enumerate(pairs):
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
-                i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
-                i2+=1
+                i2+1, pair[1], pair[2], pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
             print('  0 0 0 0\
             \nSITET', file = f)
             for i2 in range(len(vertices)):
-- 
2.43.0


From ab28a21186e261cb4b1faf83cbb1ee0fe12c7a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 23/37] fix: pod/atm output: vertices given by different 6d
 representatives, number of simplices in nth, write_podatm raised for any
 array

---
 src/pyqcstrc/dode2/occupation_domain.py |  9 ++++++---
 src/pyqcstrc/ico2/occupation_domain.py  | 11 +++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 0411795..316e987 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1202,7 +1202,8 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         
         # generate a list of verices and remove the common vertex from it.
         vtxs=utils.remove_doubling_in_perp_space(obj)
-        vtxs=utils.remove_vector(vtxs,vrtx0)
+        xyz0=math1.projection3(vrtx0)
+        vtxs=np.array([vtx for vtx in vtxs if np.any(math1.projection3(vtx)!=xyz0)])
         
         #--------
         #  pod
@@ -1217,15 +1218,17 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         for triangle in obj:
             for vrtx1 in triangle:
                 for i1 in range(len(vtxs)):
-                    if np.all(vrtx1==vtxs[i1]):
+                    if np.all(math1.projection3(vrtx1)==math1.projection3(vtxs[i1])):
                         lst_indx.append(i1+1) # add 1 to avoide index 0.
                         break
                     else:
                         pass
-        fpod.write('nth= %d'%(len(vtxs)))
+        fpod.write('nth= %d'%(len(obj)))
         for indx in lst_indx:
             fpod.write(' %d'%(indx))
         fpod.write('\n')
+        fatm.close()
+        fpod.close()
         
         return 0
     
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index d089da2..18b6d73 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1223,7 +1223,8 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         
         # generate a list of verices and remove the common vertex from it.
         vtxs=utils.remove_doubling_in_perp_space(obj)
-        vtxs=utils.remove_vector(vtxs,vrtx0)
+        xyz0=math1.projection3(vrtx0)
+        vtxs=np.array([vtx for vtx in vtxs if np.any(math1.projection3(vtx)!=xyz0)])
         
         #--------
         #  pod
@@ -1238,15 +1239,17 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         for tetrahedron in obj:
             for vrtx1 in tetrahedron:
                 for i1 in range(len(vtxs)):
-                    if np.all(vrtx1==vtxs[i1]):
+                    if np.all(math1.projection3(vrtx1)==math1.projection3(vtxs[i1])):
                         lst_indx.append(i1+1) # add 1 to avoide index 0.
                         break
                     else:
                         pass
-        fpod.write('nth= %d'%(len(vtxs)))
+        fpod.write('nth= %d'%(len(obj)))
         for indx in lst_indx:
             fpod.write(' %d'%(indx))
         fpod.write('\n')
+        fatm.close()
+        fpod.close()
         
         return 0
     
@@ -1554,7 +1557,7 @@ def write_podatm(obj, position, vlist, path='.', basename='tmp', shift=[0.0,0.0,
     else:
         pass
     
-    if obj==None:
+    if np.all(obj==None):
         print('no volume obj')
         return 0
     else:
-- 
2.43.0


From a5823e635e9de66e80e95ab16fa165974fb005f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 24/37] fix: utils.remove_vector(s) returned the whole set when
 all vectors are to be removed

---
 src/pyqcstrc/dode2/utils.py | 24 ++++++++----------------
 src/pyqcstrc/ico2/utils.py  | 24 ++++++++----------------
 2 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 527df31..cc69d28 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -636,14 +636,10 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
                 break
         if counter==0:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts1[lst[i1]]
-        return out
-    else:
-        return vts1
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts1[lst[i1]]
+    return out
 
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
@@ -656,14 +652,10 @@ def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.i
             pass
         else:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts[lst[i1]]
-        return out
-    else:
-        return vts
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts[lst[i1]]
+    return out
 
 #################################
 ####
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index b2c0115..eb90ece 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -867,14 +867,10 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
                 break
         if counter==0:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts1[lst[i1]]
-        return out
-    else:
-        return vts1
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts1[lst[i1]]
+    return out
 
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
@@ -887,14 +883,10 @@ def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.i
             pass
         else:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts[lst[i1]]
-        return out
-    else:
-        return vts
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts[lst[i1]]
+    return out
 
 #################################
 ####
-- 
2.43.0


From bff7cdd6f61fd32cc15d223a135c849c0a3c307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:09 +0000
Subject: [PATCH 25/37] fix: read_xyz cut the last character of a file without
 a final newline

---
 src/pyqcstrc/dode2/occupation_domain.py | 2 +-
 src/pyqcstrc/ico2/occupation_domain.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 316e987..75bff6f 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1038,7 +1038,7 @@ def read_xyz(path,basename,select='triangle',verbose=0):
             a=f.readline()
             if not a:
                 break
-            line.append(a[:-1])
+            line.append(a.rstrip("\n"))
         return line
     
     filename='%s/%s.xyz'%(path,basename)
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 18b6d73..5a2db92 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1072,7 +1072,7 @@ def read_xyz(path,basename,select='tetrahedron',verbose=0):
             a=f.readline()
             if not a:
                 break
-            line.append(a[:-1])
+            line.append(a.rstrip("\n"))
         return line
     
     filename='%s/%s.xyz'%(path,basename)
-- 
2.43.0


From dd93721b027497356e9c8469607b20cca3d52b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 26/37] fix: exact integer reduction in the compiled arithmetic
 (values beyond 2^53)

---
 src_cython/dode/math12.pyx | 16 ++++++++--------
 src_cython/ico/math1.pyx   | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src_cython/dode/math12.pyx b/src_cython/dode/math12.pyx
index 7c2976d..1d1e502 100755
--- a/src_cython/dode/math12.pyx
+++ b/src_cython/dode/math12.pyx
@@ -92,9 +92,9 @@ cpdef list add(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
     if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+        return [-c1//gcd,-c2//gcd,-c3//gcd]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [c1//gcd,c2//gcd,c3//gcd]
 
 cpdef list sub(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE_int_t q2,DTYPE_int_t q3): # A-B
     cdef DTYPE_int_t c1,c2,c3,gcd
@@ -105,9 +105,9 @@ cpdef list sub(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
     if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+        return [-c1//gcd,-c2//gcd,-c3//gcd]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [c1//gcd,c2//gcd,c3//gcd]
 
 cpdef list mul(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE_int_t q2,DTYPE_int_t q3): # A*B
     cdef DTYPE_int_t c1,c2,c3,gcd
@@ -119,9 +119,9 @@ cpdef list mul(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     gcd=np.gcd.reduce(x)
     #print('c1,c2,c3,gcd = %d %d %d %d'%(c1,c2,c3,gcd))
     if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+        return [-c1//gcd,-c2//gcd,-c3//gcd]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [c1//gcd,c2//gcd,c3//gcd]
 
 cpdef list div(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE_int_t q2,DTYPE_int_t q3): # A/B
     cdef DTYPE_int_t c1,c2,c3,gcd
@@ -155,9 +155,9 @@ cpdef list div(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
             gcd=np.gcd.reduce(x)
             if gcd!=0:
                 if c3/gcd<0:
-                    return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+                    return [-c1//gcd,-c2//gcd,-c3//gcd]
                 else:
-                    return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+                    return [c1//gcd,c2//gcd,c3//gcd]
             else:
                 print('ERROR_2:division error',c1,c2,c3,p1,p2,p3,q1,q2,q3)
                 return 1
diff --git a/src_cython/ico/math1.pyx b/src_cython/ico/math1.pyx
index ea36de3..89f3dd9 100755
--- a/src_cython/ico/math1.pyx
+++ b/src_cython/ico/math1.pyx
@@ -362,9 +362,9 @@ cpdef list add(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
     if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+        return [-c1//gcd,-c2//gcd,-c3//gcd]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [c1//gcd,c2//gcd,c3//gcd]
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -377,9 +377,9 @@ cpdef list sub(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
     if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+        return [-c1//gcd,-c2//gcd,-c3//gcd]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [c1//gcd,c2//gcd,c3//gcd]
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -392,9 +392,9 @@ cpdef list mul(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
     if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+        return [-c1//gcd,-c2//gcd,-c3//gcd]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [c1//gcd,c2//gcd,c3//gcd]
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -425,9 +425,9 @@ cpdef list div(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
             gcd=np.gcd.reduce(x)
             if gcd!=0:
                 if c3/gcd<0:
-                    return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+                    return [-c1//gcd,-c2//gcd,-c3//gcd]
                 else:
-                    return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+                    return [c1//gcd,c2//gcd,c3//gcd]
             else:
                 print('ERROR_2:division error',c1,c2,c3,p1,p2,p3,q1,q2,q3)
                 return 1
-- 
2.43.0


From 8a372d5636a587a84dc296c611b397823768498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:57 +0000
Subject: [PATCH 27/37] fix: symmetric generators of pyqcstrc.dode could not
 reshape their result

---
 src_cython/dode/symmetry12.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/dode/symmetry12.pyx b/src_cython/dode/symmetry12.pyx
index 2449abf..8f179d4 100755
--- a/src_cython/dode/symmetry12.pyx
+++ b/src_cython/dode/symmetry12.pyx
@@ -37,7 +37,7 @@ cpdef list symop_vec(np.ndarray[DTYPE_int_t,ndim=2] symop,
     vec1=shift_vec_pull(vec,centre)
     vec2=symop_vec_0(symop,vec1)
     vec1=shift_vec_push(vec2,centre)
-    return vec1.tolist()
+    return vec1.ravel().tolist()
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From ec723ab192bcccc455e7ee52fff69821c487dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:57 +0000
Subject: [PATCH 28/37] fix: symmetric of pyqcstrc.dode failed at a site
 without symmetry

---
 src_cython/dode/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index 4f656d7..4d099ba 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -746,7 +746,7 @@ def symmetric(asymmetric_unit, site, verbose = 0):
             objs=obj1
         else:
             objs=np.append(objs,obj1)
-    objs=objs.reshape(int(len(objs)/54),3,6,3)
+    objs=objs.reshape(int(objs.size/54),3,6,3)
     
     return objs
 
-- 
2.43.0


From 40c2b3904163e24a82bb70e62d05c0c4dfbe0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:57 +0000
Subject: [PATCH 29/37] fix: symmetric_12 of pyqcstrc.dode used an undefined
 name and an invalid origin

---
 src_cython/dode/occupation_domain.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index 4d099ba..1d9248f 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -24,7 +24,7 @@ except ImportError:
 
 
 SIN=np.sqrt(3)/2.0
-V0=np.array([[0,0,0],[0,0,0],[0,0,0],[0,0,0],[0,0,0],[0,0,0]])
+V0=np.array([[0,0,1],[0,0,1],[0,0,1],[0,0,1],[0,0,1],[0,0,1]])
 
 def as_it_is(obj):
     """
@@ -524,11 +524,11 @@ def symmetric_12(obj):
     
     """
     
-    if asymmetric_part_obj.ndim == 3:
-        return symmetry12.generator_obj_symmetric_triangle(asymmetric_part_obj, V0)
-    elif asymmetric_part_obj.ndim == 4:
-        asymmetric_part_obj=asymmetric_part_obj.reshape(len(asymmetric_part_obj)*3,6,3)
-        return symmetry12.generator_obj_symmetric_triangle(asymmetric_part_obj, V0)
+    if obj.ndim == 3:
+        return symmetry12.generator_obj_symmetric_triangle(obj, V0)
+    elif obj.ndim == 4:
+        obj=obj.reshape(len(obj)*3,6,3)
+        return symmetry12.generator_obj_symmetric_triangle(obj, V0)
 
 def site_symmetry(wyckoff_position, verbose=0):
     """
-- 
2.43.0


From 9ff2c3234618675635923caf26aa3da3525bd580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:27 +0000
Subject: [PATCH 30/37] fix: qcstrc ignored a phason matrix with a zero entry

---
 src_cython/dode/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index 1d9248f..f11e75e 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -889,7 +889,7 @@ def similarity(obj,order):
 def qcstrc(obj, positions, path, basename, atm, phason_matrix, nmax, shift, origin_shift, verbose = 1, option = 0):
     
     #if phason_matrix == 0 or phason_matrix==[[[0]]] or phason_matrix==[[0]] or phason_matrix==[0]:
-    if np.all(phason_matrix)==0:
+    if not np.any(phason_matrix):
         phason_matrix = np.array([[0.0]])
     else:
         pass
-- 
2.43.0


From 4c1a7eb7329d973fa764b8b583e6cde5103d1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:08 +0000
Subject: [PATCH 31/37] fix: outline1 of pyqcstrc.dode never merged border
 segments sharing their second vertices

---
 src_cython/dode/utils12.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src_cython/dode/utils12.pyx b/src_cython/dode/utils12.pyx
index 13fc8ba..3fcfb11 100755
--- a/src_cython/dode/utils12.pyx
+++ b/src_cython/dode/utils12.pyx
@@ -63,8 +63,7 @@ cdef np.ndarray two_segment_into_one(np.ndarray[DTYPE_int_t, ndim=3] line_segmen
     else:
         pass
 
-    comb=[[0,1,0,1],[0,1,1,0],[1,0,0,1]]
-    #comb=[[0,1,0,1],[0,1,1,0],[1,0,0,1],[1,0,1,0]]
+    comb=[[0,1,0,1],[0,1,1,0],[1,0,0,1],[1,0,1,0]]
     counter=0
 
     for i1 in range(len(comb)):
-- 
2.43.0


From dadd1d751405a5a146301c35c3eac479f1fc13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:15 +0000
Subject: [PATCH 32/37] fix: numericalc12: crossing of two segments at an end
 point was lost by rounding (part of a compiled dodecagonal intersection
 missing)

---
 src_cython/dode/numericalc12.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/dode/numericalc12.pyx b/src_cython/dode/numericalc12.pyx
index 733e084..7e249a1 100755
--- a/src_cython/dode/numericalc12.pyx
+++ b/src_cython/dode/numericalc12.pyx
@@ -634,7 +634,7 @@ cpdef int check_intersection_two_segment_numerical(np.ndarray[DTYPE_int_t, ndim=
             print('          t = %8.6f'%(t))
         else:
             pass
-        if s>=0.0 and s<=1.0 and t>=0.0 and t<=1.0:
+        if s>=0.0-EPS and s<=1.0+EPS and t>=0.0-EPS and t<=1.0+EPS:
             ddx=(L2ax-L1ax)-s*(L1bx-L1ax)+t*(L2bx-L2ax)
             ddy=(L2ay-L1ay)-s*(L1by-L1ay)+t*(L2by-L2ay)
             ddz=(L2az-L1az)-s*(L1bz-L1az)+t*(L2bz-L2az)
-- 
2.43.0


From ded09ea4314d16754171f43664d04161772951e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:15 +0000
Subject: [PATCH 33/37] fix: compiled intersection_convex crashed when no
 vertex lay outside, and failed when the surfaces do not cross

---
 src_cython/ico/intsct.pyx                | 191 ++++++++++++-----------
 src_cython/ico/two_occupation_domains.py |   3 +
 2 files changed, 101 insertions(+), 93 deletions(-)

diff --git a/src_cython/ico/intsct.pyx b/src_cython/ico/intsct.pyx
index 713397c..240cd1c 100755
--- a/src_cython/ico/intsct.pyx
+++ b/src_cython/ico/intsct.pyx
@@ -76,102 +76,107 @@ cpdef list intersection_two_obj_convex(np.ndarray[DTYPE_int_t, ndim=4] obj1,
                 counter+=1
             else:
                 pass
-    if counter==0:
-        return np.array([[[[0]]]])
+    if counter==0: # the surfaces do not cross: apart, or one inside the other
+        p=np.zeros(0,dtype=np.int64)
     else:
-        point=p.reshape(int(len(p)/18),6,3) # 18=6*3
-        point1=remove_doubling_dim3_in_perp_space(point)
-        #print(' dividing into three PODs:')
-        #print('    Common   :     OD1 and     ODB')
-        #print('  UnCommon 1 :     OD1 and Not OD2')
-        #print('  UnCommon 2 : Not OD1 and     OD2')
-        #
-        # --------------------------
-        # (1) Extract vertces of 2nd OD which are insede 1st OD --> point_a1
-        #     Extract vertces of 2nd OD which are outsede 1st OD --> point_b2
-        #
-        counter1=0
-        counter2=0
-        tmp3=remove_doubling_dim4_in_perp_space(obj1_surf) # generating vertces of 1st OD
-        for i1 in range(len(tmp3)):
-            point_tmp=tmp3[i1]
-            counter=0
-            for i2 in range(len(obj2)):
-                tet=obj2[i2]
-                num1=inside_outside_tetrahedron(point_tmp,tet[0],tet[1],tet[2],tet[3])
-                if num1==0:
-                    counter+=1
-                    break
-                else:
-                    pass
-            if counter>0:
-                if counter1==0:
-                    tmp1a=point_tmp.reshape(18) # 18=6*3
-                else:
-                    tmp1a=np.append(tmp1a,point_tmp)
-                counter1+=1
+        pass
+    point=p.reshape(int(len(p)/18),6,3) # 18=6*3
+    point1=remove_doubling_dim3_in_perp_space(point)
+    #print(' dividing into three PODs:')
+    #print('    Common   :     OD1 and     ODB')
+    #print('  UnCommon 1 :     OD1 and Not OD2')
+    #print('  UnCommon 2 : Not OD1 and     OD2')
+    #
+    # --------------------------
+    # (1) Extract vertces of 2nd OD which are insede 1st OD --> point_a1
+    #     Extract vertces of 2nd OD which are outsede 1st OD --> point_b2
+    #
+    counter1=0
+    counter2=0
+    tmp1a=np.zeros(0,dtype=np.int64)
+    tmp1b=np.zeros(0,dtype=np.int64)
+    tmp3=remove_doubling_dim4_in_perp_space(obj1_surf) # generating vertces of 1st OD
+    for i1 in range(len(tmp3)):
+        point_tmp=tmp3[i1]
+        counter=0
+        for i2 in range(len(obj2)):
+            tet=obj2[i2]
+            num1=inside_outside_tetrahedron(point_tmp,tet[0],tet[1],tet[2],tet[3])
+            if num1==0:
+                counter+=1
+                break
             else:
-                if counter2==0:
-                    tmp1b=point_tmp.reshape(18)
-                else:
-                    tmp1b=np.append(tmp1b,point_tmp)
-                counter2+=1
-        point_a1=tmp1a.reshape(int(len(tmp1a)/18),6,3)
-        point_b2=tmp1b.reshape(int(len(tmp1b)/18),6,3)
-        #
-        # (2) Extract vertces of 1st OD which are insede 2nd OD --> point_b1
-        #     Extract vertces of 1st OD which are outsede 2nd OD --> point_a2
-        #
-        counter1=0
-        counter2=0
-        tmp3=remove_doubling_dim4_in_perp_space(obj2_surf) # generating vertces of 2nd OD
-        for i1 in range(len(tmp3)):
-            point_tmp=tmp3[i1]
-            counter=0
-            for i2 in range(len(obj1)):
-                tet=obj1[i2]
-                num1=inside_outside_tetrahedron(point_tmp,tet[0],tet[1],tet[2],tet[3])
-                if num1==0:
-                    counter+=1
-                    break
-                else:
-                    pass
-            if counter>0:
-                if counter1==0:
-                    tmp1a=point_tmp.reshape(18) # 18=6*3
-                else:
-                    tmp1a=np.append(tmp1a,point_tmp)
-                counter1+=1
+                pass
+        if counter>0:
+            if counter1==0:
+                tmp1a=point_tmp.reshape(18) # 18=6*3
             else:
-                if counter2==0:
-                    tmp1b=point_tmp.reshape(18)
-                else:
-                    tmp1b=np.append(tmp1b,point_tmp)
-                counter2+=1
-        point_b1=tmp1a.reshape(int(len(tmp1a)/18),6,3)
-        point_a2=tmp1b.reshape(int(len(tmp1b)/18),6,3)
-        #
-        # (3) Sum point A, point B and Intersections --->>> common part
-        #
-        # common part = point1 + point_a1 + point_b1
-        tmp=np.append(point1,point_a1)
-        tmp=np.append(tmp,point_b1)
-        point_common=tmp.reshape(int(len(tmp)/18),6,3) # 18=6*3
-        point_common=remove_doubling_dim3_in_perp_space(point_common)
-        #
-        # point_a = point_a1 + point_a2 + point1
-        tmp=np.append(point1,point_a1)
-        tmp=np.append(tmp,point_a2)
-        point_a=tmp.reshape(int(len(tmp)/18),6,3)
-        point_a=remove_doubling_dim3_in_perp_space(point_a)
-        #
-        # point_b = point_b1 + point_b2 + point1
-        tmp=np.append(point1,point_b1)
-        tmp=np.append(tmp,point_b2)
-        point_b=tmp.reshape(int(len(tmp)/18),6,3)
-        point_b=remove_doubling_dim3_in_perp_space(point_b)
-        #
-        return [point_common,point_a,point_b]
+                tmp1a=np.append(tmp1a,point_tmp)
+            counter1+=1
+        else:
+            if counter2==0:
+                tmp1b=point_tmp.reshape(18)
+            else:
+                tmp1b=np.append(tmp1b,point_tmp)
+            counter2+=1
+    point_a1=tmp1a.reshape(int(len(tmp1a)/18),6,3)
+    point_b2=tmp1b.reshape(int(len(tmp1b)/18),6,3)
+    #
+    # (2) Extract vertces of 1st OD which are insede 2nd OD --> point_b1
+    #     Extract vertces of 1st OD which are outsede 2nd OD --> point_a2
+    #
+    counter1=0
+    counter2=0
+    tmp1a=np.zeros(0,dtype=np.int64)
+    tmp1b=np.zeros(0,dtype=np.int64)
+    tmp3=remove_doubling_dim4_in_perp_space(obj2_surf) # generating vertces of 2nd OD
+    for i1 in range(len(tmp3)):
+        point_tmp=tmp3[i1]
+        counter=0
+        for i2 in range(len(obj1)):
+            tet=obj1[i2]
+            num1=inside_outside_tetrahedron(point_tmp,tet[0],tet[1],tet[2],tet[3])
+            if num1==0:
+                counter+=1
+                break
+            else:
+                pass
+        if counter>0:
+            if counter1==0:
+                tmp1a=point_tmp.reshape(18) # 18=6*3
+            else:
+                tmp1a=np.append(tmp1a,point_tmp)
+            counter1+=1
+        else:
+            if counter2==0:
+                tmp1b=point_tmp.reshape(18)
+            else:
+                tmp1b=np.append(tmp1b,point_tmp)
+            counter2+=1
+    point_b1=tmp1a.reshape(int(len(tmp1a)/18),6,3)
+    point_a2=tmp1b.reshape(int(len(tmp1b)/18),6,3)
+    #
+    # (3) Sum point A, point B and Intersections --->>> common part
+    #
+    # common part = point1 + point_a1 + point_b1
+    tmp=np.append(point1,point_a1)
+    tmp=np.append(tmp,point_b1)
+    point_common=tmp.reshape(int(len(tmp)/18),6,3) # 18=6*3
+    point_common=remove_doubling_dim3_in_perp_space(point_common)
+    #
+    # point_a = point_a1 + point_a2 + point1
+    tmp=np.append(point1,point_a1)
+    tmp=np.append(tmp,point_a2)
+    point_a=tmp.reshape(int(len(tmp)/18),6,3)
+    point_a=remove_doubling_dim3_in_perp_space(point_a)
+    #
+    # point_b = point_b1 + point_b2 + point1
+    tmp=np.append(point1,point_b1)
+    tmp=np.append(tmp,point_b2)
+    point_b=tmp.reshape(int(len(tmp)/18),6,3)
+    point_b=remove_doubling_dim3_in_perp_space(point_b)
+    #
+    return [point_common,point_a,point_b]
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/src_cython/ico/two_occupation_domains.py b/src_cython/ico/two_occupation_domains.py
index 1b250e0..dde7d06 100755
--- a/src_cython/ico/two_occupation_domains.py
+++ b/src_cython/ico/two_occupation_domains.py
@@ -166,6 +166,9 @@ def intersection_convex(obj1, obj2, verbose = 0):
 
     """
     point_common,point_a,point_b = intsct.intersection_two_obj_convex(obj1, obj2, verbose)
+    if len(point_common)<4:
+        print('    no intersection found.')
+        return np.array([[[[0]]]])
     common=intsct.tetrahedralization_points(point_common,verbose-1)
     if common.tolist()!=[[[[0]]]]:
         [v1,v2,v3]=utils.obj_volume_6d(common)
-- 
2.43.0


From b4f78aab48d9bbe72381a6379db1de8ffd7f129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:29 +0000
Subject: [PATCH 34/37] fix: intsct: crossing on the third edge of a triangle
 was lost by rounding (part of a compiled icosahedral intersection missing)

---
 src_cython/ico/intsct.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src_cython/ico/intsct.pyx b/src_cython/ico/intsct.pyx
index 240cd1c..6725f7a 100755
--- a/src_cython/ico/intsct.pyx
+++ b/src_cython/ico/intsct.pyx
@@ -1497,12 +1497,12 @@ cdef np.ndarray intersection_segment_surface(np.ndarray[DTYPE_int_t, ndim=2] seg
     cdef long cx1,cx2,cx3,cy1,cy2,cy3,cz1,cz2,cz3
     cdef long dx1,dx2,dx3,dy1,dy2,dy3,dz1,dz2,dz3
     cdef long ex1,ex2,ex3,ey1,ey2,ey3,ez1,ez2,ez3
-    cdef long f1,f2,f3,f4,f5,f6,f7,f8,f9,f10,f11,f12
+    cdef long f1,f2,f3,f4,f5,f6,f7,f8,f9,f10,f11,f12,f13,f14,f15
     cdef long g1,g2,g3,g4,g5,g6,g7,g8,g9
     cdef long h1,h2,h3,h4,h5,h6,h7,h8,h9,h10,h11,h12,h13,h14,h15,h16,h17,h18
     cdef long i1,i2,i3,i4,i5,i6,i7,i8,i9,i10,i11,i12,i13,i14,i15,i16,i17,i18
     cdef long j1,j2,j3,j4,j5,j6,j7,j8,j9,j10,j11,j12,j13,j14,j15,j16,j17,j18
-    cdef double val1,val2,val3,val4
+    cdef double val1,val2,val3,val4,val5
     #cdef int verbose
     
     #verbose=0
@@ -1619,7 +1619,9 @@ cdef np.ndarray intersection_segment_surface(np.ndarray[DTYPE_int_t, ndim=2] seg
         if val2/val1>=0.0 and val2/val1<=1.0:
             f7,f8,f9=det_matrix(vecCD,vecCA,vecBA)
             val3=(f7+f8*TAU)/f9
-            if val3/val1>=0.0 and (val2+val3)/val1<=1.0:
+            f13,f14,f15=add(f4,f5,f6,f7,f8,f9) # u+v = 1 exactly on the third edge of the triangle
+            val5=(f13+f14*TAU)/f15
+            if val3/val1>=0.0 and val5/val1<=1.0:
                 f10,f11,f12=det_matrix(vecCD,vecCE,vecCA)
                 val4=(f10+f11*TAU)/f12
                 if val4/val1>=0.0 and val4/val1<=1.0: # t = val4/val1
-- 
2.43.0


From 0f856c55c261ab8e43a1493d1f1b34fe4cf6c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:49 +0000
Subject: [PATCH 35/37] fix: compiled read_xyz lost the last digit of a file
 without final newline

---
 src_cython/dode/occupation_domain.py | 2 +-
 src_cython/ico/occupation_domain.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index f11e75e..8f3aa9c 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -449,7 +449,7 @@ def read_xyz(path, basename, select='triangle'):
             a=f.readline()
             if not a:
                 break
-            line.append(a[:-1])
+            line.append(a.rstrip('\n'))
         return line
     
     filename='%s/%s.xyz'%(path,basename)
diff --git a/src_cython/ico/occupation_domain.py b/src_cython/ico/occupation_domain.py
index 5f80e17..081da68 100755
--- a/src_cython/ico/occupation_domain.py
+++ b/src_cython/ico/occupation_domain.py
@@ -1489,7 +1489,7 @@ def read_xyz(path, basename, select = 'tetrahedron'):
             a=f.readline()
             if not a:
                 break
-            line.append(a[:-1])
+            line.append(a.rstrip('\n'))
         return line
     
     filename='%s/%s.xyz'%(path,basename)
-- 
2.43.0


From 9d0141c0fde3ffdde413b12373462e359f87cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:54 +0000
Subject: [PATCH 36/37] fix: dode2 site symmetry compares the site with its
 images exactly

---
 src/pyqcstrc/dode2/symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 7d76723..1b728f7 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -215,7 +215,7 @@ def site_symmetry(site,ndim=5):
         for top in traop:
             site2=add_vectors(site1,top)
             tmp=sub_vectors(site,site2)
-            if length_numerical(tmp)<EPS:
+            if np.all(tmp==V0):
                 list1.append(i2)
                 break
             else:
@@ -348,7 +348,7 @@ def site_symmetry_and_coset(site,ndim,verbose):
         for top in traop:
             site2=add_vectors(site1,top)
             tmp=sub_vectors(site,site2)
-            if length_numerical(tmp)<EPS:
+            if np.all(tmp==V0):
                 list1.append(i2)
                 flag+=1
                 break
-- 
2.43.0


From 957de3799f3ae2abfcd148beb318a16bd5fc8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 37/37] fix: compiled ico coplanar_check takes its plane from
 three points that are not on a line

---
 src_cython/ico/math1.pyx | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src_cython/ico/math1.pyx b/src_cython/ico/math1.pyx
index 89f3dd9..74acd4d 100755
--- a/src_cython/ico/math1.pyx
+++ b/src_cython/ico/math1.pyx
@@ -79,7 +79,7 @@ cpdef int coplanar_check(np.ndarray[DTYPE_int_t, ndim=3] point):
     cdef np.ndarray[DTYPE_int_t, ndim=1] x2i,y2i,z2i
     cdef np.ndarray[DTYPE_int_t, ndim=1] x3i,y3i,z3i
     cdef DTYPE_int_t a1,a2,a3,b1,b2,b3,c1,c2,c3,d1,d2,d3
-    cdef int i1,flag
+    cdef int i1,i2,flag
     cdef np.ndarray[DTYPE_int_t, ndim=2] v1,v2,v3,v4
     if len(point)>3:
         #x0e,y0e,z0e,x0i,y0i,z0i=projection(point[0][0],point[0][1],point[0][2],point[0][3],point[0][4],point[0][5])
@@ -89,19 +89,26 @@ cpdef int coplanar_check(np.ndarray[DTYPE_int_t, ndim=3] point):
         #_,_,_,x1i,y1i,z1i=projection(point[1][0],point[1][1],point[1][2],point[1][3],point[1][4],point[1][5])
         #_,_,_,x2i,y2i,z2i=projection(point[2][0],point[2][1],point[2][2],point[2][3],point[2][4],point[2][5])
         x0i,y0i,z0i=projection3(point[0][0],point[0][1],point[0][2],point[0][3],point[0][4],point[0][5])
-        x1i,y1i,z1i=projection3(point[1][0],point[1][1],point[1][2],point[1][3],point[1][4],point[1][5])
-        x2i,y2i,z2i=projection3(point[2][0],point[2][1],point[2][2],point[2][3],point[2][4],point[2][5])        
-        [a1,a2,a3]=sub(x1i[0],x1i[1],x1i[2],x0i[0],x0i[1],x0i[2]) # e1
-        [b1,b2,b3]=sub(y1i[0],y1i[1],y1i[2],y0i[0],y0i[1],y0i[2])
-        [c1,c2,c3]=sub(z1i[0],z1i[1],z1i[2],z0i[0],z0i[1],z0i[2])
-        v1=np.array([[a1,a2,a3],[b1,b2,b3],[c1,c2,c3]])
-        [a1,a2,a3]=sub(x2i[0],x2i[1],x2i[2],x0i[0],x0i[1],x0i[2]) # e2
-        [b1,b2,b3]=sub(y2i[0],y2i[1],y2i[2],y0i[0],y0i[1],y0i[2])
-        [c1,c2,c3]=sub(z2i[0],z2i[1],z2i[2],z0i[0],z0i[1],z0i[2])
-        v2=np.array([[a1,a2,a3],[b1,b2,b3],[c1,c2,c3]])
-        v3=outer_product(v1,v2)
+        # the plane is spanned by the first three points that are not on a line
+        for i1 in range(1,len(point)-1):
+            for i2 in range(i1+1,len(point)):
+                x1i,y1i,z1i=projection3(point[i1][0],point[i1][1],point[i1][2],point[i1][3],point[i1][4],point[i1][5])
+                x2i,y2i,z2i=projection3(point[i2][0],point[i2][1],point[i2][2],point[i2][3],point[i2][4],point[i2][5])
+                [a1,a2,a3]=sub(x1i[0],x1i[1],x1i[2],x0i[0],x0i[1],x0i[2]) # e1
+                [b1,b2,b3]=sub(y1i[0],y1i[1],y1i[2],y0i[0],y0i[1],y0i[2])
+                [c1,c2,c3]=sub(z1i[0],z1i[1],z1i[2],z0i[0],z0i[1],z0i[2])
+                v1=np.array([[a1,a2,a3],[b1,b2,b3],[c1,c2,c3]])
+                [a1,a2,a3]=sub(x2i[0],x2i[1],x2i[2],x0i[0],x0i[1],x0i[2]) # e2
+                [b1,b2,b3]=sub(y2i[0],y2i[1],y2i[2],y0i[0],y0i[1],y0i[2])
+                [c1,c2,c3]=sub(z2i[0],z2i[1],z2i[2],z0i[0],z0i[1],z0i[2])
+                v2=np.array([[a1,a2,a3],[b1,b2,b3],[c1,c2,c3]])
+                v3=outer_product(v1,v2)
+                if np.any(v3[:,0:2]!=0):
+                    break
+            if np.any(v3[:,0:2]!=0):
+                break
         flag=0
-        for i1 in range(3,len(point)):
+        for i1 in range(1,len(point)):
             #_,_,_,x3i,y3i,z3i=projection(point[i1][0],point[i1][1],point[i1][2],point[i1][3],point[i1][4],point[i1][5])
             x3i,y3i,z3i=projection3(point[i1][0],point[i1][1],point[i1][2],point[i1][3],point[i1][4],point[i1][5])
             [a1,a2,a3]=sub(x3i[0],x3i[1],x3i[2],x0i[0],x0i[1],x0i[2])
-- 
2.43.0

