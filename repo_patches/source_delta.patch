From e91eb9c408491c6a414e31b8167d58ca9154b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 01/99] fix: Transform.to_euler_xyz extracts the Rx@Ry@Rz
 angles that from_euler_xyz composes

---
 src/yapcad/kinematics/transform.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/kinematics/transform.py b/src/yapcad/kinematics/transform.py
index 5563a03..d1f7958 100644
--- a/src/yapcad/kinematics/transform.py
+++ b/src/yapcad/kinematics/transform.py
@@ -300,17 +300,17 @@ class Transform:
         """
         R = self.matrix[:3, :3]
 
-        # Extract angles using atan2 for robustness
-        sy = math.sqrt(R[0, 0] ** 2 + R[1, 0] ** 2)
+        # Extract angles of R = Rx @ Ry @ Rz using atan2 for robustness
+        cy = math.sqrt(R[0, 0] ** 2 + R[0, 1] ** 2)
 
-        if sy > 1e-6:
-            rx = math.atan2(R[2, 1], R[2, 2])
-            ry = math.atan2(-R[2, 0], sy)
-            rz = math.atan2(R[1, 0], R[0, 0])
+        if cy > 1e-6:
+            rx = math.atan2(-R[1, 2], R[2, 2])
+            ry = math.atan2(R[0, 2], cy)
+            rz = math.atan2(-R[0, 1], R[0, 0])
         else:
             # Gimbal lock
-            rx = math.atan2(-R[1, 2], R[1, 1])
-            ry = math.atan2(-R[2, 0], sy)
+            rx = math.atan2(R[2, 1], R[1, 1])
+            ry = math.atan2(R[0, 2], cy)
             rz = 0
 
         return (
-- 
2.43.0


From d90c9e25ca05fefc18cc8ec3be0ad3140fa3ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 02/99] fix: NTree.getElements on an empty tree returns the
 empty list

---
 src/yapcad/octtree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 1b7d2d9..d8f21ee 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -445,6 +445,7 @@ class NTree():
                 self.updateCenter()
                 
         self.__tree = []
+        self.__elem_idx_bbox = []
         self.__update=True
 
     def __repr__(self):
-- 
2.43.0


From 07c72d682e7f73ddc8f6076d4e1d1ff7a9d0ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 03/99] fix: Rotation accepts a rotation axis that is not of
 unit length

---
 src/yapcad/xform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index d25a419..126e089 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -204,7 +204,7 @@ def Rotation(axis,angle,inverse=False):
     if m < geom.epsilon:
         raise ValueError('zero-length rotation axis not allowed')
     if not geom.close(m,1.0):
-        u = geom.geom.scale3(axis,1.0/m)
+        u = geom.scale3(axis,1.0/m)
 
     if inverse:
         angle *= -1.0
-- 
2.43.0


From ad292addf58432a7fa8793267c4b7d53c380b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 04/99] fix: scale about a centre keeps the centre fixed

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 807fc49..2f80147 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4137,9 +4137,9 @@ def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
         if vclose(cent,point(0,0,0)):
             mat = xform.Scale(sx,sy,sz)
         else:
-            mat = xform.Translation(cent,inverse=True)
+            mat = xform.Translation(cent)
             mat = mat.mul(xform.Scale(sx,sy,sz))
-            mat = mat.mul(xform.Translation(cent))
+            mat = mat.mul(xform.Translation(cent,inverse=True))
 
     if ispoint(x):
         return mat.mul(x)
-- 
2.43.0


From f6ccdfff432585e6dd10cd4890fb440ace1d7e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 05/99] fix: samplearc and unsamplearc normalise every arc but
 the full circle

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2f80147..b155bc5 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2413,7 +2413,7 @@ def samplearc(c,u,polar=False):
     w=c[1][3]
     if w == -2: # if arc is flagged as sample-reversed, flip u
         u=1.0-u
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
@@ -2464,7 +2464,7 @@ def unsamplearc(c,p):
     #     start = 0
     #     end = 360
         
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
-- 
2.43.0


From 213c7ff161b3273e363e524418d22234a6e9cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 06/99] fix: mirroring an arc in the xy plane keeps its angular
 extent

---
 src/yapcad/geom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index b155bc5..87e1e4e 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4272,8 +4272,9 @@ def mirror(x,plane):
         a2[0] = mul(x[0],flip)
         start = x[1][1]
         end  = x[1][2]
-        if not (start == 0 and end == 360):
-            ## mirror the arc segment
+        if plane != 'xy' and not (start == 0 and end == 360):
+            ## mirror the arc segment; a reflection in the plane of the
+            ## arc leaves its angles alone
             ps = point(cos(start*pi2/360.0),sin(start*pi2/360.0))
             pe = point(cos(end*pi2/360.0),sin(end*pi2/360.0))
             ps = mul(ps,flip)
-- 
2.43.0


From 978dfa0259cb27274fb07196ad43614e985c5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 07/99] fix: reverseGeomList reverses polylines and already
 reversed arcs

---
 src/yapcad/geom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 87e1e4e..8ec13f5 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3505,10 +3505,12 @@ def reverseGeomList(gl):
             rgl.insert(0,line(g[1],g[0]))
         elif isarc(g):
             c = deepcopy(g)
-            c[1][3] = -2 # set samplereverse flag
+            # toggle samplereverse flag
+            c[1][3] = -1 if g[1][3] == -2 else -2
             rgl.insert(0,c)
         elif ispoly(g):
-            ply = deepcopy(g).reverse()
+            ply = deepcopy(g)
+            ply.reverse()
             rgl.insert(0,ply)
         elif isgeomlist(g):
             rgl.insert(0,reverseGeomList(g))
-- 
2.43.0


From 07cfdfacd67b3e5b070179eda7b9782d92d09786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 08/99] fix: segmentpoly of an open polyline accepts a
 descending interval

---
 src/yapcad/geom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 8ec13f5..5db2f26 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3202,7 +3202,8 @@ def segmentpoly(a,u1,u2):
         if u1 < 0 or u2 < 0 or u1 > 1 or u2 > 1:
             raise ValueError('parameters fall outside 0,1 interval: {},{}'.format(u1,u2))
     if u2 < u1:
-        a = deepcopy(a).reverse()
+        a = deepcopy(a)
+        a.reverse()
         u1 = 1.0-u1
         u2 = 1.0-u2
         
-- 
2.43.0


From eaa9b13ca0660867eabdfbed8935d3881cdeff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 09/99] fix: unsamplearc returns 1 at the end of an arc that
 ends at 360 degrees

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 5db2f26..032a9b1 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2479,7 +2479,7 @@ def unsamplearc(c,p):
     if abs(mag(x)-r) > epsilon:
         return False            # point is not on arc circle
     ang = (atan2(x[1],x[0]) % pi2)*360/pi2
-    if end > 360.0 and ang <= end-360.0:
+    if end >= 360.0 and ang <= end-360.0 and not iscircle(c):
         ang = ang + 360.0
     u = (ang-start)/(end-start)
     if c[1][3] == -2: #samplereverse
-- 
2.43.0


From 5d6bba347ea39a824f14b1c9de527e456ff73f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 10/99] fix: segments of closed figures over the whole interval
 are the figure, not a point

---
 src/yapcad/geom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 032a9b1..10d6178 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2439,6 +2439,8 @@ def segmentarc(c,u1,u2):
     the same center and radius spanning the interval u1,u2
     """
 
+    if iscircle(c) and close(u2-u1,1.0):
+        return arc(c)
     pol1=samplearc(c,u1,polar=True)
     pol2=samplearc(c,u2,polar=True)
     sr= (c[1][3] == -2)
@@ -3193,6 +3195,8 @@ def segmentpoly(a,u1,u2):
         closed = True
 
     if closed:
+        if close(u2-u1,1.0):
+            return deepcopy(a)
         u1%= 1.0
         u2%= 1.0
         if u2 < u1:
@@ -3522,7 +3526,7 @@ def reverseGeomList(gl):
 ## given a geometry list paramaterized over a 0,1 interval, return a
 ## geometry list corresponding to the interval 0 <= u1 <= u2 <=1.0
 def segmentgeomlist(gl,u1,u2,closed=False,reverse=False):
-    if closed:
+    if closed and not close(u2-u1,1.0):
         u1 %= 1.0
         u2 %= 1.0
         if u2 < u1:
-- 
2.43.0


From 51b28b12d1b7fb64812197c29cf6ec6432448456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 11/99] fix: unsamplegeomlist no longer refers to undefined
 names

---
 src/yapcad/geom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 10d6178..8489327 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3465,7 +3465,7 @@ def unsamplegeomlist(gl,p):
     False if the point is more than epsilon away from any poly line
     segment
     """
-    if not isgeomlist(g):
+    if not isgeomlist(gl):
         raise ValueError('non geometry list passed to unsamplegeomlist')
 
     lengths,leng = __geomlistlength(gl)
@@ -3484,14 +3484,14 @@ def unsamplegeomlist(gl,p):
                 uu = unsample(gl[i],p)
                 if (not isinstance(uu,bool)
                     and uu >= 0.0 and uu < 1.0):
-                    return (uu*lengths[i]+dst)/length
+                    return (uu*lengths[i]+dst)/leng
                 else:
                     dst = dst+lengths[i]
         uu2 = unsample(gl[-1],p)
         
         if (not isinstance(uu2,bool) and
             uu2 >= 0.0 and uu2 <= 1.0):
-            return (uu2*lengths[-1]+dst)/length
+            return (uu2*lengths[-1]+dst)/leng
         else:
             return False
 
-- 
2.43.0


From 2ed5895530cf29c86dc79334924553132cf99f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 12/99] fix: the bounding box of an arc includes its axis
 extrema

---
 src/yapcad/geom.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 8489327..7cc379b 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2495,10 +2495,16 @@ def arcbbox(c):
         rr=point(c[1][0],c[1][0])
         return [sub(c[0],rr),add(c[0],rr)]
     else:
-        pp = []
-        for i in range(5):
-            u = i/4
-            pp.append(samplearc(c,u))
+        pp = [ samplearc(c,0.0), samplearc(c,1.0) ]
+        r = c[1][0]
+        start = c[1][1]%360.0
+        end = c[1][2]%360.0
+        if end < start:
+            end += 360.0
+        # the extremes in x and y are at multiples of 90 degrees
+        for i,d in enumerate(((r,0),(0,r),(-r,0),(0,-r))):
+            if start <= 90.0*i <= end or start <= 90.0*i+360.0 <= end:
+                pp.append(add(c[0],point(d[0],d[1])))
         return polybbox(pp)
 
 def isinsidearcXY(c,p):
-- 
2.43.0


From 5ca2c0948946d962f145b0d8b0f9b2b8be3634d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 13/99] fix: linePointXY returns the sampling parameter of the
 closest point

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 7cc379b..a8480b5 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2206,14 +2206,14 @@ def linePointXY(l,p,inside=True,distance=False,params=False):
             if distance:
                 return d1
             elif params:
-                return d1pb/abdist
+                return dot(sub(pi1,a),dir)/abdist
             else:
                 return pi1
         else:
             if distance:
                 return d2
             elif params:
-                return d2pb/abdist
+                return dot(sub(pi2,a),dir)/abdist
             else:
                 return pi2
         
-- 
2.43.0


From cd31fb5f43783bcaec789c7bfa489c8353b1b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 14/99] fix: arcArcIntersectXY parameters of a second arc that
 crosses 0 degrees

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index a8480b5..f0ca188 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2668,7 +2668,7 @@ def _arcArcIntersectXY(c1,c2,inside=True,params=False):
             uparam1 = uparam1 + [ u1 ]
                 
             if end2 <= 360.0 or ang2 >= start2 or \
-               ( end2 > 360.0 and ang2 > end1-360.0):
+               ( end2 > 360.0 and ang2 > end2-360.0):
                 u2 = (ang2-start2)/(end2-start2)
                 if sr2:
                     u2 = 1.0-u2
-- 
2.43.0


From 5209228f4dfefa34799b1ce6e40f324fed689d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 15/99] fix: unsampleline measures the distance of the point
 from the line

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index f0ca188..ce79d39 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2034,9 +2034,9 @@ def unsampleline(l,p):
     v2 = sub(p,l[0])
     z = cross(v1,v2)            # magnitude of cross product is zero
                                 # if vectors parallel
-    if mag(z) > epsilon:        #  not parallel case
-        return False
     len1 = mag(v1)
+    if mag(z) > epsilon*len1:   #  not parallel case
+        return False
     len2 = mag(v2)
     if dot(v1,v2) > 0:
         return len2/len1
-- 
2.43.0


From 2637f933c60f503ff5673e9bf621e03c6084bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 16/99] fix: segmentgeomlist neither overshoots nor appends an
 empty piece at a boundary between figures

---
 src/yapcad/geom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index ce79d39..2232dfb 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3570,16 +3570,16 @@ def segmentgeomlist(gl,u1,u2,closed=False,reverse=False):
             continue
         if dst1 <= d+l:
             if not STARTED:
-                uu = 1.0 - (d+l-dst1)/l
+                uu = max(0.0, 1.0 - (d+l-dst1)/l)
                 uu2 = 1.0
-                if dst2 < d+l:
-                    uu2 = 1.0 - (d+l-dst2)/l
+                if dst2 <= d+l:
+                    uu2 = max(uu, 1.0 - (d+l-dst2)/l)
                     DONE=True
                 rgl.append(_segment(gl[i],uu,uu2))
                 STARTED=True
                                       
             elif dst2 <= d+l:
-                uu = 1.0 - (d+l-dst2)/l
+                uu = max(0.0, 1.0 - (d+l-dst2)/l)
                 rgl.append(_segment(gl[i],0.0,uu))
                 DONE=True
             else:
-- 
2.43.0


From 99a61dca2026dbc3e56887e9b7b45064a9fbf2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 17/99] fix: lineLineIntersectXY judges parallelism relative to
 the lengths of the lines

---
 src/yapcad/geom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2232dfb..92c6dfd 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2090,7 +2090,10 @@ def lineLineIntersectXY(l1,l2,inside=True,params=False):
 
     ## do lines intersect anywhere?
     denom=(x1-x2)*(y3-y4)-(y1-y2)*(x3-x4)
-    if denom*denom < epsilon:
+    ## (the sine of the angle between them is denom/(len1*len2))
+    sqlen1 = (x1-x2)*(x1-x2)+(y1-y2)*(y1-y2)
+    sqlen2 = (x3-x4)*(x3-x4)+(y3-y4)*(y3-y4)
+    if denom*denom <= epsilon*epsilon*sqlen1*sqlen2:
         return False
 
     ## the lines do intersect, so let's see if they intersect
-- 
2.43.0


From 74306009bf329767db470f12be6b3922ee9ee004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 18/99] fix: lineArcIntersectXY reports the intersections
 inside the segment, and all of them

---
 src/yapcad/geom.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 92c6dfd..5c8d7d8 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2804,11 +2804,18 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
         b0 = (-b + mpm.sqrt(d))/(2*a)
         b1 = (-b - mpm.sqrt(d))/(2*a)
 
+    bb = [ float(b0) ]
+    if b1 is not False:
+        bb.append(float(b1))
+    if inside and not params:   # keep to the line segment
+        tol = epsilon/sqrt(float(a))
+        bb = [ bi for bi in bb if bi >= -tol and bi <= 1.0+tol ]
+        if len(bb) == 0:
+            return False
+
     # use computed parameters to calculate solutions, still in
     # circle-at-origin coordinates
-    s = [ add(scale3(V,float(b0)),p1) ]
-    if b1:
-        s = s + [ add(scale3(V,float(b1)),p1) ]
+    s = [ add(scale3(V,bi),p1) for bi in bb ]
 
     if not inside or circle or params:              # transform back into world
                                           # coordinates
-- 
2.43.0


From 8bcef39a64e0de58e061737b9b7229594ec65997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 19/99] fix: intersectSimplePolyXY intersects polylines of two
 edges

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 5c8d7d8..40fde00 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3285,7 +3285,7 @@ def unsamplepoly(a,p):
 ## and poly a.
 def intersectSimplePolyXY(g,a,inside=True,params=False):
     if not (ispoly(a) and isXYPlanar(a)):
-        raise ValueError('non-XY-planar or bad poly argument to intersectSimplePOlyXY: {}'.format(vstr(p)))
+        raise ValueError('non-XY-planar or bad poly argument to intersectSimplePOlyXY: {}'.format(vstr(a)))
     closed = False
     ARC=False
     LINE=False
@@ -3307,7 +3307,7 @@ def intersectSimplePolyXY(g,a,inside=True,params=False):
         else:
             return lineArcIntersectXY(lines[0],g,inside,params)
     dst = 0.0
-    if len(lines) > 2:
+    if len(lines) > 1:
         for i in range(len(lines)):
             if LINE:
                 uu = lineLineIntersectXY(lines[i],g,params=True)
-- 
2.43.0


From edd5b6a1f80a335098937c228527a03fdeb4350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 20/99] fix: lines within epsilon of tangency to an arc have
 one intersection, secants two

---
 src/yapcad/geom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 40fde00..729abc2 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2793,8 +2793,9 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     #cc = P[0]*P[0]+P[1]*P[1]-r*r
     cc = mpP0*mpP0+mpP1*mpP1-mpr*mpr
     d = b*b-4*a*cc
-    ## Check to see if we are within epsilon, scaled by the length of the line
-    if mpm.fabs(d) < mpm.sqrt(a)*2*mpepsilon: # one point of intersection
+    ## Check to see if the distance of the line from the center of the
+    ## arc is within epsilon of the radius: d = 4*a*(r^2-dst^2)
+    if mpm.fabs(d) <= 4*a*mpepsilon*(2*mpr+mpepsilon): # one point of intersection
         b0 = -b/(2*a)
         b1 = False
     elif d < 0:
-- 
2.43.0


From 7f960a79faa90340bfa6b9980e5be1f74dc17a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 21/99] fix: isinsidepolyXY is right when the test ray meets a
 vertex, and at the ends of polylines

---
 src/yapcad/geom.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 729abc2..1e7092a 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3122,25 +3122,27 @@ def isinsidepolyXY(a,p):
     ## if not closed, use "unsample" test to determine if ``p`` lies
     ## on the polyline
     if not closed:
-        if unsamplepoly(a,p) == False:
+        u = unsamplepoly(a,p)
+        if isinstance(u,bool):
             return False
-        else:
-            return True
+        return u >= -epsilon and u <= 1.0+epsilon
     ## poly is closed polygon
     bb = polybbox(a)
     ## do quick bounding box check
     if not isinsidebbox(bb,p):
         return False
-    ## inside the bounding box, do intersection testing
-    p2 = add([0.01,0.01,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
-    pp = intersectSimplePolyXY(l,a)
-    if pp == False:
-        return False
-    return len(pp) % 2 == 1
+    ## inside the bounding box, count the edges crossed by the ray in
+    ## the +x direction.  Each edge owns only its lower end point, so
+    ## that a vertex on the ray is counted once.
+    inside = False
+    for i in range(1,len(a)):
+        p1 = a[i-1]
+        p2 = a[i]
+        if (p1[1] > p[1]) != (p2[1] > p[1]):
+            x = p1[0] + (p[1]-p1[1])*(p2[0]-p1[0])/(p2[1]-p1[1])
+            if x > p[0]:
+                inside = not inside
+    return inside
 
 ## is it a polygon with all points in the same x-y plane
 def ispolygonXY(a):
-- 
2.43.0


From 16aa6c4f59b6e7e13ffa9f165a3321b962d4cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 22/99] fix: isInsideConvexPolyXY covers the whole polygon

---
 src/yapcad/geom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 1e7092a..83057fb 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3841,11 +3841,13 @@ def isInsideTriangleXY(a,poly):
 ## ouside the polygon, assuming that all points lie in the x-y plane
 
 def _isInsideConvexPolyXY(a,poly): #no value checking version
+    if len(poly) > 3 and dist(poly[0],poly[-1]) < epsilon:
+        poly = poly[:-1]        # closed polygon
     if len(poly) == 3:
         return _isInsideTriangleXY(a,poly)
-    else:
+    else: # fan of triangles around the first vertex
         return _isInsideTriangleXY(a,poly[0:3]) or \
-               _isInsideConvexPolyXY(a,poly[1:len(poly)])
+               _isInsideConvexPolyXY(a,[poly[0]] + poly[2:])
 
 # value-safe wrapper for convex polygon inside testing function
 def isInsideConvexPolyXY(a,poly):
-- 
2.43.0


From 9eb737d079e1bf2262486c6af6e81f6ce746454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 23/99] fix: intersectGeomListXY intersects single-element
 lists, polylines with polylines and lists with lists

---
 src/yapcad/geom.py | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 83057fb..3b358b5 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3697,11 +3697,28 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
     gtype = typeString(g)
     if not gtype or gtype == 'point':
         raise ValueError('bad geometry argument passed to intersectGeomListXY: {}'.format(vstr(g)))
+    # intersections of the pieces of g, as parameters of g itself
+    def _piecewise(pieces,intersect):
+        zz1 = []
+        zz2 = []
+        lens, total = __geomlistlength(pieces)
+        off = 0.0
+        for k in range(len(pieces)):
+            zz = False
+            if not ispoint(pieces[k]):
+                zz = intersect(pieces[k])
+            if not isinstance(zz,bool):
+                for u, v in zip(zz[0],zz[1]):
+                    if u >= 0.0 and u <= 1.0:
+                        zz1.append((u*lens[k]+off)/total)
+                        zz2.append(v)
+            off = off + lens[k]
+        return [ zz1, zz2 ]
     pnts = []
     uu1s = []
     uu2s = []
     lengths, leng = __geomlistlength(gl)
-    if len(gl) == 1:
+    if len(gl) == 1 and typeString(gl[0]) == 'simple':
         if gtype == 'simple':
             return _intersectSimpleXY(g,gl[0],inside,params)
         if gtype == 'poly':
@@ -3722,7 +3739,7 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
             raise ValueError('bad gtype in intersectGeomListXY, this should never happen')
         
     dst = 0.0
-    if len(gl) > 1:
+    if len(gl) > 0:
         for i in range(len(gl)):
             g2 = gl[i]
             uu = []
@@ -3744,16 +3761,8 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
                 if not isinstance(z,bool):
                     uu = [z[1],z[0]]
             elif gtype == 'poly' and gtype2 == 'poly':
-                zz1 = []
-                zz2 = []
-                for j in range(1,len(g)):
-                    zz = intersectSimplePolyXY(line(g[j-1],g[j]),
-                                               g2, params=True)
-                    if not isinstance(zz,bool):
-                        zz1 = zz1 + zz[0]
-                        zz2 = zz2 + zz[1]
-                if len(zz1) > 0:
-                    uu = [ zz1,zz2 ]
+                uu = _piecewise([ line(g[j-1],g[j]) for j in range(1,len(g)) ],
+                                lambda gg: intersectSimplePolyXY(gg,g2,params=True))
             elif gtype == 'simple' and gtype2 == 'glist':
                 uu = intersectGeomListXY(g,g2,params=True)
             elif gtype == 'glist' and gtype2 == 'simple':
@@ -3761,15 +3770,7 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
                 if not isinstance(z,bool):
                     uu = [z[1],z[0]]
             elif gtype == 'glist' and gtype2 == 'glist':
-                zz1 = []
-                zz2 = []
-                for gg in g:
-                    zz = intersectGeomListXY(gg,g2,params=True)
-                    if not isinstance(z,bool):
-                        zz1.append(zz[0])
-                        zz2.append(zz[1])
-                if len(zz1) > 0:
-                    uu = [zz1,zz2 ]
+                uu = _piecewise(g,lambda gg: intersectGeomListXY(gg,g2,params=True))
             else:
                 raise ValueError('Aaaaahhhhh.... this should never happen')
 
-- 
2.43.0


From a1d23236fe4b006b8dbf9a70a22509abb126a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 24/99] fix: isinsidegeomlistXY is right when the test ray
 meets a corner or is tangent to an arc

---
 src/yapcad/geom.py | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 3b358b5..f095eda 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3640,11 +3640,39 @@ def isinsidegeomlistXY(a,p):
     bb = geomlistbbox(a)
     if not isinsidebbox(bb,p):
         return False
-    p2 = add([0.1,0.1,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
+    # crossings can not be counted at the end points of the elements,
+    # nor where the test line is tangent to an arc
+    ends = []
+    arcs = []
+    def _collect(gl):
+        for g in gl:
+            if isarc(g):
+                arcs.append(g)
+                if not iscircle(g):
+                    ends.extend([samplearc(g,0.0),samplearc(g,1.0)])
+            elif isline(g) or ispoly(g):
+                ends.extend(g)
+            elif isgeomlist(g) and not ispoint(g):
+                _collect(g)
+    _collect(a)
+
+    def _clear(l):
+        for q in ends:
+            if linePointXYDist(l,q) < 10*epsilon:
+                return False
+        for c in arcs:
+            if abs(linePointXYDist(l,c[0],False) - c[1][0]) < 10*epsilon:
+                return False
+        return True
+
+    # move the outside point until the test line is clear of these
+    size = max(bb[1][0]-bb[0][0],bb[1][1]-bb[0][1])
+    l = False
+    for i in range(16):
+        p2 = add([0.1,0.1+size*i*0.0871,0,1],bb[1])
+        l = line(p,p2)
+        if _clear(l):
+            break
 
     pp = intersectGeomListXY(l,a)
     if pp == False:
-- 
2.43.0


From e515f16fb58cd2e27567b98abcafcb2d3924513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 25/99] fix: the end of a NURBS curve with interior knots is
 its last control point

---
 src/yapcad/spline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index 47c419f..b930f64 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -679,7 +679,10 @@ def _nurbs_point(ctrl: Sequence[list], weights: Sequence[float], knots: Sequence
 
 def _nip(i: int, p: int, u: float, knots: Sequence[float]) -> float:
     if p == 0:
-        if knots[i] <= u < knots[i + 1] or (u == knots[-1] and knots[i] < knots[i + 1]):
+        if knots[i] <= u < knots[i + 1]:
+            return 1.0
+        # the last non-empty span includes its end
+        if u == knots[-1] and knots[i] < knots[i + 1] == knots[-1]:
             return 1.0
         return 0.0
 
-- 
2.43.0


From bccb59575a5e6e97204ef55965a5590e23c9db10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 26/99] fix: closed B-splines evaluate over the whole period

---
 src/yapcad/spline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index b930f64..9e9cfc9 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -246,8 +246,9 @@ def _uniform_knot_vector(n: int, degree: int, closed: bool = False) -> List[floa
         Uniform knot vector
     """
     if closed:
-        # Periodic knot vector for closed curves
-        m = n + degree + 1
+        # Periodic knot vector for closed curves: the control points are
+        # extended cyclically by degree
+        m = n + 2 * degree + 1
         return [float(i - degree) / n for i in range(m)]
     else:
         # Clamped uniform knot vector (curve passes through endpoints)
@@ -341,7 +342,7 @@ def bspline_point(control_points, t: float, degree: int = 3, closed: bool = Fals
         knots = _uniform_knot_vector(n, degree, closed=True)
         # Map t to the active knot domain
         u_min = knots[degree]
-        u_max = knots[n]
+        u_max = knots[n + degree]
         u = u_min + t * (u_max - u_min)
 
         x = y = z = 0.0
-- 
2.43.0


From fe7db15c3e2af911fa7911b5beeadf2350089255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 27/99] fix: tangents of conics lie in the plane given by the
 normal

---
 src/yapcad/geom.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index f095eda..b623a43 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -899,6 +899,25 @@ def ellipse_sample(e, u):
         return point(center[0] + x_3d, center[1] + y_3d, center[2] + z_3d)
 
 
+def _orient_to_normal(v, normal):
+    """Turn the direction ``v`` in the XY plane into the plane with normal
+    ``normal``, as the conic sampling functions turn points."""
+
+    if abs(normal[2] - 1.0) < 1e-10:
+        return v
+    kx, ky = -normal[1], normal[0]
+    mag = (kx**2 + ky**2)**0.5
+    if mag < 1e-10:
+        return [v[0], -v[1], 0.0, 0.0]
+    # Rodrigues' rotation about (kx, ky, 0), which takes +z to the normal
+    kx, ky = kx/mag, ky/mag
+    cos_a, sin_a = normal[2], mag
+    kdv = (kx*v[0] + ky*v[1]) * (1.0 - cos_a)
+    return [v[0]*cos_a + kx*kdv,
+            v[1]*cos_a + ky*kdv,
+            (kx*v[1] - ky*v[0]) * sin_a, 0.0]
+
+
 def ellipse_tangent(e, u):
     """Return the tangent vector at parameter u on an ellipse.
 
@@ -951,7 +970,7 @@ def ellipse_tangent(e, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _orient_to_normal([dx_rot/mag, dy_rot/mag, 0.0, 0.0], meta['normal'])
 
 
 def ellipse_length(e, segments=100):
@@ -1224,7 +1243,7 @@ def parabola_tangent(p, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _orient_to_normal([dx_rot/mag, dy_rot/mag, 0.0, 0.0], meta['normal'])
 
 
 def parabola_length(p, segments=100):
@@ -1512,7 +1531,7 @@ def hyperbola_tangent(h, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _orient_to_normal([dx_rot/mag, dy_rot/mag, 0.0, 0.0], meta['normal'])
 
 
 def hyperbola_length(h, segments=100):
-- 
2.43.0


From c0fe6d0af8c7c0e01ce6fb17097fb63c79fc16c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 28/99] fix: cone_surface_normal points outward

---
 src/yapcad/analytic_surfaces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index c56a145..06d6379 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -511,12 +511,12 @@ def cone_surface_normal(surf, u, v):
     sin_a = sin(half_angle)
     cos_a = cos(half_angle)
 
-    # Normal = sin_a*axis - cos_a*(ref*cos(u) + cross*sin(u))
+    # Normal = cos_a*(ref*cos(u) + cross*sin(u)) - sin_a*axis
     # (outward normal for cone surface)
     return [
-        sin_a * axis[0] - cos_a * (ref[0] * cos_u + cross[0] * sin_u),
-        sin_a * axis[1] - cos_a * (ref[1] * cos_u + cross[1] * sin_u),
-        sin_a * axis[2] - cos_a * (ref[2] * cos_u + cross[2] * sin_u),
+        cos_a * (ref[0] * cos_u + cross[0] * sin_u) - sin_a * axis[0],
+        cos_a * (ref[1] * cos_u + cross[1] * sin_u) - sin_a * axis[1],
+        cos_a * (ref[2] * cos_u + cross[2] * sin_u) - sin_a * axis[2],
         0.0
     ]
 
-- 
2.43.0


From 7792168ede77fd01398646ef9aebe2df1b5f40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 29/99] fix: B-spline surfaces evaluate at the upper end of a
 clamped knot vector

---
 src/yapcad/analytic_surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index 06d6379..743b379 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -810,7 +810,7 @@ def _bspline_basis(knots, i, p, u):
         if knots[i] <= u < knots[i + 1]:
             return 1.0
         # Handle end of knot span
-        if i + 1 == len(knots) - 1 and u == knots[i + 1]:
+        if u == knots[-1] and knots[i] < knots[i + 1] == knots[-1]:
             return 1.0
         return 0.0
 
-- 
2.43.0


From a288af961383293b8ef556ac1b107b95c4e7350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 30/99] fix: normals of B-spline surfaces at the upper ends of
 their ranges

---
 src/yapcad/analytic_surfaces.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index 743b379..672e74a 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -898,10 +898,16 @@ def bspline_surface_normal(surf, u, v, delta=1e-6):
     du = min(delta, (u_range[1] - u_range[0]) * 0.01)
     dv = min(delta, (v_range[1] - v_range[0]) * 0.01)
 
+    # Differences point backwards where a forward step would leave the range
+    if u + du > u_range[1]:
+        du = -du
+    if v + dv > v_range[1]:
+        dv = -dv
+
     # Sample points for partial derivatives
     p0 = evaluate_bspline_surface(surf, u, v)
-    pu = evaluate_bspline_surface(surf, min(u + du, u_range[1]), v)
-    pv = evaluate_bspline_surface(surf, u, min(v + dv, v_range[1]))
+    pu = evaluate_bspline_surface(surf, u + du, v)
+    pv = evaluate_bspline_surface(surf, u, v + dv)
 
     # Tangent vectors
     tu = [(pu[i] - p0[i]) / du for i in range(3)]
-- 
2.43.0


From 9b473d58473dae52fd9a7c4cf59f0f9ed57ccfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 31/99] fix: length_to_parameter inverts parameter_to_length on
 paths of unequal segments

---
 src/yapcad/manufacturing/path_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index a0463b9..9a99cce 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -362,7 +362,16 @@ def length_to_parameter(path3d: Dict[str, Any], arc_length: float) -> float:
     total_length = path_length(path3d)
     if total_length < 1e-10:
         return 0.0
-    return min(1.0, max(0.0, arc_length / total_length))
+
+    # each segment has an equal share of the parameter, whatever its length
+    segments = path3d['segments']
+    remaining = min(total_length, max(0.0, arc_length))
+    for i, seg in enumerate(segments):
+        seg_length = path_length({'segments': [seg]})
+        if remaining < seg_length:
+            return (i + remaining / seg_length) / len(segments)
+        remaining -= seg_length
+    return 1.0
 
 
 def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
@@ -375,6 +384,8 @@ def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
     Returns:
         Arc length from path start to parameter t
     """
+    if t <= 0.0:
+        return 0.0
     # Extract sub-path and compute its length
     sub_path = extract_sub_path(path3d, 0.0, t)
     return path_length(sub_path)
-- 
2.43.0


From f340255936d0e98d9cfa1de929640f7064c04bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 32/99] fix: compute_optimal_cuts spaces cuts by length along
 paths of unequal segments

---
 src/yapcad/manufacturing/segmentation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 8eed60f..1059add 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -17,6 +17,7 @@ from .data import (
 from .path_utils import (
     compute_cut_plane,
     extract_sub_path,
+    length_to_parameter,
     path_length,
 )
 from .connectors import (
@@ -766,7 +767,7 @@ def compute_optimal_cuts(
     for i in range(1, num_segments):
         # Convert length to parameter
         cut_length = i * segment_length
-        cut_t = cut_length / total_length
+        cut_t = length_to_parameter(spine, cut_length)
 
         cut_points.append(CutPoint(
             element_id=provenance.id,
-- 
2.43.0


From 68f47c39a7a6137fee17fe89492852cec5443575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 33/99] fix: the assembly graph of a segmentation lists both
 sides of each joint

---
 src/yapcad/manufacturing/segmentation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 1059add..f2afe90 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -444,7 +444,6 @@ def segment_swept_element(
     # Generate segments by iterating through cuts
     segments: List[Segment] = []
     connectors: List[ConnectorSpec] = []
-    assembly_graph: Dict[str, List[str]] = {}
     warnings: List[str] = []
 
     # Track remaining solid as we make cuts
@@ -567,7 +566,6 @@ def segment_swept_element(
                     prev_seg.connector_type = "female"
 
         segments.append(segment)
-        assembly_graph[segment_id] = list(segment.mates_with)
 
         prev_segment_id = segment_id
         segment_start_t = cut_point.parameter
@@ -608,7 +606,7 @@ def segment_swept_element(
             prev_seg.mates_with.append(final_segment_id)
 
     segments.append(final_segment)
-    assembly_graph[final_segment_id] = list(final_segment.mates_with)
+    assembly_graph = {seg.id: list(seg.mates_with) for seg in segments}
 
     # Generate assembly instructions
     instructions = _generate_assembly_instructions(segments, connectors)
-- 
2.43.0


From c73093174c5c04739a47dfaf5487536bd1a265af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 34/99] fix: connector types of segments follow the tabs they
 have and receive

---
 src/yapcad/manufacturing/segmentation.py | 55 +++++++++---------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index f2afe90..3f95329 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -451,7 +451,8 @@ def segment_swept_element(
     prev_segment_id: Optional[str] = None
     segment_start_t = 0.0
 
-    # Track connector type for segments
+    # The side of each joint that has the tab
+    joint_tabs: List[str] = []
     # When union_connector_with=="b", the next segment gets the connector
     next_segment_has_connector = False
 
@@ -470,16 +471,11 @@ def segment_swept_element(
             warnings.append(f"Cut {i} at t={cut_point.parameter} failed: {e}")
             continue
 
-        # Determine this segment's connector type based on previous cut's decision
-        # and build connector for this cut
-        segment_connector_type = "none"
-        segment_has_tab = False
-
+        # Which side of this cut gets the tab ("a", "b" or "none")
+        tab_side = "none"
         # If previous cut designated "b" (remaining), this segment has the connector
-        if next_segment_has_connector:
-            segment_connector_type = "male"
-            segment_has_tab = True
-            next_segment_has_connector = False
+        segment_has_tab = next_segment_has_connector
+        next_segment_has_connector = False
 
         # Build and integrate connector for THIS cut
         if build_connectors and outer_w and outer_h and provenance.wall_thickness:
@@ -512,8 +508,8 @@ def segment_swept_element(
                         segment_solid = _union_connector_with_segment(
                             segment_solid, connector_solid
                         )
-                        segment_connector_type = "male"
                         segment_has_tab = True
+                        tab_side = "a"
                     except RuntimeError as e:
                         warnings.append(
                             f"Connector union at t={cut_point.parameter} failed: {e}"
@@ -528,9 +524,7 @@ def segment_swept_element(
                             remaining_solid, connector_solid
                         )
                         next_segment_has_connector = True
-                        # This segment (A) is female - receives the connector from B
-                        if segment_connector_type == "none":
-                            segment_connector_type = "female"
+                        tab_side = "b"
                     except RuntimeError as e:
                         warnings.append(
                             f"Connector union at t={cut_point.parameter} failed: {e}"
@@ -548,7 +542,6 @@ def segment_swept_element(
             parent_element_id=provenance.id,
             parameter_range=(segment_start_t, cut_point.parameter),
             has_connector_tab=segment_has_tab,
-            connector_type=segment_connector_type,
         )
 
         # Track mating relationships
@@ -560,12 +553,9 @@ def segment_swept_element(
             )
             if prev_seg:
                 prev_seg.mates_with.append(segment_id)
-                # If this segment is male and prev segment doesn't have a tab,
-                # prev segment becomes female at this joint
-                if segment_connector_type == "male" and prev_seg.connector_type == "none":
-                    prev_seg.connector_type = "female"
 
         segments.append(segment)
+        joint_tabs.append(tab_side)
 
         prev_segment_id = segment_id
         segment_start_t = cut_point.parameter
@@ -576,27 +566,12 @@ def segment_swept_element(
     # Check if final segment has connector from last cut's "b" designation
     final_has_tab = next_segment_has_connector
 
-    # Determine final segment's connector type
-    if next_segment_has_connector:
-        # Last cut used union_connector_with="b", so final segment is male
-        final_connector_type = "male"
-    elif prev_segment_id:
-        # Check if previous segment is male - if so, final segment receives its tab
-        prev_seg = next((s for s in segments if s.id == prev_segment_id), None)
-        if prev_seg and prev_seg.connector_type == "male":
-            final_connector_type = "female"
-        else:
-            final_connector_type = "none"
-    else:
-        final_connector_type = "none"
-
     final_segment = Segment(
         id=final_segment_id,
         solid=remaining_solid,
         parent_element_id=provenance.id,
         parameter_range=(segment_start_t, 1.0),
         has_connector_tab=final_has_tab,
-        connector_type=final_connector_type,
     )
 
     if prev_segment_id:
@@ -606,6 +581,18 @@ def segment_swept_element(
             prev_seg.mates_with.append(final_segment_id)
 
     segments.append(final_segment)
+
+    # A segment with a tab is male; one without that receives the tab of the
+    # segment on the other side of a joint is female
+    for seg in segments:
+        if seg.has_connector_tab:
+            seg.connector_type = "male"
+    for seg_a, seg_b, tab_side in zip(segments, segments[1:], joint_tabs):
+        if tab_side == "a" and seg_b.connector_type == "none":
+            seg_b.connector_type = "female"
+        elif tab_side == "b" and seg_a.connector_type == "none":
+            seg_a.connector_type = "female"
+
     assembly_graph = {seg.id: list(seg.mates_with) for seg in segments}
 
     # Generate assembly instructions
-- 
2.43.0


From 90f1a91670c81b5ba0e3b099d90292a6beb0105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 35/99] fix: solved mates are not reused for another parent
 pose or other inputs

---
 src/yapcad/assembly/solver.py | 38 +++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index f5e4d59..76e141b 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -52,6 +52,7 @@ License: MIT
 
 from __future__ import annotations
 
+import copy
 import math
 import logging
 from dataclasses import dataclass, field
@@ -212,7 +213,7 @@ class MateConstraintSolver:
         results = solver.solve_all([mate1, mate2, mate3], base_transforms)
 
     Attributes:
-        cache: Dict mapping mate names to cached transform results
+        cache: Dict mapping mate names to the inputs and transform last solved
         tolerance: Position tolerance in mm (default 0.001)
         angle_tolerance: Angular tolerance in degrees (default 0.1)
     """
@@ -238,7 +239,7 @@ class MateConstraintSolver:
         self.tolerance = tolerance
         self.angle_tolerance = angle_tolerance
         self._use_cache = use_cache
-        self._cache: Dict[str, MateMateSolveResult] = {}
+        self._cache: Dict[str, Tuple[Any, Any]] = {}
 
     def solve_mate(
         self,
@@ -256,10 +257,7 @@ class MateConstraintSolver:
         The returned transform positions the child part origin in the parent
         part's coordinate frame such that the mate constraint is satisfied.
         """
-        # Check cache
         cache_key = f"{mate.name}:{mate_axis}"
-        if self._use_cache and cache_key in self._cache:
-            return self._cache[cache_key]
 
         try:
             # Get datums from registry
@@ -277,18 +275,30 @@ class MateConstraintSolver:
                     error_message=f"Datum not found: {mate.part_b}.{mate.datum_b}"
                 )
 
-            # Dispatch to constraint-specific solver
-            transform = self._solve_constraint(mate.mate_type, datum_a, datum_b, mate)
+            # The transform in the parent's frame depends on these only, so it
+            # is cached with them; the parent's pose is applied afterwards
+            inputs = (mate.mate_type, mate.offset, mate.angle,
+                      copy.deepcopy(datum_a), copy.deepcopy(datum_b))
+            cached = self._cache.get(cache_key) if self._use_cache else None
 
-            # Apply mate axis rotation if needed
-            if mate_axis != "Z":
-                transform = self._apply_mate_axis_rotation(transform, mate_axis)
+            if cached is not None and cached[0] == inputs:
+                transform = cached[1].copy()
+            else:
+                # Dispatch to constraint-specific solver
+                transform = self._solve_constraint(mate.mate_type, datum_a, datum_b, mate)
+
+                # Apply mate axis rotation if needed
+                if mate_axis != "Z":
+                    transform = self._apply_mate_axis_rotation(transform, mate_axis)
+
+                if self._use_cache:
+                    self._cache[cache_key] = (inputs, transform.copy())
 
             # Apply parent world transform if provided
             if parent_world_transform is not None:
                 transform = parent_world_transform @ transform
 
-            result = MateMateSolveResult(
+            return MateMateSolveResult(
                 success=True,
                 transform=transform,
                 residual=0.0,
@@ -298,12 +308,6 @@ class MateConstraintSolver:
                 }
             )
 
-            # Cache result
-            if self._use_cache:
-                self._cache[cache_key] = result
-
-            return result
-
         except Exception as e:
             logger.exception(f"Error solving mate {mate.name}")
             return MateMateSolveResult(
-- 
2.43.0


From 22288bd53d2ece6d1a341c44a2c13ab4321b6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 36/99] fix: invalidating one mate leaves the cache of mates
 with longer names

---
 src/yapcad/assembly/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 76e141b..356ff50 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -401,8 +401,9 @@ class MateConstraintSolver:
         if mate_name is None:
             self._cache.clear()
         else:
-            # Remove all cache entries starting with mate_name
-            keys_to_remove = [k for k in self._cache if k.startswith(mate_name)]
+            # Remove the cache entries of this mate (one per mate axis)
+            keys_to_remove = [k for k in self._cache
+                              if k.rsplit(":", 1)[0] == mate_name]
             for key in keys_to_remove:
                 del self._cache[key]
 
-- 
2.43.0


From a896ae8531b5c602fad7bd09f1521a0a235746bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 37/99] fix: mate solver aligns directions that are nearly
 parallel

---
 src/yapcad/assembly/solver.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 356ff50..ad55967 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -619,9 +619,11 @@ class MateConstraintSolver:
 
         # Check for parallel vectors
         dot = np.dot(v1, v2)
-        if dot > 0.9999:
+        axis = np.cross(v1, v2)
+        sine = np.linalg.norm(axis)
+        if sine < 1e-10 and dot > 0:
             return np.eye(3)  # Already aligned
-        if dot < -0.9999:
+        if sine < 1e-10:
             # Opposite directions - rotate 180 around any perpendicular axis
             if abs(v1[0]) < 0.9:
                 perp = np.cross(v1, [1, 0, 0])
@@ -631,11 +633,7 @@ class MateConstraintSolver:
             return self._rodrigues_rotation(perp, math.pi)
 
         # Rodrigues formula
-        axis = np.cross(v1, v2)
-        axis = axis / np.linalg.norm(axis)
-        angle = math.acos(np.clip(dot, -1.0, 1.0))
-
-        return self._rodrigues_rotation(axis, angle)
+        return self._rodrigues_rotation(axis / sine, math.atan2(sine, dot))
 
     def _rodrigues_rotation(self, axis: Any, angle: float) -> Any:
         """Compute rotation matrix from axis-angle using Rodrigues' formula.
-- 
2.43.0


From 4095c81b7c583111e113c2f97c0f1835773d2347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 38/99] fix: DISTANCE mates place the child's datum, not its
 origin, at the offset

---
 src/yapcad/assembly/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index ad55967..783f281 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -542,11 +542,12 @@ class MateConstraintSolver:
     def _solve_distance(self, datum_a: Datum, datum_b: Datum, offset: float) -> Any:
         """Solve DISTANCE constraint (fixed offset along normal)."""
         origin_a = np.array(datum_a.origin[:3])
+        origin_b = np.array(datum_b.origin[:3])
         normal_a = self._get_datum_direction(datum_a)
 
-        # Position child at offset distance from parent along normal
+        # Position child datum at offset distance from parent along normal
         transform = np.eye(4)
-        transform[:3, 3] = origin_a + normal_a * offset
+        transform[:3, 3] = origin_a + normal_a * offset - origin_b
 
         return transform
 
-- 
2.43.0


From 2fc245c4b376872054899ebaa3a6d0254caa00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 39/99] fix: ANGLE mates take their angle in radians, as
 documented

---
 src/yapcad/assembly/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 783f281..ac8b269 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -552,13 +552,13 @@ class MateConstraintSolver:
         return transform
 
     def _solve_angle(
-        self, datum_a: Datum, datum_b: Datum, angle_deg: float
+        self, datum_a: Datum, datum_b: Datum, angle: float
     ) -> Any:
         """Solve ANGLE constraint (fixed angular relationship)."""
         axis_a = self._get_datum_direction(datum_a)
 
         # Rotate around parent axis by specified angle
-        R = self._rodrigues_rotation(axis_a, math.radians(angle_deg))
+        R = self._rodrigues_rotation(axis_a, angle)
 
         transform = np.eye(4)
         transform[:3, :3] = R
-- 
2.43.0


From 61e7a2afe1b20f6597572f92d14c255a3de63423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 40/99] fix: MateType.ALIGNED exists, so face mates can be
 computed

---
 src/yapcad/assembly/mate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index 9f9e8cb..697d66e 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -78,6 +78,7 @@ class MateType(Enum):
     Basic Mates (geometric constraints):
     ------------------------------------
     COINCIDENT: Points, edges, or faces share same location (1-3 DOF removed)
+    ALIGNED: As COINCIDENT, with the face normals in the same direction
     CONCENTRIC: Cylindrical axes are colinear (4 DOF removed: 2t + 2r)
     PARALLEL: Directions remain parallel (2 DOF removed)
     PERPENDICULAR: Directions maintain 90-degree angle (1 DOF removed)
@@ -117,6 +118,7 @@ class MateType(Enum):
 
     # Geometric constraints (standard mates)
     COINCIDENT = "coincident"
+    ALIGNED = "aligned"
     CONCENTRIC = "concentric"
     PARALLEL = "parallel"
     PERPENDICULAR = "perpendicular"
@@ -499,6 +501,7 @@ class Mate:
 
             # Geometric constraints (approximate - depends on combination)
             MateType.COINCIDENT: 3,  # Typically removes 3 DOF
+            MateType.ALIGNED: 3,     # As COINCIDENT
             MateType.CONCENTRIC: 2,  # Translation + rotation on axis
             MateType.PARALLEL: 4,    # 2 rotational DOF removed
             MateType.PERPENDICULAR: 5,  # 1 rotational DOF removed
-- 
2.43.0


From 97fa8d0982e67b229c7bf5b445d5223ef9c60f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 41/99] fix: SCREW mates honour their coupling offset and
 reversal

---
 src/yapcad/assembly/mate.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index 697d66e..1160274 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -643,25 +643,25 @@ class Mate:
 
             # Screw mate with 2mm pitch
             screw_mate = Mate(mate_type=MateType.SCREW, coupling_pitch=2.0, ...)
-            linear_pos = screw_mate.compute_coupled_motion(math.pi)  # Returns 2.0
+            linear_pos = screw_mate.compute_coupled_motion(2 * math.pi)  # Returns 2.0
         """
         if not self.is_coupled():
             raise ValueError(f"Mate {self.name} is not a coupled type")
 
+        ratio = self.coupling_ratio
+
+        # For SCREW mates, use pitch instead of ratio
+        if self.mate_type == MateType.SCREW and self.coupling_pitch is not None:
+            # Position = rotations * pitch, with driver_position in radians
+            ratio = self.coupling_pitch / (2.0 * math.pi)
+
         # Apply coupling ratio and offset
-        driven = driver_position * self.coupling_ratio + self.coupling_offset
+        driven = driver_position * ratio + self.coupling_offset
 
         # Apply reversal if specified
         if self.coupling_reverse:
             driven = -driven
 
-        # For SCREW mates, use pitch instead of ratio
-        if self.mate_type == MateType.SCREW and self.coupling_pitch is not None:
-            # Position = rotations * pitch
-            # driver_position is in radians, convert to rotations
-            rotations = driver_position / (2.0 * math.pi)
-            driven = rotations * self.coupling_pitch
-
         return driven
 
     def to_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From 53ada743ed4d15de4fb5f4c4b5d45606f31b34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 42/99] fix: face mates apply the parent pose they are given
 and validate in the parent frame

---
 src/yapcad/assembly/face_mate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 10b5c71..52f6467 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -165,6 +165,8 @@ class FaceToFaceMate:
             return None
 
         if self._computed_transform is not None:
+            if parent_world_transform is not None:
+                return parent_world_transform @ self._computed_transform
             return self._computed_transform
 
         # Load datums from registry
@@ -202,11 +204,12 @@ class FaceToFaceMate:
         else:
             raise ValueError(f"Unsupported constraint type: {self.constraint}")
 
+        # Cached relative to the parent, whatever its pose
+        self._computed_transform = tf
+
         # Apply parent world transform if provided
         if parent_world_transform is not None:
             tf = parent_world_transform @ tf
-
-        self._computed_transform = tf
         return tf
 
     def validate(self,
-- 
2.43.0


From d165e93e798ccf82d2b7436f8f9a53d9822c8279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 43/99] fix: validating a face mate allows for its offset, free
 position and axis datums

---
 src/yapcad/assembly/face_mate.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 52f6467..8d1f0c8 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -252,9 +252,14 @@ class FaceToFaceMate:
                            self._computed_transform[:3, 3]
 
         parent_origin = np.array(self._parent_datum_obj.origin[:3])
+        parent_normal = _datum_direction(self._parent_datum_obj)
 
-        # Check distance
-        distance = float(np.linalg.norm(child_transformed - parent_origin))
+        # Check distance (PARALLEL leaves the position free)
+        if self.constraint == MateType.PARALLEL:
+            distance = 0.0
+        else:
+            target_origin = parent_origin + self.offset_distance * parent_normal
+            distance = float(np.linalg.norm(child_transformed - target_origin))
         distance_ok = distance <= tolerance_mm
 
         # Check angle (for PLANE/AXIS datums)
@@ -262,10 +267,7 @@ class FaceToFaceMate:
         angle_ok = True
 
         if self._parent_datum_obj.datum_type in (DatumType.PLANE, DatumType.CIRCLE):
-            parent_normal = np.array(self._parent_datum_obj.normal[:3])
-            parent_normal = parent_normal / np.linalg.norm(parent_normal)
-
-            child_normal = np.array(self._child_datum_obj.normal[:3])
+            child_normal = _datum_direction(self._child_datum_obj)
             child_normal_transformed = self._computed_transform[:3, :3] @ child_normal
             child_normal_transformed = child_normal_transformed / \
                                        np.linalg.norm(child_normal_transformed)
@@ -492,6 +494,17 @@ def compute_parallel_transform(parent_datum: Datum,
 # Helper Functions
 # =============================================================================
 
+def _datum_direction(datum: Datum) -> Any:
+    """The unit normal or direction of a datum (+Z if it has neither)."""
+    if datum.datum_type != DatumType.AXIS and datum.normal is not None:
+        v = np.array(datum.normal[:3])
+    elif datum.direction is not None:
+        v = np.array(datum.direction[:3])
+    else:
+        v = np.array([0.0, 0.0, 1.0])
+    return v / np.linalg.norm(v)
+
+
 def _rotation_between_vectors(v1: Any, v2: Any) -> Any:
     """Compute rotation matrix to rotate v1 to v2 using Rodrigues' formula.
 
-- 
2.43.0


From 34b90d51ffd4f0ee194a63463ac0f4a24329288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 44/99] fix: scaling a surface or solid keeps the given centre
 fixed

---
 src/yapcad/geom3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5343f5c..aa2cc5b 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -702,9 +702,9 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     if vclose(cent, point(0,0,0)):
         mat = xform.Scale(sx, sy, sz)
     else:
-        mat = xform.Translation(cent, inverse=True)
+        mat = xform.Translation(cent)
         mat = mat.mul(xform.Scale(sx, sy, sz))
-        mat = mat.mul(xform.Translation(cent))
+        mat = mat.mul(xform.Translation(cent, inverse=True))
 
     s2 = deepcopy(s)
     # Transform vertices
-- 
2.43.0


From f0069e90147ce316968ef856af29a19a6169fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 45/99] fix: scaling by negative factors keeps facets and
 normals facing outward

---
 src/yapcad/geom3d.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index aa2cc5b..a0163be 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -712,8 +712,8 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
         s2[1][i] = mat.mul(s2[1][i])
     # Normals need special handling for non-uniform scaling
     # For non-uniform scale, normals transform by inverse-transpose
-    # For uniform scale, normals stay the same (just need normalization)
-    if not close(sx, sy) or not close(sy, sz):
+    # For uniform positive scale, normals stay the same
+    if not close(sx, sy) or not close(sy, sz) or sx < 0:
         # Non-uniform scaling - normals need inverse transpose
         # Normal transform matrix is inverse-transpose of vertex transform
         inv_scale = xform.Scale(1.0/sx, 1.0/sy, 1.0/sz)
@@ -725,6 +725,9 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
             length = (n_scaled[0]**2 + n_scaled[1]**2 + n_scaled[2]**2)**0.5
             if length > 1e-10:
                 s2[2][i] = vect(n_scaled[0]/length, n_scaled[1]/length, n_scaled[2]/length, 0)
+    # an odd number of reflections reverses the facets
+    if sx*sy*sz < 0:
+        s2[3] = list(map(lambda x: [x[0],x[2],x[1]],s2[3]))
     return s2
 
 def solid(*args):
-- 
2.43.0


From 3f5042c66b149ed7a1c18ff58894a2f618a957b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 46/99] fix: issurface rejects vertex indices out of range

---
 src/yapcad/geom3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index a0163be..c504ed7 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -583,8 +583,8 @@ def issurface(s,fast=True):
         l = len(verts)
         if l < 3:
             return False
-        return (len(list(filter(lambda x: not (isinstance(x,int) or
-                                               x < 0 or x >= l),
+        return (len(list(filter(lambda x: not (isinstance(x,int) and
+                                               x >= 0 and x < l),
                                 inds))) == 0)
 
     if not isinstance(s,list) or len(s) not in (6,7) or s[0] != 'surface':
-- 
2.43.0


From 576f732cafba7bff3e2ce9299eea4d76b00bc2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 47/99] fix: surface() and solid() take an empty list in its
 place

---
 src/yapcad/geom3d.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index c504ed7..bf1f69d 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -464,7 +464,7 @@ def surface(*args):
     for data-type correctness.
 
     """
-    if args==[]:
+    if len(args) == 0:
         # empty surface
         return ['surface',[],[],[],[],[] ]
     if len(args) == 1:
@@ -476,8 +476,8 @@ def surface(*args):
         vrts = args[0]
         nrms = args[1]
         facs = args[2]
-        bndr = []
-        hle = []
+        bndr = None
+        hle = None
         metadata = None
 
         if not (isinstance(vrts,list) and isinstance(nrms,list)
@@ -491,16 +491,16 @@ def surface(*args):
                     raise ValueError('multiple metadata dictionaries passed to surface')
                 metadata = item
             elif isinstance(item, list):
-                if not bndr:
+                if bndr is None:
                     bndr = item
-                elif not hle:
+                elif hle is None:
                     hle = item
                 else:
                     raise ValueError('too many list arguments passed to surface')
             else:
                 raise ValueError('bad arguments to surface')
 
-        surf = ['surface',vrts,nrms,facs,bndr,hle]
+        surf = ['surface',vrts,nrms,facs,bndr or [],hle or []]
         if metadata is not None:
             if not isinstance(metadata, dict):
                 raise ValueError('surface metadata must be a dict')
@@ -736,7 +736,7 @@ def solid(*args):
     for data-type correctness.
 
     """
-    if args==[] or (len(args) == 1 and args[0] == []):
+    if len(args) == 0 or (len(args) == 1 and args[0] == []):
         # empty solid, which is legal because we must support
         # empty results of CSG operations, etc.
         return ['solid',[],[],[] ]
@@ -755,8 +755,8 @@ def solid(*args):
                 raise ValueError('bad arguments to solid')
 
         surfaces = args[0]
-        material = []
-        construction = []
+        material = None
+        construction = None
         metadata = None
 
         for item in args[1:]:
@@ -765,16 +765,16 @@ def solid(*args):
                     raise ValueError('multiple metadata dictionaries passed to solid')
                 metadata = item
             elif isinstance(item, list):
-                if material == []:
+                if material is None:
                     material = item
-                elif construction == []:
+                elif construction is None:
                     construction = item
                 else:
                     raise ValueError('too many list arguments passed to solid')
             else:
                 raise ValueError('bad arguments to solid')
 
-        sld = ['solid', surfaces, material, construction]
+        sld = ['solid', surfaces, material or [], construction or []]
         if metadata is not None:
             sld.append(metadata)
         return sld
-- 
2.43.0


From 92db69fbb5a07577f09bad4e519245d223798a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 48/99] fix: extruding a surface against its normal gives an
 outward facing solid

---
 src/yapcad/geom3d_util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index b703487..00a1a0b 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1414,7 +1414,15 @@ def extrude(surf,distance,direction=vect(0,0,1,0)):
     else:
         strip = ['surface', [], [], [], [], []]
 
-    result = solid([s2,strip,s1],
+    surfaces = [s2,strip,s1]
+    if surf[3]:
+        tri = surf[3][0]
+        v0, v1, v2 = surf[1][tri[0]], surf[1][tri[1]], surf[1][tri[2]]
+        if dot(cross(sub(v1,v0),sub(v2,v0)),direction) < 0:
+            # extruded against the facing of the surface
+            surfaces = [reversesurface(s) for s in surfaces]
+
+    result = solid(surfaces,
                    [],
                    ['procedure',call])
     if occ_available():
-- 
2.43.0


From c58c14f07d1bd4e12789c098a6d28dde1975a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 49/99] fix: spherical shell segments are closed

---
 src/yapcad/geom3d_util.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 00a1a0b..59cde80 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -832,7 +832,7 @@ def _make_revolution_brep(contour, zStart, zEnd, steps):
         return None
 
 
-def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_error=None,max_chord=None,return_brep=False):
+def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_error=None,max_chord=None,return_brep=False,endcaps=True):
     """
     Generate a surface of revolution by sampling a contour function.
 
@@ -844,6 +844,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
                        If None (default), adaptive resolution is used.
     :param chord_error: (deprecated) maximum chord error/sagitta for legacy mode
     :param max_chord: maximum chord length in mm for adaptive resolution (default: size-adaptive)
+    :param endcaps: close open ends with flat discs
     :returns: ``['surface', vertices, normals, faces]`` list representing the surface
     """
 
@@ -981,7 +982,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
     # ── Flat disc caps for open ends (r > 0 at endpoints) ──────────
     # When the contour doesn't reach r=0 at zStart or zEnd, the surface
     # is open (a tube). Add flat disc caps to close it into a solid.
-    if not need_start_cap and r_start >= epsilon:
+    if endcaps and not need_start_cap and r_start >= epsilon:
         # Bottom disc cap: center vertex at (0,0,zStart), fan to first ring
         cap_center = [0.0, 0.0, zStart, 1.0]
         cap_normal = [0.0, 0.0, -1.0, 0.0]  # outward = -Z for bottom
@@ -996,7 +997,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
             # Wind CW from outside (looking at -Z face)
             sF.append([center_idx, k2, k1])
 
-    if not need_end_cap and r_end >= epsilon:
+    if endcaps and not need_end_cap and r_end >= epsilon:
         # Top disc cap: center vertex at (0,0,zEnd), fan to last ring
         cap_center = [0.0, 0.0, zEnd, 1.0]
         cap_normal = [0.0, 0.0, 1.0, 0.0]  # outward = +Z for top
@@ -1850,13 +1851,13 @@ def spherical_shell(outer_diameter, wall_thickness,
     outer_surface = makeRevolutionSurface(_sphere_contour(outer_radius),
                                           z_start_outer, z_end_outer,
                                           max(steps, lat_steps),
-                                          arcSamples=arc_samples)
+                                          arcSamples=arc_samples, endcaps=False)
     outer_surface = translatesurface(outer_surface, point(center[0], center[1], 0))
 
     inner_surface = makeRevolutionSurface(_sphere_contour(inner_radius),
                                           z_start_inner, z_end_inner,
                                           max(steps, lat_steps),
-                                          arcSamples=arc_samples)
+                                          arcSamples=arc_samples, endcaps=False)
     inner_surface = translatesurface(inner_surface, point(center[0], center[1], 0))
     inner_surface = reversesurface(inner_surface)
 
@@ -1866,13 +1867,15 @@ def spherical_shell(outer_diameter, wall_thickness,
         r_outer_ring = outer_radius * math.sin(theta)
         r_inner_ring = inner_radius * math.sin(theta)
 
-        base_outer = [point(center[0] + p[0], center[1] + p[1], cz + outer_radius * math.cos(theta), 1.0)
-                      for p in _circle_loop((0, 0), r_outer_ring, minang)[:-1]]
-        base_inner = [point(center[0] + p[0], center[1] + p[1], cz + inner_radius * math.cos(theta), 1.0)
-#                      for p in list(reversed(_circle_loop((0, 0), r_inner_ring, minang)))[:-1]]
-                      for p in _circle_loop((0, 0), r_inner_ring, minang)[:-1]]
+        # same points around the rings as the spherical surfaces have
+        ring = [(math.cos(i * pi2 / arc_samples), math.sin(i * pi2 / arc_samples))
+                for i in range(arc_samples)]
+        base_outer = [point(center[0] + c * r_outer_ring, center[1] + s * r_outer_ring,
+                            cz + outer_radius * math.cos(theta)) for c, s in ring]
+        base_inner = [point(center[0] + c * r_inner_ring, center[1] + s * r_inner_ring,
+                            cz + inner_radius * math.cos(theta)) for c, s in ring]
 
-        conic_surface = _loft_surface(base_outer, base_inner, invert=False)
+        conic_surface = _loft_surface(base_inner, base_outer, invert=False)
         surfaces.append(conic_surface)
 
     call = ("yapcad.geom3d_util.spherical_shell("
-- 
2.43.0


From 603aecfec6ba20c419e681464ea2f0ada12af4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 50/99] fix: lofted solids have end faces

---
 src/yapcad/geom3d_util.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 59cde80..70010f4 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1615,12 +1615,20 @@ def makeLoftSolid(lower_loop, upper_loop, *, metadata=None):
     otherwise falls back to the tessellated representation.
     """
     surf = _loft_surface(lower_loop, upper_loop)
+    count = len(surf[1])//2
+    lower, upper = surf[1][:count], surf[1][count:]
+    bottom, _ = poly2surface(lower, minarea=0.0)
+    top, _ = poly2surface(upper, minarea=0.0)
+    surfaces = [surf, reversesurface(bottom), top]
+    v0, v1, v2 = (bottom[1][i] for i in bottom[3][0])
+    if dot(cross(sub(v1, v0), sub(v2, v0)), sub(upper[0], lower[0])) < 0:
+        surfaces = [reversesurface(s) for s in surfaces]
     call = f"yapcad.geom3d_util.makeLoftSolid(lower_loop, upper_loop)"
     construction = ['procedure', call]
     if metadata is not None and isinstance(metadata, dict):
-        sld = solid([surf], [], construction, metadata)
+        sld = solid(surfaces, [], construction, metadata)
     else:
-        sld = solid([surf], [], construction)
+        sld = solid(surfaces, [], construction)
 
     try:
         brep_shape = _loft_brep(lower_loop, upper_loop)
-- 
2.43.0


From 1386ba678a0f2410f5e705387f1d318437dab179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 51/99] fix: surfaces of clockwise polygons have normals
 agreeing with their facets

---
 src/yapcad/geom3d.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index bf1f69d..e1cbac4 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1310,12 +1310,17 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
                                     [[(q[0], q[1]) for q in loop]
                                      for loop in hole_loops])
 
+    outer_area = sum(outer_loop[i][0]*outer_loop[(i+1)%len(outer_loop)][1]
+                     - outer_loop[(i+1)%len(outer_loop)][0]*outer_loop[i][1]
+                     for i in range(len(outer_loop)))
+    orientation = 1 if outer_area >= 0 else -1
+
     def makeboundary(poly,vertices,normals):
         bndry = []
         i = len(vertices)
         for p in poly:
             vertices.append(point(p))
-            normals.append([0,0,1,0])
+            normals.append([0,0,orientation,0])
             bndry.append(i)
             i+=1
         return bndry,vertices,normals
@@ -1337,11 +1342,6 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
         (x1,y1),(x2,y2),(x3,y3) = tri
         return ((x2 - x1)*(y3 - y1) - (x3 - x1)*(y2 - y1)) / 2.0
 
-    outer_area = sum(outer_loop[i][0]*outer_loop[(i+1)%len(outer_loop)][1]
-                     - outer_loop[(i+1)%len(outer_loop)][0]*outer_loop[i][1]
-                     for i in range(len(outer_loop)))
-    orientation = 1 if outer_area >= 0 else -1
-
     for tri in triangles:
         tri_points = [point(x, y, 0, 1) for (x, y) in tri]
         area = _signed_triangle(tri)
@@ -1350,9 +1350,9 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
             area = -area
         if abs(area) > minarea:
             surf = addTri2Surface(tri_points,surf,
-                                  nfunc=lambda x: ([0,0,1,0],
-                                                   [0,0,1,0],
-                                                   [0,0,1,0]))
+                                  nfunc=lambda x: ([0,0,orientation,0],
+                                                   [0,0,orientation,0],
+                                                   [0,0,orientation,0]))
 
     return surf,[]
 
-- 
2.43.0


From cb18931fac0df17a13a1f6b6ae4b87d18681b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 52/99] fix: vertex normals of conics and surfaces of
 revolution are square to the surface

---
 src/yapcad/geom3d_util.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 70010f4..d4d4fc3 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -693,8 +693,9 @@ def conic(baser,topr,height, center=point(0,0,0),angr=None,chord_error=None,max_
         topN = []
         cylF = []
         for i in range(ll):
-            p0 = cylV[(i-1)%ll]
-            p1 = cylV[(i+1)%ll]
+            # chord between the neighbours, shifted to pass through vertex i
+            p0 = cylV[i]
+            p1 = add(p0,sub(cylV[(i+1)%ll],cylV[(i-1)%ll]))
             p2 = cylV[ll+i]
 
             cylF.append([i,(i+1)%ll,ll+(i+1)%ll])
@@ -728,8 +729,8 @@ def conic(baser,topr,height, center=point(0,0,0),angr=None,chord_error=None,max_
             # Wrap indices within perimeter range [1, ll-1]
             prev_idx = ((i - 2) % num_perimeter) + 1
             next_idx = (i % num_perimeter) + 1
-            p1 = conV[prev_idx]
-            p2 = conV[next_idx]
+            p1 = conV[i]
+            p2 = add(p1,sub(conV[next_idx],conV[prev_idx]))
 
             try:
                 pp, n0 = tri2p0n([p0, p1, p2])
@@ -967,7 +968,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
             pp2 = [angle_cos[a2_idx]*r1, angle_sin[a2_idx]*r1, z+zD, 1.0]
 
             try:
-                p,n = tri2p0n([p0,p2,pp1])
+                p,n = tri2p0n([p1,add(p1,sub(p2,p0)),pp1])
             except ValueError:
                 # Skip degenerate faces
                 continue
-- 
2.43.0


From 02359f5120185da7703a67d3828af62cbf7a837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 53/99] fix: linePlaneIntersect takes planar bases and ignores
 the triangle's bounds when inside is False

---
 src/yapcad/geom3d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index e1cbac4..ddbb579 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -336,7 +336,7 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             return sampleline(lne,u)
 
     # is the plane specified symbolicaly?
-    trangle = False
+    triangle = False
     idx = -1
     if plane=="xy":
         idx=2
@@ -349,13 +349,14 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
         return lineCardinalPlaneIntersect(lne,idx,inside)
     else:
         if istriangle(plane):
-            triangle = True
+            triangle = inside
             tri = plane
             plane = tri2p0n(plane,basis=True)
             tri2 = [ plane[2].mul(tri[0]),
                      plane[2].mul(tri[1]),
                      plane[2].mul(tri[2]) ]
-        else:
+        elif not (isinstance(plane,(list,tuple)) and len(plane) == 4 and
+                  isinstance(plane[2],xform.Matrix)):
             raise ValueError('non-plane passed to linePlaneIntersect')
         # otherwise assume that plane is a valid planar basis
 
-- 
2.43.0


From f9eee87c5dfbcbb43e7df03cb7bafb25c32f2572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 54/99] fix: triTriIntersect clips the intersection of two
 planes to both triangles

---
 src/yapcad/geom3d.py | 55 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index ddbb579..0699005 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -429,7 +429,7 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
                 else:
                     return transform(intr,tinv)
     # not coplanar, check to see if planes are parallel
-    if vclose(n1,n2):
+    if vclose(n1,n2) or vclose(n1,scale4(n2,-1.0)):
         return False #yep, degenerate
 
     if inside:
@@ -439,21 +439,54 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
             (t2p[0][2] < -epsilon and t2p[1][2] < -epsilon and
              t2p[2][2] < -epsilon)):
             return False
-        # linear intersection.  Figure out which two of three lines
-        # cross the z=0 plane
+        # linear intersection.  Find the part of t2 lying in the z=0
+        # plane
+        ends = []
+        for i in range(3):
+            p,q = t2p[i],t2p[(i+1)%3]
+            if abs(p[2]) <= epsilon:
+                ends.append(p)
+            elif abs(q[2]) > epsilon and p[2]*q[2] < 0.0:
+                ends.append(linePlaneIntersect([p,q],"xy",False))
+        if len(ends) < 2:
+            return False #touches the plane at a vertex
+        a,b = ends[0],ends[1]
+
+        # clip it against the edges of t1
+        u0,u1 = 0.0,1.0
+        c = cross(sub(t1p[1],t1p[0]),sub(t1p[2],t1p[0]))[2]
+        sgn = 1.0 if c > 0.0 else -1.0
+        for i in range(3):
+            p,q = t1p[i],t1p[(i+1)%3]
+            # distances of a and b to the inner side of the edge
+            da = sgn*cross(sub(q,p),sub(a,p))[2]/dist(p,q)
+            db = sgn*cross(sub(q,p),sub(b,p))[2]/dist(p,q)
+            if da < -epsilon and db < -epsilon:
+                return False
+            elif da < -epsilon:
+                u0 = max(u0,da/(da-db))
+            elif db < -epsilon:
+                u1 = min(u1,da/(da-db))
+        if (u1-u0)*dist(a,b) <= epsilon:
+            return False
+        a,b = sampleline([a,b],u0),sampleline([a,b],u1)
+        if inPlane:
+            return [a,b]
+        else:
+            return [tinv.mul(a),tinv.mul(b)]
 
-    # this should work whether or not the intersection is
-    # inside t2.
+    # the infinite line, from the two edges of t2 that cross it furthest
+    # apart
     ip1 = linePlaneIntersect([t2p[0],t2p[1]],"xy",False)
     ip2 = linePlaneIntersect([t2p[1],t2p[2]],"xy",False)
     ip3 = linePlaneIntersect([t2p[2],t2p[0]],"xy",False)
 
-    a=ip1
-    b=ip2
-    if not a:
-        a=ip3
-    if not b:
-        b=ip3
+    ips = [ p for p in (ip1,ip2,ip3) if p ]
+    if len(ips) < 2:
+        return False
+    a,b = ips[0],ips[1]
+    if len(ips) == 3 and dist(ip1,ip2) < dist(ip1,ip3):
+        b = ips[2]
     if inPlane:
         return [a,b]
     else:
-- 
2.43.0


From cd997a85f70bad5ada2a8dfa72a0c1275c69f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 55/99] fix: triTriIntersect intersects coplanar triangles
 given as three points

---
 src/yapcad/geom3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 0699005..8d70a26 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -420,7 +420,8 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
             else:
                 return t2
         else: # return poly that is in-plane intersection
-            intr = combineglist(t1p,t2p,'intersection')
+            # combineglist takes closed polys
+            intr = combineglist(t1p[:3]+t1p[:1],t2p[:3]+t2p[:1],'intersection')
             if len(intr) < 1: #no intersection
                 return False
             else:
-- 
2.43.0


From fe1158376b196328430472d0b8e92f8e38a5b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 56/99] fix: combineglist combines figures of opposite
 orientation

---
 src/yapcad/geom_util.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 63616ad..6202a98 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -653,6 +653,21 @@ def combineglist(g1,g2,operation):
     if not operation in ["union","intersection","difference"]:
         raise ValueError("bad operation specified for combineglist")
     
+    # the algorithm needs both outlines to run the same way around
+    def outline_area(gl):
+        area = 0.0
+        for e in ([ gl ] if isarc(gl) else gl):
+            if isarc(e):
+                area += _poly_signed_area([ sample(e,i/8.0) for i in range(9) ])
+            elif isline(e) or ispoly(e):
+                area += _poly_signed_area(e)
+            else:
+                return 0.0
+        return area
+
+    if outline_area(g1)*outline_area(g2) < 0.0:
+        g2 = reverseGeomList([ g2 ] if isarc(g2) else g2)
+
     bbox1 = bbox(g1)
     bbox2 = bbox(g2)
     try :
-- 
2.43.0


From 41acf2f1b04fb7e5479c46fe229216fe1e475e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 57/99] fix: issolidclosed matches corners across rounding
 boundaries

---
 src/yapcad/geom3d.py | 46 +++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 8d70a26..65821a9 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -6,7 +6,7 @@ from yapcad.geom import *
 from yapcad.geom_util import *
 from yapcad.xform import *
 from functools import reduce
-from itertools import chain
+from itertools import chain, product
 import os
 from yapcad.octtree import NTree
 
@@ -997,25 +997,6 @@ def scalesolid(x, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
 
     return s2
 
-def _point_to_key(p):
-    """
-    Convert a point to a hashable key for edge/vertex identification.
-    Uses rounded coordinates to handle floating point precision issues.
-    """
-    # Round to a reasonable precision to handle floating point comparison
-    return (round(p[0] / epsilon) * epsilon,
-            round(p[1] / epsilon) * epsilon,
-            round(p[2] / epsilon) * epsilon)
-
-def _canonical_edge_key(p1, p2):
-    """
-    Create a canonical edge key from two points.
-    Returns tuple of keys in sorted order so (p1,p2) and (p2,p1) map to same edge.
-    """
-    k1 = _point_to_key(p1)
-    k2 = _point_to_key(p2)
-    return (min(k1, k2), max(k1, k2))
-
 def issolidclosed(x):
     """
     Check if solid x is topologically closed.
@@ -1054,30 +1035,43 @@ def issolidclosed(x):
     if not surfaces:
         return True
 
+    # Corners closer than epsilon are the same corner, also when their
+    # coordinates fall on different sides of a rounding boundary
+    corners = {}
+
+    def corner(p):
+        cell = [math.floor(c / epsilon) for c in p[:3]]
+        for near in product(*((c, c - 1, c + 1) for c in cell)):
+            for q in corners.get(near, ()):
+                if vclose(p, q):
+                    return id(q)
+        corners.setdefault(tuple(cell), []).append(p)
+        return id(p)
+
     # Build a global edge map across all surfaces
-    # Key: canonical edge tuple (point_key1, point_key2)
+    # Key: edge as sorted pair of corners
     # Value: count of faces that share this edge
     global_edge_count = {}
 
     for surf_idx, surf in enumerate(surfaces):
         faces = surf[3]
-        vertices = surf[1]
+        vertices = [corner(p) for p in surf[1]]
 
         # Process each face in this surface
         for face_idx, face in enumerate(faces):
             if len(face) != 3:
                 raise ValueError(f'non-triangular face in surface {surf_idx}, face {face_idx}')
 
-            # Get the three vertex positions
+            # Get the three corners
             p0 = vertices[face[0]]
             p1 = vertices[face[1]]
             p2 = vertices[face[2]]
 
             # Extract the three edges of this triangular face
             edges = [
-                _canonical_edge_key(p0, p1),
-                _canonical_edge_key(p1, p2),
-                _canonical_edge_key(p2, p0)
+                (min(p0, p1), max(p0, p1)),
+                (min(p1, p2), max(p1, p2)),
+                (min(p2, p0), max(p2, p0))
             ]
 
             # Count this face's contribution to each edge
-- 
2.43.0


From 188e04cb19ca35d1b83b3910980720d9828f038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 58/99] fix: moved copies of a surface do not keep its old
 spatial index

---
 src/yapcad/geom3d.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 65821a9..c4a2a65 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -659,6 +659,19 @@ geom_translate = translate
 geom_scale = scale
 geom_mirror = mirror
 
+def _copysurface(s):
+    """ copy a surface, without the search structures that were computed
+    for its current position """
+    s2 = deepcopy(s[:6])
+    if len(s) == 7:
+        meta = s[6]
+        if isinstance(meta, dict):
+            meta = { k: v for k, v in meta.items()
+                     if k not in ('_octree','_octree_dirty',
+                                  '_surface_orientation') }
+        s2.append(deepcopy(meta))
+    return s2
+
 def rotatesurface(s,ang,cent=point(0,0,0),axis=point(0,0,1.0),mat=False):
     """ return a rotated copy of the surface"""
     if close(ang,0.0):
@@ -670,7 +683,7 @@ def rotatesurface(s,ang,cent=point(0,0,0),axis=point(0,0,1.0),mat=False):
             mat = xform.Translation(cent)
             mat = mat.mul(xform.Rotation(axis,ang))
             mat = mat.mul(xform.Translation(cent,inverse=True))
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     #import pdb ; pdb.set_trace()
     s2[1] = geom_rotate(s2[1],ang,cent,axis,mat)
     s2[2] = geom_rotate(s2[2],ang,cent,axis,mat)
@@ -680,7 +693,7 @@ def translatesurface(s,delta):
     """ return a translated copy of the surface"""
     if vclose(delta,point(0,0,0)):
         return deepcopy(s)
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     for i in range(len(s2[1])):
         s2[1][i] = add(s2[1][i],delta)
     return s2
@@ -694,7 +707,7 @@ def mirrorsurface(s,plane):
     Note that this is a full surface geometry reflection, and not
     simply a normal reverser.
     """
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     s2[1] = mirror(s[1],plane)
     s2[2] = mirror(s[2],plane)
     s2[3] = list(map(lambda x: [x[0],x[2],x[1]],s2[3]))
@@ -702,7 +715,7 @@ def mirrorsurface(s,plane):
     
 def reversesurface(s):
     """ return a nomal-reversed copy of the surface """
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     s2[2] = list(map(lambda x: scale4(x,-1.0),s2[2]))
     s2[3] = list(map(lambda x: [x[0],x[2],x[1]],s2[3]))
     return s2
@@ -741,7 +754,7 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
         mat = mat.mul(xform.Scale(sx, sy, sz))
         mat = mat.mul(xform.Translation(cent, inverse=True))
 
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     # Transform vertices
     for i in range(len(s2[1])):
         s2[1][i] = mat.mul(s2[1][i])
-- 
2.43.0


From f12d3062839e0df8ee0c8314995770f744702a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 59/99] fix: solid_contains_point does not take a grazing ray's
 word that a point is outside

---
 src/yapcad/boolean/native.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/boolean/native.py b/src/yapcad/boolean/native.py
index 4132b0f..6244515 100644
--- a/src/yapcad/boolean/native.py
+++ b/src/yapcad/boolean/native.py
@@ -1030,12 +1030,15 @@ def solid_contains_point(sld, p, tol=_DEFAULT_RAY_TOL):
     ]
 
     seen_inside = False
+    grazing_inside = False
+    grazing_outside = False
     for direction in directions:
         far_point = point(p[0] + direction[0] * ray_length,
                           p[1] + direction[1] * ray_length,
                           p[2] + direction[2] * ray_length)
         query_box = _segment_bbox(p, far_point, tol * 5)
         hits = []
+        grazing = False
         for surf in surfaces:
             tree = surface_octree(surf)
             if tree is None:
@@ -1056,11 +1059,13 @@ def solid_contains_point(sld, p, tol=_DEFAULT_RAY_TOL):
                 result = _ray_triangle_intersection(p, direction, tri, tol=tol)
                 if result is None:
                     continue
-                t_hit, hit_point, _ = result
+                t_hit, hit_point, bary = result
                 if t_hit < -tol or t_hit > ray_length + tol:
                     continue
                 if t_hit <= tol:
                     return True
+                if min(bary) <= 10.0 * tol:
+                    grazing = True
                 normal = _triangle_normal(tri)
                 sign = -1 if dot(normal, direction) > 0 else 1
                 hits.append((t_hit, hit_point, sign))
@@ -1072,9 +1077,15 @@ def solid_contains_point(sld, p, tol=_DEFAULT_RAY_TOL):
                 continue
             parity ^= 1
         if parity == 0:
-            return False
-        seen_inside = True
-    return seen_inside
+            if not grazing:
+                return False
+            # a ray through an edge may miss or double count a facet
+            grazing_outside = True
+        elif grazing:
+            grazing_inside = True
+        else:
+            seen_inside = True
+    return seen_inside or (grazing_inside and not grazing_outside)
 
 
 def solids_intersect(a, b, tol=_DEFAULT_RAY_TOL):
-- 
2.43.0


From e584ade8209710d167a69edee57917e3ea8c53ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 60/99] fix: an emit ends the command, as documented

---
 src/yapcad/dsl/runtime/interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3deb662..5c31227 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -349,6 +349,8 @@ class Interpreter:
                 for key, expr in stmt.metadata.items():
                     metadata[key] = self._evaluate(expr, ctx).data
         ctx.set_emit(value, metadata)
+        # emit is a return: nothing after it runs
+        ctx.signal_return(value)
 
     def _execute_for(self, stmt: ForStatement, ctx: ExecutionContext) -> None:
         """Execute a for loop."""
-- 
2.43.0


From 42d0b50ab2c5c0c74ac4f397a300b561003bd752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 61/99] fix: DSL and/or do not evaluate the right operand when
 the left decides

---
 src/yapcad/dsl/runtime/interpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 5c31227..809a1a7 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -568,17 +568,18 @@ class Interpreter:
     def _eval_binary_op(self, op: BinaryOp, ctx: ExecutionContext) -> Value:
         """Evaluate a binary operation."""
         left = self._evaluate(op.left, ctx)
-        right = self._evaluate(op.right, ctx)
 
         # Short-circuit for logical operators
         if op.operator == TokenType.AND:
             if not left.is_truthy():
                 return bool_val(False)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
         elif op.operator == TokenType.OR:
             if left.is_truthy():
                 return bool_val(True)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
+
+        right = self._evaluate(op.right, ctx)
 
         # Arithmetic operators
         if op.operator == TokenType.PLUS:
-- 
2.43.0


From cec188718bb513da800cd8b07fbf748770b945dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 62/99] fix: values emitted by called commands can be used as
 conditions

---
 src/yapcad/dsl/runtime/values.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/dsl/runtime/values.py b/src/yapcad/dsl/runtime/values.py
index 7a8a1c3..e509192 100644
--- a/src/yapcad/dsl/runtime/values.py
+++ b/src/yapcad/dsl/runtime/values.py
@@ -191,6 +191,10 @@ class EmitResult:
         """Get the DSL type."""
         return self.value.type
 
+    def is_truthy(self) -> bool:
+        """Check if the emitted value is truthy in boolean context."""
+        return self.value.is_truthy()
+
 
 @dataclass
 class RequireFailure:
-- 
2.43.0


From 0966ff0f5beed32946ef2b0befc3ca4b8f64fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 63/99] fix: failed requirements of called commands are
 reported

---
 src/yapcad/dsl/runtime/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 809a1a7..1b9389c 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -739,7 +739,10 @@ class Interpreter:
             cmd_ctx = create_context(module_name, command.name, param_dict, "")
 
             # Execute the command body
-            self._execute_command(command, cmd_ctx)
+            try:
+                self._execute_command(command, cmd_ctx)
+            finally:
+                parent_ctx.require_failures.extend(cmd_ctx.require_failures)
 
             # Apply @meta(...) hint to the emitted solid before returning
             # so the value seen by the caller (e.g. add_part(...)) carries
-- 
2.43.0


From c11c0f7c8d0e3951adae70d2be6a6b9d57488841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 64/99] fix: the message of a failed requirement is its text

---
 src/yapcad/dsl/runtime/interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 1b9389c..2e5f010 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -332,7 +332,11 @@ class Interpreter:
         """Execute a require statement."""
         condition = self._evaluate(stmt.condition, ctx)
         if not condition.is_truthy():
-            message = stmt.message if stmt.message else "Constraint violated"
+            message = "Constraint violated"
+            if stmt.message is not None:
+                message = stmt.message
+                if isinstance(message, Expression):
+                    message = self._evaluate(message, ctx).data
             ctx.add_require_failure(message)
 
     def _execute_emit(self, stmt: EmitStatement, ctx: ExecutionContext) -> None:
-- 
2.43.0


From d1af0d5a28a1e8ca3c89fc228657989ab075ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 65/99] fix: defaults of command parameters are evaluated with
 the parameters before them

---
 src/yapcad/dsl/runtime/interpreter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 2e5f010..da74583 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -245,10 +245,12 @@ class Interpreter:
                     else:
                         param_type = FLOAT  # Default fallback
                 wrapped[param.name] = wrap_value(raw_value, param_type)
+                temp_ctx.set_variable(param.name, wrapped[param.name])
             elif param.default_value is not None:
                 # Evaluate default value expression using temporary context
                 default_val = self._evaluate(param.default_value, temp_ctx)
                 wrapped[param.name] = default_val
+                temp_ctx.set_variable(param.name, default_val)
         return wrapped
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
@@ -728,15 +730,18 @@ class Interpreter:
                     )
 
             # Assign provided arguments
+            default_ctx = ExecutionContext()
             for param, arg in zip(command.parameters, args):
                 param_dict[param.name] = arg
+                default_ctx.set_variable(param.name, arg)
 
             # Fill in default values for missing parameters
             for i in range(len(args), len(command.parameters)):
                 param = command.parameters[i]
                 if param.default_value is not None:
-                    default_val = self._evaluate(param.default_value, parent_ctx)
+                    default_val = self._evaluate(param.default_value, default_ctx)
                     param_dict[param.name] = default_val
+                    default_ctx.set_variable(param.name, default_val)
 
             # Create a new context for the command execution
             module_name = self.current_module.name if self.current_module else "unknown"
-- 
2.43.0


From cb06668df021ff219725511020d40247cda7323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:25 +0000
Subject: [PATCH 66/99] fix: calls of commands may mix positional and named
 arguments

---
 src/yapcad/dsl/runtime/interpreter.py | 31 ++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index da74583..8c031fb 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -682,19 +682,34 @@ class Interpreter:
                 if cmd.name == func_name:
                     # Resolve named_arguments into positional order if present
                     named = getattr(call, 'named_arguments', {})
-                    if named and not args:
-                        # Build positional arg list from named_arguments
-                        # matching command parameter order
-                        resolved = []
-                        for param in cmd.parameters:
-                            if param.name in named:
-                                resolved.append(self._evaluate(named[param.name], ctx))
+                    if named:
+                        # Build positional arg list from the positional and
+                        # named arguments, matching command parameter order
+                        names = [param.name for param in cmd.parameters]
+                        for name in named:
+                            if name not in names:
+                                raise RuntimeError(
+                                    f"Command '{func_name}' has no parameter '{name}'"
+                                )
+                            if names.index(name) < len(args):
+                                raise RuntimeError(
+                                    f"Command '{func_name}' got argument '{name}' twice"
+                                )
+                        values = {name: self._evaluate(arg, ctx) for name, arg in named.items()}
+                        default_ctx = ExecutionContext()
+                        resolved = list(args)
+                        for param, value in zip(cmd.parameters, args):
+                            default_ctx.set_variable(param.name, value)
+                        for param in cmd.parameters[len(args):]:
+                            if param.name in values:
+                                resolved.append(values[param.name])
                             elif param.default_value is not None:
-                                resolved.append(self._evaluate(param.default_value, ctx))
+                                resolved.append(self._evaluate(param.default_value, default_ctx))
                             else:
                                 raise RuntimeError(
                                     f"Command '{func_name}' missing required argument '{param.name}'"
                                 )
+                            default_ctx.set_variable(param.name, resolved[-1])
                         args = resolved
                     return self._call_command(cmd, args, ctx)
 
-- 
2.43.0


From 66376c418f26a6d55a4e25f6d8c99fae3ce8fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:25 +0000
Subject: [PATCH 67/99] fix: 'name = value' assigns to the variable of that
 name, if there is one

---
 src/yapcad/dsl/ast.py                 |  1 +
 src/yapcad/dsl/checker.py             | 11 +++++++++++
 src/yapcad/dsl/parser.py              |  3 ++-
 src/yapcad/dsl/runtime/interpreter.py |  2 ++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/ast.py b/src/yapcad/dsl/ast.py
index 0f85da2..2eaaee0 100644
--- a/src/yapcad/dsl/ast.py
+++ b/src/yapcad/dsl/ast.py
@@ -329,6 +329,7 @@ class VarDecl(Statement):
     name: str
     type_annotation: Optional[TypeNode]
     initializer: Optional[Expression]
+    may_assign: bool = False  # 'x = 42': assigns to x where x is already defined
 
 
 # Keep LetStatement as alias for backward compatibility during transition
diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 2584f2f..029c994 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -378,6 +378,17 @@ class TypeChecker:
         """Check a let statement."""
         init_type = self._check_expression(stmt.initializer)
 
+        if stmt.may_assign:
+            existing = self.symbols.lookup(stmt.name)
+            if existing is not None and existing.kind in (SymbolKind.VARIABLE, SymbolKind.PARAMETER):
+                if not existing.type.is_assignable_from(init_type):
+                    self._error(
+                        f"Cannot assign '{init_type}' to target of type '{existing.type}'",
+                        stmt.initializer.span,
+                        "E212"
+                    )
+                return
+
         if stmt.type_annotation is not None:
             declared_type = self._resolve_type_node(stmt.type_annotation)
             if not declared_type.is_assignable_from(init_type):
diff --git a/src/yapcad/dsl/parser.py b/src/yapcad/dsl/parser.py
index 457c7da..ba8ed3c 100644
--- a/src/yapcad/dsl/parser.py
+++ b/src/yapcad/dsl/parser.py
@@ -823,7 +823,8 @@ class Parser:
             span=self._span_from(start),
             name=name,
             type_annotation=None,
-            initializer=initializer
+            initializer=initializer,
+            may_assign=True
         )
 
     def _parse_let_statement(self) -> LetStatement:
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 8c031fb..013196c 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -322,6 +322,8 @@ class Interpreter:
     def _execute_let(self, stmt: LetStatement, ctx: ExecutionContext) -> None:
         """Execute a let statement."""
         value = self._evaluate(stmt.initializer, ctx)
+        if stmt.may_assign and ctx.update_variable(stmt.name, value):
+            return
         ctx.set_variable(stmt.name, value)
 
     def _execute_assignment(self, stmt: AssignmentStatement, ctx: ExecutionContext) -> None:
-- 
2.43.0


From 06eab038ac664f912b6b263b0070204f9ef7b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:50 +0000
Subject: [PATCH 68/99] fix: errors while a DSL command runs are reported in
 the result

---
 src/yapcad/dsl/runtime/interpreter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 013196c..40417f9 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -159,7 +159,13 @@ class Interpreter:
             )
 
         # Wrap parameters as Values
-        wrapped_params = self._wrap_parameters(command, parameters)
+        try:
+            wrapped_params = self._wrap_parameters(command, parameters)
+        except Exception as e:
+            return ExecutionResult(
+                success=False,
+                error_message=f"Error in parameter defaults: {e}",
+            )
 
         # Create execution context
         ctx = create_context(
@@ -172,10 +178,10 @@ class Interpreter:
         # Execute the command body
         try:
             self._execute_command(command, ctx)
-        except RuntimeError as e:
+        except Exception as e:
             return ExecutionResult(
                 success=False,
-                error_message=str(e),
+                error_message=str(e) if isinstance(e, RuntimeError) else f"{type(e).__name__}: {e}",
                 require_failures=ctx.require_failures,
             )
 
@@ -202,6 +208,7 @@ class Interpreter:
                 emit_result=ctx.emit_result,
                 require_failures=ctx.require_failures,
                 provenance=provenance,
+                error_message="; ".join(str(f) for f in ctx.require_failures),
             )
 
         # Check for emit
-- 
2.43.0


From 86700b33aa85ee73a37440c92eb74738afb0d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 69/99] fix: the empty list is assignable to every list type,
 as in the guide

---
 src/yapcad/dsl/runtime/interpreter.py | 2 +-
 src/yapcad/dsl/types.py               | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 40417f9..454e58f 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -605,7 +605,7 @@ class Interpreter:
                 combined = left.data + right.data
                 # Use the element type from the ListType, not from the data
                 # Create Value directly since combined contains raw data (not Value objects)
-                elem_type = left.type.element_type
+                elem_type = left.type.element_type if left.data else right.type.element_type
                 return Value(combined, ListType(elem_type))
             result = left.data + right.data
             if left.type == INT and right.type == INT:
diff --git a/src/yapcad/dsl/types.py b/src/yapcad/dsl/types.py
index 1b13200..90d6e0e 100644
--- a/src/yapcad/dsl/types.py
+++ b/src/yapcad/dsl/types.py
@@ -207,6 +207,8 @@ class ListType(Type):
     def is_assignable_from(self, other: "Type") -> bool:
         if not isinstance(other, ListType):
             return False
+        if isinstance(other.element_type, UnknownType):
+            return True  # the empty list
         return self.element_type.is_assignable_from(other.element_type)
 
 
-- 
2.43.0


From 13559cb3f96a847603dad1da7a2619f43c45cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 70/99] fix: named arguments of built-in functions are passed
 on

---
 src/yapcad/dsl/runtime/interpreter.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 454e58f..0882c0a 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -42,6 +42,7 @@ from ..types import (
     Type, ListType, DictType, resolve_type_name,
     INT, FLOAT, BOOL, STRING,
 )
+from ..symbols import SymbolTable
 from ..tokens import SourceSpan, TokenType
 
 
@@ -723,8 +724,26 @@ class Interpreter:
                     return self._call_command(cmd, args, ctx)
 
         # Call the built-in function
+        named = getattr(call, 'named_arguments', {})
+        if named:
+            args = self._builtin_arguments(func_name, args, named, ctx)
         return call_builtin(func_name, args)
 
+    def _builtin_arguments(self, func_name: str, args: List[Value],
+                           named: Dict[str, Expression], ctx: ExecutionContext) -> List[Value]:
+        """Append the named arguments of a built-in call in parameter order."""
+        sig = SymbolTable().lookup_builtin(func_name)
+        names = [p[0] for p in sig.params] if sig is not None else []
+        values = {name: self._evaluate(arg, ctx) for name, arg in named.items()}
+        resolved = list(args)
+        while len(resolved) < len(names) and names[len(resolved)] in values:
+            resolved.append(values.pop(names[len(resolved)]))
+        if values:
+            raise RuntimeError(
+                f"Function '{func_name}' cannot take named argument(s) {', '.join(values)} here"
+            )
+        return resolved
+
     def _call_command(self, command: Command, args: List[Value], parent_ctx: ExecutionContext) -> Value:
         """Call a command as a function from within another command."""
         # Check recursion depth limit
-- 
2.43.0


From fbd23f5068455cc174420c68c74d30c43182827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 71/99] fix: a DSL list of ints and floats is a list of floats

---
 src/yapcad/dsl/runtime/builtins.py    |  6 ++++--
 src/yapcad/dsl/runtime/interpreter.py | 10 ++++++----
 src/yapcad/dsl/runtime/values.py      | 10 ++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 972b13f..640e8ed 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -30,7 +30,7 @@ from .values import (
     Value, int_val, float_val, bool_val, string_val, list_val,
     point_val, vector_val, transform_val, solid_val, region2d_val,
     surface_val, shell_val, path3d_val, edge_list_val, wrap_value, unwrap_value, unwrap_values,
-    assembly_val,
+    assembly_val, common_type,
 )
 from ..types import (
     Type, ListType,
@@ -2932,7 +2932,9 @@ class BuiltinRegistry:
             """Concatenate two lists."""
             combined = list1.data + list2.data
             # Get element type from the list type info, not from data
-            elem_type = list1.type.element_type
+            elem_type = common_type(
+                [v.type.element_type for v in (list1, list2) if v.data] or [list1.type.element_type]
+            )
             # Create Value directly since combined contains raw data
             return Value(combined, ListType(elem_type))
 
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 0882c0a..e6ddf13 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -18,6 +18,7 @@ DEFAULT_COMPREHENSION_MAX_DEPTH = 4       # Max nesting depth of for clauses
 from .values import (
     Value, EmitResult, RequireFailure,
     int_val, float_val, bool_val, string_val, list_val, dict_val, none_val,
+    common_type,
     wrap_value, unwrap_value, coerce_numeric,
 )
 from ..meta_apply import apply_meta_hint
@@ -606,7 +607,9 @@ class Interpreter:
                 combined = left.data + right.data
                 # Use the element type from the ListType, not from the data
                 # Create Value directly since combined contains raw data (not Value objects)
-                elem_type = left.type.element_type if left.data else right.type.element_type
+                elem_type = common_type(
+                    [v.type.element_type for v in (left, right) if v.data] or [left.type.element_type]
+                )
                 return Value(combined, ListType(elem_type))
             result = left.data + right.data
             if left.type == INT and right.type == INT:
@@ -893,8 +896,7 @@ class Interpreter:
             return list_val([], INT)  # Empty list, default to int
 
         values = [self._evaluate(elem, ctx) for elem in lst.elements]
-        elem_type = values[0].type if values else INT
-        return list_val(values, elem_type)
+        return list_val(values, common_type([v.type for v in values]))
 
     def _eval_list_comprehension(self, comp: ListComprehension, ctx: ExecutionContext) -> Value:
         """Evaluate a list comprehension with one or more for clauses.
@@ -926,7 +928,7 @@ class Interpreter:
             self._eval_comprehension_clauses(comp.clauses, comp.element_expr, ctx, results)
 
         if results:
-            return list_val(results, results[0].type)
+            return list_val(results, common_type([v.type for v in results]))
         return list_val([], INT)
 
     def _eval_comprehension_clauses(
diff --git a/src/yapcad/dsl/runtime/values.py b/src/yapcad/dsl/runtime/values.py
index e509192..aa29ebf 100644
--- a/src/yapcad/dsl/runtime/values.py
+++ b/src/yapcad/dsl/runtime/values.py
@@ -74,6 +74,16 @@ def list_val(items: List[Value], element_type: Type) -> Value:
     return Value([v.data for v in items], ListType(element_type))
 
 
+def common_type(types: List[Type]) -> Type:
+    """Type of the elements of a list: float if ints and floats are mixed."""
+    lists = [t for t in types if isinstance(t, ListType)]
+    if lists and len(lists) == len(types):
+        return ListType(common_type([t.element_type for t in lists]))
+    if INT in types and FLOAT in types and all(t in (INT, FLOAT) for t in types):
+        return FLOAT
+    return types[0]
+
+
 def dict_val(items: Dict[str, Value]) -> Value:
     """Create a dict value."""
     return Value({k: v.data for k, v in items.items()}, DictType())
-- 
2.43.0


From d55d8b4ce0bbea34532f662f201b8b4f885c0216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 72/99] fix: native functions return values of their declared
 type

---
 src/yapcad/dsl/runtime/interpreter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index e6ddf13..f0b4f03 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -93,6 +93,7 @@ class Interpreter:
         """
         self.transforms = transforms or []
         self.native_functions: Dict[str, Callable] = {}  # Functions from native blocks
+        self.native_return_types: Dict[str, Optional[Type]] = {}  # Their declared types, if primitive
         self.current_module: Optional[Module] = None  # Current module being executed
 
         # Set recursion limit: CLI arg > env var > default
@@ -519,6 +520,9 @@ class Interpreter:
                 )
             # Store the function with its declared return type
             self.native_functions[func_name] = func
+            self.native_return_types[func_name] = resolve_type_name(
+                getattr(func_decl.return_type, 'name', '')
+            )
 
     def _evaluate(self, expr: Expression, ctx: ExecutionContext) -> Value:
         """Evaluate an expression to produce a Value."""
@@ -824,6 +828,13 @@ class Interpreter:
         except Exception as e:
             raise RuntimeError(f"Error calling native function '{func_name}': {e}")
 
+        # Wrap numbers and truth values as the declared type
+        declared = self.native_return_types.get(func_name)
+        if declared == BOOL:
+            return bool_val(result)
+        if declared == INT and isinstance(result, (int, float)):
+            return int_val(result)
+
         # Wrap the result - infer type from the result
         # For solids, we use SOLID type
         from ..types import SOLID
-- 
2.43.0


From 7bcc4cf41c41d991f2f4c1593fe5db3a7d0c73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:33 +0000
Subject: [PATCH 73/99] fix: PARALLEL face mates align axis datums

---
 src/yapcad/assembly/face_mate.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 8d1f0c8..4e36260 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -466,11 +466,8 @@ def compute_parallel_transform(parent_datum: Datum,
         raise RuntimeError("NumPy required for transform computation")
 
     # Get normals
-    P_normal = np.array(parent_datum.normal[:3]) if parent_datum.normal else np.array([0, 0, 1])
-    C_normal = np.array(child_datum.normal[:3]) if child_datum.normal else np.array([0, 0, 1])
-
-    P_normal = P_normal / np.linalg.norm(P_normal)
-    C_normal = C_normal / np.linalg.norm(C_normal)
+    P_normal = _datum_direction(parent_datum)
+    C_normal = _datum_direction(child_datum)
 
     # Rotation to make parallel
     R = _rotation_between_vectors(C_normal, P_normal)
-- 
2.43.0


From 5d77badef6730484e441fc4a1062a14b34212f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 74/99] fix: a Geometry that was moved returns its own surface,
 not the one before

---
 src/yapcad/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 38dacd5..390bc46 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -555,6 +555,8 @@ class Geometry:
     def _setUpdate(self,bln):
         """method to set status of __update, accessible from derived classes"""
         self.__update = bln
+        if bln:  # the tessellation is out of date as well
+            self._clearSurfaceCache()
 
     @update.setter
     def update(self,bln):
-- 
2.43.0


From 831232efdfbe00c811f9b350c5dcd1ae16a4da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 75/99] fix: Geometry scales and mirrors mesh solids and
 updates their bounding box

---
 src/yapcad/geometry.py | 43 +++++++++++++-----------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 390bc46..30ea6fe 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -357,27 +357,8 @@ class Geometry:
                 self._clearSurfaceCache()
                 self._setUpdate(True)
                 return
-            # fallback: scale vertices of each surface (uniform only)
-            def _scale_point(p):
-                return point(
-                    cent[0] + sx * (p[0] - cent[0]),
-                    cent[1] + sx * (p[1] - cent[1]),
-                    cent[2] + sx * (p[2] - cent[2]),
-                )
-            new_surfaces = []
-            for surf in self.__elem[1]:
-                new_pts = [_scale_point(v) for v in surf[1]]
-                new_surf = [new_pts, list(deepcopy(surf[2])), list(deepcopy(surf[3]))]
-                # boundaries/holes/metadata if present
-                if len(surf) > 4:
-                    new_surf.append(deepcopy(surf[4]))
-                if len(surf) > 5:
-                    new_surf.append(deepcopy(surf[5]))
-                if len(surf) > 6:
-                    new_surf.append(deepcopy(surf[6]))
-                new_surfaces.append(new_surf)
-            meta = self.__elem[3] if len(self.__elem) > 3 else []
-            self._setElem(['solid', new_surfaces, [] , meta])
+            # fallback: scale the mesh (uniform only)
+            self._setElem(scale(self.__elem, sx, cent=cent))
             self._setUpdate(True)
             return
         if is_brep(self.__elem):
@@ -440,15 +421,16 @@ class Geometry:
 
         """
         if issolid(self.__elem, fast=False):
-            try:
-                from yapcad.brep import mirror_brep_solid
-                mirror_brep_solid(self.__elem, plane)
-                self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
-                self._clearSurfaceCache()
-                self._setUpdate(True)
-                return
-            except Exception:
-                pass
+            if has_brep_data(self.__elem) and _GEOMETRY_HAVE_OCC:
+                try:
+                    from yapcad.brep import mirror_brep_solid
+                    mirror_brep_solid(self.__elem, plane)
+                    self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
+                    self._clearSurfaceCache()
+                    self._setUpdate(True)
+                    return
+                except Exception:
+                    pass
             from yapcad.geom3d import mirror as mirror_solid
             self._setElem(mirror_solid(self.__elem, plane))
             self._setUpdate(True)
@@ -515,6 +497,7 @@ class Geometry:
             elif issolid(self.__elem, fast=False):
                 # No length for solids; use bbox/center from surfaces
                 self.__length = 0.0
+                self.__bbox = None
                 try:
                     if has_brep_data(self.__elem) and _GEOMETRY_HAVE_OCC:
                         brep = brep_from_solid(self.__elem)
-- 
2.43.0


From 1f21cccb8fe10672893580c2054e2075f61b1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 76/99] fix: Geometry.mirror works on single points and arcs

---
 src/yapcad/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 30ea6fe..f5e9182 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -449,7 +449,10 @@ class Geometry:
             return
         nelm = mirror(self.__elem,plane)
         if keepSign:
-            nelm = reverseGeomList(nelm)
+            if isarc(nelm):
+                nelm = reverseGeomList([nelm])[0]
+            elif not ispoint(nelm):
+                nelm = reverseGeomList(nelm)
         self._setElem(nelm)
         self._setUpdate(True)
 
-- 
2.43.0


From 80643fb12e1199a77137423288145a9478bc800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 77/99] fix: a Geometry holding a single circle has a surface

---
 src/yapcad/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index f5e9182..7d026a8 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -702,6 +702,8 @@ class Geometry:
             return self.__surface
 
         geo = self.geom
+        if isarc(geo):
+            geo = [ geo ]
         if len(geo) == 0:
             return []
         if ispolygon(geo):
-- 
2.43.0


From 700351ef1d3d4a74890477d54a88cf7e2a214cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 78/99] fix: the properties of a Boolean are those of its
 outline, whichever is asked first

---
 src/yapcad/combine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index 3054d28..b875b75 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -116,8 +116,7 @@ class Boolean(Geometry):
         for p in self.elem:
             p.transform(m)
             
-    @property
-    def geom(self):
+    def _updateInternals(self):
         if self.update:
             if len(self.elem) < 2:
                 raise ValueError('Boolean requires at least two operands')
@@ -131,6 +130,11 @@ class Boolean(Geometry):
             self._setBbox(bbox(self.__outline))
             self._setLength(length(self.__outline))
             self._setCenter(self._calcCenter())
+
+    @property
+    def geom(self):
+        if self.update:
+            self._updateInternals()
         return deepcopy(self.__outline)
         
         
-- 
2.43.0


From 6107e91cf8c7a6b7dbf2c91248bdc44c8c78bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 79/99] fix: a Polygon of circles of equal radius keeps its
 last corner

---
 src/yapcad/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 82a198e..6e0f74a 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -80,6 +80,7 @@ class Polygon(Geometry):
             if ((ispoint(elm[0]) and ispoint(elm[-1]) and 
                  dist(elm[0],elm[-1]) < epsilon) or 
                 (iscircle(elm[0]) and iscircle(elm[-1]) and 
+                 dist(elm[0][0],elm[-1][0]) < epsilon and
                  abs(elm[0][1][0] - elm[-1][1][0]) < epsilon)):
                 self.elem.pop()
         
-- 
2.43.0


From 6298861abcae04958a203ff8b88bd5202413f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 80/99] fix: mirrored arcs keep their direction of travel, so
 that mirrored figure lists stay continuous

---
 src/yapcad/geom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index b623a43..60b577f 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4359,6 +4359,9 @@ def mirror(x,plane):
             start = (atan2(pe[1],pe[0])%pi2)*360/pi2
             a2[1][1]=start
             a2[1][2]=end
+        if plane != 'xy':
+            ## the image of a counterclockwise arc runs clockwise
+            a2[1][3] = -1 if x[1][3] == -2 else -2
         return a2
     elif ispoly(x) or isdirectlist(x):
         ply = []
-- 
2.43.0


From 786a96be241c45e722a65b708c958c4f94f51a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:20 +0000
Subject: [PATCH 81/99] fix: a Polygon goes on from the end of a line element,
 not from its start

---
 src/yapcad/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 6e0f74a..15c1021 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -274,7 +274,7 @@ class Polygon(Geometry):
             if ispoint(e1): #e1 is a point
                 _fromPointAdd(e0,e1,e2)
             elif isline(e1):
-                _fromPointAdd(e0,e1[0],e2)
+                _fromPointAdd(e0,e1[1],e2)
             elif isarc(e1) and not iscircle(e1):
                 p1 = samplearc(e1,1.0)
                 _fromPointAdd(e0,p1,e2)
-- 
2.43.0


From cfb8d7f258df0c5e8a07c1f18f7598303fd5049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:14 +0000
Subject: [PATCH 82/99] fix: the outline of a Polygon joins up at its first
 corner and at the start of arc elements

---
 src/yapcad/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 15c1021..29ccf86 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -234,7 +234,7 @@ class Polygon(Geometry):
                 self.__outline.append(line(p1,e2[0]))
                 self.__outline.append(line(e2))
             elif isarc(e2) and not iscircle(e2):
-                p = samplearc(e2,1*epsilon)
+                p = samplearc(e2,0.0)
                 self.__outline.append(line(p1,p))
                 self.__outline.append(arc(e2))
             elif iscircle(e2): 
@@ -295,7 +295,7 @@ class Polygon(Geometry):
         ## OK, now go back through and replace full circles with arcs
         ## and catch any intersecting lines due to non-convex
         ## curvature
-        for i in range(1,len(self.__outline)):
+        for i in range(len(self.__outline)):
             e0 = self.__outline[i-1]
             e1 = self.__outline[i]
             if i == len(self.__outline)-1: #last item
-- 
2.43.0


From f2d71cb99056c2bdc3681411f0285f723565b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:26 +0000
Subject: [PATCH 83/99] fix: figures touching at a corner are combined as
 figures with a single common point

---
 src/yapcad/geom_util.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 6202a98..323c510 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -908,6 +908,15 @@ def combineglist(g1,g2,operation):
                 return g1
             else: #intersection
                 return []
+    # a crossing at a corner is found on both of its edges; keep it once
+    pairs = []
+    for u1, u2 in zip(inter[0], inter[1]):
+        if not any(min(abs(u1-v1), 1.0-abs(u1-v1)) < epsilon and
+                   min(abs(u2-v2), 1.0-abs(u2-v2)) < epsilon
+                   for v1, v2 in pairs):
+            pairs.append((u1, u2))
+    inter = [[u for u, _ in pairs], [v for _, v in pairs]]
+
     if len(inter[0]) == 1 and len(inter[1]) == 1:
     ## single point of intersection:
         if operation == 'union':
-- 
2.43.0


From 840ea2743da58dacfdbce49d4eb2f08949ec9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 84/99] fix: Boolean keeps every region when an operand has
 several

---
 src/yapcad/combine.py | 47 ++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index b875b75..116a8c6 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -43,35 +43,54 @@ class Boolean(Geometry):
         return segments
 
     def _prepare_geom(self, geom_obj):
+        """return the separate regions of a figure, each as a list of
+        segments of its outer boundary and of its holes"""
         if isinstance(geom_obj, Geometry):
             gl = geom_obj.geom
         else:
             gl = geom_obj
 
-        # If gl is a single arc/line/poly, wrap it in a list for geomlist2poly_with_holes
+        # If gl is a single arc/line/poly, wrap it in a list for geomlist2poly_components
         if isarc(gl) or isline(gl) or ispoly(gl):
             gl = [gl]
 
         try:
-            outer, holes = geomlist2poly_with_holes(gl, self.__minang, self.__minlen, checkcont=False)
+            components = geomlist2poly_components(gl, self.__minang, self.__minlen, checkcont=False)
         except Exception:
             if isgeomlist(gl):
-                return gl
+                return [gl]
             return []
 
-        if not outer:
-            return []
-
-        segments = self._poly_to_segments(outer)
-        for hole in holes:
-            segments.extend(self._poly_to_segments(hole))
-        return segments
+        regions = []
+        for outer, holes in components:
+            segments = self._poly_to_segments(outer)
+            for hole in holes:
+                segments.extend(self._poly_to_segments(hole))
+            regions.append(segments)
+        return regions
 
     def _combine_geom(self,g1,g2):
-        gl1 = self._prepare_geom(g1)
-        gl2 = self._prepare_geom(g2)
-
-        return combineglist(gl1,gl2,self.type)
+        r1 = self._prepare_geom(g1)
+        r2 = self._prepare_geom(g2)
+
+        if len(r1) < 2 and len(r2) < 2:
+            return combineglist(r1[0] if r1 else [], r2[0] if r2 else [], self.type)
+
+        if self.type == 'intersection':
+            return [e for a in r1 for b in r2 for e in combineglist(a,b,self.type)]
+
+        for b in r2:
+            if self.type == 'difference':
+                r1 = self._prepare_geom([e for a in r1 for e in combineglist(a,b,self.type)])
+            else:
+                apart = []
+                for a in r1:
+                    if combineglist(a,b,'intersection'):
+                        b = combineglist(a,b,self.type)
+                    else:
+                        apart.append(a)
+                r1 = apart + [b]
+        return r1
 
     def _calcCenter(self):
         l = len(self.__outline)
-- 
2.43.0


From e94301a435e150045669a1d97a5bc9bb5082acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:34 +0000
Subject: [PATCH 85/99] fix: the intersection with an empty figure is empty

---
 src/yapcad/geom_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 323c510..c430eb9 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -878,6 +878,8 @@ def combineglist(g1,g2,operation):
         if bbox1 and not bbox2: # g2 is empty, but g1 isn't
             if operation=='union' or operation=='difference':
                 return g1
+            else:
+                return []
         if not bbox1 and not bbox2: # no geometry at all
             return []
         ## OK, no intersection but it is possible that one profile
-- 
2.43.0


From 6a30c7fa079948da87292fb3929e8dfa5dee03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:32 +0000
Subject: [PATCH 86/99] fix: difference2d cuts no hole where the second region
 lies beside the first

---
 src/yapcad/dsl/runtime/builtins.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 640e8ed..19c3b02 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -1219,7 +1219,7 @@ class BuiltinRegistry:
                 Difference (a - b) as a region2d
             """
             from yapcad.geom import (isgeomlist, isline, isarc, bbox, isinsidebbox,
-                                     sample, intersectXY)
+                                     isinsideXY, sample, intersectXY)
             from yapcad.geom_util import combineglist
 
             a_data = a.data
@@ -1257,8 +1257,9 @@ class BuiltinRegistry:
                 # Check for intersections - if none, inner is either fully inside or outside
                 inter = intersectXY(outer, inner, params=True)
                 if inter is False or (inter[0] == [] and inter[1] == []):
-                    # No intersections - inner is fully inside (already passed bbox check)
-                    return True
+                    # No intersections - inner is fully inside if any of its points is
+                    return any(isinsideXY(outer, sample(inner, u))
+                               for u in (0.0, 0.25, 0.5, 0.75))
                 return False
 
             def do_difference(outer, hole):
-- 
2.43.0


From 94562deeb6ef2c0c396280cb202001a8750b6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:04 +0000
Subject: [PATCH 87/99] fix: scaling by two factors uses both of them

---
 src/yapcad/geom.py   |  6 ++++--
 src/yapcad/geom3d.py | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 60b577f..df160e0 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4205,8 +4205,10 @@ def translate(x,delta):
 
 def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
     """ return a scaled version of the figure"""
-    if sy == False and sz == False:
-        sy = sz = sx
+    if sy is False:
+        sy = sx
+    if sz is False:
+        sz = sx
     if vclose(point(sx,sy,sz),point(1.0,1.0,1.0)):
         return deepcopy(x)
     if not mat:
diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index c4a2a65..6ece5ed 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -741,8 +741,10 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     surface
         A scaled copy of the input surface.
     """
-    if sy is False and sz is False:
-        sy = sz = sx
+    if sy is False:
+        sy = sx
+    if sz is False:
+        sz = sx
     if vclose(point(sx, sy, sz), point(1.0, 1.0, 1.0)):
         return deepcopy(s)
 
@@ -983,8 +985,10 @@ def scalesolid(x, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     """
     if not issolid(x):
         raise ValueError('bad solid passed to scalesolid')
-    if sy is False and sz is False:
-        sy = sz = sx
+    if sy is False:
+        sy = sx
+    if sz is False:
+        sz = sx
     if vclose(point(sx, sy, sz), point(1.0, 1.0, 1.0)):
         return deepcopy(x)
 
-- 
2.43.0


From ad1e4c783db8bd5510da96b36b78a2142b3172a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:04 +0000
Subject: [PATCH 88/99] fix: reversed arcs read from geometry JSON stay
 reversed

---
 src/yapcad/io/geometry_json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 73c0a4a..ade869c 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -489,9 +489,9 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     vect_data = vect(radius, 0.0, 360.0, orientation)
                     normal = prim.get("normal")
                     if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
+                        elements.append(arc(center, vect_data, _point_from_components(normal), samplereverse=orientation == -2))
                     else:
-                        elements.append(arc(center, vect_data))
+                        elements.append(arc(center, vect_data, samplereverse=orientation == -2))
                 elif kind == "arc":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
                     radius = float(prim.get("radius", 0.0))
@@ -501,9 +501,9 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     vect_data = vect(radius, start_angle, end_angle, orientation)
                     normal = prim.get("normal")
                     if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
+                        elements.append(arc(center, vect_data, _point_from_components(normal), samplereverse=orientation == -2))
                     else:
-                        elements.append(arc(center, vect_data))
+                        elements.append(arc(center, vect_data, samplereverse=orientation == -2))
                 elif kind == "ellipse":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
                     semi_major = float(prim.get("semi_major", 1.0))
-- 
2.43.0


From 553eee39e40dcdcaf37f3718829707a4d7818a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:04 +0000
Subject: [PATCH 89/99] fix: moved copies of a surface are all written to
 geometry JSON

---
 src/yapcad/io/geometry_json.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index ade869c..66c26eb 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -372,6 +372,11 @@ def geometry_to_json(
                     set_layer(meta, layer)
                 meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
             surface_entry = _serialize_surface(entity, metadata_override)
+            if surface_entry["id"] in surface_cache and surface_cache[surface_entry["id"]] != surface_entry:
+                # a moved copy still carries the id of its original
+                meta = surface_entry["metadata"]
+                new_id = uuid.uuid4().hex
+                meta["entityId"] = meta["id"] = surface_entry["id"] = new_id
             surface_cache.setdefault(surface_entry["id"], surface_entry)
         elif isgeomlist(entity):
             sketch_entry = _serialize_sketch(entity, metadata_override)
-- 
2.43.0


From a5a6e94220fba8c85382aa734ba14081e82bfaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:04 +0000
Subject: [PATCH 90/99] fix: a polyline is written to geometry JSON as a sketch
 of it

---
 src/yapcad/io/geometry_json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 66c26eb..9bc4ff9 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -23,6 +23,7 @@ from yapcad.geom import (
     iscircle,
     isgeomlist,
     isline,
+    ispoly,
     length,
     line,
     sample,
@@ -379,7 +380,9 @@ def geometry_to_json(
                 meta["entityId"] = meta["id"] = surface_entry["id"] = new_id
             surface_cache.setdefault(surface_entry["id"], surface_entry)
         elif isgeomlist(entity):
-            sketch_entry = _serialize_sketch(entity, metadata_override)
+            # a bare line or polyline is a list of points
+            outline = isline(entity) or ispoly(entity)
+            sketch_entry = _serialize_sketch([entity] if outline else entity, metadata_override)
             serialized_entities.append(sketch_entry)
         else:
             raise ValueError("unsupported entity type for serialization")
-- 
2.43.0


From b4c4f841915a9bdfc2dbb40c73a20e731d958473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:16 +0000
Subject: [PATCH 91/99] fix: geometry JSON with solids gives back its other
 surfaces and sketches too

---
 src/yapcad/io/geometry_json.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 9bc4ff9..9ae0d3c 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -429,6 +429,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
 
     surfaces: Dict[str, list] = {}
     solids: List[list] = []
+    used = set()
 
     # First pass: instantiate surfaces explicitly listed
     for entry in doc.get("entities", []):
@@ -449,6 +450,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 surface = _rehydrate_surface(surf_entry)
                 surfaces[sid] = surface
             shell_surfaces.append(surface)
+            used.add(sid)
 
         voids: List[List[list]] = []
         for void_ids in entry.get("voids", []):
@@ -462,6 +464,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     surface = _rehydrate_surface(surf_entry)
                     surfaces[sid] = surface
                 void_surfaces.append(surface)
+                used.add(sid)
             voids.append(void_surfaces)
 
         solid = ['solid', shell_surfaces, voids, []]
@@ -471,13 +474,12 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         brep_from_solid(solid)
         solids.append(solid)
 
-    if solids:
-        return solids
+    loose = [surface for sid, surface in surfaces.items() if sid not in used]
+    geomlists: List[list] = []
     sketches = [
         entry for entry in doc.get("entities", []) if entry.get("type") == "sketch"
     ]
     if sketches:
-        geomlists: List[list] = []
         for sketch in sketches:
             primitives = sketch.get("primitives") or []
             elements: List[list] = []
@@ -578,9 +580,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 polylines.extend(segments)
             if polylines:
                 geomlists.append(polylines)
-        if geomlists:
-            return geomlists
-    return list(surfaces.values())
+    return solids + loose + geomlists
 
 
 __all__ = [
-- 
2.43.0


From 8a31de2f3c81d36fa7a0d2a3b6bbfa6f8c9d83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:48 +0000
Subject: [PATCH 92/99] fix: packages hashed with an algorithm other than
 SHA-256 validate

validate_package always recomputed SHA-256, so every file recorded with
another algorithm (create_package_from_entities and recompute_hashes take
one) was reported as altered.
---
 src/yapcad/package/validator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 5d09164..e69c3ff 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -18,7 +18,15 @@ def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]
     if not path.exists():
         messages.append(f"ERROR: missing file {path}")
         return False, messages
-    actual_hash = _compute_hash(path)
+    # hashes are recorded as "algorithm:digest"
+    algorithm = "sha256"
+    if expected_hash and ":" in expected_hash:
+        algorithm = expected_hash.split(":", 1)[0].lower()
+    try:
+        actual_hash = _compute_hash(path, algorithm)
+    except (TypeError, ValueError):
+        messages.append(f"ERROR: unsupported hash algorithm for {path} ({expected_hash})")
+        return False, messages
     if expected_hash and expected_hash.lower() != actual_hash.lower():
         messages.append(
             f"ERROR: hash mismatch for {path} (expected {expected_hash}, got {actual_hash})"
-- 
2.43.0


From 605fc3f4f4b03f3d9a80993784c0d0db2189d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:48 +0000
Subject: [PATCH 93/99] fix: a geometry file of an unsupported category is
 refused before it is copied

---
 src/yapcad/package/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 04dba65..982b91b 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -262,6 +262,9 @@ def add_geometry_file(
         The manifest entry dictionary that was inserted.
     """
 
+    if category not in ("derived", "attachments"):
+        raise ValueError(f"unsupported category for geometry file: {category}")
+
     src_path = Path(source)
     if not src_path.exists():
         raise FileNotFoundError(f"geometry source not found: {src_path}")
@@ -269,10 +272,8 @@ def add_geometry_file(
     if dest_relative is None:
         if category == "derived":
             dest_relative_path = Path("geometry") / "derived" / src_path.name
-        elif category == "attachments":
-            dest_relative_path = Path("attachments") / src_path.name
         else:
-            dest_relative_path = Path(src_path.name)
+            dest_relative_path = Path("attachments") / src_path.name
     else:
         dest_relative_path = Path(dest_relative)
         if dest_relative_path.is_absolute():
@@ -306,14 +307,12 @@ def add_geometry_file(
         derived = [item for item in derived if item.get("path") != entry["path"]]
         derived.append(entry)
         geometry["derived"] = derived
-    elif category == "attachments":
+    else:
         attachments = manifest.data.setdefault("attachments", [])
         attachments = [item for item in attachments if item.get("path") != entry["path"]]
         entry.setdefault("id", dest_relative_path.stem)
         attachments.append(entry)
         manifest.data["attachments"] = attachments
-    else:
-        raise ValueError(f"unsupported category for geometry file: {category}")
 
     return entry
 
-- 
2.43.0


From 785ca71f8fceea319168b33c1a9f0534730084a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:48 +0000
Subject: [PATCH 94/99] fix: files are added to a package only inside it

---
 src/yapcad/package/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 982b91b..1e290cb 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -278,6 +278,8 @@ def add_geometry_file(
         dest_relative_path = Path(dest_relative)
         if dest_relative_path.is_absolute():
             raise ValueError("dest_relative must be a relative path")
+        if ".." in dest_relative_path.parts:
+            raise ValueError("dest_relative must stay inside the package")
 
     dest_path = manifest.root / dest_relative_path
     dest_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 469cb8c29387a70f364300b7a28b48e8bdb7a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:52 +0000
Subject: [PATCH 95/99] fix: added package signatures do not overwrite earlier
 ones

Every GPG signature was written to signatures/manifest.sig.asc, and SSH
signatures of signers whose names begin alike to one file: with add=True the
earlier entries then pointed to the new signature, and were verified by it.
---
 src/yapcad/package/signing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 0bda5de..d46e01b 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -335,6 +335,16 @@ def _verify_ssh_signature(
         Path(sig_file).unlink(missing_ok=True)
 
 
+def _signature_file(sig_dir: Path, stem: str, suffix: str, keep: bool) -> Path:
+    """Return the file for a new signature, other than those present if they are kept."""
+    sig_file = sig_dir / f"{stem}{suffix}"
+    number = 2
+    while keep and sig_file.exists():
+        sig_file = sig_dir / f"{stem}.{number}{suffix}"
+        number += 1
+    return sig_file
+
+
 def sign_package(
     package_path: str | Path,
     method: str | SignatureMethod = SignatureMethod.GPG,
@@ -379,7 +389,7 @@ def sign_package(
     
     if method == SignatureMethod.GPG:
         signature, signer_id, actual_key_id = _sign_with_gpg(content, key_id)
-        sig_file = sig_dir / "manifest.sig.asc"
+        sig_file = _signature_file(sig_dir, "manifest.sig", ".asc", add)
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
@@ -396,7 +406,7 @@ def sign_package(
         
         # Generate unique filename for SSH signatures
         safe_name = signer_id.replace('@', '_').replace(' ', '_').replace('/', '_')[:20]
-        sig_file = sig_dir / f"manifest.sig.{safe_name}"
+        sig_file = _signature_file(sig_dir, f"manifest.sig.{safe_name}", "", add)
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
-- 
2.43.0


From 3d5ee6c07b2137f53dbbf6e8c416d96bf0eff9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 96/99] fix: GPG signatures are verified with the keyring given

The option came after the files, where gpg takes it for another file, so
that no signature verified once a keyring was given.
---
 src/yapcad/package/signing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index d46e01b..cd63658 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -254,9 +254,11 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
         sig_file = f.name
     
     try:
-        cmd = ["gpg", "--verify", sig_file, content_file]
+        cmd = ["gpg"]
         if keyring:
+            # gpg takes options only before the files
             cmd.extend(["--keyring", str(keyring)])
+        cmd.extend(["--verify", sig_file, content_file])
         
         result = subprocess.run(cmd, capture_output=True)
         stderr = result.stderr.decode('utf-8')
-- 
2.43.0


From f2bcad18cf29707735a5589ce518b8b12cc967ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:57 +0000
Subject: [PATCH 97/99] fix: SSH signatures of allowed signers verify

ssh-keygen wants the principal under which the signer is listed; '*' matches
only entries listed for everyone, so that signatures by keys listed under a
name were reported INVALID. Ask ssh-keygen for the principal first.
---
 src/yapcad/package/signing.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index cd63658..0a0b899 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -307,11 +307,18 @@ def _verify_ssh_signature(
     try:
         if allowed_signers and allowed_signers.exists():
             # Verify with allowed signers (trusted verification)
-            # Need to figure out principal - for now use wildcard
+            principal = "*"
+            found = subprocess.run(
+                ["ssh-keygen", "-Y", "find-principals", "-f", str(allowed_signers), "-s", sig_file],
+                capture_output=True,
+            )
+            names = found.stdout.decode('utf-8').split('\n')[0]
+            if found.returncode == 0 and names:
+                principal = names.split(',')[0]
             cmd = [
                 "ssh-keygen", "-Y", "verify",
                 "-f", str(allowed_signers),
-                "-I", "*",  # Match any principal
+                "-I", principal,
                 "-n", namespace,
                 "-s", sig_file
             ]
-- 
2.43.0


From 19ff1de1055c2de55f8d8a6478219bc690f4169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:39 +0000
Subject: [PATCH 98/99] fix: SSH signatures of a changed manifest are reported
 invalid

ssh-keygen says 'Could not verify signature' on its standard output, and
says it of signers that are not allowed as well, so that a signature of
other content was reported VALID_UNTRUSTED. check-novalidate tells whether
it is at least a signature of the content, with or without allowed signers.
---
 src/yapcad/package/signing.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 0a0b899..97482a6 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -326,17 +326,20 @@ def _verify_ssh_signature(
             
             if result.returncode == 0:
                 return VerificationStatus.VALID, "verified", None
-            else:
-                stderr = result.stderr.decode('utf-8')
-                if "Could not verify" in stderr:
-                    return VerificationStatus.INVALID, "unknown", stderr
-                else:
-                    return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
+            reason = "Signer not in allowed_signers"
         else:
-            # Without allowed_signers, we can only check signature format validity
-            # This is a limitation - can't verify without knowing the public key
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "No allowed_signers file provided"
-            
+            reason = "No allowed_signers file provided"
+
+        # Is it at least a signature of the content, by whatever key?
+        check = subprocess.run(
+            ["ssh-keygen", "-Y", "check-novalidate", "-n", namespace, "-s", sig_file],
+            input=content,
+            capture_output=True,
+        )
+        if check.returncode == 0:
+            return VerificationStatus.VALID_UNTRUSTED, "unknown", reason
+        return VerificationStatus.INVALID, "unknown", check.stderr.decode('utf-8')
+
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "ssh-keygen not found"
     finally:
-- 
2.43.0


From bc3235886aa23a0d43fe13f14071682815a4666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:33 +0000
Subject: [PATCH 99/99] fix: a collision detector uses the registry given, also
 if it is still empty

---
 src/yapcad/collision/detector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index d6e709a..34f121d 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -164,7 +164,9 @@ class CollisionDetector:
             penetration_threshold: Minimum penetration to count as collision (mm)
         """
         self.geometry_provider = geometry_provider
-        self.interface_registry = interface_registry or InterfaceRegistry()
+        self.interface_registry = (
+            interface_registry if interface_registry is not None else InterfaceRegistry()
+        )
         self.verbose = verbose
         self.min_collision_volume = min_collision_volume
         self.mesh_sample_points = mesh_sample_points
-- 
2.43.0

