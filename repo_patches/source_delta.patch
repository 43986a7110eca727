From ecf2a4939a7c6f9a5383aafa6ff0c621b3418960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 01/11] fix: distort_brown_affin must set its outputs at the
 distortion center

For x == y == 0 the output arguments were left unwritten, so flat_to_dist()
and everything above it returned uninitialised values for a point imaged
exactly on the distortion center.
---
 liboptv/src/trafo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 8690a20..c8a74d2 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -178,9 +178,10 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
       
       y += y * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
 	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x*y;
-      
-      *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
+  
+  /* At the distortion center itself (r == 0) x and y stay 0. */
+  *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
 }
 
 /*  correct distorted to flat-image coordinates, see correct_brown_affine_exact(),
-- 
2.43.0


From 648d29d294aea0f43bac44b96c888375117bcbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 02/11] fix: Brown distortion of y uses the undistorted x

The decentering term of the y correction was evaluated with the already
distorted x, which is neither Brown's model nor what the inverse correction
solves for.
---
 liboptv/src/trafo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index c8a74d2..d542697 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -167,17 +167,18 @@ void metric_to_pixel(double * x_pixel
     double *x1, *y1 - output metric distorted parameters.
 */
 void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
-  double		r;
+  double		r, x0;
   
   
   r = sqrt (x*x + y*y);
+  x0 = x; /* both corrections are functions of the undistorted point */
   if (r != 0)
     {
       x += x * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
       
       y += y * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
-	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x*y;
+	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x0*y;
     }
   
   /* At the distortion center itself (r == 0) x and y stay 0. */
-- 
2.43.0


From 1021dfb091e311d1fe813cb3ac9533068f5908fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 03/11] fix: correct_brown_affine_exact must set its outputs
 for the origin

The distortion center is its own correction, but the early return left the
output arguments unwritten (and dist_to_flat then subtracted from them).
---
 liboptv/src/trafo.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index d542697..ee62136 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -212,7 +212,11 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     double  r, rq, xq, yq;
     int itnum = 0;
   
-    if ((x == 0) && (y == 0)) return;
+    if ((x == 0) && (y == 0)) {
+        *x1 = 0;
+        *y1 = 0;
+        return;
+    }
     
     /* Initial guess for the flat point is the distorted point, assuming 
        distortion is small. */
-- 
2.43.0


From 3dd834e62a350fbe1a12ba6a93e08db3ad0be183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 04/11] fix: undo the affine shear with the sheared y in
 distortion correction

The forward transform is x1 = scx*X - sin(she)*Y, y1 = cos(she)*Y with X, Y
after Brown distortion, so its inverse is X = (x1 + tan(she)*y1)/scx. The
correction used the flat y estimate in place of y1/cos(she), converging to a
point that does not distort back to the input.
---
 liboptv/src/trafo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index ee62136..45161a1 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -225,7 +225,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     
     do {
         r = rq;
-        xq = (x + yq*sin(ap.she))/ap.scx
+        xq = (x + y*tan(ap.she))/ap.scx
             - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
             - ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
         yq = y/cos(ap.she)
@@ -245,7 +245,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     /* Final step uses the iteratively-found R and x, y to apply the exact
        correction, equivalent to one more iteration. */
     r = rq;
-    *x1 = (x + yq*sin(ap.she))/ap.scx
+    *x1 = (x + y*tan(ap.she))/ap.scx
 	    - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
     	- ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
     *y1 = y/cos(ap.she)
-- 
2.43.0


From e2844eefff78ac1ce9de3178425507d6705cbffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 05/11] fix: look up refraction factors only in cells inside
 the mmlut grid

get_mmf_from_mmlut accepted points on or beyond the last grid line (and up to
one cell below the first depth), reading past the table or blending values of
unrelated cells. Such points are outside the table: report a miss.
---
 liboptv/src/multimed.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 2abe438..13c8652 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -349,23 +349,26 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
   
     vec_subt(pos, cal->mmlut.origin, temp);
     sz = temp[2]/rw;
-    iz = (int) sz;
-    sz -= iz;
     
     R = norm(temp[0], temp[1], 0);
     
     sr = R/rw;
-    ir = (int) sr;
-    sr -= ir;
   
     nz = cal->mmlut.nz;
     nr = cal->mmlut.nr;
     
-    /* check whether point is inside camera's object volume */
-    if (ir > nr)
+    /* check whether point is inside camera's object volume; interpolation 
+       also needs the next grid line in each direction. */
+    if (sr >= nr - 1)
         return (0);
-    if (iz < 0  ||  iz > nz)
+    if (sz < 0  ||  sz >= nz - 1)
         return (0);
+    
+    iz = (int) sz;
+    sz -= iz;
+    
+    ir = (int) sr;
+    sr -= ir;
   
     /* bilinear interpolation in r/z box */
     /* ================================= */
-- 
2.43.0


From f6cb8265bc3bec12be1995f21059e2197d475730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 06/11] fix: keep the mmlut header when the table is not
 rebuilt

init_mmlut on a calibration that already has a table replaced its origin and
size while keeping the old data, so later lookups read the old table with the
new geometry (out of bounds when the new volume is larger).
---
 liboptv/src/multimed.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 13c8652..1a67484 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -300,14 +300,14 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   nr = (int)(Rmax/rw + 1);
   nz = (int)((Zmax_t-Zmin_t)/rw + 1);
 
-  /* create two dimensional mmlut structure */
-  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
+  if (cal->mmlut.data == NULL) {
+      /* create two dimensional mmlut structure */
+      vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
   
-  cal->mmlut.nr = nr;
-  cal->mmlut.nz = nz;
-  cal->mmlut.rw = rw;
+      cal->mmlut.nr = nr;
+      cal->mmlut.nz = nz;
+      cal->mmlut.rw = rw;
   
-  if (cal->mmlut.data == NULL) {
       data = (double *) malloc (nr*nz * sizeof (double));
   
       /* fill mmlut structure */
-- 
2.43.0


From e7f7f522b9a4ce3fe73bef98172fd1c4841fe67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 07/11] fix: find_candidate skipped in-band targets on long
 lists

---
 liboptv/src/epi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liboptv/src/epi.c b/liboptv/src/epi.c
index f14ceef..486eed3 100644
--- a/liboptv/src/epi.c
+++ b/liboptv/src/epi.c
@@ -180,6 +180,8 @@ int find_candidate (coord_2d *crd, target *pix, int num,
   /* due to truncation error we might shift to smaller x */
   j0 -= 12;  
   if (j0 < 0)  j0 = 0; 
+  /* the step halving above may still end further right on long lists */
+  while (j0 > 0 && crd[j0 - 1].x > xa - tol_band_width)  j0--;
 
   for (j = j0; j < num; j++) {  /* candidate search */
       	
-- 
2.43.0


From 5fdfed59fd6db3d8e4bc20315d51a7fcf6404dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 08/11] fix: sorting an empty target or coordinate list read
 past it

---
 liboptv/src/correspondences.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 2b9e764..3dc0db9 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -71,7 +71,7 @@ void qs_con (n_tupel *con, int left, int right){
 */
 
 void quicksort_target_y (target *pix, int num) {
-  qs_target_y (pix, 0, num-1);
+  if (num > 0) qs_target_y (pix, 0, num-1);
 }
 
 /* qs_target_y() uses quicksort algorithm to 
@@ -118,7 +118,7 @@ void qs_target_y (target *pix, int left, int right){
    integer num equal to the length of the array pix
 */
 void quicksort_coord2d_x (coord_2d *crd, int num) {
-	qs_coord2d_x (crd, 0, num-1);
+	if (num > 0) qs_coord2d_x (crd, 0, num-1);
 }
 
 void qs_coord2d_x (coord_2d	*crd, int left, int right){
-- 
2.43.0


From 6d38f3f12a7fb280d621cecb5fa0a8d0e2004163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 09/11] fix: bound the clique search by the size of its scratch
 buffer

---
 liboptv/src/correspondences.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 3dc0db9..92cc199 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -661,7 +661,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent quadruplets in the list */
   if (cpar->num_cams == 4) {
     match0 = four_camera_matching(list, frm->num_targets[0], 
-        vpar->corrmin, con0, 4*nmax);
+        vpar->corrmin, con0, cpar->num_cams*nmax);
     
     match_counts[0] = take_best_candidates(con0, con, cpar->num_cams, match0, tim);
     match_counts[3] += match_counts[0];
@@ -670,7 +670,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent triplets :  123, 124, 134, 234 */
   if ((cpar->num_cams == 4 && cpar->allCam_flag == 0) || cpar->num_cams == 3) {
     match0 = three_camera_matching(list, cpar->num_cams, frm->num_targets, 
-        vpar->corrmin, con0, 4*nmax, tim);
+        vpar->corrmin, con0, cpar->num_cams*nmax, tim);
     
     match_counts[1] = take_best_candidates(con0, &(con[match_counts[3]]), 
         cpar->num_cams, match0, tim);
@@ -680,7 +680,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent pairs :  12, 13, 14, 23, 24, 34 */
   if(cpar->num_cams > 1 && cpar->allCam_flag == 0) {
       match0 = consistent_pair_matching(list, cpar->num_cams, 
-          frm->num_targets, vpar->corrmin, con0, 4*nmax, tim);
+          frm->num_targets, vpar->corrmin, con0, cpar->num_cams*nmax, tim);
                 
       match_counts[2] = take_best_candidates(con0, &(con[match_counts[3]]), 
           cpar->num_cams, match0, tim);
-- 
2.43.0


From 891aa1325d64cd1a10d0cb0f47df55d2e6527f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 10/11] fix: candidate search dropped equally distant targets

The ranking of candidates compared strictly on both sides, so a target at
exactly the distance of one already ranked was lost even with free places.
The start index of the scan could also end past the first target of the
window on very long lists.
---
 liboptv/src/track.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index b439874..62c2d5b 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -259,6 +259,8 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
             }
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */
+            /* the step halving above may still end further down on long lists */
+            while (j0 > 0 && next[j0 - 1].y > ymin) j0--;
             for (j = j0; j<num_targets; j++) {           /* candidate search */
                 if (next[j].tnr != TR_UNUSED ) {
                     if (next[j].y > ymax ) break;                     /* finish search */
@@ -275,15 +277,15 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
                             p4 = p3; p3 = p2; p2 = p1; p1 = j;
                             d4 = d3; d3 = d2; d2 = d1; d1 = d;
                         }
-                        else if ( d1 < d &&  d < d2 ) {
+                        else if ( d < d2 ) {
                             p4 = p3; p3 = p2; p2 = j;
                             d4 = d3; d3 = d2; d2 = d;
                         }
-                        else if ( d2 < d && d < d3 ) {
+                        else if ( d < d3 ) {
                             p4 = p3; p3 = j;
                             d4 = d3; d3 = d;
                         }
-                        else if ( d3 < d && d < d4 ) {
+                        else if ( d < d4 ) {
                             p4 = j;
                             d4 = d;
                         }
@@ -348,6 +350,8 @@ int candsearch_in_pix_rest (target next[], int num_targets, double cent_x, doubl
             }	
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */	
+            /* the step halving above may still end further down on long lists */	
+            while (j0 > 0 && next[j0 - 1].y > ymin) j0--;	
             for (j = j0; j<num_targets; j++) {           /* candidate search */	
                 if (next[j].tnr == TR_UNUSED ) {	
                     if (next[j].y > ymax ) break;                     /* finish search */	
-- 
2.43.0


From b480b3c4227dcbd0f97ba0ddf058708873c06ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 11/11] fix: angle_acc returned NaN for parallel velocities and
 particles at rest

Rounding could carry the cosine past 1 for parallel velocities, and a zero
velocity divided by zero; every comparison with the angle limit then failed
and the candidate was dropped.
---
 liboptv/src/track.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 62c2d5b..ecafb20 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -192,6 +192,7 @@ int pos3d_in_bounds(vec3d pos, track_par *bounds) {
 void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
 {
     vec3d v0, v1;
+    double norms, cosine;
 
     vec_subt(pred, start, v0);
     vec_subt(cand, start, v1);
@@ -204,8 +205,16 @@ void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
     } else if ((v0[0] == v1[0]) && (v0[1] == v1[1]) && (v0[2] == v1[2])) {
         *angle = 0;         // otherwise it returns NaN
     } else {
-        *angle = (200./M_PI) * acos(vec_dot(v0, v1) / vec_norm(v0) \
-                                    / vec_norm(v1));
+        norms = vec_norm(v0) * vec_norm(v1);
+        if (norms == 0) {
+            *angle = 0;     /* a particle at rest has no direction to change */
+        } else {
+            /* rounding may carry the ratio for parallel vectors past 1 */
+            cosine = vec_dot(v0, v1) / norms;
+            if (cosine > 1) cosine = 1;
+            if (cosine < -1) cosine = -1;
+            *angle = (200./M_PI) * acos(cosine);
+        }
     }
 }
 
-- 
2.43.0

