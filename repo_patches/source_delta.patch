From 068164666cb5420486cfff077b25f4b74eaa49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 001/102] fix: project each slice with its own rotation center

---
 source/libtomo/recon/project.c | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index aa38e49..82cb766 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -54,6 +54,18 @@ project(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, i
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // The ray tracing is shared by consecutive slices with the same rotation
+    // center; slices after the first change of center are projected on their own.
+    int ns = 1;
+    while(ns < dy && center[ns] == center[0])
+        ns++;
+    if(ns < dy)
+    {
+        project(obj + ns * ox * oz, oy, ox, oz, data + ns * dt * dx, dy - ns, dt, dx,
+                center + ns, theta);
+        dy = ns;
+    }
+
     float* gridx  = (float*) malloc((ox + 1) * sizeof(float));
     float* gridy  = (float*) malloc((oz + 1) * sizeof(float));
     float* coordx = (float*) malloc((oz + 1) * sizeof(float));
@@ -144,6 +156,18 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // The ray tracing is shared by consecutive slices with the same rotation
+    // center; slices after the first change of center are projected on their own.
+    int ns = 1;
+    while(ns < dy && center[ns] == center[0])
+        ns++;
+    if(ns < dy)
+    {
+        project2(objx + ns * ox * oz, objy + ns * ox * oz, oy, ox, oz,
+                 data + ns * dt * dx, dy - ns, dt, dx, center + ns, theta);
+        dy = ns;
+    }
+
     float* gridx  = (float*) malloc((ox + 1) * sizeof(float));
     float* gridy  = (float*) malloc((oz + 1) * sizeof(float));
     float* coordx = (float*) malloc((oz + 1) * sizeof(float));
@@ -249,6 +273,19 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // The ray tracing is shared by consecutive slices with the same rotation
+    // center; slices after the first change of center are projected on their own.
+    int ns = 1;
+    while(ns < dy && center[ns] == center[0])
+        ns++;
+    if(ns < dy)
+    {
+        const int skip = (axis == 0) ? ns * ox * oz : (axis == 1) ? ns : ns * oz;
+        project3(objx + skip, objy + skip, objz + skip, oy, ox, oz, data + ns * dt * dx,
+                 dy - ns, dt, dx, center + ns, theta, axis);
+        dy = ns;
+    }
+
     float* gridx  = (float*) malloc((ox + 1) * sizeof(float));
     float* gridy  = (float*) malloc((oz + 1) * sizeof(float));
     float* coordx = (float*) malloc((oz + 1) * sizeof(float));
-- 
2.43.0


From 0bf9c67dae9b28a599ee9109c7cef938b8559eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 002/102] fix: art reconstructs each slice with its own
 rotation center

---
 source/libtomo/recon/art.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/libtomo/recon/art.c b/source/libtomo/recon/art.c
index 38de3c3..bafb6b9 100755
--- a/source/libtomo/recon/art.c
+++ b/source/libtomo/recon/art.c
@@ -52,6 +52,18 @@ art(const float* data, int dy, int dt, int dx, const float* center, const float*
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // The ray tracing is shared by consecutive slices with the same rotation
+    // center; slices after the first change of center are reconstructed on their own.
+    int ns = 1;
+    while(ns < dy && center[ns] == center[0])
+        ns++;
+    if(ns < dy)
+    {
+        art(data + ns * dt * dx, dy - ns, dt, dx, center + ns, theta,
+            recon + ns * ngridx * ngridy, ngridx, ngridy, num_iter);
+        dy = ns;
+    }
+
     float* gridx   = (float*) malloc((ngridx + 1) * sizeof(float));
     float* gridy   = (float*) malloc((ngridy + 1) * sizeof(float));
     float* coordx  = (float*) malloc((ngridy + 1) * sizeof(float));
-- 
2.43.0


From 6b85fe2de40d13dbe9d604ba9ae275f20c9ec507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 003/102] fix: gridrec uses the rotation center of every slice

---
 source/libtomo/gridrec/gridrec.c | 1146 +++++++++++++++---------------
 1 file changed, 575 insertions(+), 571 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index a4cd574..346bc2a 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -1,571 +1,575 @@
-// Copyright (c) 2015, UChicago Argonne, LLC. All rights reserved.
-
-// Copyright 2015. UChicago Argonne, LLC. This software was produced
-// under U.S. Government contract DE-AC02-06CH11357 for Argonne National
-// Laboratory (ANL), which is operated by UChicago Argonne, LLC for the
-// U.S. Department of Energy. The U.S. Government has rights to use,
-// reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR
-// UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR
-// ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is
-// modified to produce derivative works, such modified software should
-// be clearly marked, so as not to confuse it with the version available
-// from ANL.
-
-// Additionally, redistribution and use in source and binary forms, with
-// or without modification, are permitted provided that the following
-// conditions are met:
-
-//     * Redistributions of source code must retain the above copyright
-//       notice, this list of conditions and the following disclaimer.
-
-//     * Redistributions in binary form must reproduce the above copyright
-//       notice, this list of conditions and the following disclaimer in
-//       the documentation and/or other materials provided with the
-//       distribution.
-
-//     * Neither the name of UChicago Argonne, LLC, Argonne National
-//       Laboratory, ANL, the U.S. Government, nor the names of its
-//       contributors may be used to endorse or promote products derived
-//       from this software without specific prior written permission.
-
-// THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS
-// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
-// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
-// FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago
-// Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
-// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
-// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
-// LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
-// CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
-// LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
-// ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
-// POSSIBILITY OF SUCH DAMAGE.
-
-// Possible speedups:
-//   * Profile code and check adding SIMD to various functions (from OpenMP)
-
-#include <math.h>
-
-#include "libtomo/filters.h"
-#include "libtomo/gridrec.h"
-#include "pal.h"
-
-#ifdef TOMOPY_USE_MKL
-#    include "mkl.h"
-#endif
-#ifdef TOMOPY_USE_FFTW
-// Import pal.h first to import <complex.h> first so fftw uses native complex types
-#    include "fftw3.h"
-#endif
-
-float
-legendre(int n, const float* coefs, float x)
-{
-    // Compute SUM(coefs(k)*P(2*k,x), for k=0,n/2)
-    // where P(j,x) is the jth Legendre polynomial.
-    // x must be between -1 and 1.
-    float penult, last, cur, y, mxlast;
-
-    y      = coefs[0];
-    penult = 1.0;
-    last   = x;
-    for(int j = 2; j <= n; j++)
-    {
-        mxlast = -(x * last);
-        cur    = -(2 * mxlast + penult) + (penult + mxlast) / j;
-        // cur = (x*(2*j-1)*last-(j-1)*penult)/j;
-        if(!(j & 1))  // if j is even
-        {
-            y += cur * coefs[j >> 1];
-        }
-
-        penult = last;
-        last   = cur;
-    }
-    return y;
-}
-
-void
-set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int linv,
-                float* wtbl, float* winv)
-{
-    // Set up lookup tables for convolvent (used in Phase 1 of
-    // do_recon()), and for the final correction factor (used in
-    // Phase 3).
-
-    int         i;
-    float       norm;
-    const float fac   = (float) ltbl / (linv + 0.5);
-    const float polyz = legendre(nt, coefs, 0.);
-
-    wtbl[0] = 1.0;
-    for(i = 1; i <= ltbl; i++)
-    {
-        wtbl[i] = legendre(nt, coefs, (float) i / ltbl) / polyz;
-    }
-
-    // Note the final result at end of Phase 3 contains the factor,
-    // norm^2.  This incorporates the normalization of the 2D
-    // inverse FFT in Phase 2 as well as scale factors involved
-    // in the inverse Fourier transform of the convolvent.
-    norm = sqrt(M_PI / 2 / C / lambda) / 1.2;
-
-    winv[linv] = norm / wtbl[0];
-    __PRAGMA_IVDEP
-    for(i = 1; i <= linv; i++)
-    {
-        // Minus sign for alternate entries
-        // corrects for "natural" data layout
-        // in array H at end of Phase 1.
-        norm           = -norm;
-        winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
-    }
-}
-
-void
-set_trig_tables(int dt, const float* theta, float** sine, float** cose)
-{
-    // Set up tables of sines and cosines.
-    float *s, *c;
-
-    *sine = s = malloc_vector_f(dt);
-    __ASSSUME_64BYTES_ALIGNED(s);
-    *cose = c = malloc_vector_f(dt);
-    __ASSSUME_64BYTES_ALIGNED(c);
-
-    __PRAGMA_SIMD
-    for(int j = 0; j < dt; j++)
-    {
-        s[j] = sinf(theta[j]);
-        c[j] = cosf(theta[j]);
-    }
-}
-
-void
-set_filter_tables(int dt, int pd, float center, filter_func pf, const float* filter_par,
-                  PAL_COMPLEX* A, unsigned char filter2d)
-{
-    // Set up the complex array, filphase[], each element of which
-    // consists of a real filter factor [obtained from the function,
-    // pf(...)], multiplying a complex phase factor (derived from the
-    // parameter, center}.  See Phase 1 comments.
-
-    const float norm  = M_PI / pd / dt;
-    const float rtmp1 = 2 * M_PI * center / pd;
-    int         j, i;
-    int         pd2 = pd / 2;
-    float       x;
-
-    if(!filter2d)
-    {
-        for(j = 0; j < pd2; j++)
-        {
-            A[j] = pf((float) j / pd, j, 0, pd2, filter_par);
-        }
-
-        __PRAGMA_SIMD
-        for(j = 0; j < pd2; j++)
-        {
-            x = j * rtmp1;
-            A[j] *= (cosf(x) - I * sinf(x)) * norm;
-        }
-    }
-    else
-    {
-        for(i = 0; i < dt; i++)
-        {
-            int j0 = i * pd2;
-
-            for(j = 0; j < pd2; j++)
-            {
-                A[j0 + j] = pf((float) j / pd, j, i, pd2, filter_par);
-            }
-
-            __PRAGMA_SIMD
-            for(j = 0; j < pd2; j++)
-            {
-                x = j * rtmp1;
-                A[j0 + j] *= (cosf(x) - I * sinf(x)) * norm;
-            }
-        }
-    }
-}
-
-void
-gridrec(const float* data, int dy, int dt, int dx, const float* center,
-        const float* theta, float* recon, int ngridx, int ngridy, const char* fname,
-        const float* filter_par)
-{
-    if(dy == 0 || dt == 0 || dx == 0)
-        return;
-
-    int    s, p, iu, iv;
-    int    j;
-    float *sine, *cose, *wtbl, *winv;
-
-    float *work, *work2;
-
-    filter_func filter = get_filter(fname);
-
-    const float        C      = 7.0;
-    const float        nt     = 20.0;
-    const float        lambda = 0.99998546;
-    const unsigned int L      = (int) (2 * C / M_PI);
-    const int          ltbl   = 512;
-    int                pdim;
-    PAL_COMPLEX *      sino, *filphase, *filphase_iter = NULL, **H;
-    PAL_COMPLEX **     U_d, **V_d;
-    float *            J_z, *P_z;
-
-    const float coefs[11] = { 0.5767616E+02,  -0.8931343E+02, 0.4167596E+02,
-                              -0.1053599E+02, 0.1662374E+01,  -0.1780527E-00,
-                              0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
-                              -0.1295941E-05, 0.3817796E-07 };
-
-    // Compute pdim = next power of 2 >= dx
-    for(pdim = 16; pdim < dx; pdim *= 2)
-        ;
-
-    const int pdim2 = pdim >> 1;
-    const int M02   = pdim2 - 1;
-    const int M2    = pdim2;
-
-    unsigned char filter2d = filter_is_2d(fname);
-
-    // Allocate storage for various arrays.
-    sino = malloc_vector_c(pdim);
-    if(!filter2d)
-    {
-        filphase      = malloc_vector_c(pdim2);
-        filphase_iter = filphase;
-    }
-    else
-    {
-        filphase = malloc_vector_c(dt * (pdim2));
-    }
-    __ASSSUME_64BYTES_ALIGNED(filphase);
-    H = malloc_matrix_c(pdim, pdim);
-    __ASSSUME_64BYTES_ALIGNED(H);
-    wtbl = malloc_vector_f(ltbl + 1);
-    __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim - 1);
-    __ASSSUME_64BYTES_ALIGNED(winv);
-    J_z = malloc_vector_f(pdim2 * dt);
-    __ASSSUME_64BYTES_ALIGNED(J_z);
-    P_z = malloc_vector_f(pdim2 * dt);
-    __ASSSUME_64BYTES_ALIGNED(P_z);
-    U_d = malloc_matrix_c(dt, pdim);
-    __ASSSUME_64BYTES_ALIGNED(U_d);
-    V_d = malloc_matrix_c(dt, pdim);
-    __ASSSUME_64BYTES_ALIGNED(V_d);
-    work = malloc_vector_f(L + 1);
-    __ASSSUME_64BYTES_ALIGNED(work);
-    work2 = malloc_vector_f(L + 1);
-    __ASSSUME_64BYTES_ALIGNED(work2);
-
-    // Set up table of sines and cosines.
-    set_trig_tables(dt, theta, &sine, &cose);
-    __ASSSUME_64BYTES_ALIGNED(sine);
-    __ASSSUME_64BYTES_ALIGNED(cose);
-
-    // Set up PSWF lookup tables.
-    set_pswf_tables(C, nt, lambda, coefs, ltbl, M02, wtbl, winv);
-
-#ifdef TOMOPY_USE_MKL
-    DFTI_DESCRIPTOR_HANDLE reverse_1d;
-    MKL_LONG               length_1d = (MKL_LONG) pdim;
-    DftiCreateDescriptor(&reverse_1d, DFTI_SINGLE, DFTI_COMPLEX, 1, length_1d);
-    DftiSetValue(reverse_1d, DFTI_THREAD_LIMIT,
-                 1);  // FFT should run sequentially to avoid oversubscription
-    DftiCommitDescriptor(reverse_1d);
-    DFTI_DESCRIPTOR_HANDLE forward_2d;
-    MKL_LONG               length_2d[2] = { (MKL_LONG) pdim, (MKL_LONG) pdim };
-    DftiCreateDescriptor(&forward_2d, DFTI_SINGLE, DFTI_COMPLEX, 2, length_2d);
-    DftiSetValue(forward_2d, DFTI_THREAD_LIMIT,
-                 1);  // FFT should run sequentially to avoid oversubscription
-    DftiCommitDescriptor(forward_2d);
-#endif
-#ifdef TOMOPY_USE_FFTW
-    fftwf_make_planner_thread_safe();
-    fftwf_plan reverse_1d;
-    reverse_1d = fftwf_plan_dft_1d(pdim, sino, sino, FFTW_BACKWARD, FFTW_ESTIMATE);
-    fftwf_plan forward_2d;
-    forward_2d = fftwf_plan_dft_2d(pdim, pdim, H[0], H[0], FFTW_FORWARD, FFTW_ESTIMATE);
-#endif
-
-    for(p = 0; p < dt; p++)
-    {
-        for(j = 1; j < pdim2; j++)
-        {
-            U_d[p][j] = j * cose[p] + M2;
-            V_d[p][j] = j * sine[p] + M2;
-        }
-    }
-
-    float       U, V;
-    const float L2      = (int) (C / M_PI);
-    const float tblspcg = 2 * ltbl / L;
-    int         iul, iuh, ivl, ivh;
-    int         k, k2;
-
-    // For each slice.
-    for(s = 0; s < dy; s += 2)
-    {
-        // Set up table of combined filter-phase factors.
-        set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
-
-        // First clear the array H
-        memset(H[0], 0, pdim * pdim * sizeof(H[0][0]));
-
-        // Loop over the dt projection angles. For each angle, do the following:
-
-        //     1. Copy the real projection data from the two slices into the
-        //      real and imaginary parts of the first dx elements of the
-        //      complex array, sino[].  Set the remaining pdim-dx elements
-        //      to zero (zero-padding).
-
-        //     2. Carry out a (1D) Fourier transform on the complex data.
-        //      This results in transform data that is arranged in
-        //      "wrap-around" order, with non-negative spatial frequencies
-        //      occupying the first half, and negative frequencies the second
-        //      half, of the array, sino[].
-
-        //     3. Multiply each element of the 1-D transform by a complex,
-        //      frequency dependent factor, filphase[].  These factors were
-        //      precomputed as part of recofour1((float*)sino-1,pdim,1);n_init()
-        //      and combine the tomographic filtering with a phase factor which
-        //      shifts the origin in configuration space to the projection of
-        //      the rotation axis as defined by the parameter, "center".  If a
-        //      region of interest (ROI) centered on a different origin has
-        //      been specified [(X0,Y0)!=(0,0)], multiplication by an
-        //      additional phase factor, dependent on angle as well as
-        //      frequency, is required.
-
-        //     4. For each data element, find the Cartesian coordinates,
-        //      <U,V>, of the corresponding point in the 2D frequency plane,
-        //      in  units of the spacing in the MxM rectangular grid placed
-        //      thereon; then calculate the upper and lower limits in each
-        //      coordinate direction of the integer coordinates for the
-        //      grid points contained in an LxL box centered on <U,V>.
-        //      Using a precomputed table of the (1-D) convolving function,
-        //      W, calculate the contribution of this data element to the
-        //      (2-D) convolvent (the 2_D convolvent is the product of
-        //      1_D convolvents in the X and Y directions) at each of these
-        //      grid points, and update the complex 2D array H accordingly.
-
-        // At the end of Phase 1, the array H[][] contains data arranged in
-        // "natural", rather than wrap-around order -- that is, the origin in
-        // the spatial frequency plane is situated in the middle, rather than
-        // at the beginning, of the array, H[][].  This simplifies the code
-        // for carrying out the convolution (step 4 above), but necessitates
-        // an additional correction -- See Phase 3 below.
-
-        PAL_COMPLEX Cdata1, Cdata2;
-
-        // For each projection
-        for(p = 0; p < dt; p++)
-        {
-            float              sine_p = sine[p], cose_p = cose[p];
-            const unsigned int j0 = dx * (p + s * dt), delta_index = dx * dt;
-
-            __PRAGMA_SIMD_VECREMAINDER
-            for(j = 0; j < dx; j++)
-            {
-                // Add data from both slices
-                float              second_sino = 0.0;
-                const unsigned int index       = j + j0;
-                if(__LIKELY((s + 1) < dy))
-                {
-                    second_sino = data[index + delta_index];
-                }
-                sino[j] = data[index] + I * second_sino;
-            }
-
-            __PRAGMA_SIMD_VECREMAINDER
-            for(j = dx; j < pdim; j++)
-            {
-                // Zero fill the rest of the array
-                sino[j] = 0.0;
-            }
-
-#ifdef TOMOPY_USE_MKL
-            DftiComputeBackward(reverse_1d, sino);
-#endif
-#ifdef TOMOPY_USE_FFTW
-            fftwf_execute(reverse_1d);
-#endif
-            if(filter2d)
-                filphase_iter = filphase + pdim2 * p;
-
-            // For each FFT(projection)
-            for(j = 1; j < pdim2; j++)
-            {
-                Cdata1 = filphase_iter[j] * sino[j];
-                Cdata2 = conjf(filphase_iter[j]) * sino[pdim - j];
-
-                U = j * cose_p + M2;
-                V = j * sine_p + M2;
-
-                // Note freq space origin is at (M2,M2), but we
-                // offset the indices U, V, etc. to range from 0 to M-1.
-                iul = ceilf(U - L2);
-                iuh = floorf(U + L2);
-                ivl = ceilf(V - L2);
-                ivh = floorf(V + L2);
-                if(iul < 1)
-                    iul = 1;
-                if(iuh >= pdim)
-                    iuh = pdim - 1;
-                if(ivl < 1)
-                    ivl = 1;
-                if(ivh >= pdim)
-                    ivh = pdim - 1;
-
-                // Note aliasing value (at index=0) is forced to zero.
-                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
-                for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
-                {
-                    work[k] = wtbl[(int) roundf(fabsf(V - iv) * tblspcg)];
-                }
-
-                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
-                for(iu = iul, k = 0; iu <= iuh; iu++, k++)
-                {
-                    work2[k] = wtbl[(int) roundf(fabsf(U - iu) * tblspcg)];
-                }
-
-                __PRAGMA_OMP_SIMD_COLLAPSE
-                for(iu = iul, k2 = 0; iu <= iuh; iu++, k2++)
-                {
-                    for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
-                    {
-                        const float rtmp    = work2[k2];
-                        const float convolv = rtmp * work[k];
-                        H[iu][iv] += convolv * Cdata1;
-                        H[pdim - iu][pdim - iv] += convolv * Cdata2;
-                    }
-                }
-            }
-        }
-
-        // Carry out a 2D inverse FFT on the array H.
-
-        // At the conclusion of this phase, the configuration
-        // space data is arranged in wrap-around order with the origin
-        // (center of reconstructed images) situated at the start of the
-        // array.  The first (resp. second) half of the array contains the
-        // lower, Y<0 (resp, upper Y>0) part of the image, and within each row
-        // of the array, the first (resp. second) half contains data for the
-        // right [X>0] (resp. left [X<0]) half of the image.
-
-#ifdef TOMOPY_USE_MKL
-        DftiComputeForward(forward_2d, H[0]);
-#endif
-#ifdef TOMOPY_USE_FFTW
-        fftwf_execute(forward_2d);
-#endif
-        // Copy the real and imaginary parts of the complex data from H[][],
-        // into the output buffers for the two reconstructed real images,
-        // simultaneously carrying out a final multiplicative correction.
-        // The correction factors are taken from the array, winv[], previously
-        // computed in set_pswf_tables(), and consist logically of three parts,
-        // namely:
-
-        //  1. A positive real factor, corresponding to the reciprocal
-        //     of the inverse Fourier transform, of the convolving
-        //     function, W, and
-
-        //  2. Multiplication by the cell size, (1/D1)^2, in 2D frequency
-        //     space.  This correctly normalizes the 2D inverse FFT carried
-        //     out in Phase 2.  (Note that all quantities are expressed in
-        //     units in which the detector spacing is one.)
-
-        //  3. A sign change for the "odd-numbered" elements (in a
-        //     checkerboard pattern) of the array.  This compensates
-        //     for the fact that the 2-D Fourier transform (Phase 2)
-        //     started with a frequency array in which the zero frequency
-        //     point appears in the middle of the array instead of at
-        //     its start.
-
-        // Only the elements in the square M0xM0 subarray of H[][], centered
-        // about the origin, are utilized.  The other elements are not part of
-        // the actual region being reconstructed and are discarded.  Because of
-        // the wrap-around ordering, the subarray must actually be taken from
-        // the four corners" of the 2D array, H[][] -- See Phase 2 description,
-        // above.
-
-        // The final data corresponds physically to the linear X-ray absorption
-        // coefficient expressed in units of the inverse detector spacing -- to
-        // convert to inverse cm (say), one must divide the data by the detector
-        // spacing in cm.
-
-        int       ustart, vstart, ufin, vfin;
-        const int padx    = (pdim - ngridx) / 2;
-        const int pady    = (pdim - ngridy) / 2;
-        const int offsetx = M02 + 1 - padx;
-        const int offsety = M02 + 1 - pady;
-        const int islc1   = s * ngridx * ngridy;        // index slice 1
-        const int islc2   = (s + 1) * ngridx * ngridy;  // index slice 2
-
-        ustart = pdim - offsety;
-        ufin   = pdim;
-        j      = 0;
-        while(j < ngridy)
-        {
-            for(iu = ustart; iu < ufin; j++, iu++)
-            {
-                const float corrn_u = winv[j + pady];
-                vstart              = pdim - offsetx;
-                vfin                = pdim;
-                k                   = 0;
-                while(k < ngridx)
-                {
-                    __PRAGMA_SIMD
-                    for(iv = vstart; iv < vfin; k++, iv++)
-                    {
-                        const float corrn = corrn_u * winv[k + padx];
-                        recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
-                            corrn * crealf(H[iu][iv]);
-                        if(__LIKELY((s + 1) < dy))
-                        {
-                            recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
-                                corrn * cimagf(H[iu][iv]);
-                        }
-                    }
-                    if(k < ngridx)
-                    {
-                        vstart = 0;
-                        vfin   = ngridx - offsetx;
-                    }
-                }
-            }
-            if(j < ngridy)
-            {
-                ustart = 0;
-                ufin   = ngridy - offsety;
-            }
-        }
-    }
-
-    free_vector_f(sine);
-    free_vector_f(cose);
-    free_vector_c(sino);
-    free_vector_f(wtbl);
-    free_vector_c(filphase);
-    free_vector_f(winv);
-    free_vector_f(work);
-    free_matrix_c(H);
-    free_vector_f(J_z);
-    free_vector_f(P_z);
-    free_matrix_c(U_d);
-    free_matrix_c(V_d);
-#ifdef TOMOPY_USE_MKL
-    DftiFreeDescriptor(&reverse_1d);
-    DftiFreeDescriptor(&forward_2d);
-#endif
-#ifdef TOMOPY_USE_FFTW
-    fftwf_destroy_plan(reverse_1d);
-    fftwf_destroy_plan(forward_2d);
-#endif
-    return;
-}
+// Copyright (c) 2015, UChicago Argonne, LLC. All rights reserved.
+
+// Copyright 2015. UChicago Argonne, LLC. This software was produced
+// under U.S. Government contract DE-AC02-06CH11357 for Argonne National
+// Laboratory (ANL), which is operated by UChicago Argonne, LLC for the
+// U.S. Department of Energy. The U.S. Government has rights to use,
+// reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR
+// UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR
+// ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is
+// modified to produce derivative works, such modified software should
+// be clearly marked, so as not to confuse it with the version available
+// from ANL.
+
+// Additionally, redistribution and use in source and binary forms, with
+// or without modification, are permitted provided that the following
+// conditions are met:
+
+//     * Redistributions of source code must retain the above copyright
+//       notice, this list of conditions and the following disclaimer.
+
+//     * Redistributions in binary form must reproduce the above copyright
+//       notice, this list of conditions and the following disclaimer in
+//       the documentation and/or other materials provided with the
+//       distribution.
+
+//     * Neither the name of UChicago Argonne, LLC, Argonne National
+//       Laboratory, ANL, the U.S. Government, nor the names of its
+//       contributors may be used to endorse or promote products derived
+//       from this software without specific prior written permission.
+
+// THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS
+// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
+// FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago
+// Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
+// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
+// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
+// LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+// CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
+// LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
+// ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+// POSSIBILITY OF SUCH DAMAGE.
+
+// Possible speedups:
+//   * Profile code and check adding SIMD to various functions (from OpenMP)
+
+#include <math.h>
+
+#include "libtomo/filters.h"
+#include "libtomo/gridrec.h"
+#include "pal.h"
+
+#ifdef TOMOPY_USE_MKL
+#    include "mkl.h"
+#endif
+#ifdef TOMOPY_USE_FFTW
+// Import pal.h first to import <complex.h> first so fftw uses native complex types
+#    include "fftw3.h"
+#endif
+
+float
+legendre(int n, const float* coefs, float x)
+{
+    // Compute SUM(coefs(k)*P(2*k,x), for k=0,n/2)
+    // where P(j,x) is the jth Legendre polynomial.
+    // x must be between -1 and 1.
+    float penult, last, cur, y, mxlast;
+
+    y      = coefs[0];
+    penult = 1.0;
+    last   = x;
+    for(int j = 2; j <= n; j++)
+    {
+        mxlast = -(x * last);
+        cur    = -(2 * mxlast + penult) + (penult + mxlast) / j;
+        // cur = (x*(2*j-1)*last-(j-1)*penult)/j;
+        if(!(j & 1))  // if j is even
+        {
+            y += cur * coefs[j >> 1];
+        }
+
+        penult = last;
+        last   = cur;
+    }
+    return y;
+}
+
+void
+set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int linv,
+                float* wtbl, float* winv)
+{
+    // Set up lookup tables for convolvent (used in Phase 1 of
+    // do_recon()), and for the final correction factor (used in
+    // Phase 3).
+
+    int         i;
+    float       norm;
+    const float fac   = (float) ltbl / (linv + 0.5);
+    const float polyz = legendre(nt, coefs, 0.);
+
+    wtbl[0] = 1.0;
+    for(i = 1; i <= ltbl; i++)
+    {
+        wtbl[i] = legendre(nt, coefs, (float) i / ltbl) / polyz;
+    }
+
+    // Note the final result at end of Phase 3 contains the factor,
+    // norm^2.  This incorporates the normalization of the 2D
+    // inverse FFT in Phase 2 as well as scale factors involved
+    // in the inverse Fourier transform of the convolvent.
+    norm = sqrt(M_PI / 2 / C / lambda) / 1.2;
+
+    winv[linv] = norm / wtbl[0];
+    __PRAGMA_IVDEP
+    for(i = 1; i <= linv; i++)
+    {
+        // Minus sign for alternate entries
+        // corrects for "natural" data layout
+        // in array H at end of Phase 1.
+        norm           = -norm;
+        winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
+    }
+}
+
+void
+set_trig_tables(int dt, const float* theta, float** sine, float** cose)
+{
+    // Set up tables of sines and cosines.
+    float *s, *c;
+
+    *sine = s = malloc_vector_f(dt);
+    __ASSSUME_64BYTES_ALIGNED(s);
+    *cose = c = malloc_vector_f(dt);
+    __ASSSUME_64BYTES_ALIGNED(c);
+
+    __PRAGMA_SIMD
+    for(int j = 0; j < dt; j++)
+    {
+        s[j] = sinf(theta[j]);
+        c[j] = cosf(theta[j]);
+    }
+}
+
+void
+set_filter_tables(int dt, int pd, float center, filter_func pf, const float* filter_par,
+                  PAL_COMPLEX* A, unsigned char filter2d)
+{
+    // Set up the complex array, filphase[], each element of which
+    // consists of a real filter factor [obtained from the function,
+    // pf(...)], multiplying a complex phase factor (derived from the
+    // parameter, center}.  See Phase 1 comments.
+
+    const float norm  = M_PI / pd / dt;
+    const float rtmp1 = 2 * M_PI * center / pd;
+    int         j, i;
+    int         pd2 = pd / 2;
+    float       x;
+
+    if(!filter2d)
+    {
+        for(j = 0; j < pd2; j++)
+        {
+            A[j] = pf((float) j / pd, j, 0, pd2, filter_par);
+        }
+
+        __PRAGMA_SIMD
+        for(j = 0; j < pd2; j++)
+        {
+            x = j * rtmp1;
+            A[j] *= (cosf(x) - I * sinf(x)) * norm;
+        }
+    }
+    else
+    {
+        for(i = 0; i < dt; i++)
+        {
+            int j0 = i * pd2;
+
+            for(j = 0; j < pd2; j++)
+            {
+                A[j0 + j] = pf((float) j / pd, j, i, pd2, filter_par);
+            }
+
+            __PRAGMA_SIMD
+            for(j = 0; j < pd2; j++)
+            {
+                x = j * rtmp1;
+                A[j0 + j] *= (cosf(x) - I * sinf(x)) * norm;
+            }
+        }
+    }
+}
+
+void
+gridrec(const float* data, int dy, int dt, int dx, const float* center,
+        const float* theta, float* recon, int ngridx, int ngridy, const char* fname,
+        const float* filter_par)
+{
+    if(dy == 0 || dt == 0 || dx == 0)
+        return;
+
+    int    s, p, iu, iv;
+    int    j;
+    float *sine, *cose, *wtbl, *winv;
+
+    float *work, *work2;
+
+    filter_func filter = get_filter(fname);
+
+    const float        C      = 7.0;
+    const float        nt     = 20.0;
+    const float        lambda = 0.99998546;
+    const unsigned int L      = (int) (2 * C / M_PI);
+    const int          ltbl   = 512;
+    int                pdim;
+    PAL_COMPLEX *      sino, *filphase, *filphase_iter = NULL, **H;
+    PAL_COMPLEX **     U_d, **V_d;
+    float *            J_z, *P_z;
+
+    const float coefs[11] = { 0.5767616E+02,  -0.8931343E+02, 0.4167596E+02,
+                              -0.1053599E+02, 0.1662374E+01,  -0.1780527E-00,
+                              0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
+                              -0.1295941E-05, 0.3817796E-07 };
+
+    // Compute pdim = next power of 2 >= dx
+    for(pdim = 16; pdim < dx; pdim *= 2)
+        ;
+
+    const int pdim2 = pdim >> 1;
+    const int M02   = pdim2 - 1;
+    const int M2    = pdim2;
+
+    unsigned char filter2d = filter_is_2d(fname);
+
+    // Allocate storage for various arrays.
+    sino = malloc_vector_c(pdim);
+    if(!filter2d)
+    {
+        filphase      = malloc_vector_c(pdim2);
+        filphase_iter = filphase;
+    }
+    else
+    {
+        filphase = malloc_vector_c(dt * (pdim2));
+    }
+    __ASSSUME_64BYTES_ALIGNED(filphase);
+    H = malloc_matrix_c(pdim, pdim);
+    __ASSSUME_64BYTES_ALIGNED(H);
+    wtbl = malloc_vector_f(ltbl + 1);
+    __ASSSUME_64BYTES_ALIGNED(wtbl);
+    winv = malloc_vector_f(pdim - 1);
+    __ASSSUME_64BYTES_ALIGNED(winv);
+    J_z = malloc_vector_f(pdim2 * dt);
+    __ASSSUME_64BYTES_ALIGNED(J_z);
+    P_z = malloc_vector_f(pdim2 * dt);
+    __ASSSUME_64BYTES_ALIGNED(P_z);
+    U_d = malloc_matrix_c(dt, pdim);
+    __ASSSUME_64BYTES_ALIGNED(U_d);
+    V_d = malloc_matrix_c(dt, pdim);
+    __ASSSUME_64BYTES_ALIGNED(V_d);
+    work = malloc_vector_f(L + 1);
+    __ASSSUME_64BYTES_ALIGNED(work);
+    work2 = malloc_vector_f(L + 1);
+    __ASSSUME_64BYTES_ALIGNED(work2);
+
+    // Set up table of sines and cosines.
+    set_trig_tables(dt, theta, &sine, &cose);
+    __ASSSUME_64BYTES_ALIGNED(sine);
+    __ASSSUME_64BYTES_ALIGNED(cose);
+
+    // Set up PSWF lookup tables.
+    set_pswf_tables(C, nt, lambda, coefs, ltbl, M02, wtbl, winv);
+
+#ifdef TOMOPY_USE_MKL
+    DFTI_DESCRIPTOR_HANDLE reverse_1d;
+    MKL_LONG               length_1d = (MKL_LONG) pdim;
+    DftiCreateDescriptor(&reverse_1d, DFTI_SINGLE, DFTI_COMPLEX, 1, length_1d);
+    DftiSetValue(reverse_1d, DFTI_THREAD_LIMIT,
+                 1);  // FFT should run sequentially to avoid oversubscription
+    DftiCommitDescriptor(reverse_1d);
+    DFTI_DESCRIPTOR_HANDLE forward_2d;
+    MKL_LONG               length_2d[2] = { (MKL_LONG) pdim, (MKL_LONG) pdim };
+    DftiCreateDescriptor(&forward_2d, DFTI_SINGLE, DFTI_COMPLEX, 2, length_2d);
+    DftiSetValue(forward_2d, DFTI_THREAD_LIMIT,
+                 1);  // FFT should run sequentially to avoid oversubscription
+    DftiCommitDescriptor(forward_2d);
+#endif
+#ifdef TOMOPY_USE_FFTW
+    fftwf_make_planner_thread_safe();
+    fftwf_plan reverse_1d;
+    reverse_1d = fftwf_plan_dft_1d(pdim, sino, sino, FFTW_BACKWARD, FFTW_ESTIMATE);
+    fftwf_plan forward_2d;
+    forward_2d = fftwf_plan_dft_2d(pdim, pdim, H[0], H[0], FFTW_FORWARD, FFTW_ESTIMATE);
+#endif
+
+    for(p = 0; p < dt; p++)
+    {
+        for(j = 1; j < pdim2; j++)
+        {
+            U_d[p][j] = j * cose[p] + M2;
+            V_d[p][j] = j * sine[p] + M2;
+        }
+    }
+
+    float       U, V;
+    const float L2      = (int) (C / M_PI);
+    const float tblspcg = 2 * ltbl / L;
+    int         iul, iuh, ivl, ivh;
+    int         k, k2;
+    int         npair;
+
+    // For each slice.
+    for(s = 0; s < dy; s += npair)
+    {
+        // Two slices share one transform only if they share the rotation center.
+        npair = ((s + 1) < dy && center[s + 1] == center[s]) ? 2 : 1;
+
+        // Set up table of combined filter-phase factors.
+        set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
+
+        // First clear the array H
+        memset(H[0], 0, pdim * pdim * sizeof(H[0][0]));
+
+        // Loop over the dt projection angles. For each angle, do the following:
+
+        //     1. Copy the real projection data from the two slices into the
+        //      real and imaginary parts of the first dx elements of the
+        //      complex array, sino[].  Set the remaining pdim-dx elements
+        //      to zero (zero-padding).
+
+        //     2. Carry out a (1D) Fourier transform on the complex data.
+        //      This results in transform data that is arranged in
+        //      "wrap-around" order, with non-negative spatial frequencies
+        //      occupying the first half, and negative frequencies the second
+        //      half, of the array, sino[].
+
+        //     3. Multiply each element of the 1-D transform by a complex,
+        //      frequency dependent factor, filphase[].  These factors were
+        //      precomputed as part of recofour1((float*)sino-1,pdim,1);n_init()
+        //      and combine the tomographic filtering with a phase factor which
+        //      shifts the origin in configuration space to the projection of
+        //      the rotation axis as defined by the parameter, "center".  If a
+        //      region of interest (ROI) centered on a different origin has
+        //      been specified [(X0,Y0)!=(0,0)], multiplication by an
+        //      additional phase factor, dependent on angle as well as
+        //      frequency, is required.
+
+        //     4. For each data element, find the Cartesian coordinates,
+        //      <U,V>, of the corresponding point in the 2D frequency plane,
+        //      in  units of the spacing in the MxM rectangular grid placed
+        //      thereon; then calculate the upper and lower limits in each
+        //      coordinate direction of the integer coordinates for the
+        //      grid points contained in an LxL box centered on <U,V>.
+        //      Using a precomputed table of the (1-D) convolving function,
+        //      W, calculate the contribution of this data element to the
+        //      (2-D) convolvent (the 2_D convolvent is the product of
+        //      1_D convolvents in the X and Y directions) at each of these
+        //      grid points, and update the complex 2D array H accordingly.
+
+        // At the end of Phase 1, the array H[][] contains data arranged in
+        // "natural", rather than wrap-around order -- that is, the origin in
+        // the spatial frequency plane is situated in the middle, rather than
+        // at the beginning, of the array, H[][].  This simplifies the code
+        // for carrying out the convolution (step 4 above), but necessitates
+        // an additional correction -- See Phase 3 below.
+
+        PAL_COMPLEX Cdata1, Cdata2;
+
+        // For each projection
+        for(p = 0; p < dt; p++)
+        {
+            float              sine_p = sine[p], cose_p = cose[p];
+            const unsigned int j0 = dx * (p + s * dt), delta_index = dx * dt;
+
+            __PRAGMA_SIMD_VECREMAINDER
+            for(j = 0; j < dx; j++)
+            {
+                // Add data from both slices
+                float              second_sino = 0.0;
+                const unsigned int index       = j + j0;
+                if(__LIKELY(npair == 2))
+                {
+                    second_sino = data[index + delta_index];
+                }
+                sino[j] = data[index] + I * second_sino;
+            }
+
+            __PRAGMA_SIMD_VECREMAINDER
+            for(j = dx; j < pdim; j++)
+            {
+                // Zero fill the rest of the array
+                sino[j] = 0.0;
+            }
+
+#ifdef TOMOPY_USE_MKL
+            DftiComputeBackward(reverse_1d, sino);
+#endif
+#ifdef TOMOPY_USE_FFTW
+            fftwf_execute(reverse_1d);
+#endif
+            if(filter2d)
+                filphase_iter = filphase + pdim2 * p;
+
+            // For each FFT(projection)
+            for(j = 1; j < pdim2; j++)
+            {
+                Cdata1 = filphase_iter[j] * sino[j];
+                Cdata2 = conjf(filphase_iter[j]) * sino[pdim - j];
+
+                U = j * cose_p + M2;
+                V = j * sine_p + M2;
+
+                // Note freq space origin is at (M2,M2), but we
+                // offset the indices U, V, etc. to range from 0 to M-1.
+                iul = ceilf(U - L2);
+                iuh = floorf(U + L2);
+                ivl = ceilf(V - L2);
+                ivh = floorf(V + L2);
+                if(iul < 1)
+                    iul = 1;
+                if(iuh >= pdim)
+                    iuh = pdim - 1;
+                if(ivl < 1)
+                    ivl = 1;
+                if(ivh >= pdim)
+                    ivh = pdim - 1;
+
+                // Note aliasing value (at index=0) is forced to zero.
+                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
+                for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
+                {
+                    work[k] = wtbl[(int) roundf(fabsf(V - iv) * tblspcg)];
+                }
+
+                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
+                for(iu = iul, k = 0; iu <= iuh; iu++, k++)
+                {
+                    work2[k] = wtbl[(int) roundf(fabsf(U - iu) * tblspcg)];
+                }
+
+                __PRAGMA_OMP_SIMD_COLLAPSE
+                for(iu = iul, k2 = 0; iu <= iuh; iu++, k2++)
+                {
+                    for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
+                    {
+                        const float rtmp    = work2[k2];
+                        const float convolv = rtmp * work[k];
+                        H[iu][iv] += convolv * Cdata1;
+                        H[pdim - iu][pdim - iv] += convolv * Cdata2;
+                    }
+                }
+            }
+        }
+
+        // Carry out a 2D inverse FFT on the array H.
+
+        // At the conclusion of this phase, the configuration
+        // space data is arranged in wrap-around order with the origin
+        // (center of reconstructed images) situated at the start of the
+        // array.  The first (resp. second) half of the array contains the
+        // lower, Y<0 (resp, upper Y>0) part of the image, and within each row
+        // of the array, the first (resp. second) half contains data for the
+        // right [X>0] (resp. left [X<0]) half of the image.
+
+#ifdef TOMOPY_USE_MKL
+        DftiComputeForward(forward_2d, H[0]);
+#endif
+#ifdef TOMOPY_USE_FFTW
+        fftwf_execute(forward_2d);
+#endif
+        // Copy the real and imaginary parts of the complex data from H[][],
+        // into the output buffers for the two reconstructed real images,
+        // simultaneously carrying out a final multiplicative correction.
+        // The correction factors are taken from the array, winv[], previously
+        // computed in set_pswf_tables(), and consist logically of three parts,
+        // namely:
+
+        //  1. A positive real factor, corresponding to the reciprocal
+        //     of the inverse Fourier transform, of the convolving
+        //     function, W, and
+
+        //  2. Multiplication by the cell size, (1/D1)^2, in 2D frequency
+        //     space.  This correctly normalizes the 2D inverse FFT carried
+        //     out in Phase 2.  (Note that all quantities are expressed in
+        //     units in which the detector spacing is one.)
+
+        //  3. A sign change for the "odd-numbered" elements (in a
+        //     checkerboard pattern) of the array.  This compensates
+        //     for the fact that the 2-D Fourier transform (Phase 2)
+        //     started with a frequency array in which the zero frequency
+        //     point appears in the middle of the array instead of at
+        //     its start.
+
+        // Only the elements in the square M0xM0 subarray of H[][], centered
+        // about the origin, are utilized.  The other elements are not part of
+        // the actual region being reconstructed and are discarded.  Because of
+        // the wrap-around ordering, the subarray must actually be taken from
+        // the four corners" of the 2D array, H[][] -- See Phase 2 description,
+        // above.
+
+        // The final data corresponds physically to the linear X-ray absorption
+        // coefficient expressed in units of the inverse detector spacing -- to
+        // convert to inverse cm (say), one must divide the data by the detector
+        // spacing in cm.
+
+        int       ustart, vstart, ufin, vfin;
+        const int padx    = (pdim - ngridx) / 2;
+        const int pady    = (pdim - ngridy) / 2;
+        const int offsetx = M02 + 1 - padx;
+        const int offsety = M02 + 1 - pady;
+        const int islc1   = s * ngridx * ngridy;        // index slice 1
+        const int islc2   = (s + 1) * ngridx * ngridy;  // index slice 2
+
+        ustart = pdim - offsety;
+        ufin   = pdim;
+        j      = 0;
+        while(j < ngridy)
+        {
+            for(iu = ustart; iu < ufin; j++, iu++)
+            {
+                const float corrn_u = winv[j + pady];
+                vstart              = pdim - offsetx;
+                vfin                = pdim;
+                k                   = 0;
+                while(k < ngridx)
+                {
+                    __PRAGMA_SIMD
+                    for(iv = vstart; iv < vfin; k++, iv++)
+                    {
+                        const float corrn = corrn_u * winv[k + padx];
+                        recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
+                            corrn * crealf(H[iu][iv]);
+                        if(__LIKELY(npair == 2))
+                        {
+                            recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
+                                corrn * cimagf(H[iu][iv]);
+                        }
+                    }
+                    if(k < ngridx)
+                    {
+                        vstart = 0;
+                        vfin   = ngridx - offsetx;
+                    }
+                }
+            }
+            if(j < ngridy)
+            {
+                ustart = 0;
+                ufin   = ngridy - offsety;
+            }
+        }
+    }
+
+    free_vector_f(sine);
+    free_vector_f(cose);
+    free_vector_c(sino);
+    free_vector_f(wtbl);
+    free_vector_c(filphase);
+    free_vector_f(winv);
+    free_vector_f(work);
+    free_matrix_c(H);
+    free_vector_f(J_z);
+    free_vector_f(P_z);
+    free_matrix_c(U_d);
+    free_matrix_c(V_d);
+#ifdef TOMOPY_USE_MKL
+    DftiFreeDescriptor(&reverse_1d);
+    DftiFreeDescriptor(&forward_2d);
+#endif
+#ifdef TOMOPY_USE_FFTW
+    fftwf_destroy_plan(reverse_1d);
+    fftwf_destroy_plan(forward_2d);
+#endif
+    return;
+}
-- 
2.43.0


From 466dc60ab7fa701976c75e77fe96730b8d3cf6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 004/102] fix: gridrec frees its second work vector

---
 source/libtomo/gridrec/gridrec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 346bc2a..89b8b48 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -558,6 +558,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     free_vector_c(filphase);
     free_vector_f(winv);
     free_vector_f(work);
+    free_vector_f(work2);
     free_matrix_c(H);
     free_vector_f(J_z);
     free_vector_f(P_z);
-- 
2.43.0


From 11d707e16d3fb92673d006c1623a3c6071c1de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 005/102] fix: gridrec correction table covers the last pixel
 of a full-width grid

---
 source/libtomo/gridrec/gridrec.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 89b8b48..a403c41 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -120,6 +120,10 @@ set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int
         norm           = -norm;
         winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
     }
+
+    // The last pixel of a grid as wide as the transform is half a table
+    // spacing beyond the last entry.
+    winv[2 * linv + 1] = -norm / wtbl[ltbl];
 }
 
 void
@@ -248,7 +252,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     __ASSSUME_64BYTES_ALIGNED(H);
     wtbl = malloc_vector_f(ltbl + 1);
     __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim - 1);
+    winv = malloc_vector_f(pdim);
     __ASSSUME_64BYTES_ALIGNED(winv);
     J_z = malloc_vector_f(pdim2 * dt);
     __ASSSUME_64BYTES_ALIGNED(J_z);
-- 
2.43.0


From 9b6b610885518277a1b10bb1a3b5b3eacb01c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 006/102] fix: gridrec transform is large enough for the
 requested grid

---
 source/libtomo/gridrec/gridrec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index a403c41..993edb9 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -226,8 +226,8 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                               0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
                               -0.1295941E-05, 0.3817796E-07 };
 
-    // Compute pdim = next power of 2 >= dx
-    for(pdim = 16; pdim < dx; pdim *= 2)
+    // Compute pdim = next power of 2 >= dx that also holds the output grid
+    for(pdim = 16; pdim < dx || pdim < ngridx || pdim < ngridy; pdim *= 2)
         ;
 
     const int pdim2 = pdim >> 1;
-- 
2.43.0


From 749daa1a4f7965a668196350b331f6e162bb9ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 007/102] fix: vector projections free their index arrays

---
 source/libtomo/recon/project.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index 82cb766..9569036 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -263,6 +263,8 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     free(coory);
     free(dist);
     free(indi);
+    free(indx);
+    free(indy);
 }
 
 void
@@ -381,4 +383,6 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     free(coory);
     free(dist);
     free(indi);
+    free(indx);
+    free(indy);
 }
-- 
2.43.0


From 81c92d7152b8b5c2e0941ba6630f392a6fb93da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 008/102] fix: grad and tikh free their step sizes

---
 source/libtomo/recon/grad.c | 1 +
 source/libtomo/recon/tikh.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/libtomo/recon/grad.c b/source/libtomo/recon/grad.c
index 4c44b10..f1b9b9f 100755
--- a/source/libtomo/recon/grad.c
+++ b/source/libtomo/recon/grad.c
@@ -256,4 +256,5 @@ grad(const float* data, int dy, int dt, int dx, const float* center, const float
     free(recon0);
     free(grad0);
     free(grad);
+    free(lambda);
 }
diff --git a/source/libtomo/recon/tikh.c b/source/libtomo/recon/tikh.c
index f62050b..3cc751b 100755
--- a/source/libtomo/recon/tikh.c
+++ b/source/libtomo/recon/tikh.c
@@ -263,4 +263,5 @@ tikh(const float* data, int dy, int dt, int dx, const float* center, const float
     free(recon0);
     free(grad0);
     free(grad);
+    free(lambda);
 }
-- 
2.43.0


From 62b87ec43428f2bed0a790bd162883d626b4e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 009/102] fix: 3D median inpainting sorts exactly the collected
 neighbours

---
 source/libtomo/misc/inpainter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/libtomo/misc/inpainter.c b/source/libtomo/misc/inpainter.c
index 80c9cb0..51dce30 100644
--- a/source/libtomo/misc/inpainter.c
+++ b/source/libtomo/misc/inpainter.c
@@ -505,7 +505,7 @@ median_rand_inpainting_3D(bool* M_upd, const float* Output, float* Updated,
             if(method_type == 1)
             {
                 /* inpainting based on the median neighbour */
-                qsort(_values, window_fullength, sizeof(float), floatcomp1);
+                qsort(_values, counter_local, sizeof(float), floatcomp1);
                 median_val     = (counter_local / 2);
                 Updated[index] = _values[median_val];
             }
-- 
2.43.0


From 32fc0332b548470967005216e39cb4921102b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 010/102] fix: vector2 and vector3 use the angles and center of
 each data set

---
 source/libtomo/recon/vector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index daa8b94..96dc917 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -353,7 +353,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -366,7 +366,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -623,7 +623,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -636,7 +636,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -729,7 +729,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center3[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -742,7 +742,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta3[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
-- 
2.43.0


From cc87dcfb22f0132dec54dc657d8ee7b7d3fc45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 011/102] fix: vector leaves pixels no ray crosses unchanged

---
 source/libtomo/recon/vector.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index 96dc917..1c58a00 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -171,10 +171,13 @@ vector(const float* data, int dy, int dt, int dx, const float* center, const flo
             {
                 for(n = 0; n < ngridy; n++)
                 {
-                    recon1[n + m * ngridy + s * ngridx * ngridy] +=
-                        update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    recon2[n + m * ngridy + s * ngridx * ngridy] +=
-                        update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    if(sum_dist[n + m * ngridy] != 0.0)
+                    {
+                        recon1[n + m * ngridy + s * ngridx * ngridy] +=
+                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
+                        recon2[n + m * ngridy + s * ngridx * ngridy] +=
+                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    }
                 }
             }
 
-- 
2.43.0


From 861edddf2622bb5e1dfd0c4f506202212737a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:39 +0000
Subject: [PATCH 012/102] fix: stripe weights are 0 where the gradient vanishes

---
 source/libtomo/prep/stripes_detect3d.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index b51ec83..873bf37 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -137,7 +137,8 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
 
     index = (size_t) (dimX * dimY * k) + (size_t) (j * dimX + i);
 
-    min_val = 0.0F;
+    min_val       = 0.0F;
+    output[index] = 0.0F;
     /* calculate mean of gradientX in a 2D plate parallel to stripes direction */
     mean_plate = 0.0F;
     for(j_m = -radius; j_m <= radius; j_m++)
-- 
2.43.0


From aa5fc28512fa782938115eeca4031e8fbfbc27da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 013/102] fix: stripe detection windows stay inside small
 volumes

---
 source/libtomo/prep/stripes_detect3d.c | 106 +++++++++----------------
 1 file changed, 36 insertions(+), 70 deletions(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index 873bf37..9f0c76b 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -56,6 +56,19 @@
 /********************************************************************/
 /**********************Supporting Functions**************************/
 /********************************************************************/
+/* Index of the voxel at a given offset, mirrored at the borders; a window that is larger
+than the volume ends at its border */
+static long
+neighbour(long pos, long offset, long dim)
+{
+    long mirrored = pos + offset;
+    if((mirrored < 0) || (mirrored >= dim))
+        mirrored = pos - offset;
+    if((mirrored < 0) || (mirrored >= dim))
+        mirrored = (offset < 0) ? 0 : dim - 1;
+    return mirrored;
+}
+
 /* Calculate the forward difference derrivative of the 3D input in the
 direction of the "axis" parameter using the step_size in pixels to skip pixels
 (i.e. step_size = 1 is the classical gradient)
@@ -86,27 +99,21 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 /* Forward differences */
                 if(axis == 0)
                 {
-                    i1 = i + step_size;
-                    if(i1 >= dimX)
-                        i1 = i - step_size;
+                    i1 = neighbour(i, step_size, dimX);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)] -
                         input[index];
                 }
                 else if(axis == 1)
                 {
-                    j1 = j + step_size;
-                    if(j1 >= dimY)
-                        j1 = j - step_size;
+                    j1 = neighbour(j, step_size, dimY);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i)] -
                         input[index];
                 }
                 else
                 {
-                    k1 = k + step_size;
-                    if(k1 >= dimZ)
-                        k1 = k - step_size;
+                    k1 = neighbour(k, step_size, dimZ);
                     output[index] =
                         input[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] -
                         input[index];
@@ -143,14 +150,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_plate = 0.0F;
     for(j_m = -radius; j_m <= radius; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = neighbour(j, j_m, dimY);
         for(k_m = -radius; k_m <= radius; k_m++)
         {
-            k1 = k + k_m;
-            if((k1 < 0) || (k1 >= dimZ))
-                k1 = k - k_m;
+            k1 = neighbour(k, k_m, dimZ);
             newindex = (size_t) (dimX * dimY * k1) + (size_t) (j1 * dimX + i);
             mean_plate += fabsf(input[newindex]);
         }
@@ -161,14 +164,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_horiz = 0.0F;
     for(j_m = -1; j_m <= 1; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = neighbour(j, j_m, dimY);
         for(i_m = 1; i_m <= radius; i_m++)
         {
-            i1 = i + i_m;
-            if(i1 >= dimX)
-                i1 = i - i_m;
+            i1 = neighbour(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz += fabsf(input[newindex]);
         }
@@ -179,14 +178,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_horiz2 = 0.0F;
     for(j_m = -1; j_m <= 1; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = neighbour(j, j_m, dimY);
         for(i_m = -radius; i_m <= -1; i_m++)
         {
-            i1 = i + i_m;
-            if(i1 < 0)
-                i1 = i - i_m;
+            i1 = neighbour(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz2 += fabsf(input[newindex]);
         }
@@ -237,9 +232,7 @@ vertical_median_stride3d(const float* input, float* output,
     counter = 0;
     for(k_m = -window_halflength_vertical; k_m <= window_halflength_vertical; k_m++)
     {
-        k1 = k + k_m;
-        if((k1 < 0) || (k1 >= dimZ))
-            k1 = k - k_m;
+        k1 = neighbour(k, k_m, dimZ);
         _values[counter] = input[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)];
         counter++;
     }
@@ -270,25 +263,12 @@ mean_stride3d(const float* input, float* output, long i, long j, long k, long di
 
     index = (size_t) (dimX * dimY * k) + (size_t) (j * dimX + i);
 
-    i1 = i - 1;
-    i2 = i + 1;
-    j1 = j - 1;
-    j2 = j + 1;
-    k1 = k - 1;
-    k2 = k + 1;
-
-    if(i1 < 0)
-        i1 = i2;
-    if(i2 >= dimX)
-        i2 = i1;
-    if(j1 < 0)
-        j1 = j2;
-    if(j2 >= dimY)
-        j2 = j1;
-    if(k1 < 0)
-        k1 = k2;
-    if(k2 >= dimZ)
-        k2 = k1;
+    i1 = neighbour(i, -1, dimX);
+    i2 = neighbour(i, 1, dimX);
+    j1 = neighbour(j, -1, dimY);
+    j2 = neighbour(j, 1, dimY);
+    k1 = neighbour(k, -1, dimZ);
+    k2 = neighbour(k, 1, dimZ);
 
     val1 = input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)];
     val2 = input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i2)];
@@ -327,9 +307,7 @@ remove_inconsistent_stripes(const bool* mask, bool* out, int stripe_length_min,
             counter_vert_voxels = 0;
             for(k_m = -halfstripe_length; k_m <= halfstripe_length; k_m++)
             {
-                k1 = k + k_m;
-                if((k1 < 0) || (k1 >= dimZ))
-                    k1 = k - k_m;
+                k1 = neighbour(k, k_m, dimZ);
                 if(mask[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] == true)
                     counter_vert_voxels++;
             }
@@ -352,9 +330,7 @@ remove_inconsistent_stripes(const bool* mask, bool* out, int stripe_length_min,
                 counter_depth_voxels = 0;
                 for(y_m = -halfstripe_depth; y_m <= halfstripe_depth; y_m++)
                 {
-                    y1 = j + y_m;
-                    if((y1 < 0) || (y1 >= dimY))
-                        y1 = j - y_m;
+                    y1 = neighbour(j, y_m, dimY);
                     if(mask[(size_t) (dimX * dimY * k) + (size_t) (y1 * dimX + i)] ==
                        true)
                         counter_depth_voxels++;
@@ -382,9 +358,7 @@ remove_short_stripes(const bool* mask, bool* out, int stripe_length_min, long i,
         counter_vert_voxels = 0;
         for(k_m = -halfstripe_length; k_m <= halfstripe_length; k_m++)
         {
-            k1 = k + k_m;
-            if((k1 < 0) || (k1 >= dimZ))
-                k1 = k - k_m;
+            k1 = neighbour(k, k_m, dimZ);
             if(mask[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] == true)
                 counter_vert_voxels++;
         }
@@ -418,9 +392,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
         mask_left = 0;
         for(x = -halfstripe_width; x <= 0; x++)
         {
-            x_l = i + x;
-            if(x_l < 0)
-                x_l = i - x;
+            x_l = neighbour(i, x, dimX);
             if(mask[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + x_l)] == true)
             {
                 mask_left = 1;
@@ -431,9 +403,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
         mask_right = 0;
         for(x = 0; x <= halfstripe_width; x++)
         {
-            x_r = i + x;
-            if(x_r >= dimX)
-                x_r = i - x;
+            x_r = neighbour(i, x, dimX);
             if(mask[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + x_r)] == true)
             {
                 mask_right = 1;
@@ -452,9 +422,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             mask_up = 0;
             for(x = -vertical_length; x <= 0; x++)
             {
-                k_u = k + x;
-                if(k_u < 0)
-                    k_u = k - x;
+                k_u = neighbour(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_u) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_up = 1;
@@ -465,9 +433,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             mask_down = 0;
             for(x = 0; x <= vertical_length; x++)
             {
-                k_d = k + x;
-                if(k_d >= dimZ)
-                    k_d = k - x;
+                k_d = neighbour(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_d) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_down = 1;
-- 
2.43.0


From cba115037d6f619d6342811b4f3beb12d0e6b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 014/102] fix: ring removal median window stays inside the
 image

---
 source/libtomo/misc/remove_ring.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 1768f39..9ec59a4 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -285,12 +285,10 @@ median_filter_fast_1D(float*** filtered_image, float*** image, int start_row,
                     {
                         adjusted_row -= height / 2;
                     }
-                    median_array[n + kernel_rad] = image[0][adjusted_row][adjusted_col];
-                }
-                else
-                {
-                    median_array[n + kernel_rad] = image[0][row][adjusted_col];
                 }
+                // Same zero fill beyond the last column as when rolling the filter
+                median_array[n + kernel_rad] =
+                    (adjusted_col < width) ? image[0][adjusted_row][adjusted_col] : 0.0;
                 position_array[n + kernel_rad] = n + kernel_rad;
             }
             // Sort the array
-- 
2.43.0


From cc0700740dffe4ea3ef856468dc25bf8a6953579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 015/102] fix: 3D median filters handle inputs other than
 C-ordered float32 and uint16

---
 source/tomopy/misc/corr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 06cc0ae..4bcd24b 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -385,7 +385,8 @@ def median_filter3d(arr, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
-    out = np.empty_like(arr)
+        input_type = arr.dtype
+    out = np.empty_like(arr, order="C")
     dif = 0.0  # set to 0 to avoid selective filtering
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
@@ -447,6 +448,7 @@ def remove_outlier3d(arr, dif, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
+        input_type = arr.dtype
     out = np.copy(arr, order="C")
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
-- 
2.43.0


From ead64c6a528ae2bbb6c0d5201ced0cc6fbb226c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 016/102] fix: sobel_filter filters instead of returning
 uninitialised memory

---
 source/tomopy/misc/corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 4bcd24b..8119747 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -501,7 +501,7 @@ def sobel_filter(arr, axis=0, ncore=None):
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(filters.sobel, arr[slc], output=out[slc])
+            e.submit(scipy.ndimage.sobel, arr[tuple(slc)], output=out[tuple(slc)])
     return out
 
 
-- 
2.43.0


From 76fd0ca5174353f616dd739d820677201dcfc1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 017/102] fix: remove_outlier1d indexes with tuples

---
 source/tomopy/misc/corr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 8119747..3e6e42b 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -659,9 +659,9 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
             slc[lar_axis] = chnk_slices[i]
             e.submit(
                 scipy.ndimage.median_filter,
-                arr[slc],
+                arr[tuple(slc)],
                 size=filt_size,
-                output=tmp[slc],
+                output=tmp[tuple(slc)],
                 mode="mirror",
             )
 
-- 
2.43.0


From 3ffb333a814d5f0e6e1efc0e71b3186a3fe7679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 018/102] fix: filters report the failures of their worker
 threads

---
 source/tomopy/misc/corr.py | 78 ++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 3e6e42b..b499aed 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -150,17 +150,22 @@ def gaussian_filter(arr, sigma=3, order=0, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
-                scipy.ndimage.gaussian_filter,
-                arr[tuple(slc)],
-                sigma,
-                order=order,
-                output=out[tuple(slc)],
+            futures.append(
+                e.submit(
+                    scipy.ndimage.gaussian_filter,
+                    arr[tuple(slc)],
+                    sigma,
+                    order=order,
+                    output=out[tuple(slc)],
+                )
             )
+    for f in futures:
+        f.result()
     return out
 
 
@@ -190,16 +195,21 @@ def median_filter(arr, size=3, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
-                scipy.ndimage.median_filter,
-                arr[tuple(slc)],
-                size=(size, size),
-                output=out[tuple(slc)],
+            futures.append(
+                e.submit(
+                    scipy.ndimage.median_filter,
+                    arr[tuple(slc)],
+                    size=(size, size),
+                    output=out[tuple(slc)],
+                )
             )
+    for f in futures:
+        f.result()
     return out
 
 
@@ -497,11 +507,16 @@ def sobel_filter(arr, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(scipy.ndimage.sobel, arr[tuple(slc)], output=out[tuple(slc)])
+            futures.append(
+                e.submit(scipy.ndimage.sobel, arr[tuple(slc)], output=out[tuple(slc)])
+            )
+    for f in futures:
+        f.result()
     return out
 
 
@@ -593,16 +608,21 @@ def remove_outlier(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [size] * arr.ndim
     filt_size[axis] = 1
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[axis] = chnk_slices[i]
-            e.submit(
-                scipy.ndimage.median_filter,
-                arr[tuple(slc)],
-                size=filt_size,
-                output=tmp[tuple(slc)],
+            futures.append(
+                e.submit(
+                    scipy.ndimage.median_filter,
+                    arr[tuple(slc)],
+                    size=filt_size,
+                    output=tmp[tuple(slc)],
+                )
             )
+    for f in futures:
+        f.result()
 
     arr = dtype.as_float32(arr)
     tmp = dtype.as_float32(tmp)
@@ -653,17 +673,22 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [1] * arr.ndim
     filt_size[axis] = size
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[lar_axis] = chnk_slices[i]
-            e.submit(
-                scipy.ndimage.median_filter,
-                arr[tuple(slc)],
-                size=filt_size,
-                output=tmp[tuple(slc)],
-                mode="mirror",
+            futures.append(
+                e.submit(
+                    scipy.ndimage.median_filter,
+                    arr[tuple(slc)],
+                    size=filt_size,
+                    output=tmp[tuple(slc)],
+                    mode="mirror",
+                )
             )
+    for f in futures:
+        f.result()
 
     with mproc.set_numexpr_threads(ncore):
         out = ne.evaluate("where(arr-tmp>=dif,tmp,arr)", out=out)
@@ -844,10 +869,15 @@ def remove_ring(
 
     axis_size = rec.shape[0]
     ncore, nchunk = mproc.get_ncore_nchunk(axis_size, ncore, nchunk)
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            e.submit(extern.c_remove_ring, out[slc], *args)
+            futures.append(
+                e.submit(extern.c_remove_ring, out[slc], *args)
+            )
+    for f in futures:
+        f.result()
     return out
 
 
-- 
2.43.0


From 66501380b93fab831f9d03758c47aaac2a11dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 019/102] fix: remove_ring writes the corrected input to the
 given output array

---
 source/tomopy/misc/corr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index b499aed..34f2a55 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -833,8 +833,9 @@ def remove_ring(
 
     if out is None:
         out = rec.copy()
-    else:
-        out = dtype.as_float32(out)
+    elif out is not rec:
+        out[...] = rec
+    res = np.require(out, dtype=np.float32, requirements="C")
 
     dz, dy, dx = rec.shape
 
@@ -874,10 +875,12 @@ def remove_ring(
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
             futures.append(
-                e.submit(extern.c_remove_ring, out[slc], *args)
+                e.submit(extern.c_remove_ring, res[slc], *args)
             )
     for f in futures:
         f.result()
+    if res is not out:
+        out[...] = res
     return out
 
 
-- 
2.43.0


From 8557e96b854ad4ed51941609cffd03d71e52522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 020/102] fix: slice-wise inpainting accepts slices one pixel
 wide

---
 source/tomopy/misc/corr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 34f2a55..b82176d 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1134,9 +1134,9 @@ def inpainter_morph(
             # perform 2d inpainting for 3d data using the provided axis
             slices_list = [slice(None), slice(None), slice(None)]
             for m in range(arr.shape[axis]):
-                slices_list[axis] = slice(m,m+1)
-                slice2d = arr[tuple(slices_list)].squeeze()
-                mask2d = mask[tuple(slices_list)].squeeze()
+                slices_list[axis] = m
+                slice2d = arr[tuple(slices_list)]
+                mask2d = mask[tuple(slices_list)]
                 dy, dx = slice2d.shape
                 out2d = np.empty_like(slice2d, order="C")
                 extern.c_inpainter(
-- 
2.43.0


From 8154d182a8d14ff4a201a46bbdac6e45e8bf23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 021/102] fix: inpainting rejects a mask of a different shape

---
 source/tomopy/misc/corr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index b82176d..4443d74 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1105,6 +1105,8 @@ def inpainter_morph(
         raise ValueError(
             "Please make sure that the mask provided is boolean where true values define the missing data regions!"
         )
+    if mask.shape != arr.shape:
+        raise ValueError("The mask must have the same shape as the array")
     out = np.empty_like(arr, order="C")
 
     if inpainting_type not in ["mean", "median", "random"]:
-- 
2.43.0


From ebafb69d55ba5545da5959767dfef60a4edd6c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 022/102] fix: normalize_nf averages the dark field by median

---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index c75e513..ca6aadb 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -302,7 +302,7 @@ def normalize_nf(
     if averaging == 'mean':
         dark = np.mean(dark, axis=0, dtype=np.float32)
     elif averaging == 'median':
-        dark = np.median(dark, axis=0, dtype=np.float32)
+        dark = np.median(dark, axis=0).astype(np.float32)
     else:
         raise ValueError(
             f"'averaging' must be 'mean' or 'median' not {averaging}")
-- 
2.43.0


From ed61a882d1998fe38c5351996aa64bf205cfbc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 023/102] fix: phase retrieval without padding keeps the image

---
 source/tomopy/prep/phase.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index e1be769..14ba4e5 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -136,10 +136,12 @@ def _retrieve_phase(tomo, phase_filter, px, py, prj, pad):
     normalized_phase_filter = phase_filter / phase_filter.max()
     for m in range(num_jobs):
         prj[px:dy + px, py:dz + py] = tomo[m]
-        prj[:px] = prj[px]
-        prj[-px:] = prj[-px-1]
-        prj[:, :py] = prj[:, py][:, np.newaxis]
-        prj[:, -py:] = prj[:, -py-1][:, np.newaxis]
+        if px:
+            prj[:px] = prj[px]
+            prj[-px:] = prj[-px-1]
+        if py:
+            prj[:, :py] = prj[:, py][:, np.newaxis]
+            prj[:, -py:] = prj[:, -py-1][:, np.newaxis]
         fproj = fft2(prj, extra_info=num_jobs)
         fproj *= normalized_phase_filter
         proj = np.real(ifft2(fproj, extra_info=num_jobs, overwrite_input=True))
-- 
2.43.0


From c7ff3866fe83970824f918e727335a459ee12659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 024/102] fix: worker slices do not use the removed np.int

---
 source/tomopy/util/mproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f9b5672..f12a824 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -166,10 +166,10 @@ def get_worker_ncore_slices(axis_size, ncore=None, nchunk=None):
         # calculate number of slices to send to each GPU
         chunk_size = axis_size // ncore
         leftover = axis_size % ncore
-        sizes = np.ones(ncore, dtype=np.int) * chunk_size
+        sizes = np.ones(ncore, dtype=int) * chunk_size
         # evenly distribute leftover across workers
         sizes[:leftover] += 1
-        offsets = np.zeros(ncore+1, dtype=np.int)
+        offsets = np.zeros(ncore+1, dtype=int)
         offsets[1:] = np.cumsum(sizes)
         slcs = [np.s_[offsets[i]:offsets[i+1]]
                 for i in range(offsets.shape[0]-1)]
-- 
2.43.0


From 3de99acfce9d6b63cd7ebd8b774396ce65266fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 025/102] fix: a worker process that exits early is reported
 instead of waited for

---
 source/tomopy/util/mproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f12a824..c0ec01a 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -302,7 +302,7 @@ def distribute_jobs(arr,
                 res = p.map_async(_arg_parser, map_args)
                 try:
                     while not res.ready():
-                        if any(proc.exitcode for proc in proclist):
+                        if any(proc.exitcode is not None for proc in proclist):
                             p.terminate()
                             raise RuntimeError(
                                 "Child process terminated before finishing")
-- 
2.43.0


From c7b97191168d3d053dedbfbff134dd4c2ac0dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 026/102] fix: distributed arrays keep their own data types

---
 source/tomopy/util/mproc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index c0ec01a..0286443 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -288,13 +288,14 @@ def distribute_jobs(arr,
         else:
             map_args.append((func, args, kwargs, i, axis))
 
-    init_shared(shared_arrays, shared_out, arr.dtype, shared_shape,
+    shared_types = [a.dtype for a in arrs]
+    init_shared(shared_arrays, shared_out, shared_types, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
 
     if ncore > 1 and DEBUG is False:
         with closing(mp.Pool(processes=ncore,
                              initializer=init_shared,
-                             initargs=(shared_arrays, shared_out, arr.dtype,
+                             initargs=(shared_arrays, shared_out, shared_types,
                                        shared_shape, shared_out_type,
                                        shared_out_shape, queue))) as p:
             if p._pool:
@@ -374,7 +375,7 @@ def _arg_parser(params):
     global INSHAPE
     global OUTSHAPE
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE, INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
-- 
2.43.0


From 8248c8d03f36748af48e5ed2657d2d94509ac0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 027/102] fix: views of shared memory are distributed as what
 they show

---
 source/tomopy/util/dtype.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 510a5c8..e0f9494 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -166,8 +166,9 @@ def as_c_size_t(arr):
 
 
 def as_sharedmem(arr, copy=False):
-    # first check to see if it already a shared array
-    if not copy and is_sharedmem(arr):
+    # first check to see if it already is a complete shared array, not a view
+    if (not copy and is_sharedmem(arr) and is_contiguous(arr)
+            and arr.nbytes == ctypes.sizeof(get_shared_mem(arr))):
         return arr
     # get ctype from numpy array
     temp_arr = np.empty((1), dtype=arr.dtype)
-- 
2.43.0


From 83834da40b67c27e2cd7d4fa35f93b43e8e8332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 028/102] fix: distributed functions do not overwrite inputs
 that are in shared memory

---
 source/tomopy/util/mproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 0286443..893347d 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -257,7 +257,8 @@ def distribute_jobs(arr,
     shared_out = None
     shared_out_shape = None
     for arr in arrs:
-        arr_shared = as_sharedmem(arr)
+        # the last array becomes the output when none is given: never the caller's
+        arr_shared = as_sharedmem(arr, copy=out is None and arr is arrs[-1])
         shared_arrays.append(get_shared_mem(arr_shared))
         shared_shape.append(arr.shape)
         if out is not None and np.may_share_memory(arr, out) and \
-- 
2.43.0


From 550a55486d6f07d0d0c8beccd3c95522ad6007ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:42 +0000
Subject: [PATCH 029/102] fix: jobs distributed from different threads do not
 share state

---
 source/tomopy/util/mproc.py | 64 +++++++++++--------------------------
 1 file changed, 19 insertions(+), 45 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 893347d..4908171 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -53,6 +53,7 @@ Module for multiprocessing tasks.
 import numpy as np
 import multiprocessing as mp
 import math
+import threading
 from contextlib import closing
 from .dtype import as_sharedmem, to_numpy_array, get_shared_mem
 import logging
@@ -66,15 +67,8 @@ __copyright__ = "Copyright (c) 2015, UChicago Argonne, LLC."
 __docformat__ = 'restructuredtext en'
 __all__ = ['distribute_jobs']
 
-# global shared variables
-SHARED_ARRAYS = None
-SHARED_OUT = None
-SHARED_QUEUE = None
-INTYPE = None
-INSHAPE = None
-OUTTYPE = None
-OUTSHAPE = None
-ON_HOST = False
+# shared variables of the current job, separate for every thread that runs one
+SHARED = threading.local()
 DEBUG = False
 
 
@@ -336,56 +330,36 @@ def distribute_jobs(arr,
 def init_shared(
         shared_arrays, shared_out, intype, inshape,
         outtype, outshape, queue=None, on_host=False):
-    global SHARED_ARRAYS
-    global SHARED_OUT
-    global SHARED_QUEUE
-    global ON_HOST
-    global INTYPE
-    global OUTTYPE
-    global INSHAPE
-    global OUTSHAPE
-    SHARED_ARRAYS = shared_arrays
-    SHARED_OUT = shared_out
-    SHARED_QUEUE = queue
-    ON_HOST = on_host
-    INTYPE = intype
-    OUTTYPE = outtype
-    INSHAPE = inshape
-    OUTSHAPE = outshape
+    SHARED.arrays = shared_arrays
+    SHARED.out = shared_out
+    SHARED.queue = queue
+    SHARED.on_host = on_host
+    SHARED.intype = intype
+    SHARED.outtype = outtype
+    SHARED.inshape = inshape
+    SHARED.outshape = outshape
 
 
 def clear_shared():
-    global SHARED_ARRAYS
-    global SHARED_OUT
-    global SHARED_QUEUE
-    global INTYPE
-    global OUTTYPE
-    SHARED_ARRAYS = None
-    SHARED_OUT = None
-    SHARED_QUEUE = None
-    INTYPE = None
-    OUTTYPE = None
+    SHARED.arrays = None
+    SHARED.out = None
+    SHARED.queue = None
+    SHARED.intype = None
+    SHARED.outtype = None
 
 
 def _arg_parser(params):
-    global SHARED_ARRAYS
-    global SHARED_OUT
-    global SHARED_QUEUE
-    global INTYPE
-    global OUTTYPE
-    global INSHAPE
-    global OUTSHAPE
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, SHARED.intype[idx], SHARED.inshape[idx]), slc, axis) for idx, a in enumerate(SHARED.arrays))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
 
         if result is not None and isinstance(result, np.ndarray):
-            outslice = slice_axis(to_numpy_array(SHARED_OUT, OUTTYPE, OUTSHAPE), slc, axis)
+            outslice = slice_axis(to_numpy_array(SHARED.out, SHARED.outtype, SHARED.outshape), slc, axis)
             outslice[:] = result[:]
     except RunOnHostException:
-        SHARED_QUEUE.put(params)
+        SHARED.queue.put(params)
 
 # apply slice to specific axis on ndarray
 
-- 
2.43.0


From b8975f609f41b10142d9b890239cdc36276f19e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:42 +0000
Subject: [PATCH 030/102] fix: recon does not grow the table of allowed
 keywords

---
 source/tomopy/recon/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 2a73132..139b3d6 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -275,7 +275,9 @@ def recon(tomo,
 
         allowed_kwargs = copy.copy(allowed_recon_kwargs)
         if algorithm in allowed_accelerated_kwargs:
-            allowed_kwargs[algorithm] += allowed_accelerated_kwargs[algorithm]
+            allowed_kwargs[algorithm] = (
+                allowed_kwargs[algorithm] +
+                allowed_accelerated_kwargs[algorithm])
 
         # Check whether we have an allowed method
         if algorithm not in allowed_kwargs:
-- 
2.43.0


From 81946562e82cf580886d84e396797fd52d134900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:42 +0000
Subject: [PATCH 031/102] fix: strided and reordered arguments reach the
 compiled code in order

---
 source/tomopy/recon/algorithm.py |  4 ++--
 source/tomopy/recon/vector.py    | 12 ++++++------
 source/tomopy/sim/project.py     | 18 +++++++++---------
 source/tomopy/util/dtype.py      |  2 +-
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 139b3d6..76e6d97 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -299,7 +299,7 @@ def recon(tomo,
                 # Make sure reg_par and filter_par is float32.
                 if key == 'reg_par' or key == 'filter_par' or key == 'reg_data':
                     if not isinstance(kwargs[key], np.float32):
-                        kwargs[key] = np.array(value, dtype='float32')
+                        kwargs[key] = np.array(value, dtype='float32', order='C')
 
         # Set kwarg defaults.
         for kw in allowed_kwargs[algorithm]:
@@ -471,7 +471,7 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
 
 
 def _get_algorithm_args(theta):
-    theta = dtype.as_float32(theta)
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
     return (theta, )
 
 
diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index 5775dcc..ea5b8b4 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -68,7 +68,7 @@ __all__ = ['vector', 'vector2', 'vector3']
 
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
-    theta = dtype.as_float32(theta)
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
@@ -87,8 +87,8 @@ def vector(tomo, theta, center=None, num_iter=1):
 def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1, axis1=1, axis2=2):
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
+    theta1 = np.require(theta1, dtype=np.float32, requirements="AC")
+    theta2 = np.require(theta2, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
@@ -111,9 +111,9 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
     tomo3 = dtype.as_float32(tomo3)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
-    theta3 = dtype.as_float32(theta3)
+    theta1 = np.require(theta1, dtype=np.float32, requirements="AC")
+    theta2 = np.require(theta2, dtype=np.float32, requirements="AC")
+    theta3 = np.require(theta3, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 765051f..82d11d4 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -299,7 +299,7 @@ def project(
         3D tomographic data.
     """
     obj = dtype.as_float32(obj)
-    theta = dtype.as_float32(theta)
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Estimate data dimensions.
     oy, ox, oz = obj.shape
@@ -367,9 +367,9 @@ def project2(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    theta = dtype.as_float32(theta)
+    objx = np.require(objx, dtype=np.float32, requirements="AC")
+    objy = np.require(objy, dtype=np.float32, requirements="AC")
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -433,10 +433,10 @@ def project3(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    objz = dtype.as_float32(objz)
-    theta = dtype.as_float32(theta)
+    objx = np.require(objx, dtype=np.float32, requirements="AC")
+    objy = np.require(objy, dtype=np.float32, requirements="AC")
+    objz = np.require(objz, dtype=np.float32, requirements="AC")
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -472,7 +472,7 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
-    return dtype.as_float32(center)
+    return np.require(center, dtype=np.float32, requirements="AC")
 
 
 def fan_to_para(tomo, dist, geom):
diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index e0f9494..c18b4e2 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -144,7 +144,7 @@ def as_c_long(arr):
     return ctypes.c_long(arr)
 
 def as_c_int_p(arr):
-    arr = arr.astype(np.intc, copy=False)
+    arr = np.require(arr, dtype=np.intc, requirements='C')
     c_int_p = ctypes.POINTER(ctypes.c_int)
     return arr.ctypes.data_as(c_int_p)
 
-- 
2.43.0


From 549c94e7d422285e85e59c025ed92735759e737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 032/102] fix: tikh regularizes every slice with its own data

---
 source/tomopy/recon/algorithm.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 76e6d97..3a54dd0 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -305,6 +305,12 @@ def recon(tomo,
         for kw in allowed_kwargs[algorithm]:
             kwargs.setdefault(kw, kwargs_defaults[kw])
 
+        # Regularization data matches the reconstruction slice by slice.
+        if 'reg_data' in kwargs:
+            kwargs['reg_data'] = np.ascontiguousarray(np.broadcast_to(
+                kwargs['reg_data'],
+                (tomo.shape[0], kwargs['num_gridx'], kwargs['num_gridy'])))
+
     elif hasattr(algorithm, '__call__'):
         # Set kwarg defaults.
         for kw in generic_kwargs:
@@ -426,10 +432,17 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     # this is used internally to prevent oversubscription
     os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(ncore)
 
+    def slice_kwargs(slc):
+        # regularization data has one volume per slice
+        if "reg_data" in kwargs:
+            return dict(kwargs, reg_data=kwargs["reg_data"][slc])
+        return kwargs
+
     if ncore == 1:
         for slc in use_slcs:
             # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args, **kwargs)
+            algorithm(tomo[slc], center[slc], recon[slc], *args,
+                      **slice_kwargs(slc))
     else:
         # execute recon on ncore processes. Accelerated methods have internal
         # thread-pool and NVIDIA NPP library does not support simulatenously
@@ -452,7 +465,7 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
             with cf.ThreadPoolExecutor(ncore) as e:
                 futures = [
                     e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **kwargs) for slc in use_slcs
+                             *args, **slice_kwargs(slc)) for slc in use_slcs
                 ]
             done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
             for f in done:
@@ -484,7 +497,7 @@ def _get_algorithm_kwargs(shape):
         'filter_par': np.array([0.5, 8], dtype='float32'),
         'num_iter': dtype.as_int32(1),
         'reg_par': np.ones(10, dtype='float32'),
-        'reg_data': np.zeros([dy, dx, dx], dtype='float32'),
+        'reg_data': np.float32(0),
         'num_block': dtype.as_int32(1),
         'ind_block': np.arange(0, dt, dtype=np.int32),
         'options': {},
-- 
2.43.0


From b9d9f4485548e6fb55d643b6007846a8e9e9776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 033/102] fix: recon restores its thread limit after a failure

---
 source/tomopy/recon/algorithm.py | 80 ++++++++++++++++----------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 3a54dd0..b4251c7 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -438,47 +438,47 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
             return dict(kwargs, reg_data=kwargs["reg_data"][slc])
         return kwargs
 
-    if ncore == 1:
-        for slc in use_slcs:
-            # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args,
-                      **slice_kwargs(slc))
-    else:
-        # execute recon on ncore processes. Accelerated methods have internal
-        # thread-pool and NVIDIA NPP library does not support simulatenously
-        # leveraging multiple devices within the same process
-        if "accelerated" in kwargs and kwargs["accelerated"]:
-            futures = []
-            with cf.ProcessPoolExecutor(ncore) as e:
-                for idx, slc in enumerate(use_slcs):
-                    futures.append(
-                        e.submit(_run_accel_algorithm, idx, algorithm,
-                                 tomo[slc], center[slc], recon[slc], *args,
-                                 **kwargs))
-
-            for f, slc in zip(futures, use_slcs):
-                if f.exception() is not None:
-                    raise f.exception()
-                recon[slc] = f.result()
+    try:
+        if ncore == 1:
+            for slc in use_slcs:
+                # run in this thread (useful for debugging)
+                algorithm(tomo[slc], center[slc], recon[slc], *args,
+                          **slice_kwargs(slc))
         else:
-            # execute recon on ncore threads
-            with cf.ThreadPoolExecutor(ncore) as e:
-                futures = [
-                    e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **slice_kwargs(slc)) for slc in use_slcs
-                ]
-            done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
-            for f in done:
-                if f.exception() is not None:
-                    raise f.exception()
-
-
-    if pythreads is not None:
-        # reset to default
-        os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
-    elif os.environ.get("TOMOPY_PYTHON_THREADS"):
-        # if no default set, then
-        del os.environ["TOMOPY_PYTHON_THREADS"]
+            # execute recon on ncore processes. Accelerated methods have internal
+            # thread-pool and NVIDIA NPP library does not support simulatenously
+            # leveraging multiple devices within the same process
+            if "accelerated" in kwargs and kwargs["accelerated"]:
+                futures = []
+                with cf.ProcessPoolExecutor(ncore) as e:
+                    for idx, slc in enumerate(use_slcs):
+                        futures.append(
+                            e.submit(_run_accel_algorithm, idx, algorithm,
+                                     tomo[slc], center[slc], recon[slc], *args,
+                                     **kwargs))
+
+                for f, slc in zip(futures, use_slcs):
+                    if f.exception() is not None:
+                        raise f.exception()
+                    recon[slc] = f.result()
+            else:
+                # execute recon on ncore threads
+                with cf.ThreadPoolExecutor(ncore) as e:
+                    futures = [
+                        e.submit(algorithm, tomo[slc], center[slc], recon[slc],
+                                 *args, **slice_kwargs(slc)) for slc in use_slcs
+                    ]
+                done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
+                for f in done:
+                    if f.exception() is not None:
+                        raise f.exception()
+    finally:
+        if pythreads is not None:
+            # reset to default
+            os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
+        elif os.environ.get("TOMOPY_PYTHON_THREADS"):
+            # if no default set, then
+            del os.environ["TOMOPY_PYTHON_THREADS"]
 
     return recon
 
-- 
2.43.0


From b76f41c500e135a2867eb5a4a2ae5497db45e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:21 +0000
Subject: [PATCH 034/102] fix: reflected ring windows stay inside half a turn

---
 source/libtomo/misc/remove_ring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 9ec59a4..0a190c0 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -628,6 +628,11 @@ remove_ring(float* data, float center_x, float center_y, int dx, int dy, int dz,
             polar_transform(image, center_x, center_y, dx, dy, &pol_width, &pol_height,
                             thresh_max, thresh_min, r_scale, ang_scale, ring_width);
         m_azi = floor((float) pol_height / 360.0 * angular_min);
+        // A reflected window is mirrored once within half a turn
+        if(int_mode == INT_MODE_REFLECT && m_azi > pol_height / 2 - 1)
+        {
+            m_azi = pol_height / 2 - 1;
+        }
         m_rad = 2 * ring_width + 1;
 
         // Call Ring Algorithm
-- 
2.43.0


From 8b981758a3d821adc990bdb5216ea550c57f1f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:04 +0000
Subject: [PATCH 035/102] fix: recon rejects parameters that are too short for
 the algorithm

---
 source/tomopy/recon/algorithm.py | 40 ++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index b4251c7..d7ba335 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -311,6 +311,8 @@ def recon(tomo,
                 kwargs['reg_data'],
                 (tomo.shape[0], kwargs['num_gridx'], kwargs['num_gridy'])))
 
+        _check_algorithm_kwargs(algorithm, tomo.shape, kwargs)
+
     elif hasattr(algorithm, '__call__'):
         # Set kwarg defaults.
         for kw in generic_kwargs:
@@ -369,6 +371,9 @@ def _init_recon(shape, init_recon, val=1e-6, sharedmem=True, empty=False):
                 recon = np.zeros(shape, dtype=np.float32)
     else:
         recon = np.require(init_recon, dtype=np.float32, requirements="AC")
+        if recon.shape != tuple(int(n) for n in shape):
+            raise ValueError('The initial reconstruction must have the shape '
+                             '%s.' % (tuple(int(n) for n in shape), ))
         if sharedmem:
             recon = dtype.as_sharedmem(recon)
     return recon
@@ -483,6 +488,41 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     return recon
 
 
+def _check_algorithm_kwargs(algorithm, shape, kwargs):
+    """Raise ValueError if the algorithm would read past its parameters."""
+    dy, dt, dx = shape
+    gridx, gridy = int(kwargs['num_gridx']), int(kwargs['num_gridy'])
+    if 'pml' in algorithm and min(gridx, gridy) < 2:
+        raise ValueError('%s needs at least two pixels along each axis of the '
+                         'reconstruction grid.' % algorithm)
+
+    if 'reg_par' in kwargs:
+        size = 2 if algorithm == 'tikh' or 'hybrid' in algorithm else 1
+        if np.size(kwargs['reg_par']) < size:
+            raise ValueError('%s needs %d regularization parameters in reg_par.'
+                             % (algorithm, size))
+
+    if 'filter_par' in kwargs:
+        half = 8
+        while 2 * half < max(dx, gridx, gridy):
+            half *= 2
+        size = {'butterworth': 2, 'custom': half, 'custom2d': dt * half}
+        size = size.get(str(kwargs['filter_name']), 0)
+        if np.size(kwargs['filter_par']) < size:
+            raise ValueError('The filter %s needs %d parameters in filter_par.'
+                             % (kwargs['filter_name'], size))
+
+    if 'num_block' in kwargs:
+        num_block = int(kwargs['num_block'])
+        if num_block < 1:
+            raise ValueError('There must be at least one block.')
+        ind_block = np.asarray(kwargs['ind_block'])
+        if num_block > 1 and (ind_block.size < dt or ind_block.min() < 0
+                              or ind_block.max() >= dt):
+            raise ValueError('ind_block must list the indices of all '
+                             'projections.')
+
+
 def _get_algorithm_args(theta):
     theta = np.require(theta, dtype=np.float32, requirements="AC")
     return (theta, )
-- 
2.43.0


From c5f2a4e4d59fb3b360bf198f385e8e95ffd4057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:04 +0000
Subject: [PATCH 036/102] fix: tv compares neighbouring pixels on grids that
 are not square

---
 source/libtomo/recon/tv.c | 70 +++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/source/libtomo/recon/tv.c b/source/libtomo/recon/tv.c
index 2f3e054..c40601c 100755
--- a/source/libtomo/recon/tv.c
+++ b/source/libtomo/recon/tv.c
@@ -127,27 +127,27 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
             // compute proximal of the gradient in x and y directions
             // prox0 = prox0+c*grad(recon);
             // prox0 = prox0/max(1,abs(prox0)/lambda);
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    prox0x[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + iy * ngridx + ix + 1] -
-                             recon[ind_recon + iy * ngridx + ix]);
-                    prox0y[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + (iy + 1) * ngridx + ix] -
-                             recon[ind_recon + iy * ngridx + ix]);
+                    prox0x[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + iy * ngridy + ix + 1] -
+                             recon[ind_recon + iy * ngridy + ix]);
+                    prox0y[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + (iy + 1) * ngridy + ix] -
+                             recon[ind_recon + iy * ngridy + ix]);
                 }
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    upd = sqrt(prox0x[ind_recon + iy * ngridx + ix] *
-                                   prox0x[ind_recon + iy * ngridx + ix] +
-                               prox0y[ind_recon + iy * ngridx + ix] *
-                                   prox0y[ind_recon + iy * ngridx + ix]) /
+                    upd = sqrt(prox0x[ind_recon + iy * ngridy + ix] *
+                                   prox0x[ind_recon + iy * ngridy + ix] +
+                               prox0y[ind_recon + iy * ngridy + ix] *
+                                   prox0y[ind_recon + iy * ngridy + ix]) /
                           lambda;
                     upd = upd < 1 ? 1 : upd;
-                    prox0x[ind_recon + iy * ngridx + ix] /= upd;
-                    prox0y[ind_recon + iy * ngridx + ix] /= upd;
+                    prox0x[ind_recon + iy * ngridy + ix] /= upd;
+                    prox0y[ind_recon + iy * ngridy + ix] /= upd;
                 }
 
             // compute proximal of the projections
@@ -226,34 +226,34 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
 
             // backward step. update with the divergence of prox0 and the
             // adjoint of prox1 update = update-c*R^*(prox1)-c*div(prox0);
-            for(iy = 0; iy < ngridy; iy++)
-                for(ix = 0; ix < ngridx; ix++)
+            for(iy = 0; iy < ngridx; iy++)
+                for(ix = 0; ix < ngridy; ix++)
                 {
-                    update[ind_recon + iy * ngridx + ix] -=
-                        c * adjdata[ind_recon + iy * ngridx + ix];
+                    update[ind_recon + iy * ngridy + ix] -=
+                        c * adjdata[ind_recon + iy * ngridy + ix];
                     if(ix == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0x[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0x[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0x[ind_recon + iy * ngridx + ix] -
-                                 prox0x[ind_recon + iy * ngridx + ix - 1]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0x[ind_recon + iy * ngridy + ix] -
+                                 prox0x[ind_recon + iy * ngridy + ix - 1]);
                     if(iy == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0y[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0y[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0y[ind_recon + iy * ngridx + ix] -
-                                 prox0y[ind_recon + (iy - 1) * ngridx + ix]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0y[ind_recon + iy * ngridy + ix] -
+                                 prox0y[ind_recon + (iy - 1) * ngridy + ix]);
                 }
 
             // update of recon
             // recon = 2*update - recon
-            for(iy = 0; iy < ngridy; iy++)
-                for(ix = 0; ix < ngridx; ix++)
-                    recon[ind_recon + iy * ngridx + ix] =
-                        2 * update[ind_recon + iy * ngridx + ix] -
-                        recon[ind_recon + iy * ngridx + ix];
+            for(iy = 0; iy < ngridx; iy++)
+                for(ix = 0; ix < ngridy; ix++)
+                    recon[ind_recon + iy * ngridy + ix] =
+                        2 * update[ind_recon + iy * ngridy + ix] -
+                        recon[ind_recon + iy * ngridy + ix];
         }
     }
 
-- 
2.43.0


From b1d92d7a0884b52a32b47baa2a57c307aae1b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:50 +0000
Subject: [PATCH 037/102] fix: automatic step of grad and tikh is 0 where the
 gradient does not change

---
 source/libtomo/recon/grad.c | 3 ++-
 source/libtomo/recon/tikh.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/recon/grad.c b/source/libtomo/recon/grad.c
index f1b9b9f..835e06c 100755
--- a/source/libtomo/recon/grad.c
+++ b/source/libtomo/recon/grad.c
@@ -210,7 +210,8 @@ grad(const float* data, int dy, int dt, int dx, const float* center, const float
                                    (grad[ind_recon + iy * ngridx + ix] -
                                     grad0[ind_recon + iy * ngridx + ix]);
                         }
-                    lambda[s] /= upd;
+                    if(upd != 0)
+                        lambda[s] /= upd;
                 }
             }
             else
diff --git a/source/libtomo/recon/tikh.c b/source/libtomo/recon/tikh.c
index 3cc751b..37501e8 100755
--- a/source/libtomo/recon/tikh.c
+++ b/source/libtomo/recon/tikh.c
@@ -218,7 +218,8 @@ tikh(const float* data, int dy, int dt, int dx, const float* center, const float
                                    (grad[ind_recon + iy * ngridx + ix] -
                                     grad0[ind_recon + iy * ngridx + ix]);
                         }
-                    lambda[s] /= upd;
+                    if(upd != 0)
+                        lambda[s] /= upd;
                 }
             }
             else
-- 
2.43.0


From 514d1051d768c2e850ce4a9765ff5661b2779097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 038/102] fix: vector reconstructions reject data that do not
 fit together

---
 source/tomopy/recon/vector.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index ea5b8b4..6a6489d 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -66,12 +66,26 @@ __docformat__ = 'restructuredtext en'
 __all__ = ['vector', 'vector2', 'vector3']
 
 
+def _check_angles(tomo, theta):
+    if tomo.shape[1] != theta.size:
+        raise ValueError('There must be one angle for every projection.')
+
+
+def _check_cubes(*tomos):
+    """The data sets view the same cube along different axes."""
+    for tomo in tomos:
+        if tomo.shape != tomos[0].shape or tomo.shape[0] != tomo.shape[2]:
+            raise ValueError('All data sets must have the same shape with as '
+                             'many slices as detector columns.')
+
+
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
     theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
+    _check_angles(tomo, theta)
 
     recon_shape = (tomo.shape[0], tomo.shape[2], tomo.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
@@ -93,6 +107,9 @@ def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
+    _check_cubes(tomo1, tomo2)
+    _check_angles(tomo1, theta1)
+    _check_angles(tomo2, theta2)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
@@ -119,6 +136,10 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
     tomo3 = init_tomo(tomo3, sinogram_order=False, sharedmem=False)
+    _check_cubes(tomo1, tomo2, tomo3)
+    _check_angles(tomo1, theta1)
+    _check_angles(tomo2, theta2)
+    _check_angles(tomo3, theta3)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
-- 
2.43.0


From 31374da7bc589c886d5f71b175cf258f4b839da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:29 +0000
Subject: [PATCH 039/102] fix: recon rejects analytic filters without their
 parameter

---
 source/tomopy/recon/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index d7ba335..7a21696 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -506,7 +506,8 @@ def _check_algorithm_kwargs(algorithm, shape, kwargs):
         half = 8
         while 2 * half < max(dx, gridx, gridy):
             half *= 2
-        size = {'butterworth': 2, 'custom': half, 'custom2d': dt * half}
+        size = {'hann': 1, 'hamming': 1, 'parzen': 1, 'butterworth': 2,
+                'custom': half, 'custom2d': dt * half}
         size = size.get(str(kwargs['filter_name']), 0)
         if np.size(kwargs['filter_par']) < size:
             raise ValueError('The filter %s needs %d parameters in filter_par.'
-- 
2.43.0


From 75478f7813b8504b8b3e3c41ca665ab18a3275ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:51 +0000
Subject: [PATCH 040/102] fix: jobs are distributed along axes counted from the
 end

---
 source/tomopy/util/mproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 4908171..b4802c6 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -365,6 +365,7 @@ def _arg_parser(params):
 
 
 def slice_axis(arr, slc, axis):
+    axis = axis % arr.ndim
     return arr[tuple(slice(None) if i != axis else slc for i in range(arr.ndim))]
 
 
-- 
2.43.0


From 8c056318d26fa245bc98fd2543d35a4c61e816bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:16 +0000
Subject: [PATCH 041/102] fix: a failed job does not keep its queue and its
 manager process

---
 source/tomopy/util/mproc.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index b4802c6..47aa63b 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -51,6 +51,7 @@ Module for multiprocessing tasks.
 """
 
 import numpy as np
+import functools
 import multiprocessing as mp
 import math
 import threading
@@ -192,6 +193,18 @@ def get_worker_ncore_slices(axis_size, ncore=None, nchunk=None):
     return ncore, slcs
 
 
+def _releases_shared(func):
+    """Release the shared variables of the job however the function ends."""
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        try:
+            return func(*args, **kwargs)
+        finally:
+            clear_shared()
+    return wrapper
+
+
+@_releases_shared
 def distribute_jobs(arr,
                     func,
                     axis,
-- 
2.43.0


From e9a8ffc849e69ec4a06b15ddf79ecc4b1afa3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:43 +0000
Subject: [PATCH 042/102] fix: normalize_bg rejects more air pixels than the
 image has

---
 source/tomopy/prep/normalize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index ca6aadb..9783cfe 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -230,6 +230,9 @@ def normalize_bg(tomo, air=1, ncore=None, nchunk=None):
     """
     tomo = dtype.as_float32(tomo)
     air = dtype.as_int32(air)
+    if not 0 < air <= tomo.shape[2]:
+        raise ValueError(f"'air' must be between 1 and the width "
+                         f"{tomo.shape[2]} not {air}")
 
     arr = mproc.distribute_jobs(
         tomo,
-- 
2.43.0


From 2fd6a8a12d2caed001814e74c50f8b753689bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:01 +0000
Subject: [PATCH 043/102] fix: remove_outlier_cuda without tomocuda works along
 the given axis

---
 source/tomopy/misc/corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 4443d74..5a5841b 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -770,7 +770,7 @@ def remove_outlier_cuda(arr, dif, size=3, axis=0):
 
     except ImportError:
         warnings.warn("The tomocuda is not support, using cpu outlier removal")
-        out = remove_outlier(arr, dif, size)
+        out = remove_outlier(arr, dif, size, axis)
 
     return out
 
-- 
2.43.0


From 97d50cfad747d8e069ed88318989ddc7243c6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:01 +0000
Subject: [PATCH 044/102] fix: remove_outlier1d does not split the data along
 an axis counted from the end

---
 source/tomopy/misc/corr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 5a5841b..975e3fd 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -666,6 +666,7 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
 
     tmp = np.empty_like(arr)
 
+    axis = axis % arr.ndim
     other_axes = [i for i in range(arr.ndim) if i != axis]
     largest = np.argmax([arr.shape[i] for i in other_axes])
     lar_axis = other_axes[largest]
-- 
2.43.0


From da9a0b1023e522825660d0aa86f6c415ab8b139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 045/102] fix: remove_stripe_ti returns finite values for
 sinograms without stripes

---
 source/tomopy/prep/stripe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 7523f0b..f0f27c2 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -252,6 +252,8 @@ def _ringMatXvec(h, x):
 
 def _ringCGM(h, alpha, f):
     x0 = np.zeros(np.size(f))
+    if np.isinf(alpha) or np.linalg.norm(f) < 0.0000001:
+        return x0
     r = f - (_ringMatXvec(h, x0) + alpha * x0)
     w = -r
     z = _ringMatXvec(h, w) + alpha * w
-- 
2.43.0


From 6d257783c57ea407f02e1ef40b83a07414980fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 046/102] fix: remove_stripe_ti replaces NaN also when it works
 in blocks

---
 source/tomopy/prep/stripe.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index f0f27c2..dab5f76 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -307,8 +307,7 @@ def _ringb(sino, m, n, step):
     N = np.size(mysino, 1)
 
     # Remove NaN.
-    pos = np.where(np.isnan(mysino) is True)
-    mysino[pos] = 0
+    mysino[np.isnan(mysino)] = 0
 
     # Kernel & regularization parameter.
     h = _kernel(m, n)
-- 
2.43.0


From 3e8395767b6690a30380961f5ab62039bf06a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 047/102] fix: the last block of remove_stripe_ti holds all
 remaining projections

---
 source/tomopy/prep/stripe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index dab5f76..1e7872d 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -316,7 +316,8 @@ def _ringb(sino, m, n, step):
     nblock = int(N / step)
     new = np.ones((R, N))
     for k in range(0, nblock):
-        sino_block = mysino[:, k * step:(k + 1) * step]
+        stop = N if k == nblock - 1 else (k + 1) * step
+        sino_block = mysino[:, k * step:stop]
         alpha = _get_parameter(sino_block)
         pp = sino_block.mean(1)
 
@@ -325,8 +326,8 @@ def _ringb(sino, m, n, step):
 
         # Update sinogram.
         q.shape = (R, 1)
-        K = np.kron(q, np.ones((1, step)))
-        new[:, k * step:(k + 1) * step] = np.add(sino_block, K)
+        K = np.kron(q, np.ones((1, stop - k * step)))
+        new[:, k * step:stop] = np.add(sino_block, K)
     newsino = new.astype(np.float32)
     return np.transpose(newsino)
 
-- 
2.43.0


From b333ecb2a4cd84d8ee633803fd3fe93efae918dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 048/102] fix: remove_stripe_based_fitting keeps columns that
 are 0

---
 source/tomopy/prep/stripe.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 1e7872d..1889349 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -637,8 +637,13 @@ def _rs_fit(sinogram, order, win2d, matsign, pad):
     sinofitsmooth = _2d_filter(sinofit, win2d, matsign, pad)
     num1 = np.mean(sinofit)
     num2 = np.mean(sinofitsmooth)
-    sinofitsmooth = num1 * sinofitsmooth / num2
-    return sinogram / sinofit * sinofitsmooth
+    if num2 != 0:
+        sinofitsmooth = num1 * sinofitsmooth / num2
+    ratio = np.divide(sinogram,
+                      sinofit,
+                      out=np.zeros_like(sinofit),
+                      where=sinofit != 0)
+    return ratio * sinofitsmooth
 
 
 def _remove_stripe_based_fitting(tomo, order, sigma):
-- 
2.43.0


From c6ca0414bea1201c3456a3fa2ece4e72001fb50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:25 +0000
Subject: [PATCH 049/102] fix: stripe removal does not divide columns that are
 0 by 0

---
 source/tomopy/prep/stripe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 1889349..3f88aa2 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -744,7 +744,7 @@ def _rs_large(sinogram, snr, size, matindex, drop_ratio=0.1, norm=True):
     # Locate stripes
     listmask = _detect_stripe(listfact, snr)
     listmask = binary_dilation(listmask, iterations=1).astype(listmask.dtype)
-    matfact = np.tile(listfact, (nrow, 1))
+    matfact = np.tile(np.where(listfact == 0, 1, listfact), (nrow, 1))
     # Normalize
     if norm is True:
         sinogram = sinogram / matfact
@@ -962,7 +962,7 @@ def _rs_interpolation(sinogram, snr, size, drop_ratio=0.1, norm=True):
                          where=list2 != 0)
     listmask = _detect_stripe(listfact, snr)
     listmask = np.float32(binary_dilation(listmask, iterations=1))
-    matfact = np.tile(listfact, (nrow, 1))
+    matfact = np.tile(np.where(listfact == 0, 1, listfact), (nrow, 1))
     if norm is True:
         sinogram = sinogram / matfact
     listmask[0:2] = 0.0
-- 
2.43.0


From 942493e0a9668f87497484730cd79983bb689586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 050/102] fix: phase filter is aligned with the frequencies of
 images of odd size

---
 source/tomopy/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index 14ba4e5..abdbdee 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -116,7 +116,7 @@ def retrieve_phase(
     w2 = _reciprocal_grid(pixel_size, dy + 2 * py, dz + 2 * pz)
 
     # Filter in Fourier space.
-    phase_filter = np.fft.fftshift(
+    phase_filter = np.fft.ifftshift(
         _paganin_filter_factor(energy, dist, alpha, w2))
 
     prj = np.full((dy + 2 * py, dz + 2 * pz), val, dtype='float32')
-- 
2.43.0


From 294b10617bbb2c18cdafabadef6ddf69231a0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 051/102] fix: pad extends boolean arrays by a constant

---
 source/tomopy/misc/morph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 5d7668b..730f629 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -139,8 +139,7 @@ def pad(arr, axis, npad=None, mode='constant', ncore=None, **kwargs):
         with mproc.set_numexpr_threads(ncore):
             ne.evaluate("arr", out=out[slc_in])
             if mode == 'constant':
-                np_cast = getattr(np, str(arr.dtype))
-                cval = np_cast(kwargs['constant_values'])
+                cval = arr.dtype.type(kwargs['constant_values'])
                 ne.evaluate("cval", out=out[slc_l])
                 ne.evaluate("cval", out=out[slc_r])
             elif mode == 'edge':
-- 
2.43.0


From 6326788fbcb54b1a3eeccc9f6c33c61727f5c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 052/102] fix: pad by nothing returns the array

---
 source/tomopy/misc/morph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 730f629..f88e282 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -133,7 +133,7 @@ def pad(arr, axis, npad=None, mode='constant', ncore=None, **kwargs):
     slc_r_v = tuple(slc_r_v)
 
     out = np.empty(newshape, dtype=arr.dtype)
-    if arr.dtype in [np.float32, np.float64, bool,
+    if npad > 0 and arr.dtype in [np.float32, np.float64, bool,
                      np.int32, np.int64, np.complex128]:
         # Datatype supported by numexpr
         with mproc.set_numexpr_threads(ncore):
-- 
2.43.0


From 6db7a774dcecd761a3a20c9680e6aaa386a9c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 053/102] fix: trim_sinogram slices with integers

---
 source/tomopy/misc/morph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index f88e282..48cf8c6 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -284,14 +284,14 @@ def trim_sinogram(data, center, x, y, diameter):
     l1 = center - diameter / 2
     l2 = center - diameter / 2 + rad
 
-    roidata = np.ones((dx, dy, diameter), dtype='float32')
+    roidata = np.ones((dx, dy, int(diameter)), dtype='float32')
 
     delphi = np.pi / dx
     for m in range(dx):
 
         # Calculate start end coordinates for each row of the sinogram.
-        ind1 = np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1)
-        ind2 = np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter)
+        ind1 = int(np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1))
+        ind2 = int(np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter))
 
         # Make sure everythin is inside the frame.
         if ind1 < 0:
-- 
2.43.0


From 7da283c728a54c155e4e1997e83dcecc9ac23bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 054/102] fix: sino_360_to_180 accepts no and full overlap on
 both sides

---
 source/tomopy/misc/morph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 48cf8c6..d436f4f 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -341,14 +341,14 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
 
     if rotation == 'left':
         weights = np.linspace(0, 1.0, overlap)
-        out[:, :, -dz+overlap:] = data[:n, :, overlap:]
+        out[:, :, dz:] = data[:n, :, overlap:]
         out[:, :, :dz-overlap] = data[n:2*n, :, overlap:][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] + (weights*data[n:2*n, :, :overlap])[:, :, ::-1]
     elif rotation == 'right':
         weights = np.linspace(1.0, 0, overlap)
-        out[:, :, :dz-overlap] = data[:n, :, :-overlap]
-        out[:, :, -dz+overlap:] = data[n:2*n, :, :-overlap][:, :, ::-1]
-        out[:, :, dz-overlap:dz] = weights*data[:n, :, -overlap:] + (weights*data[n:2*n, :, -overlap:])[:, :, ::-1]
+        out[:, :, :dz-overlap] = data[:n, :, :dz-overlap]
+        out[:, :, dz:] = data[n:2*n, :, :dz-overlap][:, :, ::-1]
+        out[:, :, dz-overlap:dz] = weights*data[:n, :, dz-overlap:] + (weights*data[n:2*n, :, dz-overlap:])[:, :, ::-1]
     return out
 
 # For backward compatibility
-- 
2.43.0


From 44a6dfee48d4ffed1cb613445c936bc878da6cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 055/102] fix: sino_360_to_180 blends an overlap of one pixel

---
 source/tomopy/misc/morph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index d436f4f..71ea365 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -340,12 +340,12 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
     out = np.empty((n, dy, 2*dz-overlap), dtype=data.dtype)
 
     if rotation == 'left':
-        weights = np.linspace(0, 1.0, overlap)
+        weights = np.linspace(0, 1.0, overlap) if overlap > 1 else 0.5
         out[:, :, dz:] = data[:n, :, overlap:]
         out[:, :, :dz-overlap] = data[n:2*n, :, overlap:][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] + (weights*data[n:2*n, :, :overlap])[:, :, ::-1]
     elif rotation == 'right':
-        weights = np.linspace(1.0, 0, overlap)
+        weights = np.linspace(1.0, 0, overlap) if overlap > 1 else 0.5
         out[:, :, :dz-overlap] = data[:n, :, :dz-overlap]
         out[:, :, dz:] = data[n:2*n, :, :dz-overlap][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, dz-overlap:] + (weights*data[n:2*n, :, dz-overlap:])[:, :, ::-1]
-- 
2.43.0


From c1ba5402be21bf7b3f7d1115a9e3e474968cd4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 056/102] fix: sino_360_to_180 rejects unknown rotations and
 impossible overlaps

---
 source/tomopy/misc/morph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 71ea365..6a1e1e2 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -335,6 +335,11 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
 
     overlap = int(np.round(overlap))
 
+    if rotation not in ('left', 'right'):
+        raise ValueError("rotation must be 'left' or 'right'")
+    if not 0 <= overlap <= dz:
+        raise ValueError('overlap must be between 0 and the width of the data')
+
     n = dx//2
 
     out = np.empty((n, dy, 2*dz-overlap), dtype=data.dtype)
-- 
2.43.0


From ca10d41c866a20109d326151196e8d3afc1ed2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 057/102] fix: resampling accepts axes counted from the end

---
 source/tomopy/misc/morph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 6a1e1e2..43aa210 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -232,6 +232,7 @@ def upsample(arr, level=1, axis=2):
 def _sample(arr, level, axis, mode):
     arr = dtype.as_float32(arr.copy())
     dx, dy, dz = arr.shape
+    axis = axis + 3 if axis < 0 else axis
     # Determine the new size, dim, of the down-/up-sampled dimension
     if mode == 0:
         dim = int(arr.shape[axis] / np.power(2, level))
-- 
2.43.0


From 3889e57c72f62cf23c578f038326f4a238829c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 058/102] fix: downsample skips trailing pixels that do not
 fill a bin

---
 source/libtomo/misc/morph.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/misc/morph.c b/source/libtomo/misc/morph.c
index 3c31fdd..7f675dc 100755
--- a/source/libtomo/misc/morph.c
+++ b/source/libtomo/misc/morph.c
@@ -50,7 +50,7 @@
 DLL void
 downsample(const float* data, int dx, int dy, int dz, int level, int axis, float* out)
 {
-    unsigned           m, n, p, binsize;
+    unsigned           m, n, p, binsize, rest;
     unsigned long long i, j, k, ind;
 
     binsize = pow(2, level);
@@ -81,6 +81,7 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
     }
     else if(axis == 1)
     {
+        rest = dy % binsize;  // trailing pixels that do not fill a bin
         dy /= binsize;
         for(m = 0, ind = 0; m < (unsigned) dx; m++)
         {
@@ -97,10 +98,12 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
                     }
                 }
             }
+            ind += rest * dz;
         }
     }
     else if(axis == 2)
     {
+        rest = dz % binsize;  // trailing pixels that do not fill a bin
         dz /= binsize;
         for(m = 0, ind = 0; m < (unsigned) dx; m++)
         {
@@ -116,6 +119,7 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
                         ind++;
                     }
                 }
+                ind += rest;
             }
         }
     }
-- 
2.43.0


From 95fc851cc7213e3eb33762caef1e4d6bc6212ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:30 +0000
Subject: [PATCH 059/102] fix: scale, shift_images, add_jitter and the
 alignment routines no longer change the caller's projections

---
 source/tomopy/prep/alignment.py | 2142 +++++++++++++++----------------
 1 file changed, 1071 insertions(+), 1071 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index abc70a9..689de3e 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -1,1071 +1,1071 @@
-#!/usr/bin/env python
-# -*- coding: utf-8 -*-
-
-# #########################################################################
-# Copyright (c) 2016-2019, UChicago Argonne, LLC. All rights reserved.    #
-#                                                                         #
-# Copyright 2016-2019. UChicago Argonne, LLC. This software was produced  #
-# under U.S. Government contract DE-AC02-06CH11357 for Argonne National   #
-# Laboratory (ANL), which is operated by UChicago Argonne, LLC for the    #
-# U.S. Department of Energy. The U.S. Government has rights to use,       #
-# reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR    #
-# UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR        #
-# ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is     #
-# modified to produce derivative works, such modified software should     #
-# be clearly marked, so as not to confuse it with the version available   #
-# from ANL.                                                               #
-#                                                                         #
-# Additionally, redistribution and use in source and binary forms, with   #
-# or without modification, are permitted provided that the following      #
-# conditions are met:                                                     #
-#                                                                         #
-#     * Redistributions of source code must retain the above copyright    #
-#       notice, this list of conditions and the following disclaimer.     #
-#                                                                         #
-#     * Redistributions in binary form must reproduce the above copyright #
-#       notice, this list of conditions and the following disclaimer in   #
-#       the documentation and/or other materials provided with the        #
-#       distribution.                                                     #
-#                                                                         #
-#     * Neither the name of UChicago Argonne, LLC, Argonne National       #
-#       Laboratory, ANL, the U.S. Government, nor the names of its        #
-#       contributors may be used to endorse or promote products derived   #
-#       from this software without specific prior written permission.     #
-#                                                                         #
-# THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS     #
-# "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT       #
-# LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS       #
-# FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago     #
-# Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,        #
-# INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,    #
-# BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;        #
-# LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER        #
-# CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT      #
-# LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN       #
-# ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE         #
-# POSSIBILITY OF SUCH DAMAGE.                                             #
-# #########################################################################
-
-import numpy as np
-import concurrent.futures as cf
-import tomopy.util.mproc as mproc
-import logging
-
-from skimage import transform as tf
-from skimage.registration import phase_cross_correlation
-from tomopy.recon.algorithm import recon
-from tomopy.sim.project import project
-from tomopy.misc.npmath import gauss1d, calc_affine_transform
-from tomopy.util.misc import write_tiff
-from scipy.signal import medfilt, medfilt2d
-from scipy.optimize import curve_fit
-from scipy.ndimage import affine_transform
-from scipy.ndimage import map_coordinates
-from collections import namedtuple
-
-logger = logging.getLogger(__name__)
-
-
-__author__ = "Doga Gursoy, Chen Zhang, Nghia Vo"
-__copyright__ = "Copyright (c) 2016-19, UChicago Argonne, LLC."
-__docformat__ = 'restructuredtext en'
-__all__ = ['align_seq',
-           'align_joint',
-           'scale',
-           'tilt',
-           'add_jitter',
-           'add_noise',
-           'blur_edges',
-           'shift_images',
-           'find_slits_corners_aps_1id',
-           'calc_slit_box_aps_1id',
-           'remove_slits_aps_1id',
-           'distortion_correction_proj',
-           'distortion_correction_sino',
-           'load_distortion_coefs',
-           ]
-
-
-def align_seq(
-        prj, ang, fdir='.', iters=10, pad=(0, 0),
-        blur=True, center=None, algorithm='sirt',
-        upsample_factor=10, rin=0.5, rout=0.8,
-        save=False, debug=True):
-    """
-    Aligns the projection image stack using the sequential
-    re-projection algorithm :cite:`Gursoy:17`.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ang : ndarray
-        Projection angles in radians as an array.
-    iters : scalar, optional
-        Number of iterations of the algorithm.
-    pad : list-like, optional
-        Padding for projection images in x and y-axes.
-    blur : bool, optional
-        Blurs the edge of the image before registration.
-    center: array, optional
-        Location of rotation axis.
-    algorithm : {str, function}
-        One of the following string values.
-
-        'art'
-            Algebraic reconstruction technique :cite:`Kak:98`.
-        'gridrec'
-            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
-            :cite:`Rivers:06`.
-        'mlem'
-            Maximum-likelihood expectation maximization algorithm
-            :cite:`Dempster:77`.
-        'sirt'
-            Simultaneous algebraic reconstruction technique.
-        'tv'
-            Total Variation reconstruction technique
-            :cite:`Chambolle:11`.
-        'grad'
-            Gradient descent method with a constant step size
-
-    upsample_factor : integer, optional
-        The upsampling factor. Registration accuracy is
-        inversely propotional to upsample_factor.
-    rin : scalar, optional
-        The inner radius of blur function. Pixels inside
-        rin is set to one.
-    rout : scalar, optional
-        The outer radius of blur function. Pixels outside
-        rout is set to zero.
-    save : bool, optional
-        Saves projections and corresponding reconstruction
-        for each algorithm iteration.
-    debug : book, optional
-        Provides debugging info such as iterations and error.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    ndarray
-        Error array for each iteration.
-    """
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Shift arrays
-    sx = np.zeros((prj.shape[0]))
-    sy = np.zeros((prj.shape[0]))
-
-    conv = np.zeros((iters))
-
-    # Pad images.
-    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
-    prj = np.pad(prj, npad, mode='constant', constant_values=0)
-
-    # Register each image frame-by-frame.
-    for n in range(iters):
-        # Reconstruct image.
-        rec = recon(prj, ang, center=center, algorithm=algorithm)
-
-        # Re-project data and obtain simulated data.
-        sim = project(rec, ang, center=center, pad=False)
-
-        # Blur edges.
-        if blur:
-            _prj = blur_edges(prj, rin, rout)
-            _sim = blur_edges(sim, rin, rout)
-        else:
-            _prj = prj
-            _sim = sim
-
-        # Initialize error matrix per iteration.
-        err = np.zeros((prj.shape[0]))
-
-        # For each projection
-        for m in range(prj.shape[0]):
-
-            # Register current projection in sub-pixel precision
-            shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], upsample_factor=upsample_factor)
-            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
-            sx[m] += shift[0]
-            sy[m] += shift[1]
-
-            # Register current image with the simulated one
-            tform = tf.SimilarityTransform(translation=(shift[1], shift[0]))
-            prj[m] = tf.warp(prj[m], tform, order=5)
-
-        if debug:
-            print('iter=' + str(n) + ', err=' + str(np.linalg.norm(err)))
-            conv[n] = np.linalg.norm(err)
-
-        if save:
-            write_tiff(prj, fdir + '/tmp/iters/prj', n)
-            write_tiff(sim, fdir + '/tmp/iters/sim', n)
-            write_tiff(rec, fdir + '/tmp/iters/rec', n)
-
-    # Re-normalize data
-    prj *= scl
-    return prj, sx, sy, conv
-
-
-def align_joint(
-        prj, ang, fdir='./', iters=10, pad=(0, 0),
-        blur=True, center=None, algorithm='sirt',
-        upsample_factor=10, rin=0.5, rout=0.8,
-        save=False, debug=True):
-    """
-    Aligns the projection image stack using the joint
-    re-projection algorithm :cite:`Gursoy:17`.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ang : ndarray
-        Projection angles in radians as an array.
-    iters : scalar, optional
-        Number of iterations of the algorithm.
-    pad : list-like, optional
-        Padding for projection images in x and y-axes.
-    blur : bool, optional
-        Blurs the edge of the image before registration.
-    center: array, optional
-        Location of rotation axis.
-    algorithm : {str, function}
-        One of the following string values.
-
-        'art'
-            Algebraic reconstruction technique :cite:`Kak:98`.
-        'gridrec'
-            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
-            :cite:`Rivers:06`.
-        'mlem'
-            Maximum-likelihood expectation maximization algorithm
-            :cite:`Dempster:77`.
-        'sirt'
-            Simultaneous algebraic reconstruction technique.
-        'tv'
-            Total Variation reconstruction technique
-            :cite:`Chambolle:11`.
-        'grad'
-            Gradient descent method with a constant step size
-
-    upsample_factor : integer, optional
-        The upsampling factor. Registration accuracy is
-        inversely propotional to upsample_factor.
-    rin : scalar, optional
-        The inner radius of blur function. Pixels inside
-        rin is set to one.
-    rout : scalar, optional
-        The outer radius of blur function. Pixels outside
-        rout is set to zero.
-    save : bool, optional
-        Saves projections and corresponding reconstruction
-        for each algorithm iteration.
-    debug : book, optional
-        Provides debugging info such as iterations and error.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    ndarray
-        Error array for each iteration.
-    """
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Shift arrays
-    sx = np.zeros((prj.shape[0]))
-    sy = np.zeros((prj.shape[0]))
-
-    conv = np.zeros((iters))
-
-    # Pad images.
-    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
-    prj = np.pad(prj, npad, mode='constant', constant_values=0)
-
-    # Initialization of reconstruction.
-    rec = 1e-12 * np.ones((prj.shape[1], prj.shape[2], prj.shape[2]))
-
-    extra_kwargs = {}
-    if algorithm != 'gridrec':
-        extra_kwargs['num_iter'] = 1
-
-    # Make a copy of the projections
-    prj_copy = prj.copy()
-
-    # Register each image frame-by-frame.
-    for n in range(iters):
-
-        if np.mod(n, 1) == 0:
-            _rec = rec
-
-        # Reconstruct image.
-        rec = recon(prj_copy, ang, center=center, algorithm=algorithm,
-                    init_recon=_rec, **extra_kwargs)
-
-        # Re-project data and obtain simulated data.
-        sim = project(rec, ang, center=center, pad=False)
-
-        # Blur edges.
-        if blur:
-            _prj = blur_edges(prj_copy, rin, rout)
-            _sim = blur_edges(sim, rin, rout)
-        else:
-            _prj = prj_copy
-            _sim = sim
-
-        # Initialize error matrix per iteration.
-        err = np.zeros((prj.shape[0]))
-
-        # For each projection
-        for m in range(prj.shape[0]):
-
-            # Register current projection in sub-pixel precision
-            shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], normalization=None,
-                    upsample_factor=upsample_factor)
-            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
-            sx[m] += shift[0]
-            sy[m] += shift[1]
-
-            # Register current image with the simulated one
-            tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
-            prj_copy[m] = tf.warp(prj[m].copy(), tform, order=5)
-
-        if debug:
-            print('iter=' + str(n) + 
-                  ', err=' + str(np.linalg.norm(err) / prj.shape[0]))
-            conv[n] = np.linalg.norm(err)
-
-        if save:
-            write_tiff(_prj, fdir + 'tmp/iters/prj', n)
-            write_tiff(sim, fdir + 'tmp/iters/sim', n)
-            write_tiff(rec, fdir + 'tmp/iters/rec', n)
-            write_tiff(sx, fdir + 'tmp/iters/sx', n)
-            write_tiff(sy, fdir + 'tmp/iters/sy', n)
-
-    # Re-normalize data
-    prj *= scl
-    return prj, sx, sy, conv
-
-
-def tilt(obj, rad=0, phi=0):
-    """
-    Tilt object at a given angle from the rotation axis.
-
-    Warning
-    -------
-    Not implemented yet.
-
-    Parameters
-    ----------
-    obj : ndarray
-        3D discrete object.
-    rad : scalar, optional
-        Radius in polar cordinates to define tilt angle.
-        The value is between 0 and 1, where 0 means no tilt
-        and 1 means a tilt of 90 degrees. The tilt angle
-        can be obtained by arcsin(rad).
-    phi : scalar, optional
-        Angle in degrees to define tilt direction from the
-        rotation axis. 0 degree means rotation in sagittal
-        plane and 90 degree means rotation in coronal plane.
-
-    Returns
-    -------
-    ndarray
-        Tilted 3D object.
-    """
-    pass
-
-
-def add_jitter(prj, low=0, high=1):
-    """
-    Simulates jitter in projection images. The jitter
-    is simulated by drawing random samples from a uniform
-    distribution over the half-open interval [low, high).
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    low : float, optional
-        Lower boundary of the output interval. All values
-        generated will be greater than or equal to low. The
-        default value is 0.
-    high : float
-        Upper boundary of the output interval. All values
-        generated will be less than high. The default value
-        is 1.0.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    """
-    from skimage import transform as tf
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Random jitter parameters are drawn from uniform distribution.
-    jitter = np.random.uniform(low, high, size=(prj.shape[0], 2))
-
-    for m in range(prj.shape[0]):
-        tform = tf.SimilarityTransform(translation=jitter[m])
-        prj[m] = tf.warp(prj[m], tform, order=0)
-
-    # Re-scale back to original values.
-    prj *= scl
-    return prj, jitter[:, 0], jitter[:, 1]
-
-
-def add_noise(prj, ratio=0.05):
-    """
-    Adds Gaussian noise with zero mean and a given standard
-    deviation as a ratio of the maximum value in data.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ratio : float, optional
-        Ratio of the standard deviation of the Gaussian noise
-        distribution to the maximum value in data.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with added Gaussian noise.
-    """
-    std = prj.max() * ratio
-    noise = np.random.normal(0, std, size=prj.shape)
-    return prj + noise.astype('float32')
-
-
-def scale(prj):
-    """
-    Linearly scales the projection images in the range
-    between -1 and 1.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-
-    Returns
-    -------
-    ndarray
-        Scaled 3D stack of projection images.
-    """
-    scl = max(abs(prj.max()), abs(prj.min()))
-    prj /= scl
-    return prj, scl
-
-
-def blur_edges(prj, low=0, high=0.8):
-    """
-    Blurs the edge of the projection images.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    low : scalar, optional
-        Min ratio of the blurring frame to the image size.
-    high : scalar, optional
-        Max ratio of the blurring frame to the image size.
-
-    Returns
-    -------
-    ndarray
-        Edge-blurred 3D stack of projection images.
-    """
-    _prj = prj.copy()
-    dx, dy, dz = _prj.shape
-    rows, cols = np.mgrid[:dy, :dz]
-    rad = np.sqrt((rows - dy / 2)**2 + (cols - dz / 2)**2)
-    mask = np.zeros((dy, dz))
-    rmin, rmax = low * rad.max(), high * rad.max()
-    mask[rad < rmin] = 1
-    mask[rad > rmax] = 0
-    zone = np.logical_and(rad >= rmin, rad <= rmax)
-    mask[zone] = (rmax - rad[zone]) / (rmax - rmin)
-    feathered = np.empty((dy, dz), dtype=np.uint8)
-    _prj *= mask
-    return _prj
-
-
-def shift_images(prj, sx, sy):
-    """
-    Shift projections images for a given set of shift
-    values in horizontal and vertical directions.
-    """
-
-    from skimage import transform as tf
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # For each projection
-    for m in range(prj.shape[0]):
-        tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
-        prj[m] = tf.warp(prj[m], tform, order=5)
-
-    # Re-normalize data
-    prj *= scl
-
-    return prj
-
-
-def find_slits_corners_aps_1id(img,
-                               method='quadrant+',
-                               medfilt2_kernel_size=3,
-                               medfilt_kernel_size=23,
-                               ):
-    """
-    Automatically locate the slit box location by its four corners.
-
-    NOTE:
-    The four slits that form a binding box is the current setup at aps_1id,
-    which reduce the illuminated region on the detector. Since the slits are
-    stationary, they can serve as a reference to check detector drifting
-    during the scan. Technically, the four slits should be used to find
-    the transformation matrix (not necessarily affine) to correct the image.
-    However, since we are dealing with 2D images with very little distortion,
-    affine transformation matrices were used for approximation. Therefore
-    the "four corners" are used instead of all four slits.
-
-    Parameters
-    ----------
-    img : np.ndarray
-        2D images
-    method : str,  ['simple', 'quadrant', 'quadrant+'], optional
-        method for auto detecting slit corners
-            - simple    :: assume a rectange slit box, fast but less accurate
-                           (1 pixel precision)
-            - quadrant  :: subdivide the image into four quandrant, then use
-                           an explicit method to find the corner
-                           (1 pixel precision)
-            - quadrant+ :: similar to quadrant, but use curve_fit (gauss1d) to
-                           find the corner
-                           (0.1 pixel precision)
-    medfilt2_kernel_size : int, optional
-        2D median filter kernel size for noise reduction
-    medfilt_kernel_size : int, optional
-        1D median filter kernel size for noise reduction
-
-    Returns
-    -------
-    tuple
-        autodetected slit corners (counter-clockwise order)
-        (upperLeft, lowerLeft, lowerRight, upperRight)
-    """
-    img = medfilt2d(np.log(img.astype(np.float64)),
-                    kernel_size=medfilt2_kernel_size,
-                    )
-    rows, cols = img.shape
-
-    # simple method is simple, therefore it stands out
-    if method.lower() == 'simple':
-        # assuming a rectangle type slit box
-        col_std = medfilt(np.std(img, axis=0), kernel_size=medfilt_kernel_size)
-        row_std = medfilt(np.std(img, axis=1), kernel_size=medfilt_kernel_size)
-        # NOTE: in the tiff img
-        #  x is col index, y is the row index  ==> key point here !!!
-        #  img slicing is doen with img[row_idx, col_idx]
-        #  ==> so the image idx and corner position are FLIPPED!
-        _left = np.argmax(np.gradient(col_std))
-        _right = np.argmin(np.gradient(col_std))
-        _top = np.argmax(np.gradient(row_std))
-        _bottom = np.argmin(np.gradient(row_std))
-
-        cnrs = np.array([[_left, _top],
-                         [_left, _bottom],
-                         [_right, _bottom],
-                         [_right, _top],
-                         ])
-    else:
-        # predefine all quadrants
-        # Here let's assume that the four corners of the slit box are in the
-        # four quadrant defined by the center of the image
-        # i.e.
-        #  uppper left quadrant: img[0     :cnt[1], 0     :cnt[0]]  => quadarnt origin =  (0,           0)
-        #  lower  left quadrant: img[cnt[1]:      , 0     :cnt[0]]  => quadarnt origin =  (cnt[0],      0)
-        #  lower right quadrant: img[cnt[1]:      , cnt[0]:      ]  => quadarnt origin =  (cnt[0], cnt[1])
-        # upper right quadrant: img[0     :cnt[1], cnt[0]:      ]  => quadarnt
-        # origin =  (0,      cnt[1])
-        # center of image that defines FOUR quadrants
-        cnt = [int(cols / 2), int(rows / 2)]
-        Quadrant = namedtuple('Quadrant', 'img col_func, row_func')
-        quadrants = [Quadrant(img=img[0:cnt[1], 0:cnt[0]], col_func=np.argmax, row_func=np.argmax),  # upper left,  1st quadrant
-                     # lower left,  2nd quadrant
-                     Quadrant(img=img[cnt[1]:, 0:cnt[0]],
-                              col_func=np.argmax, row_func=np.argmin),
-                     # lower right, 3rd quadrant
-                     Quadrant(img=img[cnt[1]:, cnt[0]:],
-                              col_func=np.argmin, row_func=np.argmin),
-                     # upper right, 4th quadrant
-                     Quadrant(img=img[0:cnt[0], cnt[1]:],
-                              col_func=np.argmin, row_func=np.argmax),
-                     ]
-        # the origin in each quadrants ==> easier to set it here
-        quadrantorigins = np.array([[0, 0],  # upper left,  1st quadrant
-                                    [0, cnt[1]],  # lower left,  2nd quadrant
-                                    # lower right, 3rd quadrant
-                                    [cnt[0], cnt[1]],
-                                    [cnt[1], 0],  # upper right, 4th quadrant
-                                    ])
-        # init four corners
-        cnrs = np.zeros((4, 2))
-        if method.lower() == 'quadrant':
-            # the standard quadrant method
-            for i, q in enumerate(quadrants):
-                cnrs[i, :] = np.array([q.col_func(np.gradient(medfilt(np.std(q.img, axis=0), kernel_size=medfilt_kernel_size))),  # x is col_idx
-                                       q.row_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=1),
-                            kernel_size=medfilt_kernel_size))),
-                    # y is row_idx
-                ])
-            # add the origin offset back
-            cnrs = cnrs + quadrantorigins
-        elif method.lower() == 'quadrant+':
-            # use Gaussian curve fitting to achive subpixel precision
-            # TODO:
-            # improve the curve fitting with Lorentz and Voigt fitting function
-            for i, q in enumerate(quadrants):
-                # -- find x subpixel position
-                cnr_x_guess = q.col_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=0),
-                            kernel_size=medfilt_kernel_size)))
-                # isolate the strongest peak to fit
-                tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
-                tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
-                # tmpy[0] is the value from the highest/lowest pixle
-                # tmpx[0] is basically cnr_x_guess
-                # 5.0 is the guessted std,
-                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
-                                     maxfev=int(1e6),
-                                     )
-                cnrs[i, 0] = coeff[1]  # x position
-                # -- find y subpixel positoin
-                cnr_y_guess = q.row_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=1),
-                            kernel_size=medfilt_kernel_size)))
-                # isolate the peak (x, y here is only associated with the peak)
-                tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
-                tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
-                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
-                                     maxfev=int(1e6),
-                                     )
-                cnrs[i, 1] = coeff[1]  # y posiiton
-            # add the quadrant shift back
-            cnrs = cnrs + quadrantorigins
-
-        else:
-            raise NotImplementedError(
-                "Available methods are: simple, quadrant, quadrant+")
-
-    # return the slit corner detected
-    return cnrs
-
-
-def calc_slit_box_aps_1id(slit_box_corners, inclip=(1, 10, 1, 10)):
-    """
-    Calculate the clip box based on given slip corners.
-
-    Parameters
-    ----------
-    slit_box_corners : np.ndarray
-        Four corners of the slit box as a 4x2 matrix
-    inclip : tuple, optional
-        Extra inclipping to avoid clipping artifacts
-
-    Returns
-    -------
-    Tuple:
-        Cliping indices as a tuple of four
-        (clipFromTop, clipToBottom, clipFromLeft, clipToRight)
-
-    """
-    return (
-        np.floor(slit_box_corners[:, 0].min()).astype(
-            int) + inclip[0],  # clip top    row
-        np.ceil(slit_box_corners[:, 0].max()).astype(
-            int) - inclip[1],  # clip bottom row
-        np.floor(slit_box_corners[:, 1].min()).astype(
-            int) + inclip[2],  # clip left   col
-        np.ceil(slit_box_corners[:, 1].max()).astype(
-            int) - inclip[3],  # clip right  col
-    )
-
-
-def remove_slits_aps_1id(imgstacks, slit_box_corners, inclip=(1, 10, 1, 10)):
-    """
-    Remove the slits from still images
-
-    Parameters
-    ----------
-    imgstacks : np.ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    slit_box_corners : np.ndarray
-        four corners of the slit box
-    inclip : tuple, optional
-        Extra inclipping to avoid clipping artifacts
-
-    Returns
-    -------
-    np.ndarray
-        tomopy images stacks without regions outside slits
-    """
-    xl, xu, yl, yu = calc_slit_box_aps_1id(slit_box_corners, inclip=inclip)
-    return imgstacks[:, yl:yu, xl:xu]
-
-
-def detector_drift_adjust_aps_1id(imgstacks,
-                                  slit_cnr_ref,
-                                  medfilt2_kernel_size=3,
-                                  medfilt_kernel_size=3,
-                                  ncore=None,
-                                  ):
-    """
-    Adjust each still image based on the slit corners and generate report fig
-
-    Parameters
-    ----------
-    imgstacks : np.ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    slit_cnr_ref : np.ndarray
-        reference slit corners from white field images
-    medfilt2_kernel_size : int, optional
-        2D median filter kernel size for slit conner detection
-    medfilt_kernel_size  : int, optional
-        1D median filter kernel size for slit conner detection
-    ncore : int, optional
-        number of cores used for speed up
-
-    Returns
-    -------
-    np.ndarray
-        adjusted imgstacks
-    np.ndarray
-        detected corners on each still image
-    np.ndarray
-        transformation matrices used to adjust each image
-    """
-    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
-
-    def quick_diff(x): return np.amax(np.absolute(x))
-
-    # -- find all projection corners (slow)
-    # NOTE:
-    #  Here we are using an iterative approach to find stable slit corners
-    #  from each image
-    #  1. calculate all slit corners with the given kernel size, preferably
-    #     a small one for speed.
-    #  2. double the kernel size and calculate again, but this time we are
-    #     checking whether the slit corners are stable.
-    #  3. find the ids (n_imgs) for those that are difficult, continue
-    #     increasing the kernel size until all slit corners are found, or max
-    #     number of iterations.
-    #  4. move on to next step.
-    nlist = range(imgstacks.shape[0])
-    proj_cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
-                                'quadrant+',
-                                medfilt2_kernel_size,
-                                medfilt_kernel_size,
-                                )
-    cnrs_found = np.array([quick_diff(proj_cnrs[n, :, :] - slit_cnr_ref) < 15
-                           for n in nlist])
-    kernels = [(medfilt2_kernel_size+2*i, medfilt_kernel_size+2*j)
-               for i in range(15)
-               for j in range(15)]
-    counter = 0
-
-    while not cnrs_found.all():
-        nlist = [idx for idx, cnr_found in enumerate(cnrs_found)
-                 if not cnr_found]
-        # NOTE:
-        #   Check to see if we run out of candidate kernels:
-        if counter > len(kernels):
-            # we are giving up here...
-            for idx, n_img in enumerate(nlist):
-                proj_cnrs[n_img, :, :] = slit_cnr_ref
-            break
-        else:
-            # test with differnt 2D and 1D kernels
-            ks2d, ks1d = kernels[counter]
-
-        _cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
-                                'quadrant+', ks2d, ks1d)
-        for idx, _cnr in enumerate(_cnrs):
-            n_img = nlist[idx]
-            cnr = proj_cnrs[n_img, :, :]  # previous results
-            # NOTE:
-            #  The detector corner should not be far away from reference
-            #  -> adiff < 15
-            #  The detected corner should be stable
-            #  -> rdiff < 0.1 (pixel)s
-            adiff = quick_diff(_cnr - slit_cnr_ref)
-            rdiff = quick_diff(_cnr - cnr)
-            if rdiff < 0.1 and adiff < 15:
-                cnrs_found[n_img] = True
-            else:
-                # update results
-                proj_cnrs[n_img, :, :] = _cnr  # update results for next iter
-
-        # next
-        counter += 1
-
-    # -- calculate affine transformation (fast)
-    img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
-    for n_img in range(imgstacks.shape[0]):
-        img_correct_F[n_img, :, :] = calc_affine_transform(
-            proj_cnrs[n_img, :, :], slit_cnr_ref)
-
-    # -- apply affine transformation (slow)
-    tmp = []
-    with cf.ProcessPoolExecutor(ncore) as e:
-        for n_img in range(imgstacks.shape[0]):
-            tmp.append(e.submit(affine_transform,
-                                # input image
-                                imgstacks[n_img, :, :],
-                                # rotation matrix
-                                img_correct_F[n_img, 0:2, 0:2],
-                                # offset vector
-                                offset=img_correct_F[n_img, 0:2,  2],
-                                )
-                       )
-    imgstacks = np.stack([me.result() for me in tmp], axis=0)
-
-    return imgstacks, proj_cnrs, img_correct_F
-
-
-def _calc_proj_cnrs(imgs,
-                    ncore,
-                    nlist,
-                    method,
-                    medfilt2_kernel_size,
-                    medfilt_kernel_size,
-                    ):
-    """
-    Private function calculate slit corners concurrently
-
-    Parameters
-    ----------
-    imgs : ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    ncore : int
-        number of cores to use
-    nlist : list of int
-        index of images to be processed
-    method : str
-        slit corner detection method name
-    medfilt2_kernel_size : int
-        2D median filter kernel size, must be odd
-    medfilt_kernel_size : int
-        1D median filter kernel size, must be odd
-
-    Returns
-    -------
-    np.3darray
-        detected corners on each still image
-    """
-    tmp = []
-    with cf.ProcessPoolExecutor(ncore) as e:
-        for n_img in nlist:
-            tmp.append(e.submit(find_slits_corners_aps_1id,
-                                imgs[n_img, :, :],
-                                method=method,
-                                medfilt2_kernel_size=medfilt2_kernel_size,
-                                medfilt_kernel_size=medfilt_kernel_size,
-                                )
-                       )
-    return np.stack([me.result() for me in tmp], axis=0)
-
-
-def distortion_correction_proj(tomo, xcenter, ycenter, list_fact,
-                                ncore=None, nchunk=None):
-    """
-    Apply distortion correction to projections using the polynomial model.
-    Coefficients are calculated using Vounwarp package :cite:`Vo:15`.
-
-    .. versionadded:: 1.7
-
-    Parameters
-    ----------
-    tomo : ndarray
-        3D tomographic data.
-    xcenter : float
-        Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-        Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-        Polynomial coefficients of the backward model.
-    ncore : int, optional
-        Number of cores that will be assigned to jobs.
-    nchunk : int, optional
-        Chunk size for each core.
-
-    Returns
-    -------
-    ndarray
-        Corrected 3D tomographic data.
-    """
-    arr = mproc.distribute_jobs(
-        tomo,
-        func=_distortion_correction_proj,
-        args=(xcenter, ycenter, list_fact),
-        axis=0,
-        ncore=ncore,
-        nchunk=nchunk)
-    return arr
-
-
-def _unwarp_image_backward(mat, xcenter, ycenter, list_fact):
-    """
-    Unwarp an image using the polynomial model.
-
-    Parameters
-    ----------
-    mat : 2D array.
-    xcenter : float
-            Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-            Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-            Polynomial coefficients of the backward model.
-
-    Returns
-    -------
-    2D array
-        Corrected image.
-    """
-    (height, width) = mat.shape
-    xu_list = np.arange(width) - xcenter
-    yu_list = np.arange(height) - ycenter
-    xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
-    ru_mat = np.sqrt(xu_mat**2 + yu_mat**2)
-    fact_mat = np.sum(
-        np.asarray([factor * ru_mat**i for i,
-                    factor in enumerate(list_fact)]), axis=0)
-    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
-    indices = np.reshape(yd_mat, (-1, 1)), np.reshape(xd_mat, (-1, 1))
-    mat = map_coordinates(mat, indices, order=1, mode='reflect')
-    return mat.reshape((height, width))
-
-
-def _distortion_correction_proj(tomo, xcenter, ycenter, list_fact):
-    for m in np.arange(tomo.shape[0]):
-        proj = tomo[m, :, :]
-        proj = _unwarp_image_backward(proj, xcenter, ycenter, list_fact)
-        tomo[m, :, :] = proj
-
-
-def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
-    """
-    Generate an unwarped sinogram of a 3D tomographic data using
-    the polynomial model. Coefficients are calculated using Vounwarp
-    package :cite:`Vo:15`.
-
-    .. versionadded:: 1.7
-
-    Parameters
-    ----------
-    tomo : ndarray
-        3D tomographic data.
-    ind : int
-        Index of the unwarped sinogram.
-    xcenter : float
-        Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-        Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-        Polynomial coefficients of the backward model.
-
-    Returns
-    -------
-    2D array
-        Corrected sinogram.
-    """
-    (depth, height, width) = tomo.shape
-    xu_list = np.arange(0, width) - xcenter
-    yu = ind - ycenter
-    ru_list = np.sqrt(xu_list**2 + yu**2)
-    flist = np.sum(
-        np.asarray([factor * ru_list**i for i,
-                    factor in enumerate(list_fact)]), axis=0)
-    xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
-    yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
-    yd_list = yd_list - yd_min
-    sino = np.zeros((depth, width), dtype=np.float32)
-    indices = yd_list, xd_list
-    for i in np.arange(depth):
-        sino[i] = map_coordinates(
-            tomo[i, yd_min:yd_max, :], indices, order=1, mode='reflect')
-    return sino
-
-
-def load_distortion_coefs(file_path):
-        """
-        Load distortion coefficients from a text file.
-        Order of the infor in the text file:
-        xcenter
-        ycenter
-        factor_0
-        factor_1
-        factor_2
-        ..
-
-        Parameters
-        ----------
-        file_path: Path to the file.
-
-        Returns
-        -------
-        Tuple of (xcenter, ycenter, list_fact).
-        """
-        with open(file_path, 'r') as f:
-            x = f.read().splitlines()
-            list_data = []
-            for i in x:
-                list_data.append(float(i.split()[-1]))
-        xcenter = list_data[0]
-        ycenter = list_data[1]
-        list_fact = list_data[2:]
-        return xcenter, ycenter, list_fact
+#!/usr/bin/env python
+# -*- coding: utf-8 -*-
+
+# #########################################################################
+# Copyright (c) 2016-2019, UChicago Argonne, LLC. All rights reserved.    #
+#                                                                         #
+# Copyright 2016-2019. UChicago Argonne, LLC. This software was produced  #
+# under U.S. Government contract DE-AC02-06CH11357 for Argonne National   #
+# Laboratory (ANL), which is operated by UChicago Argonne, LLC for the    #
+# U.S. Department of Energy. The U.S. Government has rights to use,       #
+# reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR    #
+# UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR        #
+# ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is     #
+# modified to produce derivative works, such modified software should     #
+# be clearly marked, so as not to confuse it with the version available   #
+# from ANL.                                                               #
+#                                                                         #
+# Additionally, redistribution and use in source and binary forms, with   #
+# or without modification, are permitted provided that the following      #
+# conditions are met:                                                     #
+#                                                                         #
+#     * Redistributions of source code must retain the above copyright    #
+#       notice, this list of conditions and the following disclaimer.     #
+#                                                                         #
+#     * Redistributions in binary form must reproduce the above copyright #
+#       notice, this list of conditions and the following disclaimer in   #
+#       the documentation and/or other materials provided with the        #
+#       distribution.                                                     #
+#                                                                         #
+#     * Neither the name of UChicago Argonne, LLC, Argonne National       #
+#       Laboratory, ANL, the U.S. Government, nor the names of its        #
+#       contributors may be used to endorse or promote products derived   #
+#       from this software without specific prior written permission.     #
+#                                                                         #
+# THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS     #
+# "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT       #
+# LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS       #
+# FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago     #
+# Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,        #
+# INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,    #
+# BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;        #
+# LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER        #
+# CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT      #
+# LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN       #
+# ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE         #
+# POSSIBILITY OF SUCH DAMAGE.                                             #
+# #########################################################################
+
+import numpy as np
+import concurrent.futures as cf
+import tomopy.util.mproc as mproc
+import logging
+
+from skimage import transform as tf
+from skimage.registration import phase_cross_correlation
+from tomopy.recon.algorithm import recon
+from tomopy.sim.project import project
+from tomopy.misc.npmath import gauss1d, calc_affine_transform
+from tomopy.util.misc import write_tiff
+from scipy.signal import medfilt, medfilt2d
+from scipy.optimize import curve_fit
+from scipy.ndimage import affine_transform
+from scipy.ndimage import map_coordinates
+from collections import namedtuple
+
+logger = logging.getLogger(__name__)
+
+
+__author__ = "Doga Gursoy, Chen Zhang, Nghia Vo"
+__copyright__ = "Copyright (c) 2016-19, UChicago Argonne, LLC."
+__docformat__ = 'restructuredtext en'
+__all__ = ['align_seq',
+           'align_joint',
+           'scale',
+           'tilt',
+           'add_jitter',
+           'add_noise',
+           'blur_edges',
+           'shift_images',
+           'find_slits_corners_aps_1id',
+           'calc_slit_box_aps_1id',
+           'remove_slits_aps_1id',
+           'distortion_correction_proj',
+           'distortion_correction_sino',
+           'load_distortion_coefs',
+           ]
+
+
+def align_seq(
+        prj, ang, fdir='.', iters=10, pad=(0, 0),
+        blur=True, center=None, algorithm='sirt',
+        upsample_factor=10, rin=0.5, rout=0.8,
+        save=False, debug=True):
+    """
+    Aligns the projection image stack using the sequential
+    re-projection algorithm :cite:`Gursoy:17`.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ang : ndarray
+        Projection angles in radians as an array.
+    iters : scalar, optional
+        Number of iterations of the algorithm.
+    pad : list-like, optional
+        Padding for projection images in x and y-axes.
+    blur : bool, optional
+        Blurs the edge of the image before registration.
+    center: array, optional
+        Location of rotation axis.
+    algorithm : {str, function}
+        One of the following string values.
+
+        'art'
+            Algebraic reconstruction technique :cite:`Kak:98`.
+        'gridrec'
+            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
+            :cite:`Rivers:06`.
+        'mlem'
+            Maximum-likelihood expectation maximization algorithm
+            :cite:`Dempster:77`.
+        'sirt'
+            Simultaneous algebraic reconstruction technique.
+        'tv'
+            Total Variation reconstruction technique
+            :cite:`Chambolle:11`.
+        'grad'
+            Gradient descent method with a constant step size
+
+    upsample_factor : integer, optional
+        The upsampling factor. Registration accuracy is
+        inversely propotional to upsample_factor.
+    rin : scalar, optional
+        The inner radius of blur function. Pixels inside
+        rin is set to one.
+    rout : scalar, optional
+        The outer radius of blur function. Pixels outside
+        rout is set to zero.
+    save : bool, optional
+        Saves projections and corresponding reconstruction
+        for each algorithm iteration.
+    debug : book, optional
+        Provides debugging info such as iterations and error.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    ndarray
+        Error array for each iteration.
+    """
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Shift arrays
+    sx = np.zeros((prj.shape[0]))
+    sy = np.zeros((prj.shape[0]))
+
+    conv = np.zeros((iters))
+
+    # Pad images.
+    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
+    prj = np.pad(prj, npad, mode='constant', constant_values=0)
+
+    # Register each image frame-by-frame.
+    for n in range(iters):
+        # Reconstruct image.
+        rec = recon(prj, ang, center=center, algorithm=algorithm)
+
+        # Re-project data and obtain simulated data.
+        sim = project(rec, ang, center=center, pad=False)
+
+        # Blur edges.
+        if blur:
+            _prj = blur_edges(prj, rin, rout)
+            _sim = blur_edges(sim, rin, rout)
+        else:
+            _prj = prj
+            _sim = sim
+
+        # Initialize error matrix per iteration.
+        err = np.zeros((prj.shape[0]))
+
+        # For each projection
+        for m in range(prj.shape[0]):
+
+            # Register current projection in sub-pixel precision
+            shift, error, diffphase = phase_cross_correlation(
+                    _prj[m], _sim[m], upsample_factor=upsample_factor)
+            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
+            sx[m] += shift[0]
+            sy[m] += shift[1]
+
+            # Register current image with the simulated one
+            tform = tf.SimilarityTransform(translation=(shift[1], shift[0]))
+            prj[m] = tf.warp(prj[m], tform, order=5)
+
+        if debug:
+            print('iter=' + str(n) + ', err=' + str(np.linalg.norm(err)))
+            conv[n] = np.linalg.norm(err)
+
+        if save:
+            write_tiff(prj, fdir + '/tmp/iters/prj', n)
+            write_tiff(sim, fdir + '/tmp/iters/sim', n)
+            write_tiff(rec, fdir + '/tmp/iters/rec', n)
+
+    # Re-normalize data
+    prj *= scl
+    return prj, sx, sy, conv
+
+
+def align_joint(
+        prj, ang, fdir='./', iters=10, pad=(0, 0),
+        blur=True, center=None, algorithm='sirt',
+        upsample_factor=10, rin=0.5, rout=0.8,
+        save=False, debug=True):
+    """
+    Aligns the projection image stack using the joint
+    re-projection algorithm :cite:`Gursoy:17`.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ang : ndarray
+        Projection angles in radians as an array.
+    iters : scalar, optional
+        Number of iterations of the algorithm.
+    pad : list-like, optional
+        Padding for projection images in x and y-axes.
+    blur : bool, optional
+        Blurs the edge of the image before registration.
+    center: array, optional
+        Location of rotation axis.
+    algorithm : {str, function}
+        One of the following string values.
+
+        'art'
+            Algebraic reconstruction technique :cite:`Kak:98`.
+        'gridrec'
+            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
+            :cite:`Rivers:06`.
+        'mlem'
+            Maximum-likelihood expectation maximization algorithm
+            :cite:`Dempster:77`.
+        'sirt'
+            Simultaneous algebraic reconstruction technique.
+        'tv'
+            Total Variation reconstruction technique
+            :cite:`Chambolle:11`.
+        'grad'
+            Gradient descent method with a constant step size
+
+    upsample_factor : integer, optional
+        The upsampling factor. Registration accuracy is
+        inversely propotional to upsample_factor.
+    rin : scalar, optional
+        The inner radius of blur function. Pixels inside
+        rin is set to one.
+    rout : scalar, optional
+        The outer radius of blur function. Pixels outside
+        rout is set to zero.
+    save : bool, optional
+        Saves projections and corresponding reconstruction
+        for each algorithm iteration.
+    debug : book, optional
+        Provides debugging info such as iterations and error.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    ndarray
+        Error array for each iteration.
+    """
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Shift arrays
+    sx = np.zeros((prj.shape[0]))
+    sy = np.zeros((prj.shape[0]))
+
+    conv = np.zeros((iters))
+
+    # Pad images.
+    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
+    prj = np.pad(prj, npad, mode='constant', constant_values=0)
+
+    # Initialization of reconstruction.
+    rec = 1e-12 * np.ones((prj.shape[1], prj.shape[2], prj.shape[2]))
+
+    extra_kwargs = {}
+    if algorithm != 'gridrec':
+        extra_kwargs['num_iter'] = 1
+
+    # Make a copy of the projections
+    prj_copy = prj.copy()
+
+    # Register each image frame-by-frame.
+    for n in range(iters):
+
+        if np.mod(n, 1) == 0:
+            _rec = rec
+
+        # Reconstruct image.
+        rec = recon(prj_copy, ang, center=center, algorithm=algorithm,
+                    init_recon=_rec, **extra_kwargs)
+
+        # Re-project data and obtain simulated data.
+        sim = project(rec, ang, center=center, pad=False)
+
+        # Blur edges.
+        if blur:
+            _prj = blur_edges(prj_copy, rin, rout)
+            _sim = blur_edges(sim, rin, rout)
+        else:
+            _prj = prj_copy
+            _sim = sim
+
+        # Initialize error matrix per iteration.
+        err = np.zeros((prj.shape[0]))
+
+        # For each projection
+        for m in range(prj.shape[0]):
+
+            # Register current projection in sub-pixel precision
+            shift, error, diffphase = phase_cross_correlation(
+                    _prj[m], _sim[m], normalization=None,
+                    upsample_factor=upsample_factor)
+            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
+            sx[m] += shift[0]
+            sy[m] += shift[1]
+
+            # Register current image with the simulated one
+            tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
+            prj_copy[m] = tf.warp(prj[m].copy(), tform, order=5)
+
+        if debug:
+            print('iter=' + str(n) + 
+                  ', err=' + str(np.linalg.norm(err) / prj.shape[0]))
+            conv[n] = np.linalg.norm(err)
+
+        if save:
+            write_tiff(_prj, fdir + 'tmp/iters/prj', n)
+            write_tiff(sim, fdir + 'tmp/iters/sim', n)
+            write_tiff(rec, fdir + 'tmp/iters/rec', n)
+            write_tiff(sx, fdir + 'tmp/iters/sx', n)
+            write_tiff(sy, fdir + 'tmp/iters/sy', n)
+
+    # Re-normalize data
+    prj *= scl
+    return prj, sx, sy, conv
+
+
+def tilt(obj, rad=0, phi=0):
+    """
+    Tilt object at a given angle from the rotation axis.
+
+    Warning
+    -------
+    Not implemented yet.
+
+    Parameters
+    ----------
+    obj : ndarray
+        3D discrete object.
+    rad : scalar, optional
+        Radius in polar cordinates to define tilt angle.
+        The value is between 0 and 1, where 0 means no tilt
+        and 1 means a tilt of 90 degrees. The tilt angle
+        can be obtained by arcsin(rad).
+    phi : scalar, optional
+        Angle in degrees to define tilt direction from the
+        rotation axis. 0 degree means rotation in sagittal
+        plane and 90 degree means rotation in coronal plane.
+
+    Returns
+    -------
+    ndarray
+        Tilted 3D object.
+    """
+    pass
+
+
+def add_jitter(prj, low=0, high=1):
+    """
+    Simulates jitter in projection images. The jitter
+    is simulated by drawing random samples from a uniform
+    distribution over the half-open interval [low, high).
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    low : float, optional
+        Lower boundary of the output interval. All values
+        generated will be greater than or equal to low. The
+        default value is 0.
+    high : float
+        Upper boundary of the output interval. All values
+        generated will be less than high. The default value
+        is 1.0.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    """
+    from skimage import transform as tf
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Random jitter parameters are drawn from uniform distribution.
+    jitter = np.random.uniform(low, high, size=(prj.shape[0], 2))
+
+    for m in range(prj.shape[0]):
+        tform = tf.SimilarityTransform(translation=jitter[m])
+        prj[m] = tf.warp(prj[m], tform, order=0)
+
+    # Re-scale back to original values.
+    prj *= scl
+    return prj, jitter[:, 0], jitter[:, 1]
+
+
+def add_noise(prj, ratio=0.05):
+    """
+    Adds Gaussian noise with zero mean and a given standard
+    deviation as a ratio of the maximum value in data.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ratio : float, optional
+        Ratio of the standard deviation of the Gaussian noise
+        distribution to the maximum value in data.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with added Gaussian noise.
+    """
+    std = prj.max() * ratio
+    noise = np.random.normal(0, std, size=prj.shape)
+    return prj + noise.astype('float32')
+
+
+def scale(prj):
+    """
+    Linearly scales the projection images in the range
+    between -1 and 1.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+
+    Returns
+    -------
+    ndarray
+        Scaled 3D stack of projection images.
+    """
+    scl = max(abs(prj.max()), abs(prj.min()))
+    prj = prj / scl
+    return prj, scl
+
+
+def blur_edges(prj, low=0, high=0.8):
+    """
+    Blurs the edge of the projection images.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    low : scalar, optional
+        Min ratio of the blurring frame to the image size.
+    high : scalar, optional
+        Max ratio of the blurring frame to the image size.
+
+    Returns
+    -------
+    ndarray
+        Edge-blurred 3D stack of projection images.
+    """
+    _prj = prj.copy()
+    dx, dy, dz = _prj.shape
+    rows, cols = np.mgrid[:dy, :dz]
+    rad = np.sqrt((rows - dy / 2)**2 + (cols - dz / 2)**2)
+    mask = np.zeros((dy, dz))
+    rmin, rmax = low * rad.max(), high * rad.max()
+    mask[rad < rmin] = 1
+    mask[rad > rmax] = 0
+    zone = np.logical_and(rad >= rmin, rad <= rmax)
+    mask[zone] = (rmax - rad[zone]) / (rmax - rmin)
+    feathered = np.empty((dy, dz), dtype=np.uint8)
+    _prj *= mask
+    return _prj
+
+
+def shift_images(prj, sx, sy):
+    """
+    Shift projections images for a given set of shift
+    values in horizontal and vertical directions.
+    """
+
+    from skimage import transform as tf
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # For each projection
+    for m in range(prj.shape[0]):
+        tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
+        prj[m] = tf.warp(prj[m], tform, order=5)
+
+    # Re-normalize data
+    prj *= scl
+
+    return prj
+
+
+def find_slits_corners_aps_1id(img,
+                               method='quadrant+',
+                               medfilt2_kernel_size=3,
+                               medfilt_kernel_size=23,
+                               ):
+    """
+    Automatically locate the slit box location by its four corners.
+
+    NOTE:
+    The four slits that form a binding box is the current setup at aps_1id,
+    which reduce the illuminated region on the detector. Since the slits are
+    stationary, they can serve as a reference to check detector drifting
+    during the scan. Technically, the four slits should be used to find
+    the transformation matrix (not necessarily affine) to correct the image.
+    However, since we are dealing with 2D images with very little distortion,
+    affine transformation matrices were used for approximation. Therefore
+    the "four corners" are used instead of all four slits.
+
+    Parameters
+    ----------
+    img : np.ndarray
+        2D images
+    method : str,  ['simple', 'quadrant', 'quadrant+'], optional
+        method for auto detecting slit corners
+            - simple    :: assume a rectange slit box, fast but less accurate
+                           (1 pixel precision)
+            - quadrant  :: subdivide the image into four quandrant, then use
+                           an explicit method to find the corner
+                           (1 pixel precision)
+            - quadrant+ :: similar to quadrant, but use curve_fit (gauss1d) to
+                           find the corner
+                           (0.1 pixel precision)
+    medfilt2_kernel_size : int, optional
+        2D median filter kernel size for noise reduction
+    medfilt_kernel_size : int, optional
+        1D median filter kernel size for noise reduction
+
+    Returns
+    -------
+    tuple
+        autodetected slit corners (counter-clockwise order)
+        (upperLeft, lowerLeft, lowerRight, upperRight)
+    """
+    img = medfilt2d(np.log(img.astype(np.float64)),
+                    kernel_size=medfilt2_kernel_size,
+                    )
+    rows, cols = img.shape
+
+    # simple method is simple, therefore it stands out
+    if method.lower() == 'simple':
+        # assuming a rectangle type slit box
+        col_std = medfilt(np.std(img, axis=0), kernel_size=medfilt_kernel_size)
+        row_std = medfilt(np.std(img, axis=1), kernel_size=medfilt_kernel_size)
+        # NOTE: in the tiff img
+        #  x is col index, y is the row index  ==> key point here !!!
+        #  img slicing is doen with img[row_idx, col_idx]
+        #  ==> so the image idx and corner position are FLIPPED!
+        _left = np.argmax(np.gradient(col_std))
+        _right = np.argmin(np.gradient(col_std))
+        _top = np.argmax(np.gradient(row_std))
+        _bottom = np.argmin(np.gradient(row_std))
+
+        cnrs = np.array([[_left, _top],
+                         [_left, _bottom],
+                         [_right, _bottom],
+                         [_right, _top],
+                         ])
+    else:
+        # predefine all quadrants
+        # Here let's assume that the four corners of the slit box are in the
+        # four quadrant defined by the center of the image
+        # i.e.
+        #  uppper left quadrant: img[0     :cnt[1], 0     :cnt[0]]  => quadarnt origin =  (0,           0)
+        #  lower  left quadrant: img[cnt[1]:      , 0     :cnt[0]]  => quadarnt origin =  (cnt[0],      0)
+        #  lower right quadrant: img[cnt[1]:      , cnt[0]:      ]  => quadarnt origin =  (cnt[0], cnt[1])
+        # upper right quadrant: img[0     :cnt[1], cnt[0]:      ]  => quadarnt
+        # origin =  (0,      cnt[1])
+        # center of image that defines FOUR quadrants
+        cnt = [int(cols / 2), int(rows / 2)]
+        Quadrant = namedtuple('Quadrant', 'img col_func, row_func')
+        quadrants = [Quadrant(img=img[0:cnt[1], 0:cnt[0]], col_func=np.argmax, row_func=np.argmax),  # upper left,  1st quadrant
+                     # lower left,  2nd quadrant
+                     Quadrant(img=img[cnt[1]:, 0:cnt[0]],
+                              col_func=np.argmax, row_func=np.argmin),
+                     # lower right, 3rd quadrant
+                     Quadrant(img=img[cnt[1]:, cnt[0]:],
+                              col_func=np.argmin, row_func=np.argmin),
+                     # upper right, 4th quadrant
+                     Quadrant(img=img[0:cnt[0], cnt[1]:],
+                              col_func=np.argmin, row_func=np.argmax),
+                     ]
+        # the origin in each quadrants ==> easier to set it here
+        quadrantorigins = np.array([[0, 0],  # upper left,  1st quadrant
+                                    [0, cnt[1]],  # lower left,  2nd quadrant
+                                    # lower right, 3rd quadrant
+                                    [cnt[0], cnt[1]],
+                                    [cnt[1], 0],  # upper right, 4th quadrant
+                                    ])
+        # init four corners
+        cnrs = np.zeros((4, 2))
+        if method.lower() == 'quadrant':
+            # the standard quadrant method
+            for i, q in enumerate(quadrants):
+                cnrs[i, :] = np.array([q.col_func(np.gradient(medfilt(np.std(q.img, axis=0), kernel_size=medfilt_kernel_size))),  # x is col_idx
+                                       q.row_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=1),
+                            kernel_size=medfilt_kernel_size))),
+                    # y is row_idx
+                ])
+            # add the origin offset back
+            cnrs = cnrs + quadrantorigins
+        elif method.lower() == 'quadrant+':
+            # use Gaussian curve fitting to achive subpixel precision
+            # TODO:
+            # improve the curve fitting with Lorentz and Voigt fitting function
+            for i, q in enumerate(quadrants):
+                # -- find x subpixel position
+                cnr_x_guess = q.col_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=0),
+                            kernel_size=medfilt_kernel_size)))
+                # isolate the strongest peak to fit
+                tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
+                tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
+                # tmpy[0] is the value from the highest/lowest pixle
+                # tmpx[0] is basically cnr_x_guess
+                # 5.0 is the guessted std,
+                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
+                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     maxfev=int(1e6),
+                                     )
+                cnrs[i, 0] = coeff[1]  # x position
+                # -- find y subpixel positoin
+                cnr_y_guess = q.row_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=1),
+                            kernel_size=medfilt_kernel_size)))
+                # isolate the peak (x, y here is only associated with the peak)
+                tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
+                tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
+                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
+                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     maxfev=int(1e6),
+                                     )
+                cnrs[i, 1] = coeff[1]  # y posiiton
+            # add the quadrant shift back
+            cnrs = cnrs + quadrantorigins
+
+        else:
+            raise NotImplementedError(
+                "Available methods are: simple, quadrant, quadrant+")
+
+    # return the slit corner detected
+    return cnrs
+
+
+def calc_slit_box_aps_1id(slit_box_corners, inclip=(1, 10, 1, 10)):
+    """
+    Calculate the clip box based on given slip corners.
+
+    Parameters
+    ----------
+    slit_box_corners : np.ndarray
+        Four corners of the slit box as a 4x2 matrix
+    inclip : tuple, optional
+        Extra inclipping to avoid clipping artifacts
+
+    Returns
+    -------
+    Tuple:
+        Cliping indices as a tuple of four
+        (clipFromTop, clipToBottom, clipFromLeft, clipToRight)
+
+    """
+    return (
+        np.floor(slit_box_corners[:, 0].min()).astype(
+            int) + inclip[0],  # clip top    row
+        np.ceil(slit_box_corners[:, 0].max()).astype(
+            int) - inclip[1],  # clip bottom row
+        np.floor(slit_box_corners[:, 1].min()).astype(
+            int) + inclip[2],  # clip left   col
+        np.ceil(slit_box_corners[:, 1].max()).astype(
+            int) - inclip[3],  # clip right  col
+    )
+
+
+def remove_slits_aps_1id(imgstacks, slit_box_corners, inclip=(1, 10, 1, 10)):
+    """
+    Remove the slits from still images
+
+    Parameters
+    ----------
+    imgstacks : np.ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    slit_box_corners : np.ndarray
+        four corners of the slit box
+    inclip : tuple, optional
+        Extra inclipping to avoid clipping artifacts
+
+    Returns
+    -------
+    np.ndarray
+        tomopy images stacks without regions outside slits
+    """
+    xl, xu, yl, yu = calc_slit_box_aps_1id(slit_box_corners, inclip=inclip)
+    return imgstacks[:, yl:yu, xl:xu]
+
+
+def detector_drift_adjust_aps_1id(imgstacks,
+                                  slit_cnr_ref,
+                                  medfilt2_kernel_size=3,
+                                  medfilt_kernel_size=3,
+                                  ncore=None,
+                                  ):
+    """
+    Adjust each still image based on the slit corners and generate report fig
+
+    Parameters
+    ----------
+    imgstacks : np.ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    slit_cnr_ref : np.ndarray
+        reference slit corners from white field images
+    medfilt2_kernel_size : int, optional
+        2D median filter kernel size for slit conner detection
+    medfilt_kernel_size  : int, optional
+        1D median filter kernel size for slit conner detection
+    ncore : int, optional
+        number of cores used for speed up
+
+    Returns
+    -------
+    np.ndarray
+        adjusted imgstacks
+    np.ndarray
+        detected corners on each still image
+    np.ndarray
+        transformation matrices used to adjust each image
+    """
+    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
+
+    def quick_diff(x): return np.amax(np.absolute(x))
+
+    # -- find all projection corners (slow)
+    # NOTE:
+    #  Here we are using an iterative approach to find stable slit corners
+    #  from each image
+    #  1. calculate all slit corners with the given kernel size, preferably
+    #     a small one for speed.
+    #  2. double the kernel size and calculate again, but this time we are
+    #     checking whether the slit corners are stable.
+    #  3. find the ids (n_imgs) for those that are difficult, continue
+    #     increasing the kernel size until all slit corners are found, or max
+    #     number of iterations.
+    #  4. move on to next step.
+    nlist = range(imgstacks.shape[0])
+    proj_cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
+                                'quadrant+',
+                                medfilt2_kernel_size,
+                                medfilt_kernel_size,
+                                )
+    cnrs_found = np.array([quick_diff(proj_cnrs[n, :, :] - slit_cnr_ref) < 15
+                           for n in nlist])
+    kernels = [(medfilt2_kernel_size+2*i, medfilt_kernel_size+2*j)
+               for i in range(15)
+               for j in range(15)]
+    counter = 0
+
+    while not cnrs_found.all():
+        nlist = [idx for idx, cnr_found in enumerate(cnrs_found)
+                 if not cnr_found]
+        # NOTE:
+        #   Check to see if we run out of candidate kernels:
+        if counter > len(kernels):
+            # we are giving up here...
+            for idx, n_img in enumerate(nlist):
+                proj_cnrs[n_img, :, :] = slit_cnr_ref
+            break
+        else:
+            # test with differnt 2D and 1D kernels
+            ks2d, ks1d = kernels[counter]
+
+        _cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
+                                'quadrant+', ks2d, ks1d)
+        for idx, _cnr in enumerate(_cnrs):
+            n_img = nlist[idx]
+            cnr = proj_cnrs[n_img, :, :]  # previous results
+            # NOTE:
+            #  The detector corner should not be far away from reference
+            #  -> adiff < 15
+            #  The detected corner should be stable
+            #  -> rdiff < 0.1 (pixel)s
+            adiff = quick_diff(_cnr - slit_cnr_ref)
+            rdiff = quick_diff(_cnr - cnr)
+            if rdiff < 0.1 and adiff < 15:
+                cnrs_found[n_img] = True
+            else:
+                # update results
+                proj_cnrs[n_img, :, :] = _cnr  # update results for next iter
+
+        # next
+        counter += 1
+
+    # -- calculate affine transformation (fast)
+    img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
+    for n_img in range(imgstacks.shape[0]):
+        img_correct_F[n_img, :, :] = calc_affine_transform(
+            proj_cnrs[n_img, :, :], slit_cnr_ref)
+
+    # -- apply affine transformation (slow)
+    tmp = []
+    with cf.ProcessPoolExecutor(ncore) as e:
+        for n_img in range(imgstacks.shape[0]):
+            tmp.append(e.submit(affine_transform,
+                                # input image
+                                imgstacks[n_img, :, :],
+                                # rotation matrix
+                                img_correct_F[n_img, 0:2, 0:2],
+                                # offset vector
+                                offset=img_correct_F[n_img, 0:2,  2],
+                                )
+                       )
+    imgstacks = np.stack([me.result() for me in tmp], axis=0)
+
+    return imgstacks, proj_cnrs, img_correct_F
+
+
+def _calc_proj_cnrs(imgs,
+                    ncore,
+                    nlist,
+                    method,
+                    medfilt2_kernel_size,
+                    medfilt_kernel_size,
+                    ):
+    """
+    Private function calculate slit corners concurrently
+
+    Parameters
+    ----------
+    imgs : ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    ncore : int
+        number of cores to use
+    nlist : list of int
+        index of images to be processed
+    method : str
+        slit corner detection method name
+    medfilt2_kernel_size : int
+        2D median filter kernel size, must be odd
+    medfilt_kernel_size : int
+        1D median filter kernel size, must be odd
+
+    Returns
+    -------
+    np.3darray
+        detected corners on each still image
+    """
+    tmp = []
+    with cf.ProcessPoolExecutor(ncore) as e:
+        for n_img in nlist:
+            tmp.append(e.submit(find_slits_corners_aps_1id,
+                                imgs[n_img, :, :],
+                                method=method,
+                                medfilt2_kernel_size=medfilt2_kernel_size,
+                                medfilt_kernel_size=medfilt_kernel_size,
+                                )
+                       )
+    return np.stack([me.result() for me in tmp], axis=0)
+
+
+def distortion_correction_proj(tomo, xcenter, ycenter, list_fact,
+                                ncore=None, nchunk=None):
+    """
+    Apply distortion correction to projections using the polynomial model.
+    Coefficients are calculated using Vounwarp package :cite:`Vo:15`.
+
+    .. versionadded:: 1.7
+
+    Parameters
+    ----------
+    tomo : ndarray
+        3D tomographic data.
+    xcenter : float
+        Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+        Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+        Polynomial coefficients of the backward model.
+    ncore : int, optional
+        Number of cores that will be assigned to jobs.
+    nchunk : int, optional
+        Chunk size for each core.
+
+    Returns
+    -------
+    ndarray
+        Corrected 3D tomographic data.
+    """
+    arr = mproc.distribute_jobs(
+        tomo,
+        func=_distortion_correction_proj,
+        args=(xcenter, ycenter, list_fact),
+        axis=0,
+        ncore=ncore,
+        nchunk=nchunk)
+    return arr
+
+
+def _unwarp_image_backward(mat, xcenter, ycenter, list_fact):
+    """
+    Unwarp an image using the polynomial model.
+
+    Parameters
+    ----------
+    mat : 2D array.
+    xcenter : float
+            Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+            Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+            Polynomial coefficients of the backward model.
+
+    Returns
+    -------
+    2D array
+        Corrected image.
+    """
+    (height, width) = mat.shape
+    xu_list = np.arange(width) - xcenter
+    yu_list = np.arange(height) - ycenter
+    xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
+    ru_mat = np.sqrt(xu_mat**2 + yu_mat**2)
+    fact_mat = np.sum(
+        np.asarray([factor * ru_mat**i for i,
+                    factor in enumerate(list_fact)]), axis=0)
+    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
+    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
+    indices = np.reshape(yd_mat, (-1, 1)), np.reshape(xd_mat, (-1, 1))
+    mat = map_coordinates(mat, indices, order=1, mode='reflect')
+    return mat.reshape((height, width))
+
+
+def _distortion_correction_proj(tomo, xcenter, ycenter, list_fact):
+    for m in np.arange(tomo.shape[0]):
+        proj = tomo[m, :, :]
+        proj = _unwarp_image_backward(proj, xcenter, ycenter, list_fact)
+        tomo[m, :, :] = proj
+
+
+def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
+    """
+    Generate an unwarped sinogram of a 3D tomographic data using
+    the polynomial model. Coefficients are calculated using Vounwarp
+    package :cite:`Vo:15`.
+
+    .. versionadded:: 1.7
+
+    Parameters
+    ----------
+    tomo : ndarray
+        3D tomographic data.
+    ind : int
+        Index of the unwarped sinogram.
+    xcenter : float
+        Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+        Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+        Polynomial coefficients of the backward model.
+
+    Returns
+    -------
+    2D array
+        Corrected sinogram.
+    """
+    (depth, height, width) = tomo.shape
+    xu_list = np.arange(0, width) - xcenter
+    yu = ind - ycenter
+    ru_list = np.sqrt(xu_list**2 + yu**2)
+    flist = np.sum(
+        np.asarray([factor * ru_list**i for i,
+                    factor in enumerate(list_fact)]), axis=0)
+    xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
+    yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
+    yd_min = np.int16(np.floor(np.amin(yd_list)))
+    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_list = yd_list - yd_min
+    sino = np.zeros((depth, width), dtype=np.float32)
+    indices = yd_list, xd_list
+    for i in np.arange(depth):
+        sino[i] = map_coordinates(
+            tomo[i, yd_min:yd_max, :], indices, order=1, mode='reflect')
+    return sino
+
+
+def load_distortion_coefs(file_path):
+        """
+        Load distortion coefficients from a text file.
+        Order of the infor in the text file:
+        xcenter
+        ycenter
+        factor_0
+        factor_1
+        factor_2
+        ..
+
+        Parameters
+        ----------
+        file_path: Path to the file.
+
+        Returns
+        -------
+        Tuple of (xcenter, ycenter, list_fact).
+        """
+        with open(file_path, 'r') as f:
+            x = f.read().splitlines()
+            list_data = []
+            for i in x:
+                list_data.append(float(i.split()[-1]))
+        xcenter = list_data[0]
+        ycenter = list_data[1]
+        list_fact = list_data[2:]
+        return xcenter, ycenter, list_fact
-- 
2.43.0


From a9fd134621fba33a5b549651ae9485af9a06dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:30 +0000
Subject: [PATCH 060/102] fix: scale leaves all-zero projections zero instead
 of NaN

---
 source/tomopy/prep/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 689de3e..c4b55b5 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -474,7 +474,7 @@ def scale(prj):
     ndarray
         Scaled 3D stack of projection images.
     """
-    scl = max(abs(prj.max()), abs(prj.min()))
+    scl = max(abs(prj.max()), abs(prj.min())) or 1.0
     prj = prj / scl
     return prj, scl
 
-- 
2.43.0


From def2a91c8b891c2a0f6ee07d36e2a7b145c41596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:30 +0000
Subject: [PATCH 061/102] fix: find_slits_corners_aps_1id uses the upper right
 quadrant of non-square images

---
 source/tomopy/prep/alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index c4b55b5..bf107c8 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -624,7 +624,7 @@ def find_slits_corners_aps_1id(img,
                      Quadrant(img=img[cnt[1]:, cnt[0]:],
                               col_func=np.argmin, row_func=np.argmin),
                      # upper right, 4th quadrant
-                     Quadrant(img=img[0:cnt[0], cnt[1]:],
+                     Quadrant(img=img[0:cnt[1], cnt[0]:],
                               col_func=np.argmin, row_func=np.argmax),
                      ]
         # the origin in each quadrants ==> easier to set it here
@@ -632,7 +632,7 @@ def find_slits_corners_aps_1id(img,
                                     [0, cnt[1]],  # lower left,  2nd quadrant
                                     # lower right, 3rd quadrant
                                     [cnt[0], cnt[1]],
-                                    [cnt[1], 0],  # upper right, 4th quadrant
+                                    [cnt[0], 0],  # upper right, 4th quadrant
                                     ])
         # init four corners
         cnrs = np.zeros((4, 2))
-- 
2.43.0


From 3ec06043b40ebbab29c4288312981a1ab0539532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:20 +0000
Subject: [PATCH 062/102] fix: adjust_range clips arrays that contain NaN

---
 source/tomopy/misc/corr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 975e3fd..690ba7f 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -108,9 +108,9 @@ def adjust_range(arr, dmin=None, dmax=None):
         dmax = np.max(arr)
     if dmin is None:
         dmin = np.min(arr)
-    if dmax < np.max(arr):
+    if dmax < np.nanmax(arr):
         arr[arr > dmax] = dmax
-    if dmin > np.min(arr):
+    if dmin > np.nanmin(arr):
         arr[arr < dmin] = dmin
     return arr
 
-- 
2.43.0


From 91e7b646cc418f8f13abe51ec17584b026fb43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:20 +0000
Subject: [PATCH 063/102] fix: projections and vector reconstructions reject a
 center array that does not match the slices

---
 source/tomopy/sim/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 82d11d4..a0f29d3 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -472,6 +472,8 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
+    elif np.array(center).size != shape[0]:
+        raise ValueError('There must be one center for every slice.')
     return np.require(center, dtype=np.float32, requirements="AC")
 
 
-- 
2.43.0


From cc4d57158e9d3a9b1c10853c3ad4819da8502efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:20 +0000
Subject: [PATCH 064/102] fix: project2 and project3 reject objects they would
 read past

---
 source/tomopy/sim/project.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index a0f29d3..3f62e46 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -371,6 +371,9 @@ def project2(
     objy = np.require(objy, dtype=np.float32, requirements="AC")
     theta = np.require(theta, dtype=np.float32, requirements="AC")
 
+    if objx.shape != objy.shape:
+        raise ValueError('All components must have the same shape.')
+
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
     dt = theta.size
@@ -438,6 +441,12 @@ def project3(
     objz = np.require(objz, dtype=np.float32, requirements="AC")
     theta = np.require(theta, dtype=np.float32, requirements="AC")
 
+    if not objx.shape == objy.shape == objz.shape:
+        raise ValueError('All components must have the same shape.')
+    if ((axis == 1 and objx.shape[0] != objx.shape[2])
+            or (axis == 2 and len(set(objx.shape)) > 1)):
+        raise ValueError('Only a cube can be projected along axis 1 or 2.')
+
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
     dt = theta.size
-- 
2.43.0


From 26fc89817e3fc0ace7e1235d1f0e86eb3b36a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 065/102] fix: stripe removal, phase retrieval and distortion
 correction of integer data are not truncated to integers

---
 source/tomopy/prep/alignment.py |  6 ++++--
 source/tomopy/prep/phase.py     |  3 ++-
 source/tomopy/prep/stripe.py    | 18 +++++++++---------
 source/tomopy/util/dtype.py     |  6 ++++++
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index bf107c8..36f04b1 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -49,6 +49,7 @@
 import numpy as np
 import concurrent.futures as cf
 import tomopy.util.mproc as mproc
+import tomopy.util.dtype as dtype
 import logging
 
 from skimage import transform as tf
@@ -945,7 +946,7 @@ def distortion_correction_proj(tomo, xcenter, ycenter, list_fact,
         Corrected 3D tomographic data.
     """
     arr = mproc.distribute_jobs(
-        tomo,
+        dtype.as_floating(tomo),
         func=_distortion_correction_proj,
         args=(xcenter, ycenter, list_fact),
         axis=0,
@@ -1037,7 +1038,8 @@ def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
     indices = yd_list, xd_list
     for i in np.arange(depth):
         sino[i] = map_coordinates(
-            tomo[i, yd_min:yd_max, :], indices, order=1, mode='reflect')
+            tomo[i, yd_min:yd_max, :], indices, output=np.float32, order=1,
+            mode='reflect')
     return sino
 
 
diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index abdbdee..20366f4 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -55,6 +55,7 @@ from tomopy.util.misc import (fft2, ifft2)
 
 
 import tomopy.util.mproc as mproc
+import tomopy.util.dtype as dtype
 import logging
 
 logger = logging.getLogger(__name__)
@@ -121,7 +122,7 @@ def retrieve_phase(
 
     prj = np.full((dy + 2 * py, dz + 2 * pz), val, dtype='float32')
     arr = mproc.distribute_jobs(
-        tomo,
+        dtype.as_floating(tomo),
         func=_retrieve_phase,
         args=(phase_filter, py, pz, prj, pad),
         axis=0,
diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 3f88aa2..5356f4c 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -122,7 +122,7 @@ def remove_stripe_fw(tomo,
         size = np.max(tomo.shape)
         level = int(np.ceil(np.log2(size)))
 
-    arr = mproc.distribute_jobs(tomo,
+    arr = mproc.distribute_jobs(dtype.as_floating(tomo),
                                 func=_remove_stripe_fw,
                                 args=(level, wname, sigma, pad),
                                 axis=1,
@@ -199,7 +199,7 @@ def remove_stripe_ti(tomo, nblock=0, alpha=1.5, ncore=None, nchunk=None):
     ndarray
         Corrected 3D tomographic data.
     """
-    arr = mproc.distribute_jobs(tomo,
+    arr = mproc.distribute_jobs(dtype.as_floating(tomo),
                                 func=_remove_stripe_ti,
                                 args=(nblock, alpha),
                                 axis=1,
@@ -390,7 +390,7 @@ def remove_stripe_based_sorting(tomo,
     ndarray
         Corrected 3D tomographic data.
     """
-    arr = mproc.distribute_jobs(tomo,
+    arr = mproc.distribute_jobs(dtype.as_floating(tomo),
                                 func=_remove_stripe_based_sorting,
                                 args=(size, dim),
                                 axis=1,
@@ -468,7 +468,7 @@ def remove_stripe_based_filtering(tomo,
     ndarray
         Corrected 3D tomographic data.
     """
-    arr = mproc.distribute_jobs(tomo,
+    arr = mproc.distribute_jobs(dtype.as_floating(tomo),
                                 func=_remove_stripe_based_filtering,
                                 args=(sigma, size, dim),
                                 axis=1,
@@ -548,7 +548,7 @@ def remove_stripe_based_fitting(tomo,
     ndarray
         Corrected 3D tomographic data.
     """
-    arr = mproc.distribute_jobs(tomo,
+    arr = mproc.distribute_jobs(dtype.as_floating(tomo),
                                 func=_remove_stripe_based_fitting,
                                 args=(order, sigma),
                                 axis=1,
@@ -692,7 +692,7 @@ def remove_large_stripe(tomo,
     ndarray
         Corrected 3D tomographic data.
     """
-    arr = mproc.distribute_jobs(tomo,
+    arr = mproc.distribute_jobs(dtype.as_floating(tomo),
                                 func=_remove_large_stripe,
                                 args=(snr, size, drop_ratio, norm),
                                 axis=1,
@@ -797,7 +797,7 @@ def remove_dead_stripe(tomo,
     ndarray
         Corrected 3D tomographic data.
     """
-    arr = mproc.distribute_jobs(tomo,
+    arr = mproc.distribute_jobs(dtype.as_floating(tomo),
                                 func=_remove_dead_stripe,
                                 args=(snr, size, norm),
                                 axis=1,
@@ -881,7 +881,7 @@ def remove_all_stripe(tomo,
     ndarray
         Corrected 3D tomographic data.
     """
-    arr = mproc.distribute_jobs(tomo,
+    arr = mproc.distribute_jobs(dtype.as_floating(tomo),
                                 func=_remove_all_stripe,
                                 args=(snr, la_size, sm_size, dim),
                                 axis=1,
@@ -935,7 +935,7 @@ def remove_stripe_based_interpolation(tomo,
     ndarray
         Corrected 3D tomographic data.
     """
-    arr = mproc.distribute_jobs(tomo,
+    arr = mproc.distribute_jobs(dtype.as_floating(tomo),
                                 func=_remove_stripe_based_interpolation,
                                 args=(snr, size, drop_ratio, norm),
                                 axis=1,
diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index c18b4e2..243117d 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -103,6 +103,12 @@ def as_float32(arr):
     return as_dtype(arr, np.float32)
 
 
+def as_floating(arr):
+    # integers can not hold the results of most corrections
+    arr = np.asarray(arr)
+    return arr if arr.dtype.kind in 'fc' else as_float32(arr)
+
+
 def as_int32(arr):
     arr = as_ndarray(arr, np.int32)
     return as_dtype(arr, np.int32)
-- 
2.43.0


From 567150c7b9458195e958da528e523ba159ca30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 066/102] fix: keep the CRLF line endings of gridrec.c and
 alignment.py

---
 source/libtomo/gridrec/gridrec.c | 1160 ++++++++--------
 source/tomopy/prep/alignment.py  | 2146 +++++++++++++++---------------
 2 files changed, 1653 insertions(+), 1653 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 993edb9..045cb15 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -1,580 +1,580 @@
-// Copyright (c) 2015, UChicago Argonne, LLC. All rights reserved.
-
-// Copyright 2015. UChicago Argonne, LLC. This software was produced
-// under U.S. Government contract DE-AC02-06CH11357 for Argonne National
-// Laboratory (ANL), which is operated by UChicago Argonne, LLC for the
-// U.S. Department of Energy. The U.S. Government has rights to use,
-// reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR
-// UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR
-// ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is
-// modified to produce derivative works, such modified software should
-// be clearly marked, so as not to confuse it with the version available
-// from ANL.
-
-// Additionally, redistribution and use in source and binary forms, with
-// or without modification, are permitted provided that the following
-// conditions are met:
-
-//     * Redistributions of source code must retain the above copyright
-//       notice, this list of conditions and the following disclaimer.
-
-//     * Redistributions in binary form must reproduce the above copyright
-//       notice, this list of conditions and the following disclaimer in
-//       the documentation and/or other materials provided with the
-//       distribution.
-
-//     * Neither the name of UChicago Argonne, LLC, Argonne National
-//       Laboratory, ANL, the U.S. Government, nor the names of its
-//       contributors may be used to endorse or promote products derived
-//       from this software without specific prior written permission.
-
-// THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS
-// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
-// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
-// FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago
-// Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
-// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
-// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
-// LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
-// CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
-// LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
-// ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
-// POSSIBILITY OF SUCH DAMAGE.
-
-// Possible speedups:
-//   * Profile code and check adding SIMD to various functions (from OpenMP)
-
-#include <math.h>
-
-#include "libtomo/filters.h"
-#include "libtomo/gridrec.h"
-#include "pal.h"
-
-#ifdef TOMOPY_USE_MKL
-#    include "mkl.h"
-#endif
-#ifdef TOMOPY_USE_FFTW
-// Import pal.h first to import <complex.h> first so fftw uses native complex types
-#    include "fftw3.h"
-#endif
-
-float
-legendre(int n, const float* coefs, float x)
-{
-    // Compute SUM(coefs(k)*P(2*k,x), for k=0,n/2)
-    // where P(j,x) is the jth Legendre polynomial.
-    // x must be between -1 and 1.
-    float penult, last, cur, y, mxlast;
-
-    y      = coefs[0];
-    penult = 1.0;
-    last   = x;
-    for(int j = 2; j <= n; j++)
-    {
-        mxlast = -(x * last);
-        cur    = -(2 * mxlast + penult) + (penult + mxlast) / j;
-        // cur = (x*(2*j-1)*last-(j-1)*penult)/j;
-        if(!(j & 1))  // if j is even
-        {
-            y += cur * coefs[j >> 1];
-        }
-
-        penult = last;
-        last   = cur;
-    }
-    return y;
-}
-
-void
-set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int linv,
-                float* wtbl, float* winv)
-{
-    // Set up lookup tables for convolvent (used in Phase 1 of
-    // do_recon()), and for the final correction factor (used in
-    // Phase 3).
-
-    int         i;
-    float       norm;
-    const float fac   = (float) ltbl / (linv + 0.5);
-    const float polyz = legendre(nt, coefs, 0.);
-
-    wtbl[0] = 1.0;
-    for(i = 1; i <= ltbl; i++)
-    {
-        wtbl[i] = legendre(nt, coefs, (float) i / ltbl) / polyz;
-    }
-
-    // Note the final result at end of Phase 3 contains the factor,
-    // norm^2.  This incorporates the normalization of the 2D
-    // inverse FFT in Phase 2 as well as scale factors involved
-    // in the inverse Fourier transform of the convolvent.
-    norm = sqrt(M_PI / 2 / C / lambda) / 1.2;
-
-    winv[linv] = norm / wtbl[0];
-    __PRAGMA_IVDEP
-    for(i = 1; i <= linv; i++)
-    {
-        // Minus sign for alternate entries
-        // corrects for "natural" data layout
-        // in array H at end of Phase 1.
-        norm           = -norm;
-        winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
-    }
-
-    // The last pixel of a grid as wide as the transform is half a table
-    // spacing beyond the last entry.
-    winv[2 * linv + 1] = -norm / wtbl[ltbl];
-}
-
-void
-set_trig_tables(int dt, const float* theta, float** sine, float** cose)
-{
-    // Set up tables of sines and cosines.
-    float *s, *c;
-
-    *sine = s = malloc_vector_f(dt);
-    __ASSSUME_64BYTES_ALIGNED(s);
-    *cose = c = malloc_vector_f(dt);
-    __ASSSUME_64BYTES_ALIGNED(c);
-
-    __PRAGMA_SIMD
-    for(int j = 0; j < dt; j++)
-    {
-        s[j] = sinf(theta[j]);
-        c[j] = cosf(theta[j]);
-    }
-}
-
-void
-set_filter_tables(int dt, int pd, float center, filter_func pf, const float* filter_par,
-                  PAL_COMPLEX* A, unsigned char filter2d)
-{
-    // Set up the complex array, filphase[], each element of which
-    // consists of a real filter factor [obtained from the function,
-    // pf(...)], multiplying a complex phase factor (derived from the
-    // parameter, center}.  See Phase 1 comments.
-
-    const float norm  = M_PI / pd / dt;
-    const float rtmp1 = 2 * M_PI * center / pd;
-    int         j, i;
-    int         pd2 = pd / 2;
-    float       x;
-
-    if(!filter2d)
-    {
-        for(j = 0; j < pd2; j++)
-        {
-            A[j] = pf((float) j / pd, j, 0, pd2, filter_par);
-        }
-
-        __PRAGMA_SIMD
-        for(j = 0; j < pd2; j++)
-        {
-            x = j * rtmp1;
-            A[j] *= (cosf(x) - I * sinf(x)) * norm;
-        }
-    }
-    else
-    {
-        for(i = 0; i < dt; i++)
-        {
-            int j0 = i * pd2;
-
-            for(j = 0; j < pd2; j++)
-            {
-                A[j0 + j] = pf((float) j / pd, j, i, pd2, filter_par);
-            }
-
-            __PRAGMA_SIMD
-            for(j = 0; j < pd2; j++)
-            {
-                x = j * rtmp1;
-                A[j0 + j] *= (cosf(x) - I * sinf(x)) * norm;
-            }
-        }
-    }
-}
-
-void
-gridrec(const float* data, int dy, int dt, int dx, const float* center,
-        const float* theta, float* recon, int ngridx, int ngridy, const char* fname,
-        const float* filter_par)
-{
-    if(dy == 0 || dt == 0 || dx == 0)
-        return;
-
-    int    s, p, iu, iv;
-    int    j;
-    float *sine, *cose, *wtbl, *winv;
-
-    float *work, *work2;
-
-    filter_func filter = get_filter(fname);
-
-    const float        C      = 7.0;
-    const float        nt     = 20.0;
-    const float        lambda = 0.99998546;
-    const unsigned int L      = (int) (2 * C / M_PI);
-    const int          ltbl   = 512;
-    int                pdim;
-    PAL_COMPLEX *      sino, *filphase, *filphase_iter = NULL, **H;
-    PAL_COMPLEX **     U_d, **V_d;
-    float *            J_z, *P_z;
-
-    const float coefs[11] = { 0.5767616E+02,  -0.8931343E+02, 0.4167596E+02,
-                              -0.1053599E+02, 0.1662374E+01,  -0.1780527E-00,
-                              0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
-                              -0.1295941E-05, 0.3817796E-07 };
-
-    // Compute pdim = next power of 2 >= dx that also holds the output grid
-    for(pdim = 16; pdim < dx || pdim < ngridx || pdim < ngridy; pdim *= 2)
-        ;
-
-    const int pdim2 = pdim >> 1;
-    const int M02   = pdim2 - 1;
-    const int M2    = pdim2;
-
-    unsigned char filter2d = filter_is_2d(fname);
-
-    // Allocate storage for various arrays.
-    sino = malloc_vector_c(pdim);
-    if(!filter2d)
-    {
-        filphase      = malloc_vector_c(pdim2);
-        filphase_iter = filphase;
-    }
-    else
-    {
-        filphase = malloc_vector_c(dt * (pdim2));
-    }
-    __ASSSUME_64BYTES_ALIGNED(filphase);
-    H = malloc_matrix_c(pdim, pdim);
-    __ASSSUME_64BYTES_ALIGNED(H);
-    wtbl = malloc_vector_f(ltbl + 1);
-    __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim);
-    __ASSSUME_64BYTES_ALIGNED(winv);
-    J_z = malloc_vector_f(pdim2 * dt);
-    __ASSSUME_64BYTES_ALIGNED(J_z);
-    P_z = malloc_vector_f(pdim2 * dt);
-    __ASSSUME_64BYTES_ALIGNED(P_z);
-    U_d = malloc_matrix_c(dt, pdim);
-    __ASSSUME_64BYTES_ALIGNED(U_d);
-    V_d = malloc_matrix_c(dt, pdim);
-    __ASSSUME_64BYTES_ALIGNED(V_d);
-    work = malloc_vector_f(L + 1);
-    __ASSSUME_64BYTES_ALIGNED(work);
-    work2 = malloc_vector_f(L + 1);
-    __ASSSUME_64BYTES_ALIGNED(work2);
-
-    // Set up table of sines and cosines.
-    set_trig_tables(dt, theta, &sine, &cose);
-    __ASSSUME_64BYTES_ALIGNED(sine);
-    __ASSSUME_64BYTES_ALIGNED(cose);
-
-    // Set up PSWF lookup tables.
-    set_pswf_tables(C, nt, lambda, coefs, ltbl, M02, wtbl, winv);
-
-#ifdef TOMOPY_USE_MKL
-    DFTI_DESCRIPTOR_HANDLE reverse_1d;
-    MKL_LONG               length_1d = (MKL_LONG) pdim;
-    DftiCreateDescriptor(&reverse_1d, DFTI_SINGLE, DFTI_COMPLEX, 1, length_1d);
-    DftiSetValue(reverse_1d, DFTI_THREAD_LIMIT,
-                 1);  // FFT should run sequentially to avoid oversubscription
-    DftiCommitDescriptor(reverse_1d);
-    DFTI_DESCRIPTOR_HANDLE forward_2d;
-    MKL_LONG               length_2d[2] = { (MKL_LONG) pdim, (MKL_LONG) pdim };
-    DftiCreateDescriptor(&forward_2d, DFTI_SINGLE, DFTI_COMPLEX, 2, length_2d);
-    DftiSetValue(forward_2d, DFTI_THREAD_LIMIT,
-                 1);  // FFT should run sequentially to avoid oversubscription
-    DftiCommitDescriptor(forward_2d);
-#endif
-#ifdef TOMOPY_USE_FFTW
-    fftwf_make_planner_thread_safe();
-    fftwf_plan reverse_1d;
-    reverse_1d = fftwf_plan_dft_1d(pdim, sino, sino, FFTW_BACKWARD, FFTW_ESTIMATE);
-    fftwf_plan forward_2d;
-    forward_2d = fftwf_plan_dft_2d(pdim, pdim, H[0], H[0], FFTW_FORWARD, FFTW_ESTIMATE);
-#endif
-
-    for(p = 0; p < dt; p++)
-    {
-        for(j = 1; j < pdim2; j++)
-        {
-            U_d[p][j] = j * cose[p] + M2;
-            V_d[p][j] = j * sine[p] + M2;
-        }
-    }
-
-    float       U, V;
-    const float L2      = (int) (C / M_PI);
-    const float tblspcg = 2 * ltbl / L;
-    int         iul, iuh, ivl, ivh;
-    int         k, k2;
-    int         npair;
-
-    // For each slice.
-    for(s = 0; s < dy; s += npair)
-    {
-        // Two slices share one transform only if they share the rotation center.
-        npair = ((s + 1) < dy && center[s + 1] == center[s]) ? 2 : 1;
-
-        // Set up table of combined filter-phase factors.
-        set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
-
-        // First clear the array H
-        memset(H[0], 0, pdim * pdim * sizeof(H[0][0]));
-
-        // Loop over the dt projection angles. For each angle, do the following:
-
-        //     1. Copy the real projection data from the two slices into the
-        //      real and imaginary parts of the first dx elements of the
-        //      complex array, sino[].  Set the remaining pdim-dx elements
-        //      to zero (zero-padding).
-
-        //     2. Carry out a (1D) Fourier transform on the complex data.
-        //      This results in transform data that is arranged in
-        //      "wrap-around" order, with non-negative spatial frequencies
-        //      occupying the first half, and negative frequencies the second
-        //      half, of the array, sino[].
-
-        //     3. Multiply each element of the 1-D transform by a complex,
-        //      frequency dependent factor, filphase[].  These factors were
-        //      precomputed as part of recofour1((float*)sino-1,pdim,1);n_init()
-        //      and combine the tomographic filtering with a phase factor which
-        //      shifts the origin in configuration space to the projection of
-        //      the rotation axis as defined by the parameter, "center".  If a
-        //      region of interest (ROI) centered on a different origin has
-        //      been specified [(X0,Y0)!=(0,0)], multiplication by an
-        //      additional phase factor, dependent on angle as well as
-        //      frequency, is required.
-
-        //     4. For each data element, find the Cartesian coordinates,
-        //      <U,V>, of the corresponding point in the 2D frequency plane,
-        //      in  units of the spacing in the MxM rectangular grid placed
-        //      thereon; then calculate the upper and lower limits in each
-        //      coordinate direction of the integer coordinates for the
-        //      grid points contained in an LxL box centered on <U,V>.
-        //      Using a precomputed table of the (1-D) convolving function,
-        //      W, calculate the contribution of this data element to the
-        //      (2-D) convolvent (the 2_D convolvent is the product of
-        //      1_D convolvents in the X and Y directions) at each of these
-        //      grid points, and update the complex 2D array H accordingly.
-
-        // At the end of Phase 1, the array H[][] contains data arranged in
-        // "natural", rather than wrap-around order -- that is, the origin in
-        // the spatial frequency plane is situated in the middle, rather than
-        // at the beginning, of the array, H[][].  This simplifies the code
-        // for carrying out the convolution (step 4 above), but necessitates
-        // an additional correction -- See Phase 3 below.
-
-        PAL_COMPLEX Cdata1, Cdata2;
-
-        // For each projection
-        for(p = 0; p < dt; p++)
-        {
-            float              sine_p = sine[p], cose_p = cose[p];
-            const unsigned int j0 = dx * (p + s * dt), delta_index = dx * dt;
-
-            __PRAGMA_SIMD_VECREMAINDER
-            for(j = 0; j < dx; j++)
-            {
-                // Add data from both slices
-                float              second_sino = 0.0;
-                const unsigned int index       = j + j0;
-                if(__LIKELY(npair == 2))
-                {
-                    second_sino = data[index + delta_index];
-                }
-                sino[j] = data[index] + I * second_sino;
-            }
-
-            __PRAGMA_SIMD_VECREMAINDER
-            for(j = dx; j < pdim; j++)
-            {
-                // Zero fill the rest of the array
-                sino[j] = 0.0;
-            }
-
-#ifdef TOMOPY_USE_MKL
-            DftiComputeBackward(reverse_1d, sino);
-#endif
-#ifdef TOMOPY_USE_FFTW
-            fftwf_execute(reverse_1d);
-#endif
-            if(filter2d)
-                filphase_iter = filphase + pdim2 * p;
-
-            // For each FFT(projection)
-            for(j = 1; j < pdim2; j++)
-            {
-                Cdata1 = filphase_iter[j] * sino[j];
-                Cdata2 = conjf(filphase_iter[j]) * sino[pdim - j];
-
-                U = j * cose_p + M2;
-                V = j * sine_p + M2;
-
-                // Note freq space origin is at (M2,M2), but we
-                // offset the indices U, V, etc. to range from 0 to M-1.
-                iul = ceilf(U - L2);
-                iuh = floorf(U + L2);
-                ivl = ceilf(V - L2);
-                ivh = floorf(V + L2);
-                if(iul < 1)
-                    iul = 1;
-                if(iuh >= pdim)
-                    iuh = pdim - 1;
-                if(ivl < 1)
-                    ivl = 1;
-                if(ivh >= pdim)
-                    ivh = pdim - 1;
-
-                // Note aliasing value (at index=0) is forced to zero.
-                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
-                for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
-                {
-                    work[k] = wtbl[(int) roundf(fabsf(V - iv) * tblspcg)];
-                }
-
-                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
-                for(iu = iul, k = 0; iu <= iuh; iu++, k++)
-                {
-                    work2[k] = wtbl[(int) roundf(fabsf(U - iu) * tblspcg)];
-                }
-
-                __PRAGMA_OMP_SIMD_COLLAPSE
-                for(iu = iul, k2 = 0; iu <= iuh; iu++, k2++)
-                {
-                    for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
-                    {
-                        const float rtmp    = work2[k2];
-                        const float convolv = rtmp * work[k];
-                        H[iu][iv] += convolv * Cdata1;
-                        H[pdim - iu][pdim - iv] += convolv * Cdata2;
-                    }
-                }
-            }
-        }
-
-        // Carry out a 2D inverse FFT on the array H.
-
-        // At the conclusion of this phase, the configuration
-        // space data is arranged in wrap-around order with the origin
-        // (center of reconstructed images) situated at the start of the
-        // array.  The first (resp. second) half of the array contains the
-        // lower, Y<0 (resp, upper Y>0) part of the image, and within each row
-        // of the array, the first (resp. second) half contains data for the
-        // right [X>0] (resp. left [X<0]) half of the image.
-
-#ifdef TOMOPY_USE_MKL
-        DftiComputeForward(forward_2d, H[0]);
-#endif
-#ifdef TOMOPY_USE_FFTW
-        fftwf_execute(forward_2d);
-#endif
-        // Copy the real and imaginary parts of the complex data from H[][],
-        // into the output buffers for the two reconstructed real images,
-        // simultaneously carrying out a final multiplicative correction.
-        // The correction factors are taken from the array, winv[], previously
-        // computed in set_pswf_tables(), and consist logically of three parts,
-        // namely:
-
-        //  1. A positive real factor, corresponding to the reciprocal
-        //     of the inverse Fourier transform, of the convolving
-        //     function, W, and
-
-        //  2. Multiplication by the cell size, (1/D1)^2, in 2D frequency
-        //     space.  This correctly normalizes the 2D inverse FFT carried
-        //     out in Phase 2.  (Note that all quantities are expressed in
-        //     units in which the detector spacing is one.)
-
-        //  3. A sign change for the "odd-numbered" elements (in a
-        //     checkerboard pattern) of the array.  This compensates
-        //     for the fact that the 2-D Fourier transform (Phase 2)
-        //     started with a frequency array in which the zero frequency
-        //     point appears in the middle of the array instead of at
-        //     its start.
-
-        // Only the elements in the square M0xM0 subarray of H[][], centered
-        // about the origin, are utilized.  The other elements are not part of
-        // the actual region being reconstructed and are discarded.  Because of
-        // the wrap-around ordering, the subarray must actually be taken from
-        // the four corners" of the 2D array, H[][] -- See Phase 2 description,
-        // above.
-
-        // The final data corresponds physically to the linear X-ray absorption
-        // coefficient expressed in units of the inverse detector spacing -- to
-        // convert to inverse cm (say), one must divide the data by the detector
-        // spacing in cm.
-
-        int       ustart, vstart, ufin, vfin;
-        const int padx    = (pdim - ngridx) / 2;
-        const int pady    = (pdim - ngridy) / 2;
-        const int offsetx = M02 + 1 - padx;
-        const int offsety = M02 + 1 - pady;
-        const int islc1   = s * ngridx * ngridy;        // index slice 1
-        const int islc2   = (s + 1) * ngridx * ngridy;  // index slice 2
-
-        ustart = pdim - offsety;
-        ufin   = pdim;
-        j      = 0;
-        while(j < ngridy)
-        {
-            for(iu = ustart; iu < ufin; j++, iu++)
-            {
-                const float corrn_u = winv[j + pady];
-                vstart              = pdim - offsetx;
-                vfin                = pdim;
-                k                   = 0;
-                while(k < ngridx)
-                {
-                    __PRAGMA_SIMD
-                    for(iv = vstart; iv < vfin; k++, iv++)
-                    {
-                        const float corrn = corrn_u * winv[k + padx];
-                        recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
-                            corrn * crealf(H[iu][iv]);
-                        if(__LIKELY(npair == 2))
-                        {
-                            recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
-                                corrn * cimagf(H[iu][iv]);
-                        }
-                    }
-                    if(k < ngridx)
-                    {
-                        vstart = 0;
-                        vfin   = ngridx - offsetx;
-                    }
-                }
-            }
-            if(j < ngridy)
-            {
-                ustart = 0;
-                ufin   = ngridy - offsety;
-            }
-        }
-    }
-
-    free_vector_f(sine);
-    free_vector_f(cose);
-    free_vector_c(sino);
-    free_vector_f(wtbl);
-    free_vector_c(filphase);
-    free_vector_f(winv);
-    free_vector_f(work);
-    free_vector_f(work2);
-    free_matrix_c(H);
-    free_vector_f(J_z);
-    free_vector_f(P_z);
-    free_matrix_c(U_d);
-    free_matrix_c(V_d);
-#ifdef TOMOPY_USE_MKL
-    DftiFreeDescriptor(&reverse_1d);
-    DftiFreeDescriptor(&forward_2d);
-#endif
-#ifdef TOMOPY_USE_FFTW
-    fftwf_destroy_plan(reverse_1d);
-    fftwf_destroy_plan(forward_2d);
-#endif
-    return;
-}
+// Copyright (c) 2015, UChicago Argonne, LLC. All rights reserved.
+
+// Copyright 2015. UChicago Argonne, LLC. This software was produced
+// under U.S. Government contract DE-AC02-06CH11357 for Argonne National
+// Laboratory (ANL), which is operated by UChicago Argonne, LLC for the
+// U.S. Department of Energy. The U.S. Government has rights to use,
+// reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR
+// UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR
+// ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is
+// modified to produce derivative works, such modified software should
+// be clearly marked, so as not to confuse it with the version available
+// from ANL.
+
+// Additionally, redistribution and use in source and binary forms, with
+// or without modification, are permitted provided that the following
+// conditions are met:
+
+//     * Redistributions of source code must retain the above copyright
+//       notice, this list of conditions and the following disclaimer.
+
+//     * Redistributions in binary form must reproduce the above copyright
+//       notice, this list of conditions and the following disclaimer in
+//       the documentation and/or other materials provided with the
+//       distribution.
+
+//     * Neither the name of UChicago Argonne, LLC, Argonne National
+//       Laboratory, ANL, the U.S. Government, nor the names of its
+//       contributors may be used to endorse or promote products derived
+//       from this software without specific prior written permission.
+
+// THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS
+// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
+// FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago
+// Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
+// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
+// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
+// LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+// CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
+// LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
+// ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+// POSSIBILITY OF SUCH DAMAGE.
+
+// Possible speedups:
+//   * Profile code and check adding SIMD to various functions (from OpenMP)
+
+#include <math.h>
+
+#include "libtomo/filters.h"
+#include "libtomo/gridrec.h"
+#include "pal.h"
+
+#ifdef TOMOPY_USE_MKL
+#    include "mkl.h"
+#endif
+#ifdef TOMOPY_USE_FFTW
+// Import pal.h first to import <complex.h> first so fftw uses native complex types
+#    include "fftw3.h"
+#endif
+
+float
+legendre(int n, const float* coefs, float x)
+{
+    // Compute SUM(coefs(k)*P(2*k,x), for k=0,n/2)
+    // where P(j,x) is the jth Legendre polynomial.
+    // x must be between -1 and 1.
+    float penult, last, cur, y, mxlast;
+
+    y      = coefs[0];
+    penult = 1.0;
+    last   = x;
+    for(int j = 2; j <= n; j++)
+    {
+        mxlast = -(x * last);
+        cur    = -(2 * mxlast + penult) + (penult + mxlast) / j;
+        // cur = (x*(2*j-1)*last-(j-1)*penult)/j;
+        if(!(j & 1))  // if j is even
+        {
+            y += cur * coefs[j >> 1];
+        }
+
+        penult = last;
+        last   = cur;
+    }
+    return y;
+}
+
+void
+set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int linv,
+                float* wtbl, float* winv)
+{
+    // Set up lookup tables for convolvent (used in Phase 1 of
+    // do_recon()), and for the final correction factor (used in
+    // Phase 3).
+
+    int         i;
+    float       norm;
+    const float fac   = (float) ltbl / (linv + 0.5);
+    const float polyz = legendre(nt, coefs, 0.);
+
+    wtbl[0] = 1.0;
+    for(i = 1; i <= ltbl; i++)
+    {
+        wtbl[i] = legendre(nt, coefs, (float) i / ltbl) / polyz;
+    }
+
+    // Note the final result at end of Phase 3 contains the factor,
+    // norm^2.  This incorporates the normalization of the 2D
+    // inverse FFT in Phase 2 as well as scale factors involved
+    // in the inverse Fourier transform of the convolvent.
+    norm = sqrt(M_PI / 2 / C / lambda) / 1.2;
+
+    winv[linv] = norm / wtbl[0];
+    __PRAGMA_IVDEP
+    for(i = 1; i <= linv; i++)
+    {
+        // Minus sign for alternate entries
+        // corrects for "natural" data layout
+        // in array H at end of Phase 1.
+        norm           = -norm;
+        winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
+    }
+
+    // The last pixel of a grid as wide as the transform is half a table
+    // spacing beyond the last entry.
+    winv[2 * linv + 1] = -norm / wtbl[ltbl];
+}
+
+void
+set_trig_tables(int dt, const float* theta, float** sine, float** cose)
+{
+    // Set up tables of sines and cosines.
+    float *s, *c;
+
+    *sine = s = malloc_vector_f(dt);
+    __ASSSUME_64BYTES_ALIGNED(s);
+    *cose = c = malloc_vector_f(dt);
+    __ASSSUME_64BYTES_ALIGNED(c);
+
+    __PRAGMA_SIMD
+    for(int j = 0; j < dt; j++)
+    {
+        s[j] = sinf(theta[j]);
+        c[j] = cosf(theta[j]);
+    }
+}
+
+void
+set_filter_tables(int dt, int pd, float center, filter_func pf, const float* filter_par,
+                  PAL_COMPLEX* A, unsigned char filter2d)
+{
+    // Set up the complex array, filphase[], each element of which
+    // consists of a real filter factor [obtained from the function,
+    // pf(...)], multiplying a complex phase factor (derived from the
+    // parameter, center}.  See Phase 1 comments.
+
+    const float norm  = M_PI / pd / dt;
+    const float rtmp1 = 2 * M_PI * center / pd;
+    int         j, i;
+    int         pd2 = pd / 2;
+    float       x;
+
+    if(!filter2d)
+    {
+        for(j = 0; j < pd2; j++)
+        {
+            A[j] = pf((float) j / pd, j, 0, pd2, filter_par);
+        }
+
+        __PRAGMA_SIMD
+        for(j = 0; j < pd2; j++)
+        {
+            x = j * rtmp1;
+            A[j] *= (cosf(x) - I * sinf(x)) * norm;
+        }
+    }
+    else
+    {
+        for(i = 0; i < dt; i++)
+        {
+            int j0 = i * pd2;
+
+            for(j = 0; j < pd2; j++)
+            {
+                A[j0 + j] = pf((float) j / pd, j, i, pd2, filter_par);
+            }
+
+            __PRAGMA_SIMD
+            for(j = 0; j < pd2; j++)
+            {
+                x = j * rtmp1;
+                A[j0 + j] *= (cosf(x) - I * sinf(x)) * norm;
+            }
+        }
+    }
+}
+
+void
+gridrec(const float* data, int dy, int dt, int dx, const float* center,
+        const float* theta, float* recon, int ngridx, int ngridy, const char* fname,
+        const float* filter_par)
+{
+    if(dy == 0 || dt == 0 || dx == 0)
+        return;
+
+    int    s, p, iu, iv;
+    int    j;
+    float *sine, *cose, *wtbl, *winv;
+
+    float *work, *work2;
+
+    filter_func filter = get_filter(fname);
+
+    const float        C      = 7.0;
+    const float        nt     = 20.0;
+    const float        lambda = 0.99998546;
+    const unsigned int L      = (int) (2 * C / M_PI);
+    const int          ltbl   = 512;
+    int                pdim;
+    PAL_COMPLEX *      sino, *filphase, *filphase_iter = NULL, **H;
+    PAL_COMPLEX **     U_d, **V_d;
+    float *            J_z, *P_z;
+
+    const float coefs[11] = { 0.5767616E+02,  -0.8931343E+02, 0.4167596E+02,
+                              -0.1053599E+02, 0.1662374E+01,  -0.1780527E-00,
+                              0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
+                              -0.1295941E-05, 0.3817796E-07 };
+
+    // Compute pdim = next power of 2 >= dx that also holds the output grid
+    for(pdim = 16; pdim < dx || pdim < ngridx || pdim < ngridy; pdim *= 2)
+        ;
+
+    const int pdim2 = pdim >> 1;
+    const int M02   = pdim2 - 1;
+    const int M2    = pdim2;
+
+    unsigned char filter2d = filter_is_2d(fname);
+
+    // Allocate storage for various arrays.
+    sino = malloc_vector_c(pdim);
+    if(!filter2d)
+    {
+        filphase      = malloc_vector_c(pdim2);
+        filphase_iter = filphase;
+    }
+    else
+    {
+        filphase = malloc_vector_c(dt * (pdim2));
+    }
+    __ASSSUME_64BYTES_ALIGNED(filphase);
+    H = malloc_matrix_c(pdim, pdim);
+    __ASSSUME_64BYTES_ALIGNED(H);
+    wtbl = malloc_vector_f(ltbl + 1);
+    __ASSSUME_64BYTES_ALIGNED(wtbl);
+    winv = malloc_vector_f(pdim);
+    __ASSSUME_64BYTES_ALIGNED(winv);
+    J_z = malloc_vector_f(pdim2 * dt);
+    __ASSSUME_64BYTES_ALIGNED(J_z);
+    P_z = malloc_vector_f(pdim2 * dt);
+    __ASSSUME_64BYTES_ALIGNED(P_z);
+    U_d = malloc_matrix_c(dt, pdim);
+    __ASSSUME_64BYTES_ALIGNED(U_d);
+    V_d = malloc_matrix_c(dt, pdim);
+    __ASSSUME_64BYTES_ALIGNED(V_d);
+    work = malloc_vector_f(L + 1);
+    __ASSSUME_64BYTES_ALIGNED(work);
+    work2 = malloc_vector_f(L + 1);
+    __ASSSUME_64BYTES_ALIGNED(work2);
+
+    // Set up table of sines and cosines.
+    set_trig_tables(dt, theta, &sine, &cose);
+    __ASSSUME_64BYTES_ALIGNED(sine);
+    __ASSSUME_64BYTES_ALIGNED(cose);
+
+    // Set up PSWF lookup tables.
+    set_pswf_tables(C, nt, lambda, coefs, ltbl, M02, wtbl, winv);
+
+#ifdef TOMOPY_USE_MKL
+    DFTI_DESCRIPTOR_HANDLE reverse_1d;
+    MKL_LONG               length_1d = (MKL_LONG) pdim;
+    DftiCreateDescriptor(&reverse_1d, DFTI_SINGLE, DFTI_COMPLEX, 1, length_1d);
+    DftiSetValue(reverse_1d, DFTI_THREAD_LIMIT,
+                 1);  // FFT should run sequentially to avoid oversubscription
+    DftiCommitDescriptor(reverse_1d);
+    DFTI_DESCRIPTOR_HANDLE forward_2d;
+    MKL_LONG               length_2d[2] = { (MKL_LONG) pdim, (MKL_LONG) pdim };
+    DftiCreateDescriptor(&forward_2d, DFTI_SINGLE, DFTI_COMPLEX, 2, length_2d);
+    DftiSetValue(forward_2d, DFTI_THREAD_LIMIT,
+                 1);  // FFT should run sequentially to avoid oversubscription
+    DftiCommitDescriptor(forward_2d);
+#endif
+#ifdef TOMOPY_USE_FFTW
+    fftwf_make_planner_thread_safe();
+    fftwf_plan reverse_1d;
+    reverse_1d = fftwf_plan_dft_1d(pdim, sino, sino, FFTW_BACKWARD, FFTW_ESTIMATE);
+    fftwf_plan forward_2d;
+    forward_2d = fftwf_plan_dft_2d(pdim, pdim, H[0], H[0], FFTW_FORWARD, FFTW_ESTIMATE);
+#endif
+
+    for(p = 0; p < dt; p++)
+    {
+        for(j = 1; j < pdim2; j++)
+        {
+            U_d[p][j] = j * cose[p] + M2;
+            V_d[p][j] = j * sine[p] + M2;
+        }
+    }
+
+    float       U, V;
+    const float L2      = (int) (C / M_PI);
+    const float tblspcg = 2 * ltbl / L;
+    int         iul, iuh, ivl, ivh;
+    int         k, k2;
+    int         npair;
+
+    // For each slice.
+    for(s = 0; s < dy; s += npair)
+    {
+        // Two slices share one transform only if they share the rotation center.
+        npair = ((s + 1) < dy && center[s + 1] == center[s]) ? 2 : 1;
+
+        // Set up table of combined filter-phase factors.
+        set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
+
+        // First clear the array H
+        memset(H[0], 0, pdim * pdim * sizeof(H[0][0]));
+
+        // Loop over the dt projection angles. For each angle, do the following:
+
+        //     1. Copy the real projection data from the two slices into the
+        //      real and imaginary parts of the first dx elements of the
+        //      complex array, sino[].  Set the remaining pdim-dx elements
+        //      to zero (zero-padding).
+
+        //     2. Carry out a (1D) Fourier transform on the complex data.
+        //      This results in transform data that is arranged in
+        //      "wrap-around" order, with non-negative spatial frequencies
+        //      occupying the first half, and negative frequencies the second
+        //      half, of the array, sino[].
+
+        //     3. Multiply each element of the 1-D transform by a complex,
+        //      frequency dependent factor, filphase[].  These factors were
+        //      precomputed as part of recofour1((float*)sino-1,pdim,1);n_init()
+        //      and combine the tomographic filtering with a phase factor which
+        //      shifts the origin in configuration space to the projection of
+        //      the rotation axis as defined by the parameter, "center".  If a
+        //      region of interest (ROI) centered on a different origin has
+        //      been specified [(X0,Y0)!=(0,0)], multiplication by an
+        //      additional phase factor, dependent on angle as well as
+        //      frequency, is required.
+
+        //     4. For each data element, find the Cartesian coordinates,
+        //      <U,V>, of the corresponding point in the 2D frequency plane,
+        //      in  units of the spacing in the MxM rectangular grid placed
+        //      thereon; then calculate the upper and lower limits in each
+        //      coordinate direction of the integer coordinates for the
+        //      grid points contained in an LxL box centered on <U,V>.
+        //      Using a precomputed table of the (1-D) convolving function,
+        //      W, calculate the contribution of this data element to the
+        //      (2-D) convolvent (the 2_D convolvent is the product of
+        //      1_D convolvents in the X and Y directions) at each of these
+        //      grid points, and update the complex 2D array H accordingly.
+
+        // At the end of Phase 1, the array H[][] contains data arranged in
+        // "natural", rather than wrap-around order -- that is, the origin in
+        // the spatial frequency plane is situated in the middle, rather than
+        // at the beginning, of the array, H[][].  This simplifies the code
+        // for carrying out the convolution (step 4 above), but necessitates
+        // an additional correction -- See Phase 3 below.
+
+        PAL_COMPLEX Cdata1, Cdata2;
+
+        // For each projection
+        for(p = 0; p < dt; p++)
+        {
+            float              sine_p = sine[p], cose_p = cose[p];
+            const unsigned int j0 = dx * (p + s * dt), delta_index = dx * dt;
+
+            __PRAGMA_SIMD_VECREMAINDER
+            for(j = 0; j < dx; j++)
+            {
+                // Add data from both slices
+                float              second_sino = 0.0;
+                const unsigned int index       = j + j0;
+                if(__LIKELY(npair == 2))
+                {
+                    second_sino = data[index + delta_index];
+                }
+                sino[j] = data[index] + I * second_sino;
+            }
+
+            __PRAGMA_SIMD_VECREMAINDER
+            for(j = dx; j < pdim; j++)
+            {
+                // Zero fill the rest of the array
+                sino[j] = 0.0;
+            }
+
+#ifdef TOMOPY_USE_MKL
+            DftiComputeBackward(reverse_1d, sino);
+#endif
+#ifdef TOMOPY_USE_FFTW
+            fftwf_execute(reverse_1d);
+#endif
+            if(filter2d)
+                filphase_iter = filphase + pdim2 * p;
+
+            // For each FFT(projection)
+            for(j = 1; j < pdim2; j++)
+            {
+                Cdata1 = filphase_iter[j] * sino[j];
+                Cdata2 = conjf(filphase_iter[j]) * sino[pdim - j];
+
+                U = j * cose_p + M2;
+                V = j * sine_p + M2;
+
+                // Note freq space origin is at (M2,M2), but we
+                // offset the indices U, V, etc. to range from 0 to M-1.
+                iul = ceilf(U - L2);
+                iuh = floorf(U + L2);
+                ivl = ceilf(V - L2);
+                ivh = floorf(V + L2);
+                if(iul < 1)
+                    iul = 1;
+                if(iuh >= pdim)
+                    iuh = pdim - 1;
+                if(ivl < 1)
+                    ivl = 1;
+                if(ivh >= pdim)
+                    ivh = pdim - 1;
+
+                // Note aliasing value (at index=0) is forced to zero.
+                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
+                for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
+                {
+                    work[k] = wtbl[(int) roundf(fabsf(V - iv) * tblspcg)];
+                }
+
+                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
+                for(iu = iul, k = 0; iu <= iuh; iu++, k++)
+                {
+                    work2[k] = wtbl[(int) roundf(fabsf(U - iu) * tblspcg)];
+                }
+
+                __PRAGMA_OMP_SIMD_COLLAPSE
+                for(iu = iul, k2 = 0; iu <= iuh; iu++, k2++)
+                {
+                    for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
+                    {
+                        const float rtmp    = work2[k2];
+                        const float convolv = rtmp * work[k];
+                        H[iu][iv] += convolv * Cdata1;
+                        H[pdim - iu][pdim - iv] += convolv * Cdata2;
+                    }
+                }
+            }
+        }
+
+        // Carry out a 2D inverse FFT on the array H.
+
+        // At the conclusion of this phase, the configuration
+        // space data is arranged in wrap-around order with the origin
+        // (center of reconstructed images) situated at the start of the
+        // array.  The first (resp. second) half of the array contains the
+        // lower, Y<0 (resp, upper Y>0) part of the image, and within each row
+        // of the array, the first (resp. second) half contains data for the
+        // right [X>0] (resp. left [X<0]) half of the image.
+
+#ifdef TOMOPY_USE_MKL
+        DftiComputeForward(forward_2d, H[0]);
+#endif
+#ifdef TOMOPY_USE_FFTW
+        fftwf_execute(forward_2d);
+#endif
+        // Copy the real and imaginary parts of the complex data from H[][],
+        // into the output buffers for the two reconstructed real images,
+        // simultaneously carrying out a final multiplicative correction.
+        // The correction factors are taken from the array, winv[], previously
+        // computed in set_pswf_tables(), and consist logically of three parts,
+        // namely:
+
+        //  1. A positive real factor, corresponding to the reciprocal
+        //     of the inverse Fourier transform, of the convolving
+        //     function, W, and
+
+        //  2. Multiplication by the cell size, (1/D1)^2, in 2D frequency
+        //     space.  This correctly normalizes the 2D inverse FFT carried
+        //     out in Phase 2.  (Note that all quantities are expressed in
+        //     units in which the detector spacing is one.)
+
+        //  3. A sign change for the "odd-numbered" elements (in a
+        //     checkerboard pattern) of the array.  This compensates
+        //     for the fact that the 2-D Fourier transform (Phase 2)
+        //     started with a frequency array in which the zero frequency
+        //     point appears in the middle of the array instead of at
+        //     its start.
+
+        // Only the elements in the square M0xM0 subarray of H[][], centered
+        // about the origin, are utilized.  The other elements are not part of
+        // the actual region being reconstructed and are discarded.  Because of
+        // the wrap-around ordering, the subarray must actually be taken from
+        // the four corners" of the 2D array, H[][] -- See Phase 2 description,
+        // above.
+
+        // The final data corresponds physically to the linear X-ray absorption
+        // coefficient expressed in units of the inverse detector spacing -- to
+        // convert to inverse cm (say), one must divide the data by the detector
+        // spacing in cm.
+
+        int       ustart, vstart, ufin, vfin;
+        const int padx    = (pdim - ngridx) / 2;
+        const int pady    = (pdim - ngridy) / 2;
+        const int offsetx = M02 + 1 - padx;
+        const int offsety = M02 + 1 - pady;
+        const int islc1   = s * ngridx * ngridy;        // index slice 1
+        const int islc2   = (s + 1) * ngridx * ngridy;  // index slice 2
+
+        ustart = pdim - offsety;
+        ufin   = pdim;
+        j      = 0;
+        while(j < ngridy)
+        {
+            for(iu = ustart; iu < ufin; j++, iu++)
+            {
+                const float corrn_u = winv[j + pady];
+                vstart              = pdim - offsetx;
+                vfin                = pdim;
+                k                   = 0;
+                while(k < ngridx)
+                {
+                    __PRAGMA_SIMD
+                    for(iv = vstart; iv < vfin; k++, iv++)
+                    {
+                        const float corrn = corrn_u * winv[k + padx];
+                        recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
+                            corrn * crealf(H[iu][iv]);
+                        if(__LIKELY(npair == 2))
+                        {
+                            recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
+                                corrn * cimagf(H[iu][iv]);
+                        }
+                    }
+                    if(k < ngridx)
+                    {
+                        vstart = 0;
+                        vfin   = ngridx - offsetx;
+                    }
+                }
+            }
+            if(j < ngridy)
+            {
+                ustart = 0;
+                ufin   = ngridy - offsety;
+            }
+        }
+    }
+
+    free_vector_f(sine);
+    free_vector_f(cose);
+    free_vector_c(sino);
+    free_vector_f(wtbl);
+    free_vector_c(filphase);
+    free_vector_f(winv);
+    free_vector_f(work);
+    free_vector_f(work2);
+    free_matrix_c(H);
+    free_vector_f(J_z);
+    free_vector_f(P_z);
+    free_matrix_c(U_d);
+    free_matrix_c(V_d);
+#ifdef TOMOPY_USE_MKL
+    DftiFreeDescriptor(&reverse_1d);
+    DftiFreeDescriptor(&forward_2d);
+#endif
+#ifdef TOMOPY_USE_FFTW
+    fftwf_destroy_plan(reverse_1d);
+    fftwf_destroy_plan(forward_2d);
+#endif
+    return;
+}
diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 36f04b1..ca70ce7 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -1,1073 +1,1073 @@
-#!/usr/bin/env python
-# -*- coding: utf-8 -*-
-
-# #########################################################################
-# Copyright (c) 2016-2019, UChicago Argonne, LLC. All rights reserved.    #
-#                                                                         #
-# Copyright 2016-2019. UChicago Argonne, LLC. This software was produced  #
-# under U.S. Government contract DE-AC02-06CH11357 for Argonne National   #
-# Laboratory (ANL), which is operated by UChicago Argonne, LLC for the    #
-# U.S. Department of Energy. The U.S. Government has rights to use,       #
-# reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR    #
-# UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR        #
-# ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is     #
-# modified to produce derivative works, such modified software should     #
-# be clearly marked, so as not to confuse it with the version available   #
-# from ANL.                                                               #
-#                                                                         #
-# Additionally, redistribution and use in source and binary forms, with   #
-# or without modification, are permitted provided that the following      #
-# conditions are met:                                                     #
-#                                                                         #
-#     * Redistributions of source code must retain the above copyright    #
-#       notice, this list of conditions and the following disclaimer.     #
-#                                                                         #
-#     * Redistributions in binary form must reproduce the above copyright #
-#       notice, this list of conditions and the following disclaimer in   #
-#       the documentation and/or other materials provided with the        #
-#       distribution.                                                     #
-#                                                                         #
-#     * Neither the name of UChicago Argonne, LLC, Argonne National       #
-#       Laboratory, ANL, the U.S. Government, nor the names of its        #
-#       contributors may be used to endorse or promote products derived   #
-#       from this software without specific prior written permission.     #
-#                                                                         #
-# THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS     #
-# "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT       #
-# LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS       #
-# FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago     #
-# Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,        #
-# INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,    #
-# BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;        #
-# LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER        #
-# CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT      #
-# LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN       #
-# ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE         #
-# POSSIBILITY OF SUCH DAMAGE.                                             #
-# #########################################################################
-
-import numpy as np
-import concurrent.futures as cf
-import tomopy.util.mproc as mproc
-import tomopy.util.dtype as dtype
-import logging
-
-from skimage import transform as tf
-from skimage.registration import phase_cross_correlation
-from tomopy.recon.algorithm import recon
-from tomopy.sim.project import project
-from tomopy.misc.npmath import gauss1d, calc_affine_transform
-from tomopy.util.misc import write_tiff
-from scipy.signal import medfilt, medfilt2d
-from scipy.optimize import curve_fit
-from scipy.ndimage import affine_transform
-from scipy.ndimage import map_coordinates
-from collections import namedtuple
-
-logger = logging.getLogger(__name__)
-
-
-__author__ = "Doga Gursoy, Chen Zhang, Nghia Vo"
-__copyright__ = "Copyright (c) 2016-19, UChicago Argonne, LLC."
-__docformat__ = 'restructuredtext en'
-__all__ = ['align_seq',
-           'align_joint',
-           'scale',
-           'tilt',
-           'add_jitter',
-           'add_noise',
-           'blur_edges',
-           'shift_images',
-           'find_slits_corners_aps_1id',
-           'calc_slit_box_aps_1id',
-           'remove_slits_aps_1id',
-           'distortion_correction_proj',
-           'distortion_correction_sino',
-           'load_distortion_coefs',
-           ]
-
-
-def align_seq(
-        prj, ang, fdir='.', iters=10, pad=(0, 0),
-        blur=True, center=None, algorithm='sirt',
-        upsample_factor=10, rin=0.5, rout=0.8,
-        save=False, debug=True):
-    """
-    Aligns the projection image stack using the sequential
-    re-projection algorithm :cite:`Gursoy:17`.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ang : ndarray
-        Projection angles in radians as an array.
-    iters : scalar, optional
-        Number of iterations of the algorithm.
-    pad : list-like, optional
-        Padding for projection images in x and y-axes.
-    blur : bool, optional
-        Blurs the edge of the image before registration.
-    center: array, optional
-        Location of rotation axis.
-    algorithm : {str, function}
-        One of the following string values.
-
-        'art'
-            Algebraic reconstruction technique :cite:`Kak:98`.
-        'gridrec'
-            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
-            :cite:`Rivers:06`.
-        'mlem'
-            Maximum-likelihood expectation maximization algorithm
-            :cite:`Dempster:77`.
-        'sirt'
-            Simultaneous algebraic reconstruction technique.
-        'tv'
-            Total Variation reconstruction technique
-            :cite:`Chambolle:11`.
-        'grad'
-            Gradient descent method with a constant step size
-
-    upsample_factor : integer, optional
-        The upsampling factor. Registration accuracy is
-        inversely propotional to upsample_factor.
-    rin : scalar, optional
-        The inner radius of blur function. Pixels inside
-        rin is set to one.
-    rout : scalar, optional
-        The outer radius of blur function. Pixels outside
-        rout is set to zero.
-    save : bool, optional
-        Saves projections and corresponding reconstruction
-        for each algorithm iteration.
-    debug : book, optional
-        Provides debugging info such as iterations and error.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    ndarray
-        Error array for each iteration.
-    """
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Shift arrays
-    sx = np.zeros((prj.shape[0]))
-    sy = np.zeros((prj.shape[0]))
-
-    conv = np.zeros((iters))
-
-    # Pad images.
-    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
-    prj = np.pad(prj, npad, mode='constant', constant_values=0)
-
-    # Register each image frame-by-frame.
-    for n in range(iters):
-        # Reconstruct image.
-        rec = recon(prj, ang, center=center, algorithm=algorithm)
-
-        # Re-project data and obtain simulated data.
-        sim = project(rec, ang, center=center, pad=False)
-
-        # Blur edges.
-        if blur:
-            _prj = blur_edges(prj, rin, rout)
-            _sim = blur_edges(sim, rin, rout)
-        else:
-            _prj = prj
-            _sim = sim
-
-        # Initialize error matrix per iteration.
-        err = np.zeros((prj.shape[0]))
-
-        # For each projection
-        for m in range(prj.shape[0]):
-
-            # Register current projection in sub-pixel precision
-            shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], upsample_factor=upsample_factor)
-            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
-            sx[m] += shift[0]
-            sy[m] += shift[1]
-
-            # Register current image with the simulated one
-            tform = tf.SimilarityTransform(translation=(shift[1], shift[0]))
-            prj[m] = tf.warp(prj[m], tform, order=5)
-
-        if debug:
-            print('iter=' + str(n) + ', err=' + str(np.linalg.norm(err)))
-            conv[n] = np.linalg.norm(err)
-
-        if save:
-            write_tiff(prj, fdir + '/tmp/iters/prj', n)
-            write_tiff(sim, fdir + '/tmp/iters/sim', n)
-            write_tiff(rec, fdir + '/tmp/iters/rec', n)
-
-    # Re-normalize data
-    prj *= scl
-    return prj, sx, sy, conv
-
-
-def align_joint(
-        prj, ang, fdir='./', iters=10, pad=(0, 0),
-        blur=True, center=None, algorithm='sirt',
-        upsample_factor=10, rin=0.5, rout=0.8,
-        save=False, debug=True):
-    """
-    Aligns the projection image stack using the joint
-    re-projection algorithm :cite:`Gursoy:17`.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ang : ndarray
-        Projection angles in radians as an array.
-    iters : scalar, optional
-        Number of iterations of the algorithm.
-    pad : list-like, optional
-        Padding for projection images in x and y-axes.
-    blur : bool, optional
-        Blurs the edge of the image before registration.
-    center: array, optional
-        Location of rotation axis.
-    algorithm : {str, function}
-        One of the following string values.
-
-        'art'
-            Algebraic reconstruction technique :cite:`Kak:98`.
-        'gridrec'
-            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
-            :cite:`Rivers:06`.
-        'mlem'
-            Maximum-likelihood expectation maximization algorithm
-            :cite:`Dempster:77`.
-        'sirt'
-            Simultaneous algebraic reconstruction technique.
-        'tv'
-            Total Variation reconstruction technique
-            :cite:`Chambolle:11`.
-        'grad'
-            Gradient descent method with a constant step size
-
-    upsample_factor : integer, optional
-        The upsampling factor. Registration accuracy is
-        inversely propotional to upsample_factor.
-    rin : scalar, optional
-        The inner radius of blur function. Pixels inside
-        rin is set to one.
-    rout : scalar, optional
-        The outer radius of blur function. Pixels outside
-        rout is set to zero.
-    save : bool, optional
-        Saves projections and corresponding reconstruction
-        for each algorithm iteration.
-    debug : book, optional
-        Provides debugging info such as iterations and error.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    ndarray
-        Error array for each iteration.
-    """
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Shift arrays
-    sx = np.zeros((prj.shape[0]))
-    sy = np.zeros((prj.shape[0]))
-
-    conv = np.zeros((iters))
-
-    # Pad images.
-    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
-    prj = np.pad(prj, npad, mode='constant', constant_values=0)
-
-    # Initialization of reconstruction.
-    rec = 1e-12 * np.ones((prj.shape[1], prj.shape[2], prj.shape[2]))
-
-    extra_kwargs = {}
-    if algorithm != 'gridrec':
-        extra_kwargs['num_iter'] = 1
-
-    # Make a copy of the projections
-    prj_copy = prj.copy()
-
-    # Register each image frame-by-frame.
-    for n in range(iters):
-
-        if np.mod(n, 1) == 0:
-            _rec = rec
-
-        # Reconstruct image.
-        rec = recon(prj_copy, ang, center=center, algorithm=algorithm,
-                    init_recon=_rec, **extra_kwargs)
-
-        # Re-project data and obtain simulated data.
-        sim = project(rec, ang, center=center, pad=False)
-
-        # Blur edges.
-        if blur:
-            _prj = blur_edges(prj_copy, rin, rout)
-            _sim = blur_edges(sim, rin, rout)
-        else:
-            _prj = prj_copy
-            _sim = sim
-
-        # Initialize error matrix per iteration.
-        err = np.zeros((prj.shape[0]))
-
-        # For each projection
-        for m in range(prj.shape[0]):
-
-            # Register current projection in sub-pixel precision
-            shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], normalization=None,
-                    upsample_factor=upsample_factor)
-            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
-            sx[m] += shift[0]
-            sy[m] += shift[1]
-
-            # Register current image with the simulated one
-            tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
-            prj_copy[m] = tf.warp(prj[m].copy(), tform, order=5)
-
-        if debug:
-            print('iter=' + str(n) + 
-                  ', err=' + str(np.linalg.norm(err) / prj.shape[0]))
-            conv[n] = np.linalg.norm(err)
-
-        if save:
-            write_tiff(_prj, fdir + 'tmp/iters/prj', n)
-            write_tiff(sim, fdir + 'tmp/iters/sim', n)
-            write_tiff(rec, fdir + 'tmp/iters/rec', n)
-            write_tiff(sx, fdir + 'tmp/iters/sx', n)
-            write_tiff(sy, fdir + 'tmp/iters/sy', n)
-
-    # Re-normalize data
-    prj *= scl
-    return prj, sx, sy, conv
-
-
-def tilt(obj, rad=0, phi=0):
-    """
-    Tilt object at a given angle from the rotation axis.
-
-    Warning
-    -------
-    Not implemented yet.
-
-    Parameters
-    ----------
-    obj : ndarray
-        3D discrete object.
-    rad : scalar, optional
-        Radius in polar cordinates to define tilt angle.
-        The value is between 0 and 1, where 0 means no tilt
-        and 1 means a tilt of 90 degrees. The tilt angle
-        can be obtained by arcsin(rad).
-    phi : scalar, optional
-        Angle in degrees to define tilt direction from the
-        rotation axis. 0 degree means rotation in sagittal
-        plane and 90 degree means rotation in coronal plane.
-
-    Returns
-    -------
-    ndarray
-        Tilted 3D object.
-    """
-    pass
-
-
-def add_jitter(prj, low=0, high=1):
-    """
-    Simulates jitter in projection images. The jitter
-    is simulated by drawing random samples from a uniform
-    distribution over the half-open interval [low, high).
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    low : float, optional
-        Lower boundary of the output interval. All values
-        generated will be greater than or equal to low. The
-        default value is 0.
-    high : float
-        Upper boundary of the output interval. All values
-        generated will be less than high. The default value
-        is 1.0.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    """
-    from skimage import transform as tf
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Random jitter parameters are drawn from uniform distribution.
-    jitter = np.random.uniform(low, high, size=(prj.shape[0], 2))
-
-    for m in range(prj.shape[0]):
-        tform = tf.SimilarityTransform(translation=jitter[m])
-        prj[m] = tf.warp(prj[m], tform, order=0)
-
-    # Re-scale back to original values.
-    prj *= scl
-    return prj, jitter[:, 0], jitter[:, 1]
-
-
-def add_noise(prj, ratio=0.05):
-    """
-    Adds Gaussian noise with zero mean and a given standard
-    deviation as a ratio of the maximum value in data.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ratio : float, optional
-        Ratio of the standard deviation of the Gaussian noise
-        distribution to the maximum value in data.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with added Gaussian noise.
-    """
-    std = prj.max() * ratio
-    noise = np.random.normal(0, std, size=prj.shape)
-    return prj + noise.astype('float32')
-
-
-def scale(prj):
-    """
-    Linearly scales the projection images in the range
-    between -1 and 1.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-
-    Returns
-    -------
-    ndarray
-        Scaled 3D stack of projection images.
-    """
-    scl = max(abs(prj.max()), abs(prj.min())) or 1.0
-    prj = prj / scl
-    return prj, scl
-
-
-def blur_edges(prj, low=0, high=0.8):
-    """
-    Blurs the edge of the projection images.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    low : scalar, optional
-        Min ratio of the blurring frame to the image size.
-    high : scalar, optional
-        Max ratio of the blurring frame to the image size.
-
-    Returns
-    -------
-    ndarray
-        Edge-blurred 3D stack of projection images.
-    """
-    _prj = prj.copy()
-    dx, dy, dz = _prj.shape
-    rows, cols = np.mgrid[:dy, :dz]
-    rad = np.sqrt((rows - dy / 2)**2 + (cols - dz / 2)**2)
-    mask = np.zeros((dy, dz))
-    rmin, rmax = low * rad.max(), high * rad.max()
-    mask[rad < rmin] = 1
-    mask[rad > rmax] = 0
-    zone = np.logical_and(rad >= rmin, rad <= rmax)
-    mask[zone] = (rmax - rad[zone]) / (rmax - rmin)
-    feathered = np.empty((dy, dz), dtype=np.uint8)
-    _prj *= mask
-    return _prj
-
-
-def shift_images(prj, sx, sy):
-    """
-    Shift projections images for a given set of shift
-    values in horizontal and vertical directions.
-    """
-
-    from skimage import transform as tf
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # For each projection
-    for m in range(prj.shape[0]):
-        tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
-        prj[m] = tf.warp(prj[m], tform, order=5)
-
-    # Re-normalize data
-    prj *= scl
-
-    return prj
-
-
-def find_slits_corners_aps_1id(img,
-                               method='quadrant+',
-                               medfilt2_kernel_size=3,
-                               medfilt_kernel_size=23,
-                               ):
-    """
-    Automatically locate the slit box location by its four corners.
-
-    NOTE:
-    The four slits that form a binding box is the current setup at aps_1id,
-    which reduce the illuminated region on the detector. Since the slits are
-    stationary, they can serve as a reference to check detector drifting
-    during the scan. Technically, the four slits should be used to find
-    the transformation matrix (not necessarily affine) to correct the image.
-    However, since we are dealing with 2D images with very little distortion,
-    affine transformation matrices were used for approximation. Therefore
-    the "four corners" are used instead of all four slits.
-
-    Parameters
-    ----------
-    img : np.ndarray
-        2D images
-    method : str,  ['simple', 'quadrant', 'quadrant+'], optional
-        method for auto detecting slit corners
-            - simple    :: assume a rectange slit box, fast but less accurate
-                           (1 pixel precision)
-            - quadrant  :: subdivide the image into four quandrant, then use
-                           an explicit method to find the corner
-                           (1 pixel precision)
-            - quadrant+ :: similar to quadrant, but use curve_fit (gauss1d) to
-                           find the corner
-                           (0.1 pixel precision)
-    medfilt2_kernel_size : int, optional
-        2D median filter kernel size for noise reduction
-    medfilt_kernel_size : int, optional
-        1D median filter kernel size for noise reduction
-
-    Returns
-    -------
-    tuple
-        autodetected slit corners (counter-clockwise order)
-        (upperLeft, lowerLeft, lowerRight, upperRight)
-    """
-    img = medfilt2d(np.log(img.astype(np.float64)),
-                    kernel_size=medfilt2_kernel_size,
-                    )
-    rows, cols = img.shape
-
-    # simple method is simple, therefore it stands out
-    if method.lower() == 'simple':
-        # assuming a rectangle type slit box
-        col_std = medfilt(np.std(img, axis=0), kernel_size=medfilt_kernel_size)
-        row_std = medfilt(np.std(img, axis=1), kernel_size=medfilt_kernel_size)
-        # NOTE: in the tiff img
-        #  x is col index, y is the row index  ==> key point here !!!
-        #  img slicing is doen with img[row_idx, col_idx]
-        #  ==> so the image idx and corner position are FLIPPED!
-        _left = np.argmax(np.gradient(col_std))
-        _right = np.argmin(np.gradient(col_std))
-        _top = np.argmax(np.gradient(row_std))
-        _bottom = np.argmin(np.gradient(row_std))
-
-        cnrs = np.array([[_left, _top],
-                         [_left, _bottom],
-                         [_right, _bottom],
-                         [_right, _top],
-                         ])
-    else:
-        # predefine all quadrants
-        # Here let's assume that the four corners of the slit box are in the
-        # four quadrant defined by the center of the image
-        # i.e.
-        #  uppper left quadrant: img[0     :cnt[1], 0     :cnt[0]]  => quadarnt origin =  (0,           0)
-        #  lower  left quadrant: img[cnt[1]:      , 0     :cnt[0]]  => quadarnt origin =  (cnt[0],      0)
-        #  lower right quadrant: img[cnt[1]:      , cnt[0]:      ]  => quadarnt origin =  (cnt[0], cnt[1])
-        # upper right quadrant: img[0     :cnt[1], cnt[0]:      ]  => quadarnt
-        # origin =  (0,      cnt[1])
-        # center of image that defines FOUR quadrants
-        cnt = [int(cols / 2), int(rows / 2)]
-        Quadrant = namedtuple('Quadrant', 'img col_func, row_func')
-        quadrants = [Quadrant(img=img[0:cnt[1], 0:cnt[0]], col_func=np.argmax, row_func=np.argmax),  # upper left,  1st quadrant
-                     # lower left,  2nd quadrant
-                     Quadrant(img=img[cnt[1]:, 0:cnt[0]],
-                              col_func=np.argmax, row_func=np.argmin),
-                     # lower right, 3rd quadrant
-                     Quadrant(img=img[cnt[1]:, cnt[0]:],
-                              col_func=np.argmin, row_func=np.argmin),
-                     # upper right, 4th quadrant
-                     Quadrant(img=img[0:cnt[1], cnt[0]:],
-                              col_func=np.argmin, row_func=np.argmax),
-                     ]
-        # the origin in each quadrants ==> easier to set it here
-        quadrantorigins = np.array([[0, 0],  # upper left,  1st quadrant
-                                    [0, cnt[1]],  # lower left,  2nd quadrant
-                                    # lower right, 3rd quadrant
-                                    [cnt[0], cnt[1]],
-                                    [cnt[0], 0],  # upper right, 4th quadrant
-                                    ])
-        # init four corners
-        cnrs = np.zeros((4, 2))
-        if method.lower() == 'quadrant':
-            # the standard quadrant method
-            for i, q in enumerate(quadrants):
-                cnrs[i, :] = np.array([q.col_func(np.gradient(medfilt(np.std(q.img, axis=0), kernel_size=medfilt_kernel_size))),  # x is col_idx
-                                       q.row_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=1),
-                            kernel_size=medfilt_kernel_size))),
-                    # y is row_idx
-                ])
-            # add the origin offset back
-            cnrs = cnrs + quadrantorigins
-        elif method.lower() == 'quadrant+':
-            # use Gaussian curve fitting to achive subpixel precision
-            # TODO:
-            # improve the curve fitting with Lorentz and Voigt fitting function
-            for i, q in enumerate(quadrants):
-                # -- find x subpixel position
-                cnr_x_guess = q.col_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=0),
-                            kernel_size=medfilt_kernel_size)))
-                # isolate the strongest peak to fit
-                tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
-                tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
-                # tmpy[0] is the value from the highest/lowest pixle
-                # tmpx[0] is basically cnr_x_guess
-                # 5.0 is the guessted std,
-                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
-                                     maxfev=int(1e6),
-                                     )
-                cnrs[i, 0] = coeff[1]  # x position
-                # -- find y subpixel positoin
-                cnr_y_guess = q.row_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=1),
-                            kernel_size=medfilt_kernel_size)))
-                # isolate the peak (x, y here is only associated with the peak)
-                tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
-                tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
-                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
-                                     maxfev=int(1e6),
-                                     )
-                cnrs[i, 1] = coeff[1]  # y posiiton
-            # add the quadrant shift back
-            cnrs = cnrs + quadrantorigins
-
-        else:
-            raise NotImplementedError(
-                "Available methods are: simple, quadrant, quadrant+")
-
-    # return the slit corner detected
-    return cnrs
-
-
-def calc_slit_box_aps_1id(slit_box_corners, inclip=(1, 10, 1, 10)):
-    """
-    Calculate the clip box based on given slip corners.
-
-    Parameters
-    ----------
-    slit_box_corners : np.ndarray
-        Four corners of the slit box as a 4x2 matrix
-    inclip : tuple, optional
-        Extra inclipping to avoid clipping artifacts
-
-    Returns
-    -------
-    Tuple:
-        Cliping indices as a tuple of four
-        (clipFromTop, clipToBottom, clipFromLeft, clipToRight)
-
-    """
-    return (
-        np.floor(slit_box_corners[:, 0].min()).astype(
-            int) + inclip[0],  # clip top    row
-        np.ceil(slit_box_corners[:, 0].max()).astype(
-            int) - inclip[1],  # clip bottom row
-        np.floor(slit_box_corners[:, 1].min()).astype(
-            int) + inclip[2],  # clip left   col
-        np.ceil(slit_box_corners[:, 1].max()).astype(
-            int) - inclip[3],  # clip right  col
-    )
-
-
-def remove_slits_aps_1id(imgstacks, slit_box_corners, inclip=(1, 10, 1, 10)):
-    """
-    Remove the slits from still images
-
-    Parameters
-    ----------
-    imgstacks : np.ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    slit_box_corners : np.ndarray
-        four corners of the slit box
-    inclip : tuple, optional
-        Extra inclipping to avoid clipping artifacts
-
-    Returns
-    -------
-    np.ndarray
-        tomopy images stacks without regions outside slits
-    """
-    xl, xu, yl, yu = calc_slit_box_aps_1id(slit_box_corners, inclip=inclip)
-    return imgstacks[:, yl:yu, xl:xu]
-
-
-def detector_drift_adjust_aps_1id(imgstacks,
-                                  slit_cnr_ref,
-                                  medfilt2_kernel_size=3,
-                                  medfilt_kernel_size=3,
-                                  ncore=None,
-                                  ):
-    """
-    Adjust each still image based on the slit corners and generate report fig
-
-    Parameters
-    ----------
-    imgstacks : np.ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    slit_cnr_ref : np.ndarray
-        reference slit corners from white field images
-    medfilt2_kernel_size : int, optional
-        2D median filter kernel size for slit conner detection
-    medfilt_kernel_size  : int, optional
-        1D median filter kernel size for slit conner detection
-    ncore : int, optional
-        number of cores used for speed up
-
-    Returns
-    -------
-    np.ndarray
-        adjusted imgstacks
-    np.ndarray
-        detected corners on each still image
-    np.ndarray
-        transformation matrices used to adjust each image
-    """
-    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
-
-    def quick_diff(x): return np.amax(np.absolute(x))
-
-    # -- find all projection corners (slow)
-    # NOTE:
-    #  Here we are using an iterative approach to find stable slit corners
-    #  from each image
-    #  1. calculate all slit corners with the given kernel size, preferably
-    #     a small one for speed.
-    #  2. double the kernel size and calculate again, but this time we are
-    #     checking whether the slit corners are stable.
-    #  3. find the ids (n_imgs) for those that are difficult, continue
-    #     increasing the kernel size until all slit corners are found, or max
-    #     number of iterations.
-    #  4. move on to next step.
-    nlist = range(imgstacks.shape[0])
-    proj_cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
-                                'quadrant+',
-                                medfilt2_kernel_size,
-                                medfilt_kernel_size,
-                                )
-    cnrs_found = np.array([quick_diff(proj_cnrs[n, :, :] - slit_cnr_ref) < 15
-                           for n in nlist])
-    kernels = [(medfilt2_kernel_size+2*i, medfilt_kernel_size+2*j)
-               for i in range(15)
-               for j in range(15)]
-    counter = 0
-
-    while not cnrs_found.all():
-        nlist = [idx for idx, cnr_found in enumerate(cnrs_found)
-                 if not cnr_found]
-        # NOTE:
-        #   Check to see if we run out of candidate kernels:
-        if counter > len(kernels):
-            # we are giving up here...
-            for idx, n_img in enumerate(nlist):
-                proj_cnrs[n_img, :, :] = slit_cnr_ref
-            break
-        else:
-            # test with differnt 2D and 1D kernels
-            ks2d, ks1d = kernels[counter]
-
-        _cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
-                                'quadrant+', ks2d, ks1d)
-        for idx, _cnr in enumerate(_cnrs):
-            n_img = nlist[idx]
-            cnr = proj_cnrs[n_img, :, :]  # previous results
-            # NOTE:
-            #  The detector corner should not be far away from reference
-            #  -> adiff < 15
-            #  The detected corner should be stable
-            #  -> rdiff < 0.1 (pixel)s
-            adiff = quick_diff(_cnr - slit_cnr_ref)
-            rdiff = quick_diff(_cnr - cnr)
-            if rdiff < 0.1 and adiff < 15:
-                cnrs_found[n_img] = True
-            else:
-                # update results
-                proj_cnrs[n_img, :, :] = _cnr  # update results for next iter
-
-        # next
-        counter += 1
-
-    # -- calculate affine transformation (fast)
-    img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
-    for n_img in range(imgstacks.shape[0]):
-        img_correct_F[n_img, :, :] = calc_affine_transform(
-            proj_cnrs[n_img, :, :], slit_cnr_ref)
-
-    # -- apply affine transformation (slow)
-    tmp = []
-    with cf.ProcessPoolExecutor(ncore) as e:
-        for n_img in range(imgstacks.shape[0]):
-            tmp.append(e.submit(affine_transform,
-                                # input image
-                                imgstacks[n_img, :, :],
-                                # rotation matrix
-                                img_correct_F[n_img, 0:2, 0:2],
-                                # offset vector
-                                offset=img_correct_F[n_img, 0:2,  2],
-                                )
-                       )
-    imgstacks = np.stack([me.result() for me in tmp], axis=0)
-
-    return imgstacks, proj_cnrs, img_correct_F
-
-
-def _calc_proj_cnrs(imgs,
-                    ncore,
-                    nlist,
-                    method,
-                    medfilt2_kernel_size,
-                    medfilt_kernel_size,
-                    ):
-    """
-    Private function calculate slit corners concurrently
-
-    Parameters
-    ----------
-    imgs : ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    ncore : int
-        number of cores to use
-    nlist : list of int
-        index of images to be processed
-    method : str
-        slit corner detection method name
-    medfilt2_kernel_size : int
-        2D median filter kernel size, must be odd
-    medfilt_kernel_size : int
-        1D median filter kernel size, must be odd
-
-    Returns
-    -------
-    np.3darray
-        detected corners on each still image
-    """
-    tmp = []
-    with cf.ProcessPoolExecutor(ncore) as e:
-        for n_img in nlist:
-            tmp.append(e.submit(find_slits_corners_aps_1id,
-                                imgs[n_img, :, :],
-                                method=method,
-                                medfilt2_kernel_size=medfilt2_kernel_size,
-                                medfilt_kernel_size=medfilt_kernel_size,
-                                )
-                       )
-    return np.stack([me.result() for me in tmp], axis=0)
-
-
-def distortion_correction_proj(tomo, xcenter, ycenter, list_fact,
-                                ncore=None, nchunk=None):
-    """
-    Apply distortion correction to projections using the polynomial model.
-    Coefficients are calculated using Vounwarp package :cite:`Vo:15`.
-
-    .. versionadded:: 1.7
-
-    Parameters
-    ----------
-    tomo : ndarray
-        3D tomographic data.
-    xcenter : float
-        Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-        Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-        Polynomial coefficients of the backward model.
-    ncore : int, optional
-        Number of cores that will be assigned to jobs.
-    nchunk : int, optional
-        Chunk size for each core.
-
-    Returns
-    -------
-    ndarray
-        Corrected 3D tomographic data.
-    """
-    arr = mproc.distribute_jobs(
-        dtype.as_floating(tomo),
-        func=_distortion_correction_proj,
-        args=(xcenter, ycenter, list_fact),
-        axis=0,
-        ncore=ncore,
-        nchunk=nchunk)
-    return arr
-
-
-def _unwarp_image_backward(mat, xcenter, ycenter, list_fact):
-    """
-    Unwarp an image using the polynomial model.
-
-    Parameters
-    ----------
-    mat : 2D array.
-    xcenter : float
-            Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-            Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-            Polynomial coefficients of the backward model.
-
-    Returns
-    -------
-    2D array
-        Corrected image.
-    """
-    (height, width) = mat.shape
-    xu_list = np.arange(width) - xcenter
-    yu_list = np.arange(height) - ycenter
-    xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
-    ru_mat = np.sqrt(xu_mat**2 + yu_mat**2)
-    fact_mat = np.sum(
-        np.asarray([factor * ru_mat**i for i,
-                    factor in enumerate(list_fact)]), axis=0)
-    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
-    indices = np.reshape(yd_mat, (-1, 1)), np.reshape(xd_mat, (-1, 1))
-    mat = map_coordinates(mat, indices, order=1, mode='reflect')
-    return mat.reshape((height, width))
-
-
-def _distortion_correction_proj(tomo, xcenter, ycenter, list_fact):
-    for m in np.arange(tomo.shape[0]):
-        proj = tomo[m, :, :]
-        proj = _unwarp_image_backward(proj, xcenter, ycenter, list_fact)
-        tomo[m, :, :] = proj
-
-
-def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
-    """
-    Generate an unwarped sinogram of a 3D tomographic data using
-    the polynomial model. Coefficients are calculated using Vounwarp
-    package :cite:`Vo:15`.
-
-    .. versionadded:: 1.7
-
-    Parameters
-    ----------
-    tomo : ndarray
-        3D tomographic data.
-    ind : int
-        Index of the unwarped sinogram.
-    xcenter : float
-        Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-        Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-        Polynomial coefficients of the backward model.
-
-    Returns
-    -------
-    2D array
-        Corrected sinogram.
-    """
-    (depth, height, width) = tomo.shape
-    xu_list = np.arange(0, width) - xcenter
-    yu = ind - ycenter
-    ru_list = np.sqrt(xu_list**2 + yu**2)
-    flist = np.sum(
-        np.asarray([factor * ru_list**i for i,
-                    factor in enumerate(list_fact)]), axis=0)
-    xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
-    yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
-    yd_list = yd_list - yd_min
-    sino = np.zeros((depth, width), dtype=np.float32)
-    indices = yd_list, xd_list
-    for i in np.arange(depth):
-        sino[i] = map_coordinates(
-            tomo[i, yd_min:yd_max, :], indices, output=np.float32, order=1,
-            mode='reflect')
-    return sino
-
-
-def load_distortion_coefs(file_path):
-        """
-        Load distortion coefficients from a text file.
-        Order of the infor in the text file:
-        xcenter
-        ycenter
-        factor_0
-        factor_1
-        factor_2
-        ..
-
-        Parameters
-        ----------
-        file_path: Path to the file.
-
-        Returns
-        -------
-        Tuple of (xcenter, ycenter, list_fact).
-        """
-        with open(file_path, 'r') as f:
-            x = f.read().splitlines()
-            list_data = []
-            for i in x:
-                list_data.append(float(i.split()[-1]))
-        xcenter = list_data[0]
-        ycenter = list_data[1]
-        list_fact = list_data[2:]
-        return xcenter, ycenter, list_fact
+#!/usr/bin/env python
+# -*- coding: utf-8 -*-
+
+# #########################################################################
+# Copyright (c) 2016-2019, UChicago Argonne, LLC. All rights reserved.    #
+#                                                                         #
+# Copyright 2016-2019. UChicago Argonne, LLC. This software was produced  #
+# under U.S. Government contract DE-AC02-06CH11357 for Argonne National   #
+# Laboratory (ANL), which is operated by UChicago Argonne, LLC for the    #
+# U.S. Department of Energy. The U.S. Government has rights to use,       #
+# reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR    #
+# UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR        #
+# ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is     #
+# modified to produce derivative works, such modified software should     #
+# be clearly marked, so as not to confuse it with the version available   #
+# from ANL.                                                               #
+#                                                                         #
+# Additionally, redistribution and use in source and binary forms, with   #
+# or without modification, are permitted provided that the following      #
+# conditions are met:                                                     #
+#                                                                         #
+#     * Redistributions of source code must retain the above copyright    #
+#       notice, this list of conditions and the following disclaimer.     #
+#                                                                         #
+#     * Redistributions in binary form must reproduce the above copyright #
+#       notice, this list of conditions and the following disclaimer in   #
+#       the documentation and/or other materials provided with the        #
+#       distribution.                                                     #
+#                                                                         #
+#     * Neither the name of UChicago Argonne, LLC, Argonne National       #
+#       Laboratory, ANL, the U.S. Government, nor the names of its        #
+#       contributors may be used to endorse or promote products derived   #
+#       from this software without specific prior written permission.     #
+#                                                                         #
+# THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS     #
+# "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT       #
+# LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS       #
+# FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago     #
+# Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,        #
+# INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,    #
+# BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;        #
+# LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER        #
+# CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT      #
+# LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN       #
+# ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE         #
+# POSSIBILITY OF SUCH DAMAGE.                                             #
+# #########################################################################
+
+import numpy as np
+import concurrent.futures as cf
+import tomopy.util.mproc as mproc
+import tomopy.util.dtype as dtype
+import logging
+
+from skimage import transform as tf
+from skimage.registration import phase_cross_correlation
+from tomopy.recon.algorithm import recon
+from tomopy.sim.project import project
+from tomopy.misc.npmath import gauss1d, calc_affine_transform
+from tomopy.util.misc import write_tiff
+from scipy.signal import medfilt, medfilt2d
+from scipy.optimize import curve_fit
+from scipy.ndimage import affine_transform
+from scipy.ndimage import map_coordinates
+from collections import namedtuple
+
+logger = logging.getLogger(__name__)
+
+
+__author__ = "Doga Gursoy, Chen Zhang, Nghia Vo"
+__copyright__ = "Copyright (c) 2016-19, UChicago Argonne, LLC."
+__docformat__ = 'restructuredtext en'
+__all__ = ['align_seq',
+           'align_joint',
+           'scale',
+           'tilt',
+           'add_jitter',
+           'add_noise',
+           'blur_edges',
+           'shift_images',
+           'find_slits_corners_aps_1id',
+           'calc_slit_box_aps_1id',
+           'remove_slits_aps_1id',
+           'distortion_correction_proj',
+           'distortion_correction_sino',
+           'load_distortion_coefs',
+           ]
+
+
+def align_seq(
+        prj, ang, fdir='.', iters=10, pad=(0, 0),
+        blur=True, center=None, algorithm='sirt',
+        upsample_factor=10, rin=0.5, rout=0.8,
+        save=False, debug=True):
+    """
+    Aligns the projection image stack using the sequential
+    re-projection algorithm :cite:`Gursoy:17`.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ang : ndarray
+        Projection angles in radians as an array.
+    iters : scalar, optional
+        Number of iterations of the algorithm.
+    pad : list-like, optional
+        Padding for projection images in x and y-axes.
+    blur : bool, optional
+        Blurs the edge of the image before registration.
+    center: array, optional
+        Location of rotation axis.
+    algorithm : {str, function}
+        One of the following string values.
+
+        'art'
+            Algebraic reconstruction technique :cite:`Kak:98`.
+        'gridrec'
+            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
+            :cite:`Rivers:06`.
+        'mlem'
+            Maximum-likelihood expectation maximization algorithm
+            :cite:`Dempster:77`.
+        'sirt'
+            Simultaneous algebraic reconstruction technique.
+        'tv'
+            Total Variation reconstruction technique
+            :cite:`Chambolle:11`.
+        'grad'
+            Gradient descent method with a constant step size
+
+    upsample_factor : integer, optional
+        The upsampling factor. Registration accuracy is
+        inversely propotional to upsample_factor.
+    rin : scalar, optional
+        The inner radius of blur function. Pixels inside
+        rin is set to one.
+    rout : scalar, optional
+        The outer radius of blur function. Pixels outside
+        rout is set to zero.
+    save : bool, optional
+        Saves projections and corresponding reconstruction
+        for each algorithm iteration.
+    debug : book, optional
+        Provides debugging info such as iterations and error.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    ndarray
+        Error array for each iteration.
+    """
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Shift arrays
+    sx = np.zeros((prj.shape[0]))
+    sy = np.zeros((prj.shape[0]))
+
+    conv = np.zeros((iters))
+
+    # Pad images.
+    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
+    prj = np.pad(prj, npad, mode='constant', constant_values=0)
+
+    # Register each image frame-by-frame.
+    for n in range(iters):
+        # Reconstruct image.
+        rec = recon(prj, ang, center=center, algorithm=algorithm)
+
+        # Re-project data and obtain simulated data.
+        sim = project(rec, ang, center=center, pad=False)
+
+        # Blur edges.
+        if blur:
+            _prj = blur_edges(prj, rin, rout)
+            _sim = blur_edges(sim, rin, rout)
+        else:
+            _prj = prj
+            _sim = sim
+
+        # Initialize error matrix per iteration.
+        err = np.zeros((prj.shape[0]))
+
+        # For each projection
+        for m in range(prj.shape[0]):
+
+            # Register current projection in sub-pixel precision
+            shift, error, diffphase = phase_cross_correlation(
+                    _prj[m], _sim[m], upsample_factor=upsample_factor)
+            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
+            sx[m] += shift[0]
+            sy[m] += shift[1]
+
+            # Register current image with the simulated one
+            tform = tf.SimilarityTransform(translation=(shift[1], shift[0]))
+            prj[m] = tf.warp(prj[m], tform, order=5)
+
+        if debug:
+            print('iter=' + str(n) + ', err=' + str(np.linalg.norm(err)))
+            conv[n] = np.linalg.norm(err)
+
+        if save:
+            write_tiff(prj, fdir + '/tmp/iters/prj', n)
+            write_tiff(sim, fdir + '/tmp/iters/sim', n)
+            write_tiff(rec, fdir + '/tmp/iters/rec', n)
+
+    # Re-normalize data
+    prj *= scl
+    return prj, sx, sy, conv
+
+
+def align_joint(
+        prj, ang, fdir='./', iters=10, pad=(0, 0),
+        blur=True, center=None, algorithm='sirt',
+        upsample_factor=10, rin=0.5, rout=0.8,
+        save=False, debug=True):
+    """
+    Aligns the projection image stack using the joint
+    re-projection algorithm :cite:`Gursoy:17`.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ang : ndarray
+        Projection angles in radians as an array.
+    iters : scalar, optional
+        Number of iterations of the algorithm.
+    pad : list-like, optional
+        Padding for projection images in x and y-axes.
+    blur : bool, optional
+        Blurs the edge of the image before registration.
+    center: array, optional
+        Location of rotation axis.
+    algorithm : {str, function}
+        One of the following string values.
+
+        'art'
+            Algebraic reconstruction technique :cite:`Kak:98`.
+        'gridrec'
+            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
+            :cite:`Rivers:06`.
+        'mlem'
+            Maximum-likelihood expectation maximization algorithm
+            :cite:`Dempster:77`.
+        'sirt'
+            Simultaneous algebraic reconstruction technique.
+        'tv'
+            Total Variation reconstruction technique
+            :cite:`Chambolle:11`.
+        'grad'
+            Gradient descent method with a constant step size
+
+    upsample_factor : integer, optional
+        The upsampling factor. Registration accuracy is
+        inversely propotional to upsample_factor.
+    rin : scalar, optional
+        The inner radius of blur function. Pixels inside
+        rin is set to one.
+    rout : scalar, optional
+        The outer radius of blur function. Pixels outside
+        rout is set to zero.
+    save : bool, optional
+        Saves projections and corresponding reconstruction
+        for each algorithm iteration.
+    debug : book, optional
+        Provides debugging info such as iterations and error.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    ndarray
+        Error array for each iteration.
+    """
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Shift arrays
+    sx = np.zeros((prj.shape[0]))
+    sy = np.zeros((prj.shape[0]))
+
+    conv = np.zeros((iters))
+
+    # Pad images.
+    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
+    prj = np.pad(prj, npad, mode='constant', constant_values=0)
+
+    # Initialization of reconstruction.
+    rec = 1e-12 * np.ones((prj.shape[1], prj.shape[2], prj.shape[2]))
+
+    extra_kwargs = {}
+    if algorithm != 'gridrec':
+        extra_kwargs['num_iter'] = 1
+
+    # Make a copy of the projections
+    prj_copy = prj.copy()
+
+    # Register each image frame-by-frame.
+    for n in range(iters):
+
+        if np.mod(n, 1) == 0:
+            _rec = rec
+
+        # Reconstruct image.
+        rec = recon(prj_copy, ang, center=center, algorithm=algorithm,
+                    init_recon=_rec, **extra_kwargs)
+
+        # Re-project data and obtain simulated data.
+        sim = project(rec, ang, center=center, pad=False)
+
+        # Blur edges.
+        if blur:
+            _prj = blur_edges(prj_copy, rin, rout)
+            _sim = blur_edges(sim, rin, rout)
+        else:
+            _prj = prj_copy
+            _sim = sim
+
+        # Initialize error matrix per iteration.
+        err = np.zeros((prj.shape[0]))
+
+        # For each projection
+        for m in range(prj.shape[0]):
+
+            # Register current projection in sub-pixel precision
+            shift, error, diffphase = phase_cross_correlation(
+                    _prj[m], _sim[m], normalization=None,
+                    upsample_factor=upsample_factor)
+            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
+            sx[m] += shift[0]
+            sy[m] += shift[1]
+
+            # Register current image with the simulated one
+            tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
+            prj_copy[m] = tf.warp(prj[m].copy(), tform, order=5)
+
+        if debug:
+            print('iter=' + str(n) + 
+                  ', err=' + str(np.linalg.norm(err) / prj.shape[0]))
+            conv[n] = np.linalg.norm(err)
+
+        if save:
+            write_tiff(_prj, fdir + 'tmp/iters/prj', n)
+            write_tiff(sim, fdir + 'tmp/iters/sim', n)
+            write_tiff(rec, fdir + 'tmp/iters/rec', n)
+            write_tiff(sx, fdir + 'tmp/iters/sx', n)
+            write_tiff(sy, fdir + 'tmp/iters/sy', n)
+
+    # Re-normalize data
+    prj *= scl
+    return prj, sx, sy, conv
+
+
+def tilt(obj, rad=0, phi=0):
+    """
+    Tilt object at a given angle from the rotation axis.
+
+    Warning
+    -------
+    Not implemented yet.
+
+    Parameters
+    ----------
+    obj : ndarray
+        3D discrete object.
+    rad : scalar, optional
+        Radius in polar cordinates to define tilt angle.
+        The value is between 0 and 1, where 0 means no tilt
+        and 1 means a tilt of 90 degrees. The tilt angle
+        can be obtained by arcsin(rad).
+    phi : scalar, optional
+        Angle in degrees to define tilt direction from the
+        rotation axis. 0 degree means rotation in sagittal
+        plane and 90 degree means rotation in coronal plane.
+
+    Returns
+    -------
+    ndarray
+        Tilted 3D object.
+    """
+    pass
+
+
+def add_jitter(prj, low=0, high=1):
+    """
+    Simulates jitter in projection images. The jitter
+    is simulated by drawing random samples from a uniform
+    distribution over the half-open interval [low, high).
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    low : float, optional
+        Lower boundary of the output interval. All values
+        generated will be greater than or equal to low. The
+        default value is 0.
+    high : float
+        Upper boundary of the output interval. All values
+        generated will be less than high. The default value
+        is 1.0.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    """
+    from skimage import transform as tf
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Random jitter parameters are drawn from uniform distribution.
+    jitter = np.random.uniform(low, high, size=(prj.shape[0], 2))
+
+    for m in range(prj.shape[0]):
+        tform = tf.SimilarityTransform(translation=jitter[m])
+        prj[m] = tf.warp(prj[m], tform, order=0)
+
+    # Re-scale back to original values.
+    prj *= scl
+    return prj, jitter[:, 0], jitter[:, 1]
+
+
+def add_noise(prj, ratio=0.05):
+    """
+    Adds Gaussian noise with zero mean and a given standard
+    deviation as a ratio of the maximum value in data.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ratio : float, optional
+        Ratio of the standard deviation of the Gaussian noise
+        distribution to the maximum value in data.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with added Gaussian noise.
+    """
+    std = prj.max() * ratio
+    noise = np.random.normal(0, std, size=prj.shape)
+    return prj + noise.astype('float32')
+
+
+def scale(prj):
+    """
+    Linearly scales the projection images in the range
+    between -1 and 1.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+
+    Returns
+    -------
+    ndarray
+        Scaled 3D stack of projection images.
+    """
+    scl = max(abs(prj.max()), abs(prj.min())) or 1.0
+    prj = prj / scl
+    return prj, scl
+
+
+def blur_edges(prj, low=0, high=0.8):
+    """
+    Blurs the edge of the projection images.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    low : scalar, optional
+        Min ratio of the blurring frame to the image size.
+    high : scalar, optional
+        Max ratio of the blurring frame to the image size.
+
+    Returns
+    -------
+    ndarray
+        Edge-blurred 3D stack of projection images.
+    """
+    _prj = prj.copy()
+    dx, dy, dz = _prj.shape
+    rows, cols = np.mgrid[:dy, :dz]
+    rad = np.sqrt((rows - dy / 2)**2 + (cols - dz / 2)**2)
+    mask = np.zeros((dy, dz))
+    rmin, rmax = low * rad.max(), high * rad.max()
+    mask[rad < rmin] = 1
+    mask[rad > rmax] = 0
+    zone = np.logical_and(rad >= rmin, rad <= rmax)
+    mask[zone] = (rmax - rad[zone]) / (rmax - rmin)
+    feathered = np.empty((dy, dz), dtype=np.uint8)
+    _prj *= mask
+    return _prj
+
+
+def shift_images(prj, sx, sy):
+    """
+    Shift projections images for a given set of shift
+    values in horizontal and vertical directions.
+    """
+
+    from skimage import transform as tf
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # For each projection
+    for m in range(prj.shape[0]):
+        tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
+        prj[m] = tf.warp(prj[m], tform, order=5)
+
+    # Re-normalize data
+    prj *= scl
+
+    return prj
+
+
+def find_slits_corners_aps_1id(img,
+                               method='quadrant+',
+                               medfilt2_kernel_size=3,
+                               medfilt_kernel_size=23,
+                               ):
+    """
+    Automatically locate the slit box location by its four corners.
+
+    NOTE:
+    The four slits that form a binding box is the current setup at aps_1id,
+    which reduce the illuminated region on the detector. Since the slits are
+    stationary, they can serve as a reference to check detector drifting
+    during the scan. Technically, the four slits should be used to find
+    the transformation matrix (not necessarily affine) to correct the image.
+    However, since we are dealing with 2D images with very little distortion,
+    affine transformation matrices were used for approximation. Therefore
+    the "four corners" are used instead of all four slits.
+
+    Parameters
+    ----------
+    img : np.ndarray
+        2D images
+    method : str,  ['simple', 'quadrant', 'quadrant+'], optional
+        method for auto detecting slit corners
+            - simple    :: assume a rectange slit box, fast but less accurate
+                           (1 pixel precision)
+            - quadrant  :: subdivide the image into four quandrant, then use
+                           an explicit method to find the corner
+                           (1 pixel precision)
+            - quadrant+ :: similar to quadrant, but use curve_fit (gauss1d) to
+                           find the corner
+                           (0.1 pixel precision)
+    medfilt2_kernel_size : int, optional
+        2D median filter kernel size for noise reduction
+    medfilt_kernel_size : int, optional
+        1D median filter kernel size for noise reduction
+
+    Returns
+    -------
+    tuple
+        autodetected slit corners (counter-clockwise order)
+        (upperLeft, lowerLeft, lowerRight, upperRight)
+    """
+    img = medfilt2d(np.log(img.astype(np.float64)),
+                    kernel_size=medfilt2_kernel_size,
+                    )
+    rows, cols = img.shape
+
+    # simple method is simple, therefore it stands out
+    if method.lower() == 'simple':
+        # assuming a rectangle type slit box
+        col_std = medfilt(np.std(img, axis=0), kernel_size=medfilt_kernel_size)
+        row_std = medfilt(np.std(img, axis=1), kernel_size=medfilt_kernel_size)
+        # NOTE: in the tiff img
+        #  x is col index, y is the row index  ==> key point here !!!
+        #  img slicing is doen with img[row_idx, col_idx]
+        #  ==> so the image idx and corner position are FLIPPED!
+        _left = np.argmax(np.gradient(col_std))
+        _right = np.argmin(np.gradient(col_std))
+        _top = np.argmax(np.gradient(row_std))
+        _bottom = np.argmin(np.gradient(row_std))
+
+        cnrs = np.array([[_left, _top],
+                         [_left, _bottom],
+                         [_right, _bottom],
+                         [_right, _top],
+                         ])
+    else:
+        # predefine all quadrants
+        # Here let's assume that the four corners of the slit box are in the
+        # four quadrant defined by the center of the image
+        # i.e.
+        #  uppper left quadrant: img[0     :cnt[1], 0     :cnt[0]]  => quadarnt origin =  (0,           0)
+        #  lower  left quadrant: img[cnt[1]:      , 0     :cnt[0]]  => quadarnt origin =  (cnt[0],      0)
+        #  lower right quadrant: img[cnt[1]:      , cnt[0]:      ]  => quadarnt origin =  (cnt[0], cnt[1])
+        # upper right quadrant: img[0     :cnt[1], cnt[0]:      ]  => quadarnt
+        # origin =  (0,      cnt[1])
+        # center of image that defines FOUR quadrants
+        cnt = [int(cols / 2), int(rows / 2)]
+        Quadrant = namedtuple('Quadrant', 'img col_func, row_func')
+        quadrants = [Quadrant(img=img[0:cnt[1], 0:cnt[0]], col_func=np.argmax, row_func=np.argmax),  # upper left,  1st quadrant
+                     # lower left,  2nd quadrant
+                     Quadrant(img=img[cnt[1]:, 0:cnt[0]],
+                              col_func=np.argmax, row_func=np.argmin),
+                     # lower right, 3rd quadrant
+                     Quadrant(img=img[cnt[1]:, cnt[0]:],
+                              col_func=np.argmin, row_func=np.argmin),
+                     # upper right, 4th quadrant
+                     Quadrant(img=img[0:cnt[1], cnt[0]:],
+                              col_func=np.argmin, row_func=np.argmax),
+                     ]
+        # the origin in each quadrants ==> easier to set it here
+        quadrantorigins = np.array([[0, 0],  # upper left,  1st quadrant
+                                    [0, cnt[1]],  # lower left,  2nd quadrant
+                                    # lower right, 3rd quadrant
+                                    [cnt[0], cnt[1]],
+                                    [cnt[0], 0],  # upper right, 4th quadrant
+                                    ])
+        # init four corners
+        cnrs = np.zeros((4, 2))
+        if method.lower() == 'quadrant':
+            # the standard quadrant method
+            for i, q in enumerate(quadrants):
+                cnrs[i, :] = np.array([q.col_func(np.gradient(medfilt(np.std(q.img, axis=0), kernel_size=medfilt_kernel_size))),  # x is col_idx
+                                       q.row_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=1),
+                            kernel_size=medfilt_kernel_size))),
+                    # y is row_idx
+                ])
+            # add the origin offset back
+            cnrs = cnrs + quadrantorigins
+        elif method.lower() == 'quadrant+':
+            # use Gaussian curve fitting to achive subpixel precision
+            # TODO:
+            # improve the curve fitting with Lorentz and Voigt fitting function
+            for i, q in enumerate(quadrants):
+                # -- find x subpixel position
+                cnr_x_guess = q.col_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=0),
+                            kernel_size=medfilt_kernel_size)))
+                # isolate the strongest peak to fit
+                tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
+                tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
+                # tmpy[0] is the value from the highest/lowest pixle
+                # tmpx[0] is basically cnr_x_guess
+                # 5.0 is the guessted std,
+                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
+                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     maxfev=int(1e6),
+                                     )
+                cnrs[i, 0] = coeff[1]  # x position
+                # -- find y subpixel positoin
+                cnr_y_guess = q.row_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=1),
+                            kernel_size=medfilt_kernel_size)))
+                # isolate the peak (x, y here is only associated with the peak)
+                tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
+                tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
+                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
+                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     maxfev=int(1e6),
+                                     )
+                cnrs[i, 1] = coeff[1]  # y posiiton
+            # add the quadrant shift back
+            cnrs = cnrs + quadrantorigins
+
+        else:
+            raise NotImplementedError(
+                "Available methods are: simple, quadrant, quadrant+")
+
+    # return the slit corner detected
+    return cnrs
+
+
+def calc_slit_box_aps_1id(slit_box_corners, inclip=(1, 10, 1, 10)):
+    """
+    Calculate the clip box based on given slip corners.
+
+    Parameters
+    ----------
+    slit_box_corners : np.ndarray
+        Four corners of the slit box as a 4x2 matrix
+    inclip : tuple, optional
+        Extra inclipping to avoid clipping artifacts
+
+    Returns
+    -------
+    Tuple:
+        Cliping indices as a tuple of four
+        (clipFromTop, clipToBottom, clipFromLeft, clipToRight)
+
+    """
+    return (
+        np.floor(slit_box_corners[:, 0].min()).astype(
+            int) + inclip[0],  # clip top    row
+        np.ceil(slit_box_corners[:, 0].max()).astype(
+            int) - inclip[1],  # clip bottom row
+        np.floor(slit_box_corners[:, 1].min()).astype(
+            int) + inclip[2],  # clip left   col
+        np.ceil(slit_box_corners[:, 1].max()).astype(
+            int) - inclip[3],  # clip right  col
+    )
+
+
+def remove_slits_aps_1id(imgstacks, slit_box_corners, inclip=(1, 10, 1, 10)):
+    """
+    Remove the slits from still images
+
+    Parameters
+    ----------
+    imgstacks : np.ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    slit_box_corners : np.ndarray
+        four corners of the slit box
+    inclip : tuple, optional
+        Extra inclipping to avoid clipping artifacts
+
+    Returns
+    -------
+    np.ndarray
+        tomopy images stacks without regions outside slits
+    """
+    xl, xu, yl, yu = calc_slit_box_aps_1id(slit_box_corners, inclip=inclip)
+    return imgstacks[:, yl:yu, xl:xu]
+
+
+def detector_drift_adjust_aps_1id(imgstacks,
+                                  slit_cnr_ref,
+                                  medfilt2_kernel_size=3,
+                                  medfilt_kernel_size=3,
+                                  ncore=None,
+                                  ):
+    """
+    Adjust each still image based on the slit corners and generate report fig
+
+    Parameters
+    ----------
+    imgstacks : np.ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    slit_cnr_ref : np.ndarray
+        reference slit corners from white field images
+    medfilt2_kernel_size : int, optional
+        2D median filter kernel size for slit conner detection
+    medfilt_kernel_size  : int, optional
+        1D median filter kernel size for slit conner detection
+    ncore : int, optional
+        number of cores used for speed up
+
+    Returns
+    -------
+    np.ndarray
+        adjusted imgstacks
+    np.ndarray
+        detected corners on each still image
+    np.ndarray
+        transformation matrices used to adjust each image
+    """
+    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
+
+    def quick_diff(x): return np.amax(np.absolute(x))
+
+    # -- find all projection corners (slow)
+    # NOTE:
+    #  Here we are using an iterative approach to find stable slit corners
+    #  from each image
+    #  1. calculate all slit corners with the given kernel size, preferably
+    #     a small one for speed.
+    #  2. double the kernel size and calculate again, but this time we are
+    #     checking whether the slit corners are stable.
+    #  3. find the ids (n_imgs) for those that are difficult, continue
+    #     increasing the kernel size until all slit corners are found, or max
+    #     number of iterations.
+    #  4. move on to next step.
+    nlist = range(imgstacks.shape[0])
+    proj_cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
+                                'quadrant+',
+                                medfilt2_kernel_size,
+                                medfilt_kernel_size,
+                                )
+    cnrs_found = np.array([quick_diff(proj_cnrs[n, :, :] - slit_cnr_ref) < 15
+                           for n in nlist])
+    kernels = [(medfilt2_kernel_size+2*i, medfilt_kernel_size+2*j)
+               for i in range(15)
+               for j in range(15)]
+    counter = 0
+
+    while not cnrs_found.all():
+        nlist = [idx for idx, cnr_found in enumerate(cnrs_found)
+                 if not cnr_found]
+        # NOTE:
+        #   Check to see if we run out of candidate kernels:
+        if counter > len(kernels):
+            # we are giving up here...
+            for idx, n_img in enumerate(nlist):
+                proj_cnrs[n_img, :, :] = slit_cnr_ref
+            break
+        else:
+            # test with differnt 2D and 1D kernels
+            ks2d, ks1d = kernels[counter]
+
+        _cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
+                                'quadrant+', ks2d, ks1d)
+        for idx, _cnr in enumerate(_cnrs):
+            n_img = nlist[idx]
+            cnr = proj_cnrs[n_img, :, :]  # previous results
+            # NOTE:
+            #  The detector corner should not be far away from reference
+            #  -> adiff < 15
+            #  The detected corner should be stable
+            #  -> rdiff < 0.1 (pixel)s
+            adiff = quick_diff(_cnr - slit_cnr_ref)
+            rdiff = quick_diff(_cnr - cnr)
+            if rdiff < 0.1 and adiff < 15:
+                cnrs_found[n_img] = True
+            else:
+                # update results
+                proj_cnrs[n_img, :, :] = _cnr  # update results for next iter
+
+        # next
+        counter += 1
+
+    # -- calculate affine transformation (fast)
+    img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
+    for n_img in range(imgstacks.shape[0]):
+        img_correct_F[n_img, :, :] = calc_affine_transform(
+            proj_cnrs[n_img, :, :], slit_cnr_ref)
+
+    # -- apply affine transformation (slow)
+    tmp = []
+    with cf.ProcessPoolExecutor(ncore) as e:
+        for n_img in range(imgstacks.shape[0]):
+            tmp.append(e.submit(affine_transform,
+                                # input image
+                                imgstacks[n_img, :, :],
+                                # rotation matrix
+                                img_correct_F[n_img, 0:2, 0:2],
+                                # offset vector
+                                offset=img_correct_F[n_img, 0:2,  2],
+                                )
+                       )
+    imgstacks = np.stack([me.result() for me in tmp], axis=0)
+
+    return imgstacks, proj_cnrs, img_correct_F
+
+
+def _calc_proj_cnrs(imgs,
+                    ncore,
+                    nlist,
+                    method,
+                    medfilt2_kernel_size,
+                    medfilt_kernel_size,
+                    ):
+    """
+    Private function calculate slit corners concurrently
+
+    Parameters
+    ----------
+    imgs : ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    ncore : int
+        number of cores to use
+    nlist : list of int
+        index of images to be processed
+    method : str
+        slit corner detection method name
+    medfilt2_kernel_size : int
+        2D median filter kernel size, must be odd
+    medfilt_kernel_size : int
+        1D median filter kernel size, must be odd
+
+    Returns
+    -------
+    np.3darray
+        detected corners on each still image
+    """
+    tmp = []
+    with cf.ProcessPoolExecutor(ncore) as e:
+        for n_img in nlist:
+            tmp.append(e.submit(find_slits_corners_aps_1id,
+                                imgs[n_img, :, :],
+                                method=method,
+                                medfilt2_kernel_size=medfilt2_kernel_size,
+                                medfilt_kernel_size=medfilt_kernel_size,
+                                )
+                       )
+    return np.stack([me.result() for me in tmp], axis=0)
+
+
+def distortion_correction_proj(tomo, xcenter, ycenter, list_fact,
+                                ncore=None, nchunk=None):
+    """
+    Apply distortion correction to projections using the polynomial model.
+    Coefficients are calculated using Vounwarp package :cite:`Vo:15`.
+
+    .. versionadded:: 1.7
+
+    Parameters
+    ----------
+    tomo : ndarray
+        3D tomographic data.
+    xcenter : float
+        Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+        Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+        Polynomial coefficients of the backward model.
+    ncore : int, optional
+        Number of cores that will be assigned to jobs.
+    nchunk : int, optional
+        Chunk size for each core.
+
+    Returns
+    -------
+    ndarray
+        Corrected 3D tomographic data.
+    """
+    arr = mproc.distribute_jobs(
+        dtype.as_floating(tomo),
+        func=_distortion_correction_proj,
+        args=(xcenter, ycenter, list_fact),
+        axis=0,
+        ncore=ncore,
+        nchunk=nchunk)
+    return arr
+
+
+def _unwarp_image_backward(mat, xcenter, ycenter, list_fact):
+    """
+    Unwarp an image using the polynomial model.
+
+    Parameters
+    ----------
+    mat : 2D array.
+    xcenter : float
+            Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+            Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+            Polynomial coefficients of the backward model.
+
+    Returns
+    -------
+    2D array
+        Corrected image.
+    """
+    (height, width) = mat.shape
+    xu_list = np.arange(width) - xcenter
+    yu_list = np.arange(height) - ycenter
+    xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
+    ru_mat = np.sqrt(xu_mat**2 + yu_mat**2)
+    fact_mat = np.sum(
+        np.asarray([factor * ru_mat**i for i,
+                    factor in enumerate(list_fact)]), axis=0)
+    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
+    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
+    indices = np.reshape(yd_mat, (-1, 1)), np.reshape(xd_mat, (-1, 1))
+    mat = map_coordinates(mat, indices, order=1, mode='reflect')
+    return mat.reshape((height, width))
+
+
+def _distortion_correction_proj(tomo, xcenter, ycenter, list_fact):
+    for m in np.arange(tomo.shape[0]):
+        proj = tomo[m, :, :]
+        proj = _unwarp_image_backward(proj, xcenter, ycenter, list_fact)
+        tomo[m, :, :] = proj
+
+
+def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
+    """
+    Generate an unwarped sinogram of a 3D tomographic data using
+    the polynomial model. Coefficients are calculated using Vounwarp
+    package :cite:`Vo:15`.
+
+    .. versionadded:: 1.7
+
+    Parameters
+    ----------
+    tomo : ndarray
+        3D tomographic data.
+    ind : int
+        Index of the unwarped sinogram.
+    xcenter : float
+        Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+        Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+        Polynomial coefficients of the backward model.
+
+    Returns
+    -------
+    2D array
+        Corrected sinogram.
+    """
+    (depth, height, width) = tomo.shape
+    xu_list = np.arange(0, width) - xcenter
+    yu = ind - ycenter
+    ru_list = np.sqrt(xu_list**2 + yu**2)
+    flist = np.sum(
+        np.asarray([factor * ru_list**i for i,
+                    factor in enumerate(list_fact)]), axis=0)
+    xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
+    yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
+    yd_min = np.int16(np.floor(np.amin(yd_list)))
+    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_list = yd_list - yd_min
+    sino = np.zeros((depth, width), dtype=np.float32)
+    indices = yd_list, xd_list
+    for i in np.arange(depth):
+        sino[i] = map_coordinates(
+            tomo[i, yd_min:yd_max, :], indices, output=np.float32, order=1,
+            mode='reflect')
+    return sino
+
+
+def load_distortion_coefs(file_path):
+        """
+        Load distortion coefficients from a text file.
+        Order of the infor in the text file:
+        xcenter
+        ycenter
+        factor_0
+        factor_1
+        factor_2
+        ..
+
+        Parameters
+        ----------
+        file_path: Path to the file.
+
+        Returns
+        -------
+        Tuple of (xcenter, ycenter, list_fact).
+        """
+        with open(file_path, 'r') as f:
+            x = f.read().splitlines()
+            list_data = []
+            for i in x:
+                list_data.append(float(i.split()[-1]))
+        xcenter = list_data[0]
+        ycenter = list_data[1]
+        list_fact = list_data[2:]
+        return xcenter, ycenter, list_fact
-- 
2.43.0


From d411a7a9e928deb0666985daeb7c063640e942a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:40 +0000
Subject: [PATCH 067/102] fix: normalize_nf uses the nearest flat at odd
 distances

---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index 9783cfe..56ae926 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -328,7 +328,7 @@ def normalize_nf(
         # chunking the total normalization and each chunked normalization
         tstart = 0 if m == 0 else tend
         tend = total_tomo if m >= num_flats-1 \
-            else int(np.round((flat_loc[m+1]-loc)/2)) + loc
+            else int(np.ceil((flat_loc[m+1]-loc)/2)) + loc
         tomo_l = tomo[tstart:tend]
         out_l = out[tstart:tend]
         with mproc.set_numexpr_threads(ncore):
-- 
2.43.0


From 8503348e38c8807639e41f40b2c3ed6a48394b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:40 +0000
Subject: [PATCH 068/102] fix: find_center and write_center apply the requested
 mask ratio

---
 source/tomopy/recon/rotation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 4f5aea9..b6a8162 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -137,7 +137,7 @@ def find_center(
         tomo_ind = tomo[:, ind:ind + 1, :]
 
     hmin, hmax = _adjust_hist_limits(
-        tomo_ind, theta, mask, sinogram_order)
+        tomo_ind, theta, mask, sinogram_order, ratio)
 
     # Magic is ready to happen...
     res = minimize(
@@ -148,7 +148,7 @@ def find_center(
     return res.x
 
 
-def _adjust_hist_limits(tomo_ind, theta, mask, sinogram_order):
+def _adjust_hist_limits(tomo_ind, theta, mask, sinogram_order, ratio=1.):
     # Make an initial reconstruction to adjust histogram limits.
     rec = recon(tomo_ind,
                 theta,
@@ -157,7 +157,7 @@ def _adjust_hist_limits(tomo_ind, theta, mask, sinogram_order):
 
     # Apply circular mask.
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     # Adjust histogram boundaries according to reconstruction.
     return _adjust_hist_min(rec.min()), _adjust_hist_max(rec.max())
@@ -193,7 +193,7 @@ def _find_center_cost(
         algorithm='gridrec')
 
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     hist, e = np.histogram(rec, bins=64, range=[hmin, hmax])
     hist = hist.astype('float32') / rec.size + 1e-12
@@ -568,7 +568,7 @@ def write_center(
 
     # Apply circular mask.
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     # Save images to a temporary folder.
     dpath = os.path.abspath(dpath)
-- 
2.43.0


From 8cb33239aeb8c20864f529e14585defc99cd19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:40 +0000
Subject: [PATCH 069/102] fix: write_center accepts the algorithms without a
 filter

---
 source/tomopy/recon/rotation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index b6a8162..470e063 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -557,14 +557,19 @@ def write_center(
         else:
             stack[m] = tomo[:, ind, :]
 
+    # Only the analytic algorithms take a filter.
+    kwargs = {}
+    if algorithm in ('gridrec', 'fbp'):
+        kwargs['filter_name'] = filter_name
+
     # Reconstruct the same slice with a range of centers.
     rec = recon(stack,
                 theta,
                 center=center,
                 sinogram_order=True,
                 algorithm=algorithm,
-                filter_name=filter_name,
-                nchunk=1)
+                nchunk=1,
+                **kwargs)
 
     # Apply circular mask.
     if mask is True:
-- 
2.43.0


From 8fd70854526d99de810416941e85dc4032ed6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:40 +0000
Subject: [PATCH 070/102] fix: mask_empty_slice accepts integer data

---
 source/tomopy/recon/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 470e063..6ef8bef 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -603,7 +603,7 @@ def mask_empty_slice(tomo, threshold=0.25):
         a mask indicate the emptyness of each layer
     """
     projs_sum = np.sum(tomo, axis=0)
-    projs_sum /= projs_sum.max()
+    projs_sum = projs_sum / projs_sum.max()
 
     projs_sumsum = np.sum(projs_sum, axis=0)
     projs_sumsum /= projs_sumsum.max()
-- 
2.43.0


From 694f0a89dfd779b800ef7d2da8f755a97b335794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:37 +0000
Subject: [PATCH 071/102] fix: align_seq registers with the plain cross
 correlation again

---
 source/tomopy/prep/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index ca70ce7..b32055d 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -191,7 +191,8 @@ def align_seq(
 
             # Register current projection in sub-pixel precision
             shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], upsample_factor=upsample_factor)
+                    _prj[m], _sim[m], normalization=None,
+                    upsample_factor=upsample_factor)
             err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
             sx[m] += shift[0]
             sy[m] += shift[1]
-- 
2.43.0


From 61898f3d28d9f3a406547c32dd531a899d8cc327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:37 +0000
Subject: [PATCH 072/102] fix: quadrant+ slit corner fit starts at the detected
 peak

---
 source/tomopy/prep/alignment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index b32055d..61ad9b3 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -669,11 +669,11 @@ def find_slits_corners_aps_1id(img,
                 # isolate the strongest peak to fit
                 tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
                 tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
-                # tmpy[0] is the value from the highest/lowest pixle
-                # tmpx[0] is basically cnr_x_guess
+                # tmpy[10] is the value from the highest/lowest pixle
+                # tmpx[10] is basically cnr_x_guess
                 # 5.0 is the guessted std,
                 coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     p0=[tmpy[10], tmpx[10], 5.0],
                                      maxfev=int(1e6),
                                      )
                 cnrs[i, 0] = coeff[1]  # x position
@@ -689,7 +689,7 @@ def find_slits_corners_aps_1id(img,
                 tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
                 tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
                 coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     p0=[tmpy[10], tmpx[10], 5.0],
                                      maxfev=int(1e6),
                                      )
                 cnrs[i, 1] = coeff[1]  # y posiiton
-- 
2.43.0


From b6f5487619517987cc0138c448badbcca150a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 073/102] fix: far-field intensity keeps the order of the scan
 positions

---
 source/tomopy/sim/propagate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/sim/propagate.py b/source/tomopy/sim/propagate.py
index efe6e4f..6a806fa 100644
--- a/source/tomopy/sim/propagate.py
+++ b/source/tomopy/sim/propagate.py
@@ -214,5 +214,5 @@ def calc_intensity(probe, proj, shift_x=None, shift_y=None, mode='near'):
     if mode == 'near':
         intensity = abs(psi) ** 2
     elif mode == 'far':
-        intensity = abs(np.fft.fftshift(np.fft.fft2(psi))) ** 2
+        intensity = abs(np.fft.fftshift(np.fft.fft2(psi), axes=(1, 2))) ** 2
     return intensity
-- 
2.43.0


From d3a1dcfd13e82c049c384c173c0eeb99a2708ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 074/102] fix: zingers saturate integer data instead of
 wrapping around

---
 source/tomopy/sim/project.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 3f62e46..892bfc5 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -234,6 +234,9 @@ def add_zingers(tomo, f=0.01, sat=2**16):
     zingers = np.random.uniform(0, 1, tomo.shape)
     zingers = zingers <= f  # f percent of measurements are zingers
     new_tomo = np.copy(tomo)
+    if new_tomo.dtype.kind in 'iu':
+        # the brightest value the detector can store
+        sat = min(sat, np.iinfo(new_tomo.dtype).max)
     new_tomo[zingers] = sat
     return new_tomo
 
-- 
2.43.0


From 40e6220ef0e248750e0f28150344abe8b0dcf10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 075/102] fix: unknown filter names are rejected

---
 source/tomopy/recon/algorithm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 7a21696..d0b26ba 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -502,6 +502,12 @@ def _check_algorithm_kwargs(algorithm, shape, kwargs):
             raise ValueError('%s needs %d regularization parameters in reg_par.'
                              % (algorithm, size))
 
+    filters = ('none', 'shepp', 'cosine', 'hann', 'hamming', 'ramlak',
+               'parzen', 'butterworth', 'custom', 'custom2d')
+    if 'filter_name' in kwargs and str(kwargs['filter_name']) not in filters:
+        raise ValueError('Keyword "filter_name" must be one of %s not %s.'
+                         % (list(filters), kwargs['filter_name']))
+
     if 'filter_par' in kwargs:
         half = 8
         while 2 * half < max(dx, gridx, gridy):
-- 
2.43.0


From be40b17f5c5cd57bebf78a691455e32d3144753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 076/102] fix: inpainter_morph rejects an empty searching
 window

---
 source/tomopy/misc/corr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 690ba7f..9462816 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1114,6 +1114,8 @@ def inpainter_morph(
         raise ValueError(
             "Inpainting type should be chosen as 'mean', 'median' or 'random'"
         )
+    if size < 1:
+        raise ValueError("The size of the searching window should be positive")
 
     if inpainting_type == "mean":
         inp_type_int = 0
-- 
2.43.0


From 907e082393b1f13ee5fd27ba7b1df0cc3d743c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 077/102] fix: remove_ring rejects centers outside the image
 and negative widths

---
 source/tomopy/misc/corr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 9462816..6a040ab 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -855,6 +855,12 @@ def remove_ring(
     if not 0 <= theta_min < 180:
         raise ValueError("theta_min should be in the range [0 - 180)")
 
+    if not (0 <= center_x <= dx - 1 and 0 <= center_y <= dy - 1):
+        raise ValueError("the center should be inside the image")
+
+    if rwidth < 0:
+        raise ValueError("rwidth should not be negative")
+
     args = (
         center_x,
         center_y,
-- 
2.43.0


From 8965987bff919667031313c740ff9f7e4fb63ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 078/102] fix: 3D median filters reject kernels whose size
 overflows

---
 source/tomopy/misc/corr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 6a040ab..64c3c5e 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -401,6 +401,8 @@ def median_filter3d(arr, size=3, ncore=None):
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
     kernel_half_size = (max(int(size), 3) - 1) // 2
+    if kernel_half_size > 512:
+        raise ValueError("The size of the filter is too large")
 
     if arr.ndim == 3:
         dz, dy, dx = arr.shape
@@ -463,6 +465,8 @@ def remove_outlier3d(arr, dif, size=3, ncore=None):
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
     kernel_half_size = (max(int(size), 3) - 1) // 2
+    if kernel_half_size > 512:
+        raise ValueError("The size of the filter is too large")
 
     if arr.ndim == 3:
         dz, dy, dx = arr.shape
-- 
2.43.0


From 3f94239857a7e344923d56e37b584d10a3aeb562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 079/102] fix: resampling rejects levels whose bin size
 overflows

---
 source/tomopy/misc/morph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 43aa210..ce2764b 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -233,6 +233,8 @@ def _sample(arr, level, axis, mode):
     arr = dtype.as_float32(arr.copy())
     dx, dy, dz = arr.shape
     axis = axis + 3 if axis < 0 else axis
+    if not 0 <= level < 31:
+        raise ValueError('level must be between 0 and 30')
     # Determine the new size, dim, of the down-/up-sampled dimension
     if mode == 0:
         dim = int(arr.shape[axis] / np.power(2, level))
-- 
2.43.0


From 8c11ab81e79084b623b7eff46f10d9bab623dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 080/102] fix: block numbers beyond the integer range and NaN
 block orders are rejected

---
 source/tomopy/recon/algorithm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index d0b26ba..70032fc 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -521,11 +521,12 @@ def _check_algorithm_kwargs(algorithm, shape, kwargs):
 
     if 'num_block' in kwargs:
         num_block = int(kwargs['num_block'])
-        if num_block < 1:
-            raise ValueError('There must be at least one block.')
+        if not 1 <= num_block <= np.iinfo(np.intc).max:
+            raise ValueError('There must be at least one block and not more '
+                             'than an integer can count.')
         ind_block = np.asarray(kwargs['ind_block'])
-        if num_block > 1 and (ind_block.size < dt or ind_block.min() < 0
-                              or ind_block.max() >= dt):
+        if num_block > 1 and (ind_block.size < dt or not ind_block.min() >= 0
+                              or not ind_block.max() < dt):
             raise ValueError('ind_block must list the indices of all '
                              'projections.')
 
-- 
2.43.0


From 772a35429648c9118fd4af3369cb5bda98797957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 081/102] fix: remove_ring with rwidth 0 stays inside its
 one-element window

---
 source/libtomo/misc/remove_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 0a190c0..8100a35 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -238,7 +238,7 @@ bubble_2_arrays(float* median_array, int* position_array, int index, int length)
     }
     else if(index == 0)
     {
-        if(median_array[index] > median_array[index + 1])
+        if(length > 1 && median_array[index] > median_array[index + 1])
         {
             swap_float(median_array, index, index + 1);
             swap_integer(position_array, index, index + 1);
-- 
2.43.0


From 571be13c6c4866d5ab2a71f74aa6d7614d13334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:37 +0000
Subject: [PATCH 082/102] fix: stripe detection works for more than 131068
 columns

---
 source/tomopy/prep/stripe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 5356f4c..939b97e 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -708,7 +708,7 @@ def _detect_stripe(listdata, snr):
     numdata = len(listdata)
     listsorted = np.sort(listdata)[::-1]
     xlist = np.arange(0, numdata, 1.0)
-    ndrop = np.int16(0.25 * numdata)
+    ndrop = int(0.25 * numdata)
     (_slope, _intercept) = np.polyfit(xlist[ndrop:-ndrop - 1],
                                       listsorted[ndrop:-ndrop - 1], 1)
     numt1 = _intercept + _slope * xlist[-1]
-- 
2.43.0


From 0ff00b4899fd79c9e69b7fbb3dd3b26e5544d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:37 +0000
Subject: [PATCH 083/102] fix: distortion_correction_sino works beyond row
 32767

---
 source/tomopy/prep/alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 61ad9b3..b73f874 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -1032,8 +1032,8 @@ def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
                     factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = int(np.floor(np.amin(yd_list)))
+    yd_max = int(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     sino = np.zeros((depth, width), dtype=np.float32)
     indices = yd_list, xd_list
-- 
2.43.0


From 1d707997ad2b5d7e7016b7d2c470ace65f343924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:37 +0000
Subject: [PATCH 084/102] fix: the mask of find_center_vo does not overflow
 16-bit integers

---
 source/tomopy/recon/rotation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 6ef8bef..57bd20d 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -305,8 +305,8 @@ def _search_coarse(sino, smin, smax, ratio, drop, ncore=None):
     """
     (nrow, ncol) = sino.shape
     cen_fliplr = (ncol - 1.0) / 2.0
-    smin = np.int16(np.clip(smin + cen_fliplr, 0, ncol - 1) - cen_fliplr)
-    smax = np.int16(np.clip(smax + cen_fliplr, 0, ncol - 1) - cen_fliplr)
+    smin = int(np.clip(smin + cen_fliplr, 0, ncol - 1) - cen_fliplr)
+    smax = int(np.clip(smax + cen_fliplr, 0, ncol - 1) - cen_fliplr)
     start_cor = ncol // 2 + smin
     stop_cor = ncol // 2 + smax
     flip_sino = np.fliplr(sino)
@@ -374,12 +374,12 @@ def _create_mask(nrow, ncol, radius, drop):
     """
     du = 1.0 / ncol
     dv = (nrow - 1.0) / (nrow * 2.0 * np.pi)
-    cen_row = np.int16(np.ceil(nrow / 2.0) - 1)
-    cen_col = np.int16(np.ceil(ncol / 2.0) - 1)
-    drop = min(drop, np.int16(np.ceil(0.05 * nrow)))
+    cen_row = int(np.ceil(nrow / 2.0) - 1)
+    cen_col = int(np.ceil(ncol / 2.0) - 1)
+    drop = min(drop, int(np.ceil(0.05 * nrow)))
     mask = np.zeros((nrow, ncol), dtype='float32')
     for i in range(nrow):
-        pos = np.int16(np.ceil(((i - cen_row) * dv / radius) / du))
+        pos = int(np.ceil(((i - cen_row) * dv / radius) / du))
         (pos1, pos2) = np.clip(np.sort(
             (-pos + cen_col, pos + cen_col)), 0, ncol - 1)
         mask[i, pos1:pos2 + 1] = 1.0
-- 
2.43.0


From fe0d9171ce9745c5455a7d2eebd6fe2e5cb10109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:37 +0000
Subject: [PATCH 085/102] fix: shared arrays are recognised by their
 allocation, not by where their ctypes type was first used

---
 source/tomopy/util/dtype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 243117d..d13521b 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -200,7 +200,7 @@ def is_sharedmem(arr):
         base = arr.base
         if base is None:
             return False
-        elif type(base).__module__.startswith('multiprocessing.sharedctypes'):
+        elif hasattr(base, '_wrapper'):  # set by multiprocessing.sharedctypes
             return True
         else:
             return is_sharedmem(base)
-- 
2.43.0


From 76283d67b98d03c92c74150a35907615a7dcde92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:37 +0000
Subject: [PATCH 086/102] fix: discrete_cdf ends at 1 and handles a single
 value

---
 source/tomopy/misc/npmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/npmath.py b/source/tomopy/misc/npmath.py
index cd02bc4..42e14d8 100644
--- a/source/tomopy/misc/npmath.py
+++ b/source/tomopy/misc/npmath.py
@@ -115,7 +115,7 @@ def discrete_cdf(data, steps=None):
     # calculate the cumulative density
     xx = np.tile(x, (2, 1)).flatten(order='F')
     y = np.arange(len(x))
-    yy = np.vstack((y, y + 1)).flatten(order='F') / float(y[-1])
+    yy = np.vstack((y, y + 1)).flatten(order='F') / float(len(x))
 
     return xx, yy
 
-- 
2.43.0


From b7759b5000b215ac2fdd5308dd430c5d7a9d0ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 087/102] fix: concurrent calls using numexpr no longer
 deadlock

---
 source/tomopy/util/mproc.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 47aa63b..c980ae6 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -392,6 +392,10 @@ class RunOnHostException(Exception):
     pass
 
 
+# numexpr deadlocks when its thread count changes while another thread evaluates
+NUMEXPR_LOCK = threading.RLock()
+
+
 class set_numexpr_threads(object):
 
     def __init__(self, nthreads):
@@ -402,7 +406,13 @@ class set_numexpr_threads(object):
             self.n = nthreads
 
     def __enter__(self):
-        self.oldn = ne.set_num_threads(self.n)
+        NUMEXPR_LOCK.acquire()
+        try:
+            self.oldn = ne.set_num_threads(self.n)
+        except BaseException:
+            NUMEXPR_LOCK.release()
+            raise
 
     def __exit__(self, exc_type, exc_value, traceback):
         ne.set_num_threads(self.oldn)
+        NUMEXPR_LOCK.release()
-- 
2.43.0


From 431a59bcc59a2b9e6141f72839b6fae381d4f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 088/102] fix: default wavelet level of remove_stripe_fw does
 not depend on the number of slices

---
 source/tomopy/prep/stripe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 939b97e..cf1931e 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -119,7 +119,7 @@ def remove_stripe_fw(tomo,
         Corrected 3D tomographic data.
     """
     if level is None:
-        size = np.max(tomo.shape)
+        size = max(tomo.shape[0], tomo.shape[2])
         level = int(np.ceil(np.log2(size)))
 
     arr = mproc.distribute_jobs(dtype.as_floating(tomo),
-- 
2.43.0


From 3d8a6ae69b1e2d21e23f8c9ad63953fa055c19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:02 +0000
Subject: [PATCH 089/102] fix: inpainting stops when an iteration fills nothing

---
 source/libtomo/misc/inpainter.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/misc/inpainter.c b/source/libtomo/misc/inpainter.c
index 51dce30..8796518 100644
--- a/source/libtomo/misc/inpainter.c
+++ b/source/libtomo/misc/inpainter.c
@@ -543,6 +543,7 @@ Inpainter_morph_main(float* Input, bool* Mask, float* Output, int iterations,
     int    window_fullength;
     int    W_fullsize;
     size_t countmask;
+    size_t lastmask;
     size_t iterations_mask_complete;
     size_t totalvoxels;
 
@@ -663,6 +664,7 @@ Inpainter_morph_main(float* Input, bool* Mask, float* Output, int iterations,
 
             /* check here if the iterations to complete the masked region should be
              * terminated */
+            lastmask  = countmask;
             countmask = 0;
             for(m = 0; m < totalvoxels; m++)
             {
@@ -671,7 +673,7 @@ Inpainter_morph_main(float* Input, bool* Mask, float* Output, int iterations,
                     countmask++;
                 }
             }
-            if(countmask == 0)
+            if(countmask == 0 || countmask == lastmask)
             {
                 /*exit iterations_mask_complete loop */
                 break;
@@ -779,6 +781,7 @@ Inpainter_morph_main(float* Input, bool* Mask, float* Output, int iterations,
 
             /* check here if the iterations to complete the masked region should be
              * terminated */
+            lastmask  = countmask;
             countmask = 0;
             for(m = 0; m < totalvoxels; m++)
             {
@@ -787,7 +790,7 @@ Inpainter_morph_main(float* Input, bool* Mask, float* Output, int iterations,
                     countmask++;
                 }
             }
-            if(countmask == 0)
+            if(countmask == 0 || countmask == lastmask)
             {
                 break; /*exit iterations_mask_complete loop */
             }
-- 
2.43.0


From 83ec3ef12df90b2d8d98b985e4784eb0653b3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 090/102] fix: the ASTRA adapter leaves the caller's options
 alone

---
 source/tomopy/recon/wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 2d8cfa2..370bccf 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -137,6 +137,7 @@ def astra(tomo, center, recon, theta, **kwargs):
         if o not in opts:
             logger.error("Option %s needed for ASTRA reconstruction." % (o,))
             raise ValueError()
+    opts = dict(opts)  # the caller's options stay as they are
     for o in default_options['astra']:
         if o not in opts:
             opts[o] = default_options['astra'][o]
-- 
2.43.0


From cab9904447e19b88d8a3a87335a495808a404e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 091/102] fix: errors of ASTRA's GPU threads reach the caller

---
 source/tomopy/recon/wrappers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 370bccf..062ac09 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -156,9 +156,13 @@ def astra(tomo, center, recon, theta, **kwargs):
         _, slcs = mproc.get_ncore_slices(nslices, ngpu)
         # execute recon on a thread per GPU
         with cf.ThreadPoolExecutor(ngpu) as e:
+            futures = []
             for gpu, slc in zip(gpu_list, slcs):
-                e.submit(astra_rec, tomo[slc], center[slc], recon[slc],
-                            theta, vol_geom, niter, proj_type, gpu, opts)
+                futures.append(e.submit(
+                            astra_rec, tomo[slc], center[slc], recon[slc],
+                            theta, vol_geom, niter, proj_type, gpu, opts))
+        for f in futures:
+            f.result()  # raises the error of a GPU's thread
     else:
         astra_rec(tomo, center, recon, theta, vol_geom, niter,
                            proj_type, None, opts)
-- 
2.43.0


From d4ae6c0a6c9a938414ed92b10e2108a17e803ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 092/102] fix: ASTRA sinograms shifted out of the detector are
 empty

---
 source/tomopy/recon/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 062ac09..9013bde 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -199,7 +199,7 @@ def astra_rec(tomo, center, recon, theta, vol_geom, niter, proj_type, gpu_index,
             if not shft == 0:
                 sino = np.roll(tomo[i], shft)
                 l = shft
-                r = ndet + shft
+                r = max(ndet + shft, 0)
                 if l < 0:
                     l = 0
                 if r > ndet:
-- 
2.43.0


From 9a5aee250d7d964c3eb34c0729ac4400582e7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 093/102] fix: the log-polar adapter processes slices wider
 than 4096 one by one

---
 source/tomopy/recon/wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 9013bde..ccd105c 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -413,7 +413,8 @@ def lprec(tomo, center, recon, theta, **kwargs):
 
     # number of slices for simultaneous processing by 1 gpu
     # (depends on gpu memory size, chosen for gpus with >= 4GB memory)
-    Nssimgpu = min(int(pow(2, 24)/float(N*N)), int(np.ceil(Ns/float(ngpus))))
+    Nssimgpu = max(1, min(int(pow(2, 24)/float(N*N)),
+                          int(np.ceil(Ns/float(ngpus)))))
 
     # class lprec
     lp = lpTransform.lpTransform(
-- 
2.43.0


From 669534f2ea6c6b12591649b6c6aa5b337d9bdb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 094/102] fix: concurrent log-polar reconstructions keep their
 own GPU tables

---
 source/tomopy/recon/wrappers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index ccd105c..c978bac 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -434,28 +434,26 @@ def lprec(tomo, center, recon, theta, **kwargs):
         lp.initcmem(lpmethod != 'fbp', gpu)
 
     lock = threading.Lock()
-    global BUSYGPUS
-    BUSYGPUS = np.zeros(ngpus)
+    busygpus = np.zeros(ngpus)
     # run reconstruciton on many gpus
     with cf.ThreadPoolExecutor(ngpus) as e:
         shift = 0
-        for reconi in e.map(partial(lpmultigpu, lp, lpmethods_list[lpmethod], recon, tomo, num_iter, reg_par, gpu_list, lock), ids_list):
+        for reconi in e.map(partial(lpmultigpu, lp, lpmethods_list[lpmethod], recon, tomo, num_iter, reg_par, gpu_list, lock, busygpus), ids_list):
             recon[np.arange(0, reconi.shape[0])+shift] = reconi
             shift += reconi.shape[0]
 
     return recon
 
 
-def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, ids):
+def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, busygpus, ids):
     """
     Reconstruction Nssimgpu slices simultaneously on 1 GPU
     """
 
-    global BUSYGPUS
     lock.acquire()  # will block if lock is already held
     for k in range(len(gpu_list)):
-        if BUSYGPUS[k] == 0:
-            BUSYGPUS[k] = 1
+        if busygpus[k] == 0:
+            busygpus[k] = 1
             gpu_id = k
             break
     lock.release()
@@ -463,6 +461,6 @@ def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, ids
 
     # reconstruct
     recon[ids] = lpmethod(lp, recon[ids], tomo[ids], num_iter, reg_par, gpu)
-    BUSYGPUS[gpu_id] = 0
+    busygpus[gpu_id] = 0
 
     return recon[ids]
-- 
2.43.0


From 2ae8f328084330bdf57bc82ec65565d09ac106db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 095/102] fix: errors of the thread that feeds UFO reach the
 caller

---
 source/tomopy/recon/wrappers.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index c978bac..fa86e54 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -246,6 +246,17 @@ def _process_data(input_task, output_task, sinograms, slices):
     input_task.stop()
 
 
+def _feed(errors, input_task, *args):
+    """
+    Process the data in a thread, keep the error and stop the tasks if it fails
+    """
+    try:
+        _process_data(input_task, *args)
+    except Exception as e:
+        errors.append(e)
+        input_task.stop()
+
+
 def ufo_fbp(tomo, center, recon, theta, **kwargs):
     """
     Reconstruct object using UFO's FBP pipeline
@@ -279,11 +290,14 @@ def ufo_fbp(tomo, center, recon, theta, **kwargs):
     g.connect_nodes(ifft, backproject)
     g.connect_nodes(backproject, output_task)
 
-    args = (input_task, output_task, tomo, recon)
-    thread = threading.Thread(target=_process_data, args=args)
+    errors = []
+    args = (errors, input_task, output_task, tomo, recon)
+    thread = threading.Thread(target=_feed, args=args)
     thread.start()
     sched.run(g)
     thread.join()
+    if errors:
+        raise errors[0]
 
     logger.info("UFO+FBP run time: {}s".format(sched.props.time))
 
@@ -325,11 +339,14 @@ def ufo_dfi(tomo, center, recon, theta, **kwargs):
     g.connect_nodes(ifft, swap_backward)
     g.connect_nodes(swap_backward, output_task)
 
-    args = (input_task, output_task, tomo, recon)
-    thread = threading.Thread(target=_process_data, args=args)
+    errors = []
+    args = (errors, input_task, output_task, tomo, recon)
+    thread = threading.Thread(target=_feed, args=args)
     thread.start()
     sched.run(g)
     thread.join()
+    if errors:
+        raise errors[0]
 
     logger.info("UFO+DFI run time: {}s".format(sched.props.time))
 
-- 
2.43.0


From c5d6352650b04b7637b653bf30175a0e204866fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 096/102] fix: concurrent reconstructions restore
 TOMOPY_PYTHON_THREADS

---
 source/tomopy/recon/algorithm.py | 35 ++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 70032fc..279a806 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -53,6 +53,7 @@ import copy
 import logging
 import warnings
 import os
+import threading
 
 import numpy as np
 
@@ -402,6 +403,10 @@ def _run_accel_algorithm(idx, _func, tomo, center, recon, *_args, **_kwargs):
     return recon
 
 
+# Reconstructions under way and the caller's thread limit
+_running = {'lock': threading.Lock(), 'count': 0, 'pythreads': None}
+
+
 def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     axis_size = recon.shape[0]
     ncore, slcs = mproc.get_ncore_slices(axis_size, ncore, nchunk)
@@ -424,7 +429,10 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
         ncore = int(nreal)
 
     # check if ncore is limited by env variable
-    pythreads = os.environ.get("TOMOPY_PYTHON_THREADS")
+    with _running['lock']:
+        # other reconstructions may have set the variable for themselves
+        pythreads = (_running['pythreads'] if _running['count'] else
+                     os.environ.get("TOMOPY_PYTHON_THREADS"))
     if pythreads is not None and ncore > int(pythreads):
         warnings.warn(
             "The environment variable 'TOMOPY_PYTHON_THREADS' is limiting "
@@ -435,7 +443,11 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     logger.info("Reconstructing {} slice groups with {} master threads..."
                 .format(len(slcs), ncore))
     # this is used internally to prevent oversubscription
-    os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(ncore)
+    with _running['lock']:
+        if _running['count'] == 0:
+            _running['pythreads'] = os.environ.get("TOMOPY_PYTHON_THREADS")
+        _running['count'] += 1
+        os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(ncore)
 
     def slice_kwargs(slc):
         # regularization data has one volume per slice
@@ -478,12 +490,19 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
                     if f.exception() is not None:
                         raise f.exception()
     finally:
-        if pythreads is not None:
-            # reset to default
-            os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
-        elif os.environ.get("TOMOPY_PYTHON_THREADS"):
-            # if no default set, then
-            del os.environ["TOMOPY_PYTHON_THREADS"]
+        with _running['lock']:
+            _running['count'] -= 1
+            pythreads = _running['pythreads']
+            if _running['count'] == 0:
+                _running['pythreads'] = None
+            if _running['count']:
+                pass  # the last one to finish restores the environment
+            elif pythreads is not None:
+                # reset to default
+                os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
+            elif os.environ.get("TOMOPY_PYTHON_THREADS"):
+                # if no default set, then
+                del os.environ["TOMOPY_PYTHON_THREADS"]
 
     return recon
 
-- 
2.43.0


From f8ccedde156b184f65baecad276004cde4da7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 097/102] fix: accelerated CPU kernels index grids that differ
 from the detector by their own size

---
 source/libtomo/accel/cxx/mlem.cc | 12 ++++++++----
 source/libtomo/accel/cxx/sirt.cc | 12 ++++++++----
 source/libtomo/accel/utils.hh    |  8 ++++----
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/source/libtomo/accel/cxx/mlem.cc b/source/libtomo/accel/cxx/mlem.cc
index 2261bfd..50b0275 100755
--- a/source/libtomo/accel/cxx/mlem.cc
+++ b/source/libtomo/accel/cxx/mlem.cc
@@ -152,16 +152,20 @@ mlem_cpu_compute_projection(data_array_t& cpu_data, int p, int dy, int dt, int d
         // compute simdata
         for(int d = 0; d < dx; ++d)
         {
+            // the row of the grid (nx rows of ny pixels) seen by this detector pixel
+            int row = d + nx / 2 - dx / 2;
+            if(row < 0 || row >= nx)
+                continue;
             float sum = 0.0f;
-            for(int i = 0; i < nx; ++i)
-                sum += rot[d * nx + i];
+            for(int i = 0; i < ny; ++i)
+                sum += rot[row * ny + i];
             if(sum != 0.0f)
             {
                 float upd = data[p * dx + d] / sum;
                 if(std::isfinite(upd))
                 {
-                    for(int i = 0; i < nx; ++i)
-                        rot[d * nx + i] += upd;
+                    for(int i = 0; i < ny; ++i)
+                        rot[row * ny + i] += upd;
                 }
             }
         }
diff --git a/source/libtomo/accel/cxx/sirt.cc b/source/libtomo/accel/cxx/sirt.cc
index 4edb6d3..0d47c6b 100755
--- a/source/libtomo/accel/cxx/sirt.cc
+++ b/source/libtomo/accel/cxx/sirt.cc
@@ -153,16 +153,20 @@ sirt_cpu_compute_projection(data_array_t& cpu_data, int p, int dy, int dt, int d
         // compute simdata
         for(int d = 0; d < dx; ++d)
         {
+            // the row of the grid (nx rows of ny pixels) seen by this detector pixel
+            int row = d + nx / 2 - dx / 2;
+            if(row < 0 || row >= nx)
+                continue;
             float sum = 0.0f;
-            for(int i = 0; i < nx; ++i)
-                sum += rot[d * nx + i];
+            for(int i = 0; i < ny; ++i)
+                sum += rot[row * ny + i];
             if(sum != 0.0f)
             {
                 float upd = data[p * dx + d] - sum;
                 if(std::isfinite(upd))
                 {
-                    for(int i = 0; i < nx; ++i)
-                        rot[d * nx + i] += upd;
+                    for(int i = 0; i < ny; ++i)
+                        rot[row * ny + i] += upd;
                 }
             }
         }
diff --git a/source/libtomo/accel/utils.hh b/source/libtomo/accel/utils.hh
index 18c2780..a8f4cfa 100644
--- a/source/libtomo/accel/utils.hh
+++ b/source/libtomo/accel/utils.hh
@@ -218,11 +218,11 @@ cxx_compute_sum_dist(int dy, int dt, int dx, int nx, int ny, const float* theta)
     {
         for(int s = 0; s < dy; ++s)
         {
-            for(int d = 0; d < dx; ++d)
+            for(int d = 0; d < nx; ++d)
             {
-                int32_t*       _sum_dist = sum_dist.data() + (s * nx * ny) + (d * nx);
-                const int32_t* _ones     = ones.data() + (d * nx);
-                for(int n = 0; n < nx; ++n)
+                int32_t*       _sum_dist = sum_dist.data() + (s * nx * ny) + (d * ny);
+                const int32_t* _ones     = ones.data() + (d * ny);
+                for(int n = 0; n < ny; ++n)
                 {
                     _sum_dist[n] += (_ones[n] > 0) ? 1 : 0;
                 }
-- 
2.43.0


From b847acbd4c96cf9a52880ac4bf2d781543c5f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 098/102] fix: failures of the accelerated kernels reach the
 caller as errors

---
 source/libtomo/accel/cxx/mlem.cc   |  7 +++++++
 source/libtomo/accel/cxx/sirt.cc   |  7 +++++++
 source/libtomo/accel/data.hh       |  2 +-
 source/libtomo/accel/utils.hh      |  7 +++----
 source/tomopy/util/extern/accel.py | 16 ++++++++++++----
 5 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/source/libtomo/accel/cxx/mlem.cc b/source/libtomo/accel/cxx/mlem.cc
index 50b0275..119bb15 100755
--- a/source/libtomo/accel/cxx/mlem.cc
+++ b/source/libtomo/accel/cxx/mlem.cc
@@ -69,6 +69,7 @@ cxx_mlem(const float* data, int dy, int dt, int dx, const float* center,
          const float* theta, float* recon, int ngridx, int ngridy, int num_iter,
          int pool_size, const char* interp, const char* device, int* grid_size,
          int* block_size)
+try
 {
     auto tid = GetThisThreadID();
     // registration
@@ -120,6 +121,12 @@ cxx_mlem(const float* data, int dy, int dt, int dx, const float* center,
 
     return EXIT_SUCCESS;
 }
+catch(std::exception& e)
+{
+    // e.g. invalid options; nothing may be thrown into the calling C code
+    std::cerr << e.what() << std::endl;
+    return EXIT_FAILURE;
+}
 
 //======================================================================================//
 
diff --git a/source/libtomo/accel/cxx/sirt.cc b/source/libtomo/accel/cxx/sirt.cc
index 0d47c6b..bdb2499 100755
--- a/source/libtomo/accel/cxx/sirt.cc
+++ b/source/libtomo/accel/cxx/sirt.cc
@@ -68,6 +68,7 @@ cxx_sirt(const float* data, int dy, int dt, int dx, const float* center,
          const float* theta, float* recon, int ngridx, int ngridy, int num_iter,
          int pool_size, const char* interp, const char* device, int* grid_size,
          int* block_size)
+try
 {
     auto tid = GetThisThreadID();
     // registration
@@ -121,6 +122,12 @@ cxx_sirt(const float* data, int dy, int dt, int dx, const float* center,
     // return successful code
     return EXIT_SUCCESS;
 }
+catch(std::exception& e)
+{
+    // e.g. invalid options; nothing may be thrown into the calling C code
+    std::cerr << e.what() << std::endl;
+    return EXIT_FAILURE;
+}
 
 //======================================================================================//
 
diff --git a/source/libtomo/accel/data.hh b/source/libtomo/accel/data.hh
index 45d912f..b832c28 100644
--- a/source/libtomo/accel/data.hh
+++ b/source/libtomo/accel/data.hh
@@ -67,7 +67,7 @@ struct RuntimeOptions
 
     RuntimeOptions(int _pool_size, const char* _interp, const char* _device,
                    int* _grid_size, int* _block_size)
-    : pool_size(scast<num_threads_t>(_pool_size))
+    : pool_size(scast<num_threads_t>(std::max(_pool_size, 0)))
     , device(GetDevice(_device))
     {
         memcpy(grid_size.data(), _grid_size, 3 * sizeof(int));
diff --git a/source/libtomo/accel/utils.hh b/source/libtomo/accel/utils.hh
index a8f4cfa..7fd4f0b 100644
--- a/source/libtomo/accel/utils.hh
+++ b/source/libtomo/accel/utils.hh
@@ -87,11 +87,11 @@ GetChoice(const EnvChoiceList<Tp>& _choices, const std::string& str_var)
         }
     }
     std::istringstream iss(str_var);
-    iss >> var;
+    bool               is_number = static_cast<bool>(iss >> var);
     // check to see if string matches a choice
     for(const auto& itr : _choices)
     {
-        if(var == std::get<0>(itr))
+        if(is_number && var == std::get<0>(itr))
         {
             // record value defined by environment
             return var;
@@ -104,8 +104,7 @@ GetChoice(const EnvChoiceList<Tp>& _choices, const std::string& str_var)
     for(const auto& itr : _choices)
         ss << "\t\"" << std::get<0>(itr) << "\" or \"" << std::get<1>(itr) << "\" ("
            << std::get<2>(itr) << ")\n";
-    std::cerr << ss.str() << std::endl;
-    abort();
+    throw std::runtime_error(ss.str());
 }
 
 #if defined(TOMOPY_USE_OPENCV)
diff --git a/source/tomopy/util/extern/accel.py b/source/tomopy/util/extern/accel.py
index dffb87d..76a272f 100644
--- a/source/tomopy/util/extern/accel.py
+++ b/source/tomopy/util/extern/accel.py
@@ -50,6 +50,8 @@
 Module for external library wrappers.
 """
 
+import ctypes
+
 import tomopy.util.dtype as dtype
 from . import c_shared_lib
 from . import _missing_library
@@ -75,8 +77,8 @@ def c_accel_mlem(tomo, center, recon, theta, **kwargs):
     else:
         dy, dt, dx = tomo.shape
 
-    LIB_TOMOPY_ACCEL.cxx_mlem.restype = dtype.as_c_void_p()
-    return LIB_TOMOPY_ACCEL.cxx_mlem(
+    LIB_TOMOPY_ACCEL.cxx_mlem.restype = ctypes.c_int
+    status = LIB_TOMOPY_ACCEL.cxx_mlem(
         dtype.as_c_float_p(tomo),
         dtype.as_c_int(dy),
         dtype.as_c_int(dt),
@@ -92,6 +94,9 @@ def c_accel_mlem(tomo, center, recon, theta, **kwargs):
         dtype.as_c_char_p(kwargs['device']),
         dtype.as_c_int_p(kwargs['grid_size']),
         dtype.as_c_int_p(kwargs['block_size']))
+    if status != 0:
+        raise RuntimeError("Accelerated reconstruction failed. "
+                           "See the messages of the library for the reason.")
 
 
 def c_accel_sirt(tomo, center, recon, theta, **kwargs):
@@ -106,8 +111,8 @@ def c_accel_sirt(tomo, center, recon, theta, **kwargs):
     else:
         dy, dt, dx = tomo.shape
 
-    LIB_TOMOPY_ACCEL.cxx_sirt.restype = dtype.as_c_void_p()
-    return LIB_TOMOPY_ACCEL.cxx_sirt(
+    LIB_TOMOPY_ACCEL.cxx_sirt.restype = ctypes.c_int
+    status = LIB_TOMOPY_ACCEL.cxx_sirt(
         dtype.as_c_float_p(tomo),
         dtype.as_c_int(dy),
         dtype.as_c_int(dt),
@@ -123,3 +128,6 @@ def c_accel_sirt(tomo, center, recon, theta, **kwargs):
         dtype.as_c_char_p(kwargs['device']),
         dtype.as_c_int_p(kwargs['grid_size']),
         dtype.as_c_int_p(kwargs['block_size']))
+    if status != 0:
+        raise RuntimeError("Accelerated reconstruction failed. "
+                           "See the messages of the library for the reason.")
-- 
2.43.0


From 32f1996c1602a520a0bf425b95790bbd5e784dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:40 +0000
Subject: [PATCH 099/102] fix: accelerated reconstructions use the rotation
 center

---
 source/tomopy/util/extern/accel.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/tomopy/util/extern/accel.py b/source/tomopy/util/extern/accel.py
index 76a272f..47bc92d 100644
--- a/source/tomopy/util/extern/accel.py
+++ b/source/tomopy/util/extern/accel.py
@@ -52,6 +52,7 @@ Module for external library wrappers.
 
 import ctypes
 
+import numpy as np
 import tomopy.util.dtype as dtype
 from . import c_shared_lib
 from . import _missing_library
@@ -65,6 +66,21 @@ __all__ = ['c_accel_mlem',
 LIB_TOMOPY_ACCEL = c_shared_lib("tomo-accel", error=False)
 
 
+def _centered(tomo, center):
+    """Shift each sinogram so that the rotation axis is in the middle, which
+    is where the accelerated kernels expect it."""
+    dx = tomo.shape[-1]
+    shift = np.ravel(center)[:tomo.size // (tomo.shape[-2] * dx)] - dx / 2
+    if not shift.any():
+        return tomo
+    out = np.array(tomo, dtype='float32', order='C')
+    pixels = np.arange(dx)
+    for sino, s in zip(out.reshape(-1, tomo.shape[-2], dx), shift):
+        for p in range(sino.shape[0]):
+            sino[p] = np.interp(pixels + s, pixels, sino[p])
+    return out
+
+
 def c_accel_mlem(tomo, center, recon, theta, **kwargs):
 
     if LIB_TOMOPY_ACCEL is None:
@@ -77,6 +93,7 @@ def c_accel_mlem(tomo, center, recon, theta, **kwargs):
     else:
         dy, dt, dx = tomo.shape
 
+    tomo = _centered(tomo, center)
     LIB_TOMOPY_ACCEL.cxx_mlem.restype = ctypes.c_int
     status = LIB_TOMOPY_ACCEL.cxx_mlem(
         dtype.as_c_float_p(tomo),
@@ -111,6 +128,7 @@ def c_accel_sirt(tomo, center, recon, theta, **kwargs):
     else:
         dy, dt, dx = tomo.shape
 
+    tomo = _centered(tomo, center)
     LIB_TOMOPY_ACCEL.cxx_sirt.restype = ctypes.c_int
     status = LIB_TOMOPY_ACCEL.cxx_sirt(
         dtype.as_c_float_p(tomo),
-- 
2.43.0


From b772114c2e9c024e89ed7f1bd4a26bb5c8bad23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:26 +0000
Subject: [PATCH 100/102] fix: tomocuda filters with an unsupported window use
 the caller's axes

---
 source/tomopy/misc/corr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 64c3c5e..5af5c96 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -279,7 +279,7 @@ def median_filter_cuda(arr, size=3, axis=0):
                 out = np.swapaxes(out, 0, axis)
         else:
             warnings.warn("Window size not support, using cpu median filter")
-            out = median_filter(arr, size, axis)
+            out = median_filter(np.swapaxes(arr, 0, axis), size, axis)
 
     except ImportError:
         warnings.warn("The tomocuda is not support, using cpu median filter")
@@ -771,7 +771,7 @@ def remove_outlier_cuda(arr, dif, size=3, axis=0):
                 out = np.swapaxes(out, 0, axis)
         else:
             warnings.warn("Window size not support, using cpu outlier removal")
-            out = remove_outlier(arr, dif, size)
+            out = remove_outlier(np.swapaxes(arr, 0, axis), dif, size, axis)
 
     except ImportError:
         warnings.warn("The tomocuda is not support, using cpu outlier removal")
-- 
2.43.0


From b6202e0d5ff7278350f7ecc84409bdee04412d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:26 +0000
Subject: [PATCH 101/102] fix: detector drift correction applies the shift with
 the right sign and axes

---
 source/tomopy/prep/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index b73f874..e8d4760 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -854,8 +854,9 @@ def detector_drift_adjust_aps_1id(imgstacks,
     # -- calculate affine transformation (fast)
     img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
     for n_img in range(imgstacks.shape[0]):
+        # maps (row, col) of the adjusted image to those of the still image
         img_correct_F[n_img, :, :] = calc_affine_transform(
-            proj_cnrs[n_img, :, :], slit_cnr_ref)
+            slit_cnr_ref[:, ::-1], proj_cnrs[n_img, :, ::-1])
 
     # -- apply affine transformation (slow)
     tmp = []
-- 
2.43.0


From 572db767781cb9db5a9fe0daaf6052ec75e2094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:26 +0000
Subject: [PATCH 102/102] fix: detector drift correction gives up after the
 last kernel

---
 source/tomopy/prep/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index e8d4760..c7783a9 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -821,7 +821,7 @@ def detector_drift_adjust_aps_1id(imgstacks,
                  if not cnr_found]
         # NOTE:
         #   Check to see if we run out of candidate kernels:
-        if counter > len(kernels):
+        if counter >= len(kernels):
             # we are giving up here...
             for idx, n_img in enumerate(nlist):
                 proj_cnrs[n_img, :, :] = slit_cnr_ref
-- 
2.43.0

