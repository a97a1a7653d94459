From 06296e66efde86689101c4d553b39ea825090823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 01/43] fix: power of the imaginary unit for negative exponents

---
 src/math/dcomplex.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/dcomplex.h b/src/math/dcomplex.h
index 84bc17b..035d55e 100644
--- a/src/math/dcomplex.h
+++ b/src/math/dcomplex.h
@@ -381,6 +381,8 @@ namespace QDLIB {
   {
      int rem = n % 4;
 
+     if (rem < 0) rem += 4; /* C remainder is negative for negative powers */
+
      switch (rem){
         case 0: return dcomplex(1);
         case 1: return dcomplex(0,1);
-- 
2.43.0


From 69532025bcc7ad4ad86f09123723e31c73d0a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 02/43] fix: complex square root of zero is zero, not NaN

---
 src/math/dcomplex.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/dcomplex.h b/src/math/dcomplex.h
index 035d55e..79bef7a 100644
--- a/src/math/dcomplex.h
+++ b/src/math/dcomplex.h
@@ -397,6 +397,9 @@ namespace QDLIB {
   inline dcomplex csqrt(dcomplex c)
   {
      double r  = cabs(c);
+
+     if (r == 0) return dcomplex(0); /* the phase of zero is undefined */
+
      double phi = phase(c);
 
      return sqrt(r) * cexpI(phi/2);
-- 
2.43.0


From 7ae9419736bb3d38c7af4ce110876e2503aa61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 03/43] fix: setting a matrix diagonal from a shorter vector
 read beyond its end

---
 src/math/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index 3633b9f..a59eca7 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -205,7 +205,7 @@ namespace QDLIB {
    template <class T>
    void Matrix<T>::diag(Vector<T>* diagvec)
    {
-      if (_m != _n || _m < diagvec->size() ) return;
+      if (_m != _n || _m != diagvec->size() ) return;
       
       for(int i=0; i < _m; i++)
       {
-- 
2.43.0


From 1551f0ee37e1bef301540109cf6f084c5eb887bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 04/43] fix: matrix vector product of rectangular matrices

---
 src/math/Matrix.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index a59eca7..f23050b 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -310,23 +310,24 @@ namespace QDLIB {
       if (cols != A->size() && !transpose) return;
       if (rows != A->size() && transpose) return;
       
-      if (B->size() != A->size())
-         B->newsize(A->size());
+      int size = transpose ? cols : rows;  /* length of the result */
+      if (B->size() != size)
+         B->newsize(size);
       
       T *b = B->begin(0);
       T *a = A->begin(0);
       
       if (transpose && !adjoint){
-	 for(int i=0; i < rows; i++){
+	 for(int i=0; i < cols; i++){
             b[i] = T(0);
-	    for(int j=0; j < cols; j++){
+	    for(int j=0; j < rows; j++){
 	       b[i] += (*M)(j,i) * a[j];
 	    }
 	 }
       } else if (transpose && adjoint){
-         for(int i=0; i < rows; i++){
+         for(int i=0; i < cols; i++){
             b[i] = T(0);
-            for(int j=0; j < cols; j++){
+            for(int j=0; j < rows; j++){
                b[i] += conj((*M)(j,i)) * a[j];
             }
          }         
-- 
2.43.0


From 46ca789674b05824fbe05571db47416a9312eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 05/43] fix: swapping vectors with different stride layouts ran
 past the stride table

---
 src/math/Vector.h | 1814 ++++++++++++++++++++++-----------------------
 1 file changed, 907 insertions(+), 907 deletions(-)

diff --git a/src/math/Vector.h b/src/math/Vector.h
index b3821e0..c0efb49 100644
--- a/src/math/Vector.h
+++ b/src/math/Vector.h
@@ -1,915 +1,915 @@
-/*
-*
-* Template Numerical Toolkit (TNT)
-*
-* Mathematical and Computational Sciences Division
-* National Institute of Technology,
-* Gaithersburg, MD USA
-*
-*
-* This software was developed at the National Institute of Standards and
-* Technology (NIST) by employees of the Federal Government in the course
-* of their official duties. Pursuant to title 17 Section 105 of the
-* United States Code, this software is not subject to copyright protection
-* and is in the public domain. NIST assumes no responsibility whatsoever for
-* its use by other parties, and makes no guarantees, expressed or implied,
-* about its quality, reliability, or any other characteristic.
-*
-*/
-
-
-
-#ifndef QDLIBVECTOR_H
-#define QDLIBVECTOR_H
-
-#include <cstdlib>
-#include <cassert>
-#include <iostream>
-#include <sstream>
-#include <cmath>
-#include <string.h>
-
-
-#ifdef HAVE_MPI
-#include "mpi.h"
-#endif
-
-#include "tools/Memory.h"
-
-using namespace std;
-
-namespace QDLIB
-{
-
-//namespace Linear_Algebra
-// {
-
-
-/**
- * Linear algebra vector. 
- * 
- * Supports strided vectors which are discontinous in memory.
- */
-template <class T>
-class Vector 
-{
-
-
-  public:
-
-    typedef lint   size_type;
-    typedef         T   value_type;
-    typedef         T   element_type;
-    typedef         T*  pointer;
-    typedef         T*  iterator;
-    typedef         T&  reference;
-    typedef const   T*  const_iterator;
-    typedef const   T&  const_reference;
-
-    lint lbound() const { return 1;}
- 
-    
-  private:
-    T** v_;
-    lint n_;
-
-    Vector<T> **_StrideRefObj; /** If a stride is just reference, the pointer to master instance is here */
-    lint *_SourceStride;       /** Stride Ref source */
-    bool _StorageLocked;       /** Storage can not be retired */
-
-    size_type nstrides_;
-    size_type stride_size_;
-
-    bool isRef_;
-
-    int _mpirank;
-    int _mpisize;
-
-#ifdef HAVE_MPI
-    MPI::Intracomm *_comm;
-#endif
-    
-    
-    /**
-     * Initialize/allocate memory for the vector.
-     * 
-     * \param N       size of the vector.
-     * \param strides number of strides.
-     */
-    void initialize(lint N, lint strides)
-    {
-#ifdef HAVE_MPI
-       if (_comm != NULL){
-          _mpirank = _comm->Get_rank();
-          _mpisize = _comm->Get_size();
-       }
-#endif
-      nstrides_ = strides;
-      stride_size_ = N / strides;
-      n_ = N;
-      
-      v_ = new T*[strides];
-      _StrideRefObj = new Vector<T>*[strides];
-      _SourceStride = new lint[strides];
-      
-      isRef_ = false;
-      _StorageLocked = false;
-      
-      for (lint i=0; i < nstrides_; i++){
-         if (stride_size_ == 0)
-            v_[i] = NULL;
-         else {
-            Memory& mem = Memory::Instance();
-            mem.Align((void**) &(v_[i]), sizeof(T)*stride_size_);
-         }
-         _StrideRefObj[i] = NULL;
-         _SourceStride[i] = -1;
-      }
-    }
-   
-    /** copy only part out of the strides. */
-    void copy(T* const *v, lint begin, lint n)
-    {
-       for (lint s=0; s < nstrides_; s++)
-          for (lint i=0; i< n; i++)
-             v_[s][i] = v[s][begin+i];
-    }
-       
-    void copy(T* const *v)
-    {
-	for (lint s=0; s < nstrides_; s++){
-           lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	   for (i=0; i< stride_size_; i++)
-            v_[s][i] = v[s][i];
-        }
-    }
-
-    void copy(const T *v)
-    {
-       for (lint s=0; s < nstrides_; s++){
-          lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	  for (i=0; i< stride_size_; i++)
-	     v_[s][i] = v[i];
-       }
-    }
-
-    
-    void set(const T& val)
-    {
-       for (lint s=0; s < nstrides_; s++){
-          lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	  for (i=0; i< stride_size_; i++){
-	     v_[s][i] = val;
-	  }
-       }
-	     
-
-    }
-    
-
-
-    void destroy()
-    {     
-        /* do nothing, if no memory has been previously allocated */
-       if (v_ != NULL && !isRef_){  /* Only destroy data if it's our own*/
-         for (lint s=0; s < nstrides_; s++){
-            if(v_[s] != NULL){
-               Memory::Instance().Free(v_[s]);
-               v_[s] = NULL;
-            }
-         }
-       }
-       if (v_ != NULL) { /* This pointer is always our own. */
-          delete[] v_;
-          v_ = NULL;
-       }
-       if (_StrideRefObj != NULL) {
-          delete[] _StrideRefObj;
-          delete[] _SourceStride;
-          _StrideRefObj = NULL;
-          _SourceStride = NULL;
-       }
-    }
-
-
-    protected:
-       /**
-        * Inject the pointer of a vector into a stride.
-        * 
-        * Use with extreme care. 
-        * If you destroy the original instance data in the strides
-        * it will be no longer valid!
-        * 
-        * \param vec    The vector to inject
-        * \param source The source stride in vec
-        * \param dest   The destination stride (Number must be larger!!!)
-        */
-       bool StrideRef(Vector<T> &vec, lint source, lint dest = 0)
-         {
-            if (isRef_ && vec.stride_size_ != stride_size_)
-               return false;
-
-            if (!isRef_) {
-               if (dest >= nstrides_)
-                  return false;
-               if (stride_size_ > 0)
-                  destroy();
-
-               initialize(0, nstrides_);
-
-               stride_size_ = vec.stride_size_;
-               isRef_ = true;
-            }
-            if (nstrides_ <= dest + 1)
-               nstrides_ = dest + 1;
-
-            n_ = nstrides_ * stride_size_;
-            v_[dest] = vec.v_[source];
-            _StrideRefObj[dest] = &vec;
-            _SourceStride[dest] = source;
-
-            return true;
-         }
-        
-       /**
-        * Reduce the size of the vector.
-        * 
-        * This is an irreversibel action.
-        */
-       void downsize(int N)
-       {
-          if (N <= n_) n_ = N;
-       }
-       
-  public:
-
-       /**
+/*
+*
+* Template Numerical Toolkit (TNT)
+*
+* Mathematical and Computational Sciences Division
+* National Institute of Technology,
+* Gaithersburg, MD USA
+*
+*
+* This software was developed at the National Institute of Standards and
+* Technology (NIST) by employees of the Federal Government in the course
+* of their official duties. Pursuant to title 17 Section 105 of the
+* United States Code, this software is not subject to copyright protection
+* and is in the public domain. NIST assumes no responsibility whatsoever for
+* its use by other parties, and makes no guarantees, expressed or implied,
+* about its quality, reliability, or any other characteristic.
+*
+*/
+
+
+
+#ifndef QDLIBVECTOR_H
+#define QDLIBVECTOR_H
+
+#include <cstdlib>
+#include <cassert>
+#include <iostream>
+#include <sstream>
+#include <cmath>
+#include <string.h>
+
+
+#ifdef HAVE_MPI
+#include "mpi.h"
+#endif
+
+#include "tools/Memory.h"
+
+using namespace std;
+
+namespace QDLIB
+{
+
+//namespace Linear_Algebra
+// {
+
+
+/**
+ * Linear algebra vector. 
+ * 
+ * Supports strided vectors which are discontinous in memory.
+ */
+template <class T>
+class Vector 
+{
+
+
+  public:
+
+    typedef lint   size_type;
+    typedef         T   value_type;
+    typedef         T   element_type;
+    typedef         T*  pointer;
+    typedef         T*  iterator;
+    typedef         T&  reference;
+    typedef const   T*  const_iterator;
+    typedef const   T&  const_reference;
+
+    lint lbound() const { return 1;}
+ 
+    
+  private:
+    T** v_;
+    lint n_;
+
+    Vector<T> **_StrideRefObj; /** If a stride is just reference, the pointer to master instance is here */
+    lint *_SourceStride;       /** Stride Ref source */
+    bool _StorageLocked;       /** Storage can not be retired */
+
+    size_type nstrides_;
+    size_type stride_size_;
+
+    bool isRef_;
+
+    int _mpirank;
+    int _mpisize;
+
+#ifdef HAVE_MPI
+    MPI::Intracomm *_comm;
+#endif
+    
+    
+    /**
+     * Initialize/allocate memory for the vector.
+     * 
+     * \param N       size of the vector.
+     * \param strides number of strides.
+     */
+    void initialize(lint N, lint strides)
+    {
+#ifdef HAVE_MPI
+       if (_comm != NULL){
+          _mpirank = _comm->Get_rank();
+          _mpisize = _comm->Get_size();
+       }
+#endif
+      nstrides_ = strides;
+      stride_size_ = N / strides;
+      n_ = N;
+      
+      v_ = new T*[strides];
+      _StrideRefObj = new Vector<T>*[strides];
+      _SourceStride = new lint[strides];
+      
+      isRef_ = false;
+      _StorageLocked = false;
+      
+      for (lint i=0; i < nstrides_; i++){
+         if (stride_size_ == 0)
+            v_[i] = NULL;
+         else {
+            Memory& mem = Memory::Instance();
+            mem.Align((void**) &(v_[i]), sizeof(T)*stride_size_);
+         }
+         _StrideRefObj[i] = NULL;
+         _SourceStride[i] = -1;
+      }
+    }
+   
+    /** copy only part out of the strides. */
+    void copy(T* const *v, lint begin, lint n)
+    {
+       for (lint s=0; s < nstrides_; s++)
+          for (lint i=0; i< n; i++)
+             v_[s][i] = v[s][begin+i];
+    }
+       
+    void copy(T* const *v)
+    {
+	for (lint s=0; s < nstrides_; s++){
+           lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	   for (i=0; i< stride_size_; i++)
+            v_[s][i] = v[s][i];
+        }
+    }
+
+    void copy(const T *v)
+    {
+       for (lint s=0; s < nstrides_; s++){
+          lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	  for (i=0; i< stride_size_; i++)
+	     v_[s][i] = v[i];
+       }
+    }
+
+    
+    void set(const T& val)
+    {
+       for (lint s=0; s < nstrides_; s++){
+          lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	  for (i=0; i< stride_size_; i++){
+	     v_[s][i] = val;
+	  }
+       }
+	     
+
+    }
+    
+
+
+    void destroy()
+    {     
+        /* do nothing, if no memory has been previously allocated */
+       if (v_ != NULL && !isRef_){  /* Only destroy data if it's our own*/
+         for (lint s=0; s < nstrides_; s++){
+            if(v_[s] != NULL){
+               Memory::Instance().Free(v_[s]);
+               v_[s] = NULL;
+            }
+         }
+       }
+       if (v_ != NULL) { /* This pointer is always our own. */
+          delete[] v_;
+          v_ = NULL;
+       }
+       if (_StrideRefObj != NULL) {
+          delete[] _StrideRefObj;
+          delete[] _SourceStride;
+          _StrideRefObj = NULL;
+          _SourceStride = NULL;
+       }
+    }
+
+
+    protected:
+       /**
+        * Inject the pointer of a vector into a stride.
+        * 
+        * Use with extreme care. 
+        * If you destroy the original instance data in the strides
+        * it will be no longer valid!
+        * 
+        * \param vec    The vector to inject
+        * \param source The source stride in vec
+        * \param dest   The destination stride (Number must be larger!!!)
+        */
+       bool StrideRef(Vector<T> &vec, lint source, lint dest = 0)
+         {
+            if (isRef_ && vec.stride_size_ != stride_size_)
+               return false;
+
+            if (!isRef_) {
+               if (dest >= nstrides_)
+                  return false;
+               if (stride_size_ > 0)
+                  destroy();
+
+               initialize(0, nstrides_);
+
+               stride_size_ = vec.stride_size_;
+               isRef_ = true;
+            }
+            if (nstrides_ <= dest + 1)
+               nstrides_ = dest + 1;
+
+            n_ = nstrides_ * stride_size_;
+            v_[dest] = vec.v_[source];
+            _StrideRefObj[dest] = &vec;
+            _SourceStride[dest] = source;
+
+            return true;
+         }
+        
+       /**
+        * Reduce the size of the vector.
+        * 
+        * This is an irreversibel action.
+        */
+       void downsize(int N)
+       {
+          if (N <= n_) n_ = N;
+       }
+       
+  public:
+
+       /**
         * Lock the internal storage against retirement.
-        */
-       void LockStorage() { _StorageLocked = true; }
-       void UnLockStorage() { _StorageLocked = false; }
-
-       /**
-        * Frees the data storage but not the properties.
-        *
-        * Use this feature to save memory. Advantegous if
-        * the object is used as temporary buffer.
-        */
-       void RetireStorage()
-       {
-          if (_StorageLocked)  return;
-          for (int s=0; s < nstrides_; s++){
-             if (_StrideRefObj[s] == NULL)
-                Memory::Instance().Free(v_[s]);
-             else
-                _StrideRefObj[s]->RetireStorage();
-
-             v_[s] = NULL; /* Invalidate pointer */
-          }
-       }
-
-       /**
+        */
+       void LockStorage() { _StorageLocked = true; }
+       void UnLockStorage() { _StorageLocked = false; }
+
+       /**
+        * Frees the data storage but not the properties.
+        *
+        * Use this feature to save memory. Advantegous if
+        * the object is used as temporary buffer.
+        */
+       void RetireStorage()
+       {
+          if (_StorageLocked)  return;
+          for (int s=0; s < nstrides_; s++){
+             if (_StrideRefObj[s] == NULL)
+                Memory::Instance().Free(v_[s]);
+             else
+                _StrideRefObj[s]->RetireStorage();
+
+             v_[s] = NULL; /* Invalidate pointer */
+          }
+       }
+
+       /**
         * Get back storage freed with RetireStorage.
-        */
-       void ReaquireStorage()
-       {
-          if (_StorageLocked)  return;
-          for (int s=0; s < nstrides_; s++){
-             if (v_[s] == NULL){ /* Check if reaquire is needed*/
-                if ( _StrideRefObj[s] == NULL )
-                   Memory::Instance().Align((void**) &(v_[s]), sizeof(T)*stride_size_);
-                else {
-                   _StrideRefObj[s]->ReaquireStorage();
-                   v_[s] = _StrideRefObj[s]->v_[_SourceStride[s]];  /* Re-link the stride */
-                }
-             }
-          }
-
-       }
-
-       /**
+        */
+       void ReaquireStorage()
+       {
+          if (_StorageLocked)  return;
+          for (int s=0; s < nstrides_; s++){
+             if (v_[s] == NULL){ /* Check if reaquire is needed*/
+                if ( _StrideRefObj[s] == NULL )
+                   Memory::Instance().Align((void**) &(v_[s]), sizeof(T)*stride_size_);
+                else {
+                   _StrideRefObj[s]->ReaquireStorage();
+                   v_[s] = _StrideRefObj[s]->v_[_SourceStride[s]];  /* Re-link the stride */
+                }
+             }
+          }
+
+       }
+
+       /**
         * Returns the rank in the stride distribution.
-        */
-       int MPIrank()
-       {
-          return _mpirank;
-       }
-
-       /**
+        */
+       int MPIrank()
+       {
+          return _mpirank;
+       }
+
+       /**
         * Returns the number of procs over which the strides are distributed.
-        */
-       int MPIsize()
-       {
-          return _mpisize;
-       }
-
-#ifdef HAVE_MPI
-       /**
-        * Returns the communicator over which the strides are spread.
-        *
+        */
+       int MPIsize()
+       {
+          return _mpisize;
+       }
+
+#ifdef HAVE_MPI
+       /**
+        * Returns the communicator over which the strides are spread.
+        *
         * \return NULL the vector is pure local.
-        */
-       MPI::Intracomm* GetComm()
-       {
-          return _comm;
-       }
-#endif
-       /**
-        * Sync Strides between processes.
-        *
-        * The strides of the local rank are broadcasted to all other ranks.
+        */
+       MPI::Intracomm* GetComm()
+       {
+          return _comm;
+       }
+#endif
+       /**
+        * Sync Strides between processes.
+        *
+        * The strides of the local rank are broadcasted to all other ranks.
         * Function is empty if mpi is not used.
-        */
-       void SyncStrides()
-       {
-#ifdef HAVE_MPI
-          if (_mpisize > 1 && _comm != NULL)
-             for (int s=0; s < nstrides_; s++)
-                _comm->Bcast( (void*) v_[s], sizeof(T) * stride_size_, MPI_BYTE, s % _mpisize);
-#endif
-       }
-    
-   /**
-    * Return a pointer to the local stride.
-    */
-    inline T* begin(lint stride) const { return v_[stride];}
-    
-    /**
-     * Return a pointer to the stride set.
-     * 
-     * This is a 2D array with sizes [strides][stride_size]
-     */
-    T** begin() const { return v_;}
-    
-    /**
-     * Get Size of a stride in bytes.
-     */
-    size_t sizeBytes() const { return stride_size_ * sizeof(T); }
-    
-    /**
-     * Swap the content of two vectors.
-     * 
-     * Only the pointers to the data will exchanged.
-     * Works only if both have the same size.
-     */
-    bool swap(Vector<T> &A)
-    {
-       T *p;
-       
-       if (n_ != A.n_) return false;
-       
-       for (lint s=0; s < nstrides_; s++){
-	 p = v_[s];
-	 v_[s] = A.v_[s];
-	 A.v_[s] = p;
-       }
-       return true;
-    }
-    
-   void FastCopy(Vector<T> &A)
-   {
-      if (n_ == A.n_ && nstrides_ == A.nstrides_) {
-         /* no need to re-alloc */
-         lint s;
+        */
+       void SyncStrides()
+       {
+#ifdef HAVE_MPI
+          if (_mpisize > 1 && _comm != NULL)
+             for (int s=0; s < nstrides_; s++)
+                _comm->Bcast( (void*) v_[s], sizeof(T) * stride_size_, MPI_BYTE, s % _mpisize);
+#endif
+       }
+    
+   /**
+    * Return a pointer to the local stride.
+    */
+    inline T* begin(lint stride) const { return v_[stride];}
+    
+    /**
+     * Return a pointer to the stride set.
+     * 
+     * This is a 2D array with sizes [strides][stride_size]
+     */
+    T** begin() const { return v_;}
+    
+    /**
+     * Get Size of a stride in bytes.
+     */
+    size_t sizeBytes() const { return stride_size_ * sizeof(T); }
+    
+    /**
+     * Swap the content of two vectors.
+     * 
+     * Only the pointers to the data will exchanged.
+     * Works only if both have the same size.
+     */
+    bool swap(Vector<T> &A)
+    {
+       T *p;
+       
+       if (n_ != A.n_ || nstrides_ != A.nstrides_) return false;
+       
+       for (lint s=0; s < nstrides_; s++){
+	 p = v_[s];
+	 v_[s] = A.v_[s];
+	 A.v_[s] = p;
+       }
+       return true;
+    }
+    
+   void FastCopy(Vector<T> &A)
+   {
+      if (n_ == A.n_ && nstrides_ == A.nstrides_) {
+         /* no need to re-alloc */
+         lint s;
 #ifdef _OPENMP  
 #pragma omp parallel for schedule(static) default(shared) private(s)
-#endif
-         for (s = _mpirank; s < nstrides_; s += _mpisize) {
-            Memory::Copy( (char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
-
-         }
-      } else {
-         if (!isRef_)
-            destroy();
-
-#ifdef HAVE_MPI
-         _comm = A._comm;
-#endif
-         initialize(A.n_, A.nstrides_);
-         for (lint s = 0; s < nstrides_; s++)
-            Memory::Copy((char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
-      }
-   }
-    
-    // destructor
-    ~Vector() 
-    {
-      destroy();
-    }
-
-    // constructors
-
-    Vector() : n_(0),
-               nstrides_(1),
-               stride_size_(0),
-               isRef_(false),
-               _mpirank(0),
-               _mpisize(1)
-#ifdef HAVE_MPI
-              ,_comm(NULL)
-#endif
-    {
-       initialize(n_, nstrides_);
-    }
-
-    
-    Vector(const Vector<T> &A) : n_(0),
-                                 nstrides_(1),
-                                 stride_size_(0),
-                                 isRef_(false),
-                                 _mpirank(0),
-                                 _mpisize(1)
-#ifdef HAVE_MPI
-                                 , _comm(NULL)
-#endif
-    {
-       initialize(A.n_, A.nstrides_);
-        copy(A.v_);
-    }
-   
-    Vector(lint N) : n_(0),
-                     nstrides_(1),
-                     stride_size_(0),
-                     isRef_(false),
-                     _mpirank(0),
-                     _mpisize(1)
-#ifdef HAVE_MPI
-                    ,_comm(NULL)
-#endif
-    {
-       initialize(N, nstrides_);
-    }
-    
-    Vector(lint N, lint strides) : n_(0),
-                                   nstrides_(0),
-                                   stride_size_(0),
-                                   isRef_(false),
-                                   _mpirank(0),
-                                   _mpisize(1)
-#ifdef HAVE_MPI
-                                   ,_comm(NULL)
-#endif
-    {
-       initialize(N, strides);
-    }
-    
-#ifdef HAVE_MPI
-    Vector(lint N, lint strides, MPI::Intracomm& comm) : n_(0),
-             nstrides_(0),
-             stride_size_(0),
-             isRef_(false),
-             _mpirank(0),
-             _mpisize(1),
-             _comm(&comm)
-    {
-       initialize(N, strides);
-    }
-#endif
-
-    Vector(lint N, const T& value) : n_(0),
-                                     nstrides_(1),
-                                     stride_size_(0),
-                                     isRef_(false),
-                                     _mpirank(0),
-                                     _mpisize(1)
-#ifdef HAVE_MPI
-                                     ,_comm(NULL)
-#endif
-    {
-        initialize(N, nstrides_);
-        set(value);
-    }
-
-    Vector(lint N, lint strides, const T** v) :  n_(N),
-                                                 nstrides_(strides),
-                                                 stride_size_(0),
-                                                 isRef_(false),
-                                                 _mpirank(0),
-                                                 _mpisize(1)
-#ifdef HAVE_MPI
-                                                 ,_comm(NULL)
-#endif
-    {
-        initialize(N, strides);
-        copy(v);
-    }
-
-    Vector(lint N, const T* v) :  n_(0),
-                                  nstrides_(1),
-                                  stride_size_(0),
-                                  isRef_(false),
-                                  _mpirank(0),
-                                  _mpisize(1)
-#ifdef HAVE_MPI
-                                  ,_comm(NULL)
-#endif
-    {
-       initialize(N, nstrides_);
-       copy(v);
-    }
-    
-    /**
-     * Resize the vector.
-     */
-    Vector<T>& newsize(lint N)
-    {
-        if (n_ == N) return *this;
-
-        if (!isRef_) destroy();
-        initialize(N, 1);
-
-        return *this;
-    }
-
-    /**
-     * Resize the vector with multiple strides.
-     * 
-     * \param N   Total size
-     * \param s   Number of strides
-     * \param comm Intracommunicator for stride split.
-     */
-#ifdef HAVE_MPI
-    Vector<T>& newsize(lint N, lint s, MPI::Intracomm* comm = NULL)
-    {
-       _comm = comm;
-#else
-    Vector<T>& newsize(lint N, lint s)
-    {
-#endif
-
-       if (n_ == N && nstrides_ == s) return *this;
-
-       destroy();
-       initialize(N, s);
-
-       return *this;
-    }
-    
-
-    void operator *=(const T &scalar)
-    {
-       for (lint s=0; s < nstrides_; s++){
-	  lint i;
-#ifdef _OPENMP    
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif	  
-          for (i=0; i< stride_size_; i++){
-             v_[s][i] *= scalar;
-          }
-       }
-    }
-    
-    // assignments
-    //
-    Vector<T>& operator=(const Vector<T> &A)
-    {
-        if (v_ == A.v_)
-            return *this;
-
-	
-        if (n_ == A.n_ && nstrides_ == A.nstrides_){
-	   /* no need to re-alloc */
-            copy(A.v_);
-	} else {
-            if (!isRef_) destroy();
-            initialize(A.n_, A.nstrides_);
-            copy(A.v_);
-        }
-        return *this;
-    }
-        
-    Vector<T>& operator=(const T& scalar)
-    { 
-        set(scalar);
-        return *this;
-    }
-
-    /**
-     * Copy a vector into a single stride.
-     *
-     * \param vec    The vector to inject
-     * \param source The source stride in vec
-     * \param dest   The destination stride
-     */
-    bool StrideCopy(Vector<T> &vec, lint source, lint dest = 0)
-    {
-       if ( dest > nstrides_ || vec.stride_size_ != stride_size_ || source > vec.strides() )
-	  return false;
-	
-       for (lint i=0; i < stride_size_; i++)
-         v_[dest][i] = vec.v_[source][i];
-       
-       return true;
-    }
-    
-    /**
-     */
-    Vector<T>& CopySub(Vector<T> &A, lint begin, lint end)
-    {
-       if (v_ == A.v_)
-          return *this;
-
-       lint rsize = abs(end-begin)+1;
-       
-       if ( abs(rsize) > A.n_) return *this;
-	
-       if (n_ >= rsize  && nstrides_ == A.nstrides_){
-          /* no need to re-alloc */
-          copy(A.v_, begin, rsize);
-       } else {
-          if (!isRef_) destroy();
-          initialize(rsize, A.nstrides_);
-          copy(A.v_, begin, rsize);
-       }
-       return *this;
-    }
-    
-    inline lint size() const
-    {
-        return  n_;
-    }
-
-    /**
-     * Gives the local size of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint lsize() const
-    {
-       return  stride_size_;
-    }
-
-    /**
-     * Returns the number of strides.
-     */
-    inline lint strides() const 
-    {
-       return  nstrides_;
-    }
-
-    /**
-     * Gives the global start index of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint start() const 
-    {
-       return  0;
-    }
-
-    /**
-     * Gives the global end index+1 of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint stop() const 
-    {
-       return  n_;
-    }
-
-
-    inline reference operator[](lint i)
-    { 
-	lint s = i / stride_size_;
-	lint j = i % stride_size_;
-        return v_[s][j];
-    }
-
-    inline const_reference operator[](lint i) const
-    {
-	lint s = i / stride_size_;
-	lint j = i % stride_size_;
-        return v_[s][j];
-    }
-
-
-    inline T Norm() const
-    {
-       T sum=0;
-       for (lint i=0; i < n_; i++)
-          sum += conj((*this)[i]) * (*this)[i];
-
-       return sqrt(sum);
-    }
-};
-
-
-/* ***************************  I/O  ********************************/
-
-template <class T>
-std::ostream& operator<<(std::ostream &s, const Vector<T> &A)
-{
-    lint N=A.size();
-
-    s <<  N << "\n";
-
-    for (lint i=0; i<N; i++)
-        s   << A[i] << " " << "\n";
-    s << "\n";
-
-    return s;
-}
-
-template <class T>
-std::istream & operator>>(std::istream &s, Vector<T> &A)
-{
-
-    lint N;
-
-    s >> N;
-
-    if ( !(N == A.size() ))
-    {
-        A.newsize(N);
-    }
-
-
-    for (lint i=0; i<N; i++)
-            s >>  A[i];
-
-
-    return s;
-}
-
-// *******************[ basic matrix algorithms ]***************************
-
-template <class T>
-void operator+=(Vector<T> &A, const T val)
-{
-   lint N = A.size();
-
-   for (int i=0; i<N; i++)
-      A[i] += val;
-}
-
-template <class T>
-void operator-=(Vector<T> &A, const T val)
-{
-   lint N = A.size();
-
-   for (int i=0; i<N; i++)
-      A[i] -= val;
-}
-
-
-template <class T>
-Vector<T> operator+(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-    lint N = A.size();
-
-    assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] + B[i];
-
-    return tmp;
-}
-
-template <class T>
-Vector<T> operator+=(Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    lint i;
-
-    for (i=0; i<N; i++)
-            A[i] += B[i];
-
-    return A;
-}
-
-template <class T>
-Vector<T> operator-(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] - B[i];
-
-    return tmp;
-}
-
-template <class T>
-Vector<T> operator-=(Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    lint i;
-
-    for (i=0; i<N; i++)
-            A[i] -= B[i];
-
-    return A;
-}
-
-
-
-
-template <class T>
-Vector<T> elementwise_mult(const Vector<T> &A, const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] * B[i];
-
-    return tmp;
-}
-
-
-template <class T>
-double norm(const Vector<T> &A)
-{
-	lint N = A.size();
-
-	double sum = 0.0;
-	for (int i=0; i<N; i++)
-		sum +=  abs(A[i])*abs(A[i]);
-	return sqrt(sum);
-}
-
-
-
-template <class T>
-inline T dot_prod(const Vector<T> &A, const Vector<T> &B)
-{
-    lint N = A.size();
-    assert(N == B.size());
-
-    lint i;
-    T sum = 0;
-
-    for (i=0; i<N; i++)
-        sum += A[i] * B[i];
-    return sum;
-}
-
-template <class T>
-inline T dot_product(const Vector<T> &A, const Vector<T> &B)
-{
-	return dot_prod(A, B);
-}
-
-
-template <class T>
-inline T operator*(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-    return dot_prod(A,B);
-}
-
-
-template <class T>
-Vector<T> operator*(const T &a, const Vector<T> &A)
-{
-   lint N = A.size();
-	Vector<T> r(N);
-
-	for (int i=0; i<N; i++)
-		r[i] = A[i] * a;
-
-	return r;
-}
-
-template <class T>
-inline Vector<T> operator*(const Vector<T> &A, const T& a)
-{
-	return a * A;
-}
-
-
-}   /* namespace QDLIB */
-
-
-#endif
-
+#endif
+         for (s = _mpirank; s < nstrides_; s += _mpisize) {
+            Memory::Copy( (char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
+
+         }
+      } else {
+         if (!isRef_)
+            destroy();
+
+#ifdef HAVE_MPI
+         _comm = A._comm;
+#endif
+         initialize(A.n_, A.nstrides_);
+         for (lint s = 0; s < nstrides_; s++)
+            Memory::Copy((char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
+      }
+   }
+    
+    // destructor
+    ~Vector() 
+    {
+      destroy();
+    }
+
+    // constructors
+
+    Vector() : n_(0),
+               nstrides_(1),
+               stride_size_(0),
+               isRef_(false),
+               _mpirank(0),
+               _mpisize(1)
+#ifdef HAVE_MPI
+              ,_comm(NULL)
+#endif
+    {
+       initialize(n_, nstrides_);
+    }
+
+    
+    Vector(const Vector<T> &A) : n_(0),
+                                 nstrides_(1),
+                                 stride_size_(0),
+                                 isRef_(false),
+                                 _mpirank(0),
+                                 _mpisize(1)
+#ifdef HAVE_MPI
+                                 , _comm(NULL)
+#endif
+    {
+       initialize(A.n_, A.nstrides_);
+        copy(A.v_);
+    }
+   
+    Vector(lint N) : n_(0),
+                     nstrides_(1),
+                     stride_size_(0),
+                     isRef_(false),
+                     _mpirank(0),
+                     _mpisize(1)
+#ifdef HAVE_MPI
+                    ,_comm(NULL)
+#endif
+    {
+       initialize(N, nstrides_);
+    }
+    
+    Vector(lint N, lint strides) : n_(0),
+                                   nstrides_(0),
+                                   stride_size_(0),
+                                   isRef_(false),
+                                   _mpirank(0),
+                                   _mpisize(1)
+#ifdef HAVE_MPI
+                                   ,_comm(NULL)
+#endif
+    {
+       initialize(N, strides);
+    }
+    
+#ifdef HAVE_MPI
+    Vector(lint N, lint strides, MPI::Intracomm& comm) : n_(0),
+             nstrides_(0),
+             stride_size_(0),
+             isRef_(false),
+             _mpirank(0),
+             _mpisize(1),
+             _comm(&comm)
+    {
+       initialize(N, strides);
+    }
+#endif
+
+    Vector(lint N, const T& value) : n_(0),
+                                     nstrides_(1),
+                                     stride_size_(0),
+                                     isRef_(false),
+                                     _mpirank(0),
+                                     _mpisize(1)
+#ifdef HAVE_MPI
+                                     ,_comm(NULL)
+#endif
+    {
+        initialize(N, nstrides_);
+        set(value);
+    }
+
+    Vector(lint N, lint strides, const T** v) :  n_(N),
+                                                 nstrides_(strides),
+                                                 stride_size_(0),
+                                                 isRef_(false),
+                                                 _mpirank(0),
+                                                 _mpisize(1)
+#ifdef HAVE_MPI
+                                                 ,_comm(NULL)
+#endif
+    {
+        initialize(N, strides);
+        copy(v);
+    }
+
+    Vector(lint N, const T* v) :  n_(0),
+                                  nstrides_(1),
+                                  stride_size_(0),
+                                  isRef_(false),
+                                  _mpirank(0),
+                                  _mpisize(1)
+#ifdef HAVE_MPI
+                                  ,_comm(NULL)
+#endif
+    {
+       initialize(N, nstrides_);
+       copy(v);
+    }
+    
+    /**
+     * Resize the vector.
+     */
+    Vector<T>& newsize(lint N)
+    {
+        if (n_ == N) return *this;
+
+        if (!isRef_) destroy();
+        initialize(N, 1);
+
+        return *this;
+    }
+
+    /**
+     * Resize the vector with multiple strides.
+     * 
+     * \param N   Total size
+     * \param s   Number of strides
+     * \param comm Intracommunicator for stride split.
+     */
+#ifdef HAVE_MPI
+    Vector<T>& newsize(lint N, lint s, MPI::Intracomm* comm = NULL)
+    {
+       _comm = comm;
+#else
+    Vector<T>& newsize(lint N, lint s)
+    {
+#endif
+
+       if (n_ == N && nstrides_ == s) return *this;
+
+       destroy();
+       initialize(N, s);
+
+       return *this;
+    }
+    
+
+    void operator *=(const T &scalar)
+    {
+       for (lint s=0; s < nstrides_; s++){
+	  lint i;
+#ifdef _OPENMP    
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif	  
+          for (i=0; i< stride_size_; i++){
+             v_[s][i] *= scalar;
+          }
+       }
+    }
+    
+    // assignments
+    //
+    Vector<T>& operator=(const Vector<T> &A)
+    {
+        if (v_ == A.v_)
+            return *this;
+
+	
+        if (n_ == A.n_ && nstrides_ == A.nstrides_){
+	   /* no need to re-alloc */
+            copy(A.v_);
+	} else {
+            if (!isRef_) destroy();
+            initialize(A.n_, A.nstrides_);
+            copy(A.v_);
+        }
+        return *this;
+    }
+        
+    Vector<T>& operator=(const T& scalar)
+    { 
+        set(scalar);
+        return *this;
+    }
+
+    /**
+     * Copy a vector into a single stride.
+     *
+     * \param vec    The vector to inject
+     * \param source The source stride in vec
+     * \param dest   The destination stride
+     */
+    bool StrideCopy(Vector<T> &vec, lint source, lint dest = 0)
+    {
+       if ( dest > nstrides_ || vec.stride_size_ != stride_size_ || source > vec.strides() )
+	  return false;
+	
+       for (lint i=0; i < stride_size_; i++)
+         v_[dest][i] = vec.v_[source][i];
+       
+       return true;
+    }
+    
+    /**
+     */
+    Vector<T>& CopySub(Vector<T> &A, lint begin, lint end)
+    {
+       if (v_ == A.v_)
+          return *this;
+
+       lint rsize = abs(end-begin)+1;
+       
+       if ( abs(rsize) > A.n_) return *this;
+	
+       if (n_ >= rsize  && nstrides_ == A.nstrides_){
+          /* no need to re-alloc */
+          copy(A.v_, begin, rsize);
+       } else {
+          if (!isRef_) destroy();
+          initialize(rsize, A.nstrides_);
+          copy(A.v_, begin, rsize);
+       }
+       return *this;
+    }
+    
+    inline lint size() const
+    {
+        return  n_;
+    }
+
+    /**
+     * Gives the local size of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint lsize() const
+    {
+       return  stride_size_;
+    }
+
+    /**
+     * Returns the number of strides.
+     */
+    inline lint strides() const 
+    {
+       return  nstrides_;
+    }
+
+    /**
+     * Gives the global start index of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint start() const 
+    {
+       return  0;
+    }
+
+    /**
+     * Gives the global end index+1 of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint stop() const 
+    {
+       return  n_;
+    }
+
+
+    inline reference operator[](lint i)
+    { 
+	lint s = i / stride_size_;
+	lint j = i % stride_size_;
+        return v_[s][j];
+    }
+
+    inline const_reference operator[](lint i) const
+    {
+	lint s = i / stride_size_;
+	lint j = i % stride_size_;
+        return v_[s][j];
+    }
+
+
+    inline T Norm() const
+    {
+       T sum=0;
+       for (lint i=0; i < n_; i++)
+          sum += conj((*this)[i]) * (*this)[i];
+
+       return sqrt(sum);
+    }
+};
+
+
+/* ***************************  I/O  ********************************/
+
+template <class T>
+std::ostream& operator<<(std::ostream &s, const Vector<T> &A)
+{
+    lint N=A.size();
+
+    s <<  N << "\n";
+
+    for (lint i=0; i<N; i++)
+        s   << A[i] << " " << "\n";
+    s << "\n";
+
+    return s;
+}
+
+template <class T>
+std::istream & operator>>(std::istream &s, Vector<T> &A)
+{
+
+    lint N;
+
+    s >> N;
+
+    if ( !(N == A.size() ))
+    {
+        A.newsize(N);
+    }
+
+
+    for (lint i=0; i<N; i++)
+            s >>  A[i];
+
+
+    return s;
+}
+
+// *******************[ basic matrix algorithms ]***************************
+
+template <class T>
+void operator+=(Vector<T> &A, const T val)
+{
+   lint N = A.size();
+
+   for (int i=0; i<N; i++)
+      A[i] += val;
+}
+
+template <class T>
+void operator-=(Vector<T> &A, const T val)
+{
+   lint N = A.size();
+
+   for (int i=0; i<N; i++)
+      A[i] -= val;
+}
+
+
+template <class T>
+Vector<T> operator+(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+    lint N = A.size();
+
+    assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] + B[i];
+
+    return tmp;
+}
+
+template <class T>
+Vector<T> operator+=(Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    lint i;
+
+    for (i=0; i<N; i++)
+            A[i] += B[i];
+
+    return A;
+}
+
+template <class T>
+Vector<T> operator-(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] - B[i];
+
+    return tmp;
+}
+
+template <class T>
+Vector<T> operator-=(Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    lint i;
+
+    for (i=0; i<N; i++)
+            A[i] -= B[i];
+
+    return A;
+}
+
+
+
+
+template <class T>
+Vector<T> elementwise_mult(const Vector<T> &A, const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] * B[i];
+
+    return tmp;
+}
+
+
+template <class T>
+double norm(const Vector<T> &A)
+{
+	lint N = A.size();
+
+	double sum = 0.0;
+	for (int i=0; i<N; i++)
+		sum +=  abs(A[i])*abs(A[i]);
+	return sqrt(sum);
+}
+
+
+
+template <class T>
+inline T dot_prod(const Vector<T> &A, const Vector<T> &B)
+{
+    lint N = A.size();
+    assert(N == B.size());
+
+    lint i;
+    T sum = 0;
+
+    for (i=0; i<N; i++)
+        sum += A[i] * B[i];
+    return sum;
+}
+
+template <class T>
+inline T dot_product(const Vector<T> &A, const Vector<T> &B)
+{
+	return dot_prod(A, B);
+}
+
+
+template <class T>
+inline T operator*(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+    return dot_prod(A,B);
+}
+
+
+template <class T>
+Vector<T> operator*(const T &a, const Vector<T> &A)
+{
+   lint N = A.size();
+	Vector<T> r(N);
+
+	for (int i=0; i<N; i++)
+		r[i] = A[i] * a;
+
+	return r;
+}
+
+template <class T>
+inline Vector<T> operator*(const Vector<T> &A, const T& a)
+{
+	return a * A;
+}
+
+
+}   /* namespace QDLIB */
+
+
+#endif
+
-- 
2.43.0


From 617eeef66b41aec00202996b728d98873538750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 06/43] fix: copying a stride accepted stride numbers one past
 the end

---
 src/math/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/Vector.h b/src/math/Vector.h
index c0efb49..a81d32a 100644
--- a/src/math/Vector.h
+++ b/src/math/Vector.h
@@ -602,7 +602,7 @@ class Vector
      */
     bool StrideCopy(Vector<T> &vec, lint source, lint dest = 0)
     {
-       if ( dest > nstrides_ || vec.stride_size_ != stride_size_ || source > vec.strides() )
+       if ( dest >= nstrides_ || vec.stride_size_ != stride_size_ || source >= vec.strides() )
 	  return false;
 	
        for (lint i=0; i < stride_size_; i++)
-- 
2.43.0


From f3ae0d06f516e9041f072623378f037f404696d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 07/43] fix: OList refuses negative element indices

An empty OProduct asked for element -1 and dereferenced whatever was stored in front of the operator table.
---
 src/qdlib/OList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OList.cpp b/src/qdlib/OList.cpp
index 3003f7e..f0f4379 100644
--- a/src/qdlib/OList.cpp
+++ b/src/qdlib/OList.cpp
@@ -46,7 +46,7 @@ namespace QDLIB {
     */
    Operator * OList::Get(int index)
    {
-      if (index >= _size)
+      if (index < 0 || index >= _size)
          throw( EIncompatible("Access to empty element") );
       return _O[index];
    }
@@ -82,7 +82,7 @@ namespace QDLIB {
     */
    void OList::Set(int index, Operator *O)
    {
-      if (index >= _size)
+      if (index < 0 || index >= _size)
          throw( EIncompatible("Access to empty element") );
       
       _O[index] = O;
-- 
2.43.0


From 4922688e9cbd7474bb1d9b7d74084684accc36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 08/43] fix: OList keeps flags and names on element replacement
 and copy

Replacing an element by Set() left the time dependence and hermiticity of
the list stale, and Copy() lost names, flags and adjoint state.
---
 src/qdlib/OList.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/OList.cpp b/src/qdlib/OList.cpp
index f0f4379..faff67f 100644
--- a/src/qdlib/OList.cpp
+++ b/src/qdlib/OList.cpp
@@ -84,17 +84,19 @@ namespace QDLIB {
    {
       if (index < 0 || index >= _size)
          throw( EIncompatible("Access to empty element") );
+      if (O == NULL)
+         throw( EIncompatible("Operator not initialized") );
       
+      if (O->isTimeDep()) _isTimedependent = true;
+      if (! O->Hermitian() ) _hermitian = false;
+
       _O[index] = O;
       _O[index]->Conj(_conj);
    }
    
    void OList::Set(const string& name, Operator *O)
    {
-      int index = GetIndex(name);
-
-      _O[index] = O;
-      _O[index]->Conj(_conj);
+      Set(GetIndex(name), O);
    }
 
    /**
@@ -195,6 +197,11 @@ namespace QDLIB {
          *(_O[i]) = r->_O[i];
       }
 
+      _NamedEntries = r->_NamedEntries;
+      _isTimedependent = r->_isTimedependent;
+      _hermitian = r->_hermitian;
+      _conj = r->_conj;
+
       return r;
    }
    
-- 
2.43.0


From 1ada105141e872e93f5e121d5b31771172099ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 09/43] fix: ORK4::Apply(dest, source) writes the result to
 dest and leaves source alone

---
 src/qdlib/ORK4.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 8c25996..23714bc 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -46,8 +46,8 @@ namespace QDLIB
 
    void ORK4::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {
-      *sourcePsi = destPsi;
-      Apply(sourcePsi);
+      *destPsi = sourcePsi;
+      Apply(destPsi);
    }
 
 
-- 
2.43.0


From 04891760595e846f116bb05352f3a021f0cc8855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 10/43] fix: copied RK4 propagators keep their Hamiltonian and
 accept an uninitialised source

---
 src/qdlib/ORK4.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 23714bc..98542d9 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -116,9 +116,11 @@ namespace QDLIB
 
       OPropagator::Copy(O);
 
+      H = (o->H != NULL) ? Get("hamiltonian") : NULL;
+
       for (int i=0; i < 5; i++){
          DELETE_WF(_buf[i]);
-         _buf[i] = o->_buf[0]->NewInstance();
+         _buf[i] = (o->_buf[i] != NULL) ? o->_buf[i]->NewInstance() : NULL;
       }
 
       return this;
-- 
2.43.0


From cecfe66412f24ae9a93ea4a6f099cb42aca5b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 11/43] fix: WFLevel::Reduce compares magnitudes, negative
 amplitudes were dropped

---
 src/qdlib/WFLevel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index fab87a5..2d795a6 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -109,12 +109,12 @@ namespace QDLIB {
       
       for (int i=0; i <  size; i++){
          /* treat real & imag seperately */
-         if ( (*this)[i].real() < norm )
+         if ( fabs((*this)[i].real()) < norm )
             (*out)[i]._real = 0;
          else
             (*out)[i]._real = (*this)[i].real();
          
-         if ( (*this)[i].imag() < norm )
+         if ( fabs((*this)[i].imag()) < norm )
             (*out)[i]._imag = 0;
          else
             (*out)[i]._imag = (*this)[i].imag();
-- 
2.43.0


From ad3ab01ba99455cc9f1c55823105ddcf88b0c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 12/43] fix: planning a one-dimensional transform kept only one
 of the two FFT buffers

---
 src/fft/fft.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fft/fft.cpp b/src/fft/fft.cpp
index 41b45b7..60778b5 100644
--- a/src/fft/fft.cpp
+++ b/src/fft/fft.cpp
@@ -165,6 +165,12 @@ namespace QDLIB {
       int lothers = _lothers(dim);  /* points in lower dims */
       int cdim = _ndims - dim - 1; /* reversed dim index (C-order) */
 
+      /* Planning overwrites both buffers and any of them may hold
+       * the actual data, depending on the last transformation. Save them. */
+      int size = _lothers(_ndims);
+      cVec inbuf(size, _cin);
+      cVec outbuf(size, _cout);
+
       /* describe 1D-stripes */
       fftw_iodim datadim;
       datadim.n = _rdims[cdim];
@@ -191,13 +197,10 @@ namespace QDLIB {
 
 
       if (_planf[dim+1] == NULL){ /* Create fresh, optimized plan */
-         cVec inbuf;
-         inbuf = *_in; /* Save for planning */
          _planf[dim+1] = fftw_plan_guru_dft(1, &datadim, _ndims - 1, loopdim,
                                           (fftw_complex*) _cin,
                                           (fftw_complex*) _cout,
                                           FFTW_FORWARD, optflag);
-         *_in = inbuf;
       }
 
 
@@ -210,17 +213,19 @@ namespace QDLIB {
                                           FFTW_BACKWARD, FFTW_PATIENT | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
 
          if (_planb[dim+1] == NULL){ /* Create fresh, optimized plan */
-            cVec inbuf;
-            inbuf = *_in; /* Save for planning */
             _planb[dim+1] = fftw_plan_guru_dft(1, &datadim, _ndims - 1, loopdim,
                                              (fftw_complex*) _cout,
                                              (fftw_complex*) _cin,
                                              FFTW_BACKWARD, optflag);
-           *_in = inbuf;
          }
 
       }
 
+      for (int i=0; i < size; i++){
+         _cin[i] = inbuf[i];
+         _cout[i] = outbuf[i];
+      }
+
       delete[] loopdim;
    }
 
-- 
2.43.0


From 902eb18342db0abc873d74704591da9add17fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 13/43] fix: creating the FFT of a wave function in k-space
 destroyed its data

---
 src/qdlib/WFGridSystem.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 58e999d..8cb4a92 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -37,10 +37,13 @@ namespace QDLIB {
       }
 
       if (_fft == NULL){
-         if (IsKspace())
-            /* Take care - the buffers are switched in this constellation! */
+         if (IsKspace()) {
+            /* Take care - the buffers are switched in this constellation!
+             * The FFT considers our data as output and overwrites it while planning. */
+            cVec data(*((cVec*) this));
             _fft = new FFT(*((GridSystem*) this), *GetSpaceBuffer(), *((cVec*) this));
-         else
+            *((cVec*) this) = data;
+         } else
             _fft = new FFT(*((GridSystem*) this), *((cVec*) this), *GetSpaceBuffer());
       }
    }
-- 
2.43.0


From 3d21d933a666c1ef185c460a1234432cca73dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 14/43] fix: wave functions kept an FFT made for another grid
 or for released storage

---
 src/fft/fft.cpp            | 13 +++++++++++++
 src/fft/fft.h              |  2 ++
 src/qdlib/WFGridSystem.cpp | 12 ++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/fft/fft.cpp b/src/fft/fft.cpp
index 60778b5..cc18684 100644
--- a/src/fft/fft.cpp
+++ b/src/fft/fft.cpp
@@ -230,6 +230,19 @@ namespace QDLIB {
    }
 
 
+   /**
+    * Check if the plans were made for the shape of a grid.
+    */
+   bool FFT::Compatible(const GridSystem &grid) const
+   {
+      if (grid.Dim() != _ndims) return false;
+
+      for (int i=0; i < _ndims; i++)
+         if (grid.DimSize(i) != _dims[i]) return false;
+
+      return true;
+   }
+
    /**
     * Replace the buffers.
     *
diff --git a/src/fft/fft.h b/src/fft/fft.h
index bfacd8f..174b9b6 100644
--- a/src/fft/fft.h
+++ b/src/fft/fft.h
@@ -53,6 +53,8 @@ namespace QDLIB {
 
          ~FFT();
 
+         bool Compatible(const GridSystem &grid) const;
+
          void ReplaceBuffers(cVec *in, cVec *out);
          void ReplaceBuffers(dVec *in, cVec *out);
 
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 8cb4a92..f4cd5c1 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -36,6 +36,12 @@ namespace QDLIB {
          _fft = NULL;
       }
 
+      /* The grid may have been replaced by another one with the same size */
+      if (_fft != NULL && !_fft->Compatible(*((GridSystem*) this))){
+         delete _fft;
+         _fft = NULL;
+      }
+
       if (_fft == NULL){
          if (IsKspace()) {
             /* Take care - the buffers are switched in this constellation!
@@ -45,6 +51,12 @@ namespace QDLIB {
             *((cVec*) this) = data;
          } else
             _fft = new FFT(*((GridSystem*) this), *((cVec*) this), *GetSpaceBuffer());
+      } else {
+         /* The storage may have been re-allocated since */
+         if (IsKspace())
+            _fft->ReplaceBuffers(GetSpaceBuffer(), (cVec*) this);
+         else
+            _fft->ReplaceBuffers((cVec*) this, GetSpaceBuffer());
       }
    }
 
-- 
2.43.0


From 0aa18e7e7ed112387238160e38f3ec65e9487ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 15/43] fix: wave functions of another kind are refused on copy
 and restore instead of dereferencing NULL

---
 src/qdlib/WFGridCartesian.cpp | 6 +++++-
 src/qdlib/WFGridSystem.cpp    | 2 ++
 src/qdlib/WFLevel.cpp         | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/WFGridCartesian.cpp b/src/qdlib/WFGridCartesian.cpp
index ddd6d37..e90bd3c 100644
--- a/src/qdlib/WFGridCartesian.cpp
+++ b/src/qdlib/WFGridCartesian.cpp
@@ -53,8 +53,12 @@ namespace QDLIB {
 
    WaveFunction * WFGridCartesian::operator =(WaveFunction * Psi)
    {
+      WFGridSystem* psi = dynamic_cast<WFGridSystem*> (Psi);
+
+      if (!psi) throw ( EIncompatible("WFGridCartesian can't copy from", Psi->Name()) );
+
       /* WFGridSystem already knows what to copy */
-      *((WFGridSystem*) this) = dynamic_cast<WFGridSystem*> (Psi);
+      *((WFGridSystem*) this) = psi;
       
       return this;
    }
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index f4cd5c1..8c3fab7 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -140,6 +140,8 @@ namespace QDLIB {
    {
       WFGridSystem* psi = dynamic_cast<WFGridSystem*>(Psi);
 
+      if (!psi) throw ( EIncompatible("WFGridSystem can't restore from", Psi->Name()) );
+
       // Copy
       IsKspace(true);
       *((GridSystem*) this) = *((GridSystem*) psi);
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 2d795a6..55ea5cc 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -128,6 +128,8 @@ namespace QDLIB {
       /* Nothing to do here. Just copy the content */
       WFLevel* wf = dynamic_cast<WFLevel*>(Psi);
 
+      if (!wf) throw ( EIncompatible("WFLevel can't restore from", Psi->Name()) );
+
       newsize(wf->size());
       FastCopy(*wf);
    }
-- 
2.43.0


From 574bd96807a14c40bc54555066df8121e76ad24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 16/43] fix: power spectrum of a laser field runs over the
 spectrum, not over the longer field

---
 src/qdlib/Laser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 49a2cbc..9eef14e 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -66,8 +66,8 @@ namespace QDLIB {
    {
       Spectrum();
       
-      dVec *power = new dVec(_clock->Steps()/2+1);
-      for (int i=0; i < dVec::size(); i++){
+      dVec *power = new dVec(_spectrum->size());
+      for (int i=0; i < power->size(); i++){
 	 (*power)[i] = cabs((*_spectrum)[i]);
       }
       return power;
-- 
2.43.0


From 24d575da6356e6414ad32830a0e84658a633bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 17/43] fix: laser spectrum follows a changed clock or field
 size

---
 src/qdlib/Laser.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 9eef14e..097e34f 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -80,12 +80,15 @@ namespace QDLIB {
     */
    cVec * Laser::Spectrum()
    {
-      if (_spectrum == NULL){
-         downsize(_clock->Steps());
+      /* Clock and field may have changed since the last call */
+      downsize(_clock->Steps());
+      if (_spectrum == NULL)
          _spectrum = new cVec(_clock->Steps()/2+1);
-      }
-      if (_fft == NULL) _fft = new FFT( *this, *_spectrum);
-      
+      else
+         _spectrum->newsize(_clock->Steps()/2+1);
+      if (_fft != NULL) delete _fft;
+      _fft = new FFT( *this, *_spectrum);
+
       _fft->forward();
       
       return _spectrum;
-- 
2.43.0


From 63d83d54de989b364a1418fe05ff9c7f2e1683d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 18/43] fix: copying a laser field copies its scaling factor

---
 src/qdlib/Laser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 097e34f..0f4303d 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -160,6 +160,7 @@ namespace QDLIB {
       _clock = laser._clock;
        _params = laser._params;
       _dt = laser._dt;
+      _scale = laser._scale;
       if (_spectrum != NULL){
          delete _spectrum;
          _spectrum = NULL;
-- 
2.43.0


From 3fee4ac5381a5bbd8b2dc6757743a8a75dce4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 19/43] fix: pulse energy is quadratic in the scaling factor of
 the field

---
 src/qdlib/Laser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 0f4303d..5bc71eb 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -182,7 +182,7 @@ namespace QDLIB {
       for(int i=0; i < size(); i++){
 	 d += (*this)[i] * (*this)[i];
       }
-      d *= _scale;
+      d *= _scale * _scale;
       return ( 137.0359996  / (4 * M_PI) * d * _dt );
       /*       c0 in au          eps_0 in au             */
    }
-- 
2.43.0


From 4c0446277c53c59ef32ff436fa987d45d0093963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 20/43] fix: exponential of the Raman coupling has the factor
 1/2 of the operator

---
 src/qdlib/OGridRaman.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 6d92ed3..80aaab7 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -78,7 +78,7 @@ namespace QDLIB {
    void OGridRaman::InitExponential (cVec *exp, dcomplex c)
    {
       if (_dspace == NULL) InitDspace();
-      ExpElements(exp, _dspace, -1 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
+      ExpElements(exp, _dspace, -.5 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
 }
-- 
2.43.0


From bd7c3f4d732f818219886b27d0a56ccdf3c77219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 21/43] fix: adding application of the Raman coupling includes
 the laser fields

---
 src/qdlib/OGridRaman.cpp | 5 +++++
 src/qdlib/OGridRaman.h   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 80aaab7..5ee6f20 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -48,6 +48,11 @@ namespace QDLIB {
       MultElements((cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
+   void OGridRaman::ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi)
+   {
+      MultElementsAdd((cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
+   }
+
    void OGridRaman::Apply(WaveFunction *Psi)
    {
       MultElements((cVec*) Psi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
diff --git a/src/qdlib/OGridRaman.h b/src/qdlib/OGridRaman.h
index 586a5f9..ea19d5c 100644
--- a/src/qdlib/OGridRaman.h
+++ b/src/qdlib/OGridRaman.h
@@ -43,6 +43,8 @@ namespace QDLIB
 
          virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 
+         virtual void ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi);
+
          virtual void Apply(WaveFunction *Psi);
 
          virtual Operator* operator=(Operator* O);
-- 
2.43.0


From 6f0ed811651ab0829409fb7ec8577435c82d9b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 22/43] fix: copied position operator keeps dimension and scale

---
 src/qdlib/OGridPosition.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qdlib/OGridPosition.cpp b/src/qdlib/OGridPosition.cpp
index f8c630b..a4bcf8a 100644
--- a/src/qdlib/OGridPosition.cpp
+++ b/src/qdlib/OGridPosition.cpp
@@ -112,6 +112,14 @@ namespace QDLIB {
 
    Operator * OGridPosition::Copy(Operator * O)
    {
+      OGridPosition *o = dynamic_cast<OGridPosition*> (O);
+      if (o == NULL)
+         throw ( EIncompatible("O is not of type OGridPosition", O->Name()) );
+
+      _params = o->_params;
+      _dim = o->_dim;
+      _scale = o->_scale;
+
       OGridSystem::Copy(O);
       return this;
    }
-- 
2.43.0


From 0c69d4e1cf44e18988c4d18f238e808372bd46b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 23/43] fix: spectral bounds of the position operator for all
 dimensions and with a scale

---
 src/qdlib/OGridPosition.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridPosition.cpp b/src/qdlib/OGridPosition.cpp
index a4bcf8a..c2a44ed 100644
--- a/src/qdlib/OGridPosition.cpp
+++ b/src/qdlib/OGridPosition.cpp
@@ -4,6 +4,7 @@
 
 #include "OGridPosition.h"
 #include "WFGridSystem.h"
+#include "math/math_functions.h"
 
 namespace QDLIB {
 
@@ -85,12 +86,12 @@ namespace QDLIB {
 
    dcomplex OGridPosition::Emax()
    {
-      return(dcomplex(GridSystem::Xmax(_dim)));
+      return dcomplex(VecMax( *((dVec*) this) ));
    }
    
    dcomplex OGridPosition::Emin()
    {
-      return(dcomplex(GridSystem::Xmin(_dim)));
+      return dcomplex(VecMin( *((dVec*) this) ));
    }
 
    
-- 
2.43.0


From af0c90351c7ffbf4071eaf134dae2a2c4d958328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 24/43] fix: copied kick operator takes over momentum and
 exponential

---
 src/qdlib/OGridKick.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/OGridKick.cpp b/src/qdlib/OGridKick.cpp
index 82fb545..96a906a 100644
--- a/src/qdlib/OGridKick.cpp
+++ b/src/qdlib/OGridKick.cpp
@@ -129,14 +129,15 @@ namespace QDLIB {
       /* Copy parents */
       *((GridSystem*) this) = *((GridSystem*) org);
 
-      if (_exp == NULL && org->_exp != NULL) {
-         _exp = new cVec();
+      if (org->_exp != NULL) {
+         if (_exp == NULL) _exp = new cVec();
          *_exp = *(org->_exp);
+      } else if (_exp != NULL) {
+         delete _exp;
+         _exp = NULL;
       }
 
-      for (int i = 0; i < GridSystem::Dim(); i++) {
-         _kn[i] = org->_kn[i];
-      }
+      _kn = org->_kn;
 
       return this;
    }
-- 
2.43.0


From 8e042951c7942431aaf0bc16a78a6fc1a7703492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 25/43] fix: copied filter operator takes over parameters,
 filter edges and hermiticity

---
 src/qdlib/OGobbler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGobbler.cpp b/src/qdlib/OGobbler.cpp
index 7abad9c..56c919f 100644
--- a/src/qdlib/OGobbler.cpp
+++ b/src/qdlib/OGobbler.cpp
@@ -12,11 +12,13 @@ namespace QDLIB {
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OGobbler)
    
    OGobbler::OGobbler()
-      : OGridSystem(), _name("OGobbler"), _order(0), _gain(1),_nip(false)
+      : OGridSystem(), _name("OGobbler"), _order(0), _gain(1),_nip(false), _residue(false)
    {
       for (int i=0; i < MAX_DIMS; i++){
 	 _lp[i] = false;
+	 _lpx[i] = 0;
 	 _rp[i] = false;
+	 _rpx[i] = 0;
       }
    }
    
@@ -226,13 +228,15 @@ namespace QDLIB {
       if (o == NULL)
 	 throw(EIncompatible("Not a Gobbler", O->Name()));
       
+      _params = o->_params;
+      _hermitian = o->_hermitian;
       _nip = o->_nip;
       _order = o->_order;
       _residue = o->_residue;
       _gain = o->_gain;
 	    
       
-      for (int i=0; i < Dim(); i++){
+      for (int i=0; i < MAX_DIMS; i++){
 	 _lp[i] = o->_lp[i];
 	 _lpx[i] = o->_lpx[i];
 	 _rp[i] = o->_rp[i];
-- 
2.43.0


From d19f8fa581a299d3573fbd42f9bc66851ba1a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 26/43] fix: exponential of a negative imaginary potential is
 that of the applied operator

---
 src/qdlib/OGobbler.cpp | 8 ++++++++
 src/qdlib/OGobbler.h   | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/qdlib/OGobbler.cpp b/src/qdlib/OGobbler.cpp
index 56c919f..593f6e7 100644
--- a/src/qdlib/OGobbler.cpp
+++ b/src/qdlib/OGobbler.cpp
@@ -215,6 +215,14 @@ namespace QDLIB {
 	 MultElements( (cVec*) Psi, (dVec*) this);
    }
    
+   void OGobbler::InitExponential(cVec *exp, dcomplex c)
+   {
+      if (_nip) /* sign as in Apply */
+         c *= dcomplex(0, _conj ? 1 : -1);
+
+      OGridSystem::InitExponential(exp, c);
+   }
+
    Operator * OGobbler::operator =(Operator * O)
    {
       return Copy(O);
diff --git a/src/qdlib/OGobbler.h b/src/qdlib/OGobbler.h
index 74b4d45..4531067 100644
--- a/src/qdlib/OGobbler.h
+++ b/src/qdlib/OGobbler.h
@@ -70,6 +70,9 @@ namespace QDLIB {
 	 
 	 virtual Operator* Copy(Operator* O);
 
+	 /* DSpace features */
+	 virtual void InitExponential (cVec *exp, dcomplex c);
+
    };
 
 }
-- 
2.43.0


From 3bc49e968da22d0b33c70bb9011b71230c9948fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 27/43] fix: changing the number of lasers left a dangling
 polarisation array

---
 src/qdlib/OLaser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/OLaser.cpp b/src/qdlib/OLaser.cpp
index 499f13d..b10e357 100644
--- a/src/qdlib/OLaser.cpp
+++ b/src/qdlib/OLaser.cpp
@@ -198,6 +198,7 @@ namespace QDLIB {
    {
       delete[] _laser;
       if (_Pol != NULL) delete[] _Pol;
+      _Pol = NULL;
       
       _laser = new Laser[num];
       if (_UsePol) _Pol = new dVec[num];
-- 
2.43.0


From 5511ac2c3743ff79fa26cd430e23442af924be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 28/43] fix: a view refused for a strided vector released
 uninitialised storage

---
 src/math/VectorView.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/VectorView.h b/src/math/VectorView.h
index 18c25d8..e338452 100644
--- a/src/math/VectorView.h
+++ b/src/math/VectorView.h
@@ -47,7 +47,7 @@ namespace QDLIB
     * \param dims  array with number of points in each direction
     */
    template <class T>
-	 VectorView<T>::VectorView(Vector<T> &vec, int ndims, const int *dims) : _adim(0)
+	 VectorView<T>::VectorView(Vector<T> &vec, int ndims, const int *dims) : _v(NULL), _view(NULL), _adim(0), _nothers(0)
    {
       if (vec.strides() > 1){
 	 cout << "!!!WARNING: VectorView doesn't work with strided vectors!!!" << endl;
-- 
2.43.0


From 087eb4d85809358124536b61d3b2a16de286cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 29/43] fix: a view returning to an earlier dimension used the
 number of points of the last one

---
 src/math/VectorView.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/math/VectorView.h b/src/math/VectorView.h
index e338452..2c7822e 100644
--- a/src/math/VectorView.h
+++ b/src/math/VectorView.h
@@ -94,8 +94,14 @@ namespace QDLIB
       
       _adim = dim;
       
+      /* Determine how many times one x_i value is present */
+      _nothers = 1;
+      for(int i=0; i < _ndims; i++)
+      {
+	 if (i != dim) _nothers *= _dims[i];
+      }
+
       if (_view[dim] == NULL){
-	 _nothers = 1;
 	 int lothers = 1;
 	 
 	 /* Determine how many values in the lower dims are  present */
@@ -105,12 +111,6 @@ namespace QDLIB
 	       lothers *= _dims[i];
 	 }
 	 
-	 /* Determine how many times one x_i value is present */
-	 for(int i=0; i < _ndims; i++)
-	 {
-	    if (i != dim) _nothers *= _dims[i];
-	 }
-	 
 	 /* Reserve space for active dimension*/
 	 _view[dim] = new T**[_dims[dim]];
 	 /* Set the pointer array */
-- 
2.43.0


From cc39b3895eb5278825510ae1c378e5821454dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 30/43] fix: sum over a view returns the vector

---
 src/math/VectorView.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/VectorView.h b/src/math/VectorView.h
index 2c7822e..5618bef 100644
--- a/src/math/VectorView.h
+++ b/src/math/VectorView.h
@@ -143,7 +143,7 @@ namespace QDLIB
    {
       Vector<T> *r;
       r = new Vector<T>(_nothers);
-      *r = 0;
+      *r = T(0);
       
       for (int i=0; i < _dims[_adim]; i++){ /* Loop over points in dim */
 	 for (int j=0; j < _nothers; j++) /* Loop over other dim */
@@ -151,6 +151,7 @@ namespace QDLIB
 	    (*r)[j] += *(_view[_adim][i][j]);
 	 }
       }
+      return r;
    }
    
    /**
-- 
2.43.0


From d360da72dfe326ec68996d8ba0007348675b27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 31/43] fix: left edge of a negative imaginary potential was
 ignored

---
 src/qdlib/OGobbler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGobbler.cpp b/src/qdlib/OGobbler.cpp
index 593f6e7..7834bf7 100644
--- a/src/qdlib/OGobbler.cpp
+++ b/src/qdlib/OGobbler.cpp
@@ -58,7 +58,10 @@ namespace QDLIB {
 	    FunctionGenerator<dVec>::BwLowpass(filter, x, _order);
 	
 	    view.ActiveDim(i);
-	    view *= filter;
+	    if (_nip)
+	       view += filter;
+	    else
+	       view *= filter;
 	 }
 	 if (_rp[i]){
 	    x = (_rpx[i] - GridSystem::Xmin(i)) / GridSystem::Dx(i);
-- 
2.43.0


From 87f800d9624b57227c0098171c3f7c9c333095c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 32/43] fix: gradient operator initialised again follows the
 new grid

---
 src/qdlib/OGridNabla.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 99ed516..87ec1ee 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -190,7 +190,14 @@ namespace QDLIB {
    {
       if (_kspace == NULL)
          _kspace = new dVec(GridSystem::Size(), true);
-         
+      else
+         _kspace->newsize(GridSystem::Size());
+
+      if (_dspace != NULL) { /* belongs to the previous grid */
+         delete _dspace;
+         _dspace = NULL;
+      }
+
       *_kspace = double(0); /* Init with zeros */
 
       dVecView view(*_kspace, GridSystem::Dim(), GridSystem::DimSizes());
-- 
2.43.0


From b0b374f4bb199b3fcee22083559b5424edaecf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 33/43] fix: copied gradient operator takes over the dimension
 and the state of the source

---
 src/qdlib/OGridNabla.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 87ec1ee..a8882f5 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -129,13 +129,22 @@ namespace QDLIB {
       _params = o->_params;
       _fac = o->_fac;
       _momentum = o->_momentum;
+      _dim = o->_dim;
 
       *((GridSystem*) this) = *((GridSystem*) o);
 
-      if (_kspace == NULL)
-         _kspace = new dVec(GridSystem::Size(), true);
+      if (o != this && _dspace != NULL) { /* is set up again on demand */
+         delete _dspace;
+         _dspace = NULL;
+      }
 
-      *_kspace = *(o->_kspace);
+      if (o->_kspace != NULL) {
+         if (_kspace == NULL) _kspace = new dVec();
+         *_kspace = *(o->_kspace);
+      } else if (_kspace != NULL) {
+         delete _kspace;
+         _kspace = NULL;
+      }
 
       return this;
    }
-- 
2.43.0


From 249a2ca732f573ebd9181b631f800f29916ec11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 34/43] fix: diagonal representation of the gradient operator
 is that of the applied operator

---
 src/qdlib/OGridNabla.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index a8882f5..441d046 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -170,7 +170,11 @@ namespace QDLIB {
       /** \todo make mpi-save */
       /* Copy to "official" dspace represention of mother class */
       for (int i=0; i < GridSystem::Size(); i++){
-         (*_dspace)[i]._imag = -(*_kspace)[i];
+         /* same representation as in Apply */
+         if (_momentum)
+            (*_dspace)[i] = dcomplex((*_kspace)[i], 0);
+         else
+            (*_dspace)[i] = dcomplex(0, (*_kspace)[i]);
       }
 
    }
-- 
2.43.0


From 312519c2a789e692b5bd9bfc9af747bf29331699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 35/43] fix: exponential of the gradient operator does not
 contain the FFT normalization

---
 src/qdlib/OGridNabla.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 441d046..654ee96 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -229,7 +229,6 @@ namespace QDLIB {
       if (_dspace == NULL) InitDspace();
       
       ExpElements(exp, _dspace, c * _fac);
-      *exp *= 1/double(GridSystem::Size());
    }
 
 } /* namespace QDLIB */
-- 
2.43.0


From 2938f81d33e64965cdaab2a16f0f75f04c4ccb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 36/43] fix: gradient operator reports the largest k-value

---
 src/qdlib/OGridNabla.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 654ee96..94c5c42 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -5,6 +5,7 @@
 #include "OGridNabla.h"
 #include "WFGridSystem.h"
 #include "Kspace.h"
+#include "math/math_functions.h"
 
 namespace QDLIB {
 
@@ -70,7 +71,7 @@ namespace QDLIB {
    /** \return largest k-value*/
    dcomplex OGridNabla::Emax()
    {
-      return dcomplex( (*_kspace)[GridSystem::Size()/2] );
+      return dcomplex( VecMax(*_kspace) );
    }
 
    void OGridNabla::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
-- 
2.43.0


From e630cfc4edfb1088640de707fd8c5b400991cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 37/43] fix: kinetic energy operator is not applied to
 dimensions without mass

---
 src/qdlib/OGridNablaSq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGridNablaSq.cpp b/src/qdlib/OGridNablaSq.cpp
index 2a22f95..c5f790a 100644
--- a/src/qdlib/OGridNablaSq.cpp
+++ b/src/qdlib/OGridNablaSq.cpp
@@ -48,7 +48,7 @@ namespace QDLIB
             throw(EParamProblem("Zero mass defined"));
          if (_mass[i] > 0) eff = true;
 
-         masses[i] = -1./2./_mass[i];
+         masses[i] = (_mass[i] > 0) ? -1./2./_mass[i] : 0; /* no mass: not applied */
       }
 
       if (!eff)
-- 
2.43.0


From 429af1b01953aadd32f5f4d28923bae7d1cb6be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 38/43] fix: copied kinetic energy operator takes over masses
 and differentiation method

---
 src/qdlib/Diff.cpp         |  1 +
 src/qdlib/Diff.h           |  1 +
 src/qdlib/OGridNablaSq.cpp | 16 ++++++++++------
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/Diff.cpp b/src/qdlib/Diff.cpp
index ee65f40..48ab70a 100644
--- a/src/qdlib/Diff.cpp
+++ b/src/qdlib/Diff.cpp
@@ -172,6 +172,7 @@ namespace QDLIB
          bool pbc;
          pm.GetValue("pbc", pbc, false);
 
+         delete _hofd;
          _hofd = new cHOFD(_deriv, order);
          _hofd->SetGrid(_grid);
          _hofd->SetFactor(_pfac);
diff --git a/src/qdlib/Diff.h b/src/qdlib/Diff.h
index b3cd464..743e407 100644
--- a/src/qdlib/Diff.h
+++ b/src/qdlib/Diff.h
@@ -99,6 +99,7 @@ namespace QDLIB
          {
             _pfac = factors;
          }
+         dVec& Factors() { return _pfac; }
 
          /**
           * Choose the method for diff.
diff --git a/src/qdlib/OGridNablaSq.cpp b/src/qdlib/OGridNablaSq.cpp
index c5f790a..9284b16 100644
--- a/src/qdlib/OGridNablaSq.cpp
+++ b/src/qdlib/OGridNablaSq.cpp
@@ -127,13 +127,17 @@ namespace QDLIB
       /* Copy parents */
       *((GridSystem*) this) = *((GridSystem*) org);
 
-      if (_dspace == NULL && org->_dspace != NULL) {
-         _dspace = new dVec();
-         *_dspace = *(org->_dspace);
-      }
+      _mass = org->_mass;
 
-      for (int i = 0; i < GridSystem::Dim(); i++) {
-         _mass[i] = org->_mass[i];
+      bool init = (org->_dspace != NULL);
+      _dspace = NULL;
+      Diff::Method(org->Diff::Method());
+      Diff::Factors(org->Diff::Factors());
+
+      if (init) { /* k-space is hosted in Diff class */
+         Diff::SetGrid(*this);
+         Diff::InitParams(_params);
+         InitDspace();
       }
 
       return this;
-- 
2.43.0


From de341f29d2ac6ba858fb536ebacda96982c36dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 39/43] fix: differentiation of one chosen dimension is set up

---
 src/qdlib/Diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/Diff.cpp b/src/qdlib/Diff.cpp
index 48ab70a..6c94658 100644
--- a/src/qdlib/Diff.cpp
+++ b/src/qdlib/Diff.cpp
@@ -62,7 +62,7 @@ namespace QDLIB
          int end = _grid.Dim();
          if (_dim > -1) {
             begin = _dim;
-            end = _dim;
+            end = _dim + 1;
          }
 
          /* Setup derivatives for every coordinate */
-- 
2.43.0


From 652e148bd32fe5b1f6dc24ddc9e1f02070e18a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 40/43] fix: transforming one dimension refuses wave functions
 without FFT

---
 src/qdlib/TransformFFT.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qdlib/TransformFFT.cpp b/src/qdlib/TransformFFT.cpp
index e8f42c6..0aca4da 100644
--- a/src/qdlib/TransformFFT.cpp
+++ b/src/qdlib/TransformFFT.cpp
@@ -51,6 +51,9 @@ namespace QDLIB
    void TransformFFT::Forward(WaveFunction *Psi, int dim)
    {
       WFGridSystem* psi=dynamic_cast<WFGridSystem*>(Psi);
+
+      if (!psi) throw( EIncompatible("FFT can't transform", Psi->Name()) );
+
       psi->fft().forward(dim);
       psi->IsKspace(true);
    }
@@ -58,6 +61,9 @@ namespace QDLIB
    void TransformFFT::Backward(WaveFunction *Psi, int dim)
    {
       WFGridSystem* psi=dynamic_cast<WFGridSystem*>(Psi);
+
+      if (!psi) throw( EIncompatible("FFT can't transform", Psi->Name()) );
+
       psi->fft().backward(dim);
       psi->IsKspace(false);
    }
-- 
2.43.0


From ea644961bb9e5a2f915162344874574e1c6851d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 41/43] fix: derivatives of single dimensions set up again
 follow the new grid

---
 src/qdlib/Diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/Diff.cpp b/src/qdlib/Diff.cpp
index 6c94658..d396ef4 100644
--- a/src/qdlib/Diff.cpp
+++ b/src/qdlib/Diff.cpp
@@ -68,7 +68,7 @@ namespace QDLIB
          /* Setup derivatives for every coordinate */
          for (lint i = begin; i < end; i++) {
             /* derivatives */
-            if (_kspace1[i].size() == 0) {
+            if (_kspace1[i].size() != _grid.Size()) {
                _kspace1[i].newsize(_grid.Size());
             }
 
-- 
2.43.0


From b5b6ccdead2498fe59edf248af13454687ec1f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 42/43] fix: overlap of multi-state wave functions refuses
 different numbers of states

---
 src/qdlib/WFMultistate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 1831c5c..e3b031c 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -209,6 +209,9 @@ namespace QDLIB
       if (psi == NULL)
          throw( EIncompatible("Not a Multistate wave function", Psi->Name()) ) ;
       
+      if (_nstates != psi->_nstates)
+         throw( EIncompatible("Multistate WFs differ in number of states") ) ;
+
       for(lint i=MPIrank(); i < _nstates; i+=MPIsize()){
          c += *(_states[i]) * psi->_states[i];
       }
-- 
2.43.0


From 655552acdb9bd7079a0d14582dd405b4433eff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:53 +0000
Subject: [PATCH 43/43] fix: operator matrices do not look past the last column

OMultistate::Init and UpdateTime walked one column too far, which for a
matrix of the maximal size reads the next row and, in the last row,
memory behind the matrix.
---
 src/qdlib/OMultistate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 77c993d..01c20e7 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -132,7 +132,7 @@ namespace QDLIB
 	 }
       } else {
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
+	    for(int j=0; j< _nstates; j++){
 	       if (_matrix[i][j] != NULL)
                   if (_subinit)
 		    _matrix[i][j]->Init(psi->State(j));
@@ -152,7 +152,7 @@ namespace QDLIB
 	 }
       } else {
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
+	    for(int j=0; j< _nstates; j++){
 	       if (_matrix[i][j] != NULL)
 		  _matrix[i][j]->UpdateTime();
 	    }
-- 
2.43.0

