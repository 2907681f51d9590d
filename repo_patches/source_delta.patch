From 9b0c5692d3ce6339fe7ab023ad714f62d802eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 001/128] fix: initialize the pthread attributes before setting
 the stack size

pthread_attr_init resets the attributes, so that the requested stack
size was lost.
---
 src/Parallelizer2Pthread.h | 8 ++++----
 src/PthreadsNg.h           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 91f4f51..f178de4 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -134,7 +134,10 @@ public:
 			pfs[j].nthreads = nthreads_;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -154,9 +157,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper2<SomeLambdaType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 19bee89..0492a70 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -237,7 +237,10 @@ public:
 			pfs[j].nthreads = actualThreads;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -257,9 +260,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 #ifndef __APPLE__
 			if (setAffinities_)
 				setAffinity(attr[j], &cpuset, j);
-- 
2.43.0


From d3179367cf0babc7d07511d5a707fe23bd24330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 002/128] fix: CrsMatrix from triplets: point each row at its
 first entry

---
 src/CrsMatrix.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 3a3add5..01c1f06 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -208,23 +208,18 @@ public:
 		Vector<SizeType>::Type iperm(rows2.size());
 		Vector<SizeType>::Type rows = rows2;
 		s.sort(rows, iperm);
-		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
+		SizeType nextRow = 0;
 		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
-			}
+			// start all rows up to this one
+			while (nextRow <= rows[i])
+				rowptr_[nextRow++] = i;
 
 			colind_.push_back(cols[iperm[i]]);
 			values_.push_back(vals[iperm[i]]);
 		}
 
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank; ++i)
-			rowptr_[i] = counter;
+		while (nextRow <= rank)
+			rowptr_[nextRow++] = rows.size();
 	}
 
 	// start closure ctors
-- 
2.43.0


From b74599a25a5dab268d970f09d95221c09470651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 003/128] fix: isTheIdentity for CrsMatrix: a missing diagonal
 entry is zero

---
 src/CrsMatrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 01c1f06..d4d6e49 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -1536,9 +1536,12 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 	SizeType n = A.rows();
 	const T f1 = (-1.0);
 	for (SizeType i = 0; i < n; i++) {
+		bool hasDiagonal = false;
 		for (int k = A.getRowPtr(i); k < A.getRowPtr(i + 1); k++) {
 			SizeType col = A.getCol(k);
 			const T& val = A.getValue(k);
+			if (col == i)
+				hasDiagonal = true;
 			if (checkForIdentity && col == i && PsimagLite::norm(val + f1) > eps) {
 				return false;
 			}
@@ -1546,6 +1549,9 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 				return false;
 			}
 		}
+
+		if (checkForIdentity && !hasDiagonal)
+			return false;
 	}
 	return true;
 }
-- 
2.43.0


From b8c713830e8e189332d664a33eb7563e484def9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 004/128] fix: operator<< for CrsMatrix keeps the columns of a
 matrix without rows

---
 src/CrsMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index d4d6e49..0fa66e8 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -689,7 +689,7 @@ std::ostream& operator<<(std::ostream& os, const CrsMatrix<T>& m)
 {
 	SizeType n = m.rows();
 	if (n == 0) {
-		os << "0 0\n";
+		os << "0 " << m.cols() << "\n";
 		return os;
 	}
 
-- 
2.43.0


From 97fe7a7f6cc9a395330934cca973aec421e8e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 005/128] fix: operator>> for CrsMatrix clears the matrix when
 it reads an empty one

---
 src/CrsMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 0fa66e8..a5b30b4 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -727,10 +727,10 @@ std::istream& operator>>(std::istream& is, CrsMatrix<T>& m)
 		    "is>>CrsMatrix(...): Cols must be positive\n");
 	is >> ncol;
 
-	if (n == 0 || ncol == 0)
+	m.resize(n, ncol);
+	if (n == 0)
 		return is;
 
-	m.resize(n, ncol);
 	for (SizeType i = 0; i < m.rowptr_.size(); i++)
 		is >> m.rowptr_[i];
 
-- 
2.43.0


From 49be5849562c2e5ce70185b3223355d93e9d5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 006/128] fix: CrsMatrix::read drops the old contents also when
 what it reads is empty

---
 src/CrsMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index a5b30b4..d729ac6 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -619,6 +619,7 @@ public:
 	{
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
+		resize(nrow_, ncol_);
 		if (nrow_ == 0 || ncol_ == 0)
 			return;
 		ioSerializer.read(rowptr_, label + "/rowptr_");
-- 
2.43.0


From c2aca4b135beb2a4888c048ea70a00665ff15373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 007/128] fix: SparseVector::toChunk zeroes what the
 destination held before

---
 src/SparseVector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index e2213e6..8ad0f44 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -169,6 +169,8 @@ public:
 				                   " check failed\n");
 		}
 		dest.resize(total);
+		for (SizeType i = 0; i < total; i++)
+			dest[i] = 0;
 		for (SizeType i = 0; i < indices_.size(); i++)
 			dest[indices_[i] - i0] = values_[i];
 	}
-- 
2.43.0


From 9e7d32b0c8a7f3fe560546ff830ce8640e71094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 008/128] fix: SparseVector::findPartition finds a last index
 that starts a partition

---
 src/SparseVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 8ad0f44..0d85f31 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -205,7 +205,7 @@ public:
 		}
 		SizeType ret2 = 1;
 		for (SizeType i = 0; i < parts.partition(); i++) {
-			if (firstLast.second > parts.partition(i)) {
+			if (firstLast.second >= parts.partition(i)) {
 				ret2 = i;
 			}
 			else {
-- 
2.43.0


From b33eb20ca7e198da84baf92fb03305adf3515c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 009/128] fix: SparseVector::sort leaves also short vectors
 sorted and without zeros

---
 src/SparseVector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 0d85f31..c418ab4 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -291,9 +291,14 @@ public:
 
 	void sort()
 	{
-		if (indices_.size() < 2 || isSorted_)
+		if (isSorted_)
 			return;
 
+		if (indices_.size() == 0) {
+			isSorted_ = true;
+			return;
+		}
+
 		Sort<typename Vector<SizeType>::Type> sort;
 		typename Vector<SizeType>::Type iperm(indices_.size());
 		sort.sort(indices_, iperm);
-- 
2.43.0


From 9e2d36dfb7d02514c093b5b58b35cce910063d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 010/128] fix: SparseVector::operator== compares the number of
 entries first

---
 src/SparseVector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index c418ab4..2f59aa7 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -241,6 +241,8 @@ public:
 	{
 		assert(isSorted_);
 		assert(v.isSorted_);
+		if (indices_.size() != v.indices_.size())
+			return false;
 		for (SizeType i = 0; i < v.values_.size(); i++) {
 			if (indices_[i] != v.indices_[i])
 				return false;
-- 
2.43.0


From 5b7d9bac917bb5616f08e5c4e691c89be1691996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 011/128] fix: SparseRowCached can grow from an empty cache

---
 src/SparseRowCached.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseRowCached.h b/src/SparseRowCached.h
index 70cd27d..2667090 100644
--- a/src/SparseRowCached.h
+++ b/src/SparseRowCached.h
@@ -109,7 +109,7 @@ public:
 		                        values_.push_back(value);*/
 		SizeType cacheSize = cols_.size();
 		if (counter_ >= cacheSize) {
-			cacheSize *= 2;
+			cacheSize = (cacheSize == 0) ? 1 : 2 * cacheSize;
 			cols_.resize(cacheSize);
 			values_.resize(cacheSize);
 		}
-- 
2.43.0


From 53f15297e143015fe7c23a649dc3351cb4e3af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 012/128] fix: overwriting a complex vector in IoNg replaces
 the one that was stored

---
 src/Io/IoNgSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index eb9f781..dfc1f89 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -257,7 +257,7 @@ public:
 
 		writeComplexOrReal(name2, 'C');
 		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name2, ptr, dims, 1);
+			overwrite<T>(name, ptr, dims, 1);
 		else
 			internalWrite<T>(name, ptr, dims, 1);
 	}
-- 
2.43.0


From b78666e6abf7f38e756983949fc50916f454020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 013/128] fix: CrsMatrix::write accepts a matrix without
 columns

---
 src/CrsMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index d729ac6..df84e16 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -595,7 +595,7 @@ public:
 	void
 	write(String label, IoSerializer& ioSerializer, IoSerializer::WriteMode mode = IoSerializer::NO_OVERWRITE) const
 	{
-		if (nrow_ > 0)
+		if (nrow_ > 0 && ncol_ > 0)
 			checkValidity();
 		if (mode != IoSerializer::ALLOW_OVERWRITE)
 			ioSerializer.createGroup(label);
-- 
2.43.0


From b12a37a195a40dafcd27bf8cc3c230e6df4b5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:16 +0000
Subject: [PATCH 014/128] fix: SparseVector::toChunk check counts the last
 index of the chunk right

---
 src/SparseVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 2f59aa7..12aa897 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -164,7 +164,7 @@ public:
 	{
 		if (test) {
 			PairType firstLast = findFirstLast();
-			if (i0 > firstLast.first || i0 + total < firstLast.second)
+			if (i0 > firstLast.first || i0 + total <= firstLast.second)
 				throw RuntimeError("SparseVector::toChunk(...)"
 				                   " check failed\n");
 		}
-- 
2.43.0


From 2cf3e4659122c76463c83abbe813450024511b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:16 +0000
Subject: [PATCH 015/128] fix: SparseVector::resize leaves an unsorted vector
 as clear does

---
 src/SparseVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 12aa897..3816cd6 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -130,6 +130,7 @@ public:
 		values_.clear();
 		indices_.clear();
 		size_ = x;
+		isSorted_ = false;
 	}
 
 	//! adds an index (maybe the indices should be sorted at some point)
-- 
2.43.0


From 4ccb8366bc918654ee46105a849fab0f478c1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 016/128] fix: crsMatrixToFullMatrix zeroes what the
 destination held before

---
 src/CrsMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index df84e16..d088a14 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -771,6 +771,7 @@ template <typename T>
 void crsMatrixToFullMatrix(Matrix<T>& m, const CrsMatrix<T>& crsMatrix)
 {
 	m.resize(crsMatrix.rows(), crsMatrix.cols(), 0);
+	m.setTo(0);
 	for (SizeType i = 0; i < crsMatrix.rows(); i++) {
 		//  for (SizeType k=0;k<crsMatrix.cols();k++) m(i,k)=0;
 		for (int k = crsMatrix.getRowPtr(i);
-- 
2.43.0


From 5ad2d177ada9918835eee07c92d1471e21bbab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 017/128] fix: product of a vector of vectors with a vector ran
 past the end

---
 src/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector.h b/src/Vector.h
index 86aa20d..ff6291f 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -100,7 +100,7 @@ vector<T2, A> operator*(const vector<vector<T1, A>, AA>& v1,
 	vector<T2, A> v3(v2.size());
 	for (SizeType i = 0; i < v3.size(); i++) {
 		v3[i] = 0;
-		for (SizeType j = 0; i < v2.size(); j++)
+		for (SizeType j = 0; j < v2.size(); j++)
 			v3[i] += v1[i][j] * v2[j];
 	}
 	return v3;
-- 
2.43.0


From 667bb140178a9136ae761e4143d2d0038b639b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 018/128] fix: a refused scaled += leaves the matrix as it was

---
 src/Matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 06c619f..bc0ce20 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -397,12 +397,12 @@ public:
 	                   Matrix,
 	                   std::ClosureOperations::OP_MULT>& c)
 	{
-		nrow_ = c.r2.nrow_;
-		ncol_ = c.r2.ncol_;
-
 		const SizeType cSize = c.r2.data_.size();
 		resizeIfNeeded(cSize);
 
+		nrow_ = c.r2.nrow_;
+		ncol_ = c.r2.ncol_;
+
 		this->data_ += c.r1 * c.r2.data_;
 		return *this;
 	}
@@ -413,12 +413,12 @@ public:
 	                   T1,
 	                   std::ClosureOperations::OP_MULT>& c)
 	{
-		nrow_ = c.r1.nrow_;
-		ncol_ = c.r1.ncol_;
-
 		const SizeType cSize = c.r1.data_.size();
 		resizeIfNeeded(cSize);
 
+		nrow_ = c.r1.nrow_;
+		ncol_ = c.r1.ncol_;
+
 		this->data_ += c.r2 * c.r1.data_;
 		return *this;
 	}
-- 
2.43.0


From 7899fd98b1c1e7cf9a76cd8f7c191515d4e0587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 019/128] fix: multiplyTransposeConjugate of matrices that are
 not square

---
 src/Matrix.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index bc0ce20..284fae1 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -964,16 +964,16 @@ template <typename T>
 Matrix<T> multiplyTransposeConjugate(const Matrix<T>& O1, const Matrix<T>& O2, char modifier = 'C')
 {
 	SizeType n = O1.rows();
-	Matrix<T> ret(n, n);
+	Matrix<T> ret(O1.cols(), O2.cols());
 	if (modifier == 'C') {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < O1.cols(); s++)
+			for (SizeType t = 0; t < O2.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += PsimagLite::conj(O1(w, s)) * O2(w, t);
 	}
 	else {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < O1.cols(); s++)
+			for (SizeType t = 0; t < O2.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += O1(w, s) * O2(w, t);
 	}
-- 
2.43.0


From d0653cd806a4cb98a5fd46ba23776555df0a64fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 020/128] fix: exp of a complex Hermitian matrix was transposed

---
 src/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 284fae1..2e0df88 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -1022,7 +1022,7 @@ void exp(Matrix<T>& m)
 				typename Real<T>::Type alpha = eigs[k];
 				T tmp = 0.0;
 				expComplexOrReal(tmp, alpha);
-				sum += PsimagLite::conj(m(i, k)) * m(j, k) * tmp;
+				sum += m(i, k) * PsimagLite::conj(m(j, k)) * tmp;
 			}
 			expm(i, j) = sum;
 		}
-- 
2.43.0


From d341804712d7299a15bb9da67f623d6640fd7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 021/128] fix: expIpi of a complex Hermitian matrix was
 transposed

---
 src/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 2e0df88..ef496b2 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -1090,7 +1090,7 @@ typename EnableIf<IsComplexNumber<T>::True, void>::Type expIpi(Matrix<T>& A)
 			std::complex<RT> sum = 0;
 			for (SizeType k = 0; k < n; ++k) {
 				const RT arg = eigs[k] * M_PI;
-				sum += PsimagLite::conj(A(i, k)) * std::complex<RT>(cos(arg), sin(arg)) * A(j, k);
+				sum += A(i, k) * std::complex<RT>(cos(arg), sin(arg)) * PsimagLite::conj(A(j, k));
 			}
 
 			result(i, j) = sum;
-- 
2.43.0


From 675fcf1f8a95f79a227ac54ed71f004730b015a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 022/128] fix: vector times matrix was computed as matrix times
 vector

---
 src/Vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Vector.h b/src/Vector.h
index ff6291f..4d65a46 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -190,7 +190,9 @@ operator<=(
 }
 
 template <typename T1, typename T2, typename A>
-ClosureOperator<T1, vector<T2, A>, ClosureOperations::OP_MULT>
+typename PsimagLite::EnableIf<
+    PsimagLite::IsNumber<T1>::True,
+    ClosureOperator<T1, vector<T2, A>, ClosureOperations::OP_MULT>>::Type
 operator*(const vector<T2, A>& v2, const T1& v1)
 {
 	return v1 * v2;
-- 
2.43.0


From 48f467567ec0c03dc5a7417e1bad26b7f24901a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 023/128] fix: a file created with ACC_EXCL can be written to

---
 src/Io/IoNgSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index dfc1f89..84948ab 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -49,7 +49,7 @@ public:
 			throw e;
 		}
 
-		if (mode == H5F_ACC_TRUNC) {
+		if (mode == H5F_ACC_TRUNC || mode == H5F_ACC_EXCL) {
 			try {
 				createGroup("");
 			}
-- 
2.43.0


From 5a9b34656e9ebae3348dba482406986f30c318e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 024/128] fix: IoNg open() behaves as the constructor for the
 mode it is given

---
 src/Io/IoNgSerializer.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 84948ab..f155ceb 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -92,10 +92,21 @@ public:
 			throw RuntimeError(
 			    "IoNgSerializer::open(): object already open\n");
 
-		filename_ = filename;
 		hdf5file_ = new H5::H5File(filename, mode);
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
+		filename_ = filename;
+		mode_ = mode;
+		try {
+			if (mode == H5F_ACC_TRUNC || mode == H5F_ACC_EXCL)
+				createGroup("");
+			if (mode == H5F_ACC_RDONLY)
+				readCanary();
+		}
+		catch (...) {
+			filename_ = "";
+			delete hdf5file_;
+			hdf5file_ = 0;
+			throw;
+		}
 	}
 
 	void close()
-- 
2.43.0


From 41cdcaa88d2c02629a036d43d4ccd17d681fa3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 025/128] fix: a vector overwritten with another type of vector
 keeps no old tag, and one overwritten with an empty vector is removed

---
 src/Io/IoNgSerializer.h | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index f155ceb..99e37d2 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -237,28 +237,34 @@ public:
 	void
 	write(String name2, const std::vector<T>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
+		if (what.size() == 0) {
+			if (allowOverwrite == ALLOW_OVERWRITE)
+				removeVector(name2);
 			return;
+		}
 		String name = "Def/" + name2;
 		hsize_t dims[1];
 		dims[0] = what.size();
 		assert(0 < what.size());
 		const void* ptr = static_cast<const void*>(&what[0]);
 
+		if (allowOverwrite == ALLOW_OVERWRITE)
+			removeVector(name2);
+		if (!internalWrite<T>(name, ptr, dims, 1))
+			return;
 		if (Loki::TypeTraits<T>::isFloat)
 			writeComplexOrReal(name2, 'R');
-		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
 	}
 
 	template <typename T>
 	void
 	write(String name2, const std::vector<std::complex<T>>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
+		if (what.size() == 0) {
+			if (allowOverwrite == ALLOW_OVERWRITE)
+				removeVector(name2);
 			return;
+		}
 
 		assert(0 < what.size());
 		const void* ptr = static_cast<const void*>(&what[0]);
@@ -266,11 +272,10 @@ public:
 		hsize_t dims[1];
 		dims[0] = 2 * what.size();
 
-		writeComplexOrReal(name2, 'C');
 		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
+			removeVector(name2);
+		if (internalWrite<T>(name, ptr, dims, 1))
+			writeComplexOrReal(name2, 'C');
 	}
 
 	template <typename T>
@@ -814,6 +819,20 @@ private:
 		return x / 2;
 	}
 
+	void removeVector(String name2)
+	{
+		const String names[] = { "Def/" + name2, "Def/" + name2 + "ComplexOrReal" };
+		for (SizeType i = 0; i < 2; ++i) {
+			try {
+				if (hdf5file_->nameExists(names[i]))
+					hdf5file_->unlink(names[i]);
+			}
+			catch (H5::Exception&) {
+				// the group it would be in doesn't exist
+			}
+		}
+	}
+
 	void writeComplexOrReal(String name2, char content)
 	{
 		String nameComplexOrReal = name2 + "ComplexOrReal";
-- 
2.43.0


From 5395a6a63f58ee9377907ce2f526e48087de77c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 026/128] fix: overwriting a pair or a vector of vectors that
 does not exist yet stores it

---
 src/Io/IoNgSerializer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 99e37d2..94c2fe5 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -197,7 +197,7 @@ public:
 	template <typename T1, typename T2>
 	void write(String name2, const std::pair<T1, T2>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T1>::isArith && Loki::TypeTraits<T2>::isArith, int*>::Type = 0)
 	{
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/0", what.first, allowOverwrite);
 		write(name2 + "/1", what.second, allowOverwrite);
@@ -288,7 +288,7 @@ public:
 	    = 0)
 	{
 		SizeType n = what.size();
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/Size", n, allowOverwrite);
 		for (SizeType i = 0; i < n; ++i)
@@ -320,7 +320,7 @@ public:
 	void write(String name2, const std::vector<T>& what, WriteMode allowOverwrite, typename EnableIf<!Loki::TypeTraits<typename Real<T>::Type>::isArith && !IsPairLike<T>::True && !IsEnumClass<T>::value, int*>::Type = 0)
 	{
 		SizeType n = what.size();
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/Size", n, allowOverwrite);
 		for (SizeType i = 0; i < n; ++i)
-- 
2.43.0


From 850a5c83af7e798047ba274082337e531b662488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 027/128] fix: enumerators above 255 are stored whole

---
 src/Io/TypeToH5.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Io/TypeToH5.h b/src/Io/TypeToH5.h
index 72da053..55648cd 100644
--- a/src/Io/TypeToH5.h
+++ b/src/Io/TypeToH5.h
@@ -2,6 +2,7 @@
 #define PSI_TYPETOH5_H
 #include "../AllocatorCpu.h"
 #include <H5Cpp.h>
+#include <type_traits>
 
 namespace PsimagLite {
 
@@ -11,7 +12,7 @@ typename EnableIf<!std::is_enum<T>::value, H5::PredType>::Type typeToH5();
 template <typename T>
 typename EnableIf<std::is_enum<T>::value, H5::PredType>::Type typeToH5()
 {
-	return H5::PredType::NATIVE_UINT8;
+	return typeToH5<typename std::underlying_type<T>::type>();
 }
 } // namespace PsimagLite
 #endif // PSI_TYPETOH5_H
-- 
2.43.0


From 6194aa3bd17cc3a420587d8848d2e1be2dc8e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 028/128] fix: reading an empty matrix leaves no old data in
 the destination

---
 src/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index ef496b2..ee6a7ee 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -153,6 +153,7 @@ public:
 	{
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
+		data_.clear();
 		if (nrow_ == 0 || ncol_ == 0)
 			return;
 		ioSerializer.read(data_, label + "/data_");
-- 
2.43.0


From 844fd1dbf24b91712bc30b9da3b92ae0b6f3cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:39 +0000
Subject: [PATCH 029/128] fix: a read or open that fails leaves no file open

---
 src/Io/IoNgSerializer.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 94c2fe5..9f2cf74 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -6,6 +6,7 @@
 #include "TypeToH5.h"
 #include <H5Cpp.h>
 #include <cassert>
+#include <memory>
 #include <stack>
 
 namespace PsimagLite {
@@ -65,11 +66,11 @@ public:
 			try {
 				readCanary();
 			}
-			catch (H5::Exception& e) {
+			catch (...) {
 				filename_ = "";
 				delete hdf5file_;
 				hdf5file_ = 0;
-				throw e;
+				throw;
 			}
 		}
 	}
@@ -394,9 +395,8 @@ public:
 	void read(SomeType& value, String name, typename EnableIf<Loki::TypeTraits<SomeType>::isArith && !std::is_enum<SomeType>::value, int*>::Type = 0)
 	{
 		void* ptr = static_cast<void*>(&value);
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
+		std::unique_ptr<H5::DataSet> dataset(new H5::DataSet(hdf5file_->openDataSet("Def/" + name)));
 		dataset->read(ptr, typeToH5<SomeType>());
-		delete dataset;
 	}
 
 	void read(String& what, String name) { readInternal(what, name); }
@@ -406,9 +406,8 @@ public:
 		unsigned char tmp[1];
 		tmp[0] = 0;
 		void* ptr = static_cast<void*>(tmp);
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
+		std::unique_ptr<H5::DataSet> dataset(new H5::DataSet(hdf5file_->openDataSet("Def/" + name)));
 		dataset->read(ptr, typeToH5<unsigned char>());
-		delete dataset;
 		value = (tmp[0] & 1);
 	}
 
@@ -566,7 +565,7 @@ private:
 		typedef typename Real<typename SomeVectorType::value_type>::Type
 		    UnderlyingType;
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
+		std::unique_ptr<H5::DataSet> dataset(new H5::DataSet(hdf5file_->openDataSet("Def/" + name)));
 		const H5::DataSpace& dspace = dataset->getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
@@ -592,7 +591,6 @@ private:
 			void* ptr = static_cast<void*>(&(what[0]));
 			dataset->read(ptr, typeToH5<UnderlyingType>());
 			delete[] dims;
-			delete dataset;
 			return;
 		}
 
@@ -607,7 +605,6 @@ private:
 			for (SizeType i = 0; i < dims[0]; ++i)
 				what[i] = temporary[i]; // real to complex
 			delete[] dims;
-			delete dataset;
 			return;
 		}
 
@@ -688,7 +685,7 @@ private:
 	{
 		static const String name = "/Def/Canary";
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet(name));
+		std::unique_ptr<H5::DataSet> dataset(new H5::DataSet(hdf5file_->openDataSet(name)));
 		const H5::DataSpace& dspace = dataset->getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
@@ -706,7 +703,6 @@ private:
 		void* ptr = static_cast<void*>(&c);
 		dataset->read(ptr, typeToH5<unsigned char>());
 		delete[] dims;
-		delete dataset;
 
 		if (c != CANARY_VALUE)
 			throw RuntimeError("File " + filename_ + " is not valid (dead canary)\n");
-- 
2.43.0


From 4a944596169a31fd4c32a1d4fad35a5800177da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 030/128] fix: IoSimple reading an empty vector leaves no old
 data in the destination

---
 src/Io/IoSimple.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 3dbf01c..bfef9a3 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -333,8 +333,6 @@ public:
 			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
 			int xsize;
 			fin_ >> xsize;
-			if (xsize == 0)
-				return sc;
 			x.resize(xsize);
 			for (int i = 0; i < xsize; i++) {
 				typename X::value_type tmp;
-- 
2.43.0


From 09ca2cfa3c704e5c666d6802f6f1280514c28506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 031/128] fix: IoSimple advance fails when the label does not
 occur often enough

---
 src/Io/IoSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index bfef9a3..f1e068a 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -394,7 +394,7 @@ public:
 				                                   counter);
 			}
 
-			if (!found && tempSaved == "NOTFOUND") {
+			if (!found) {
 				if (!beQuiet) {
 					std::cerr << "Not found " << s
 					          << " in file " << filename_;
-- 
2.43.0


From 8c3c77319a27ac95e0c80f2e1e4657e1d74e6e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 032/128] fix: IoSimple finds a label that ends the file
 without a newline

---
 src/Io/IoSimple.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index f1e068a..300d70e 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -295,8 +295,7 @@ public:
 			if (fin_.bad() || !fin_.good())
 				throw RuntimeError("Readline\n");
 			while (!fin_.eof()) {
-				fin_ >> temp;
-				if (fin_.eof())
+				if (!(fin_ >> temp))
 					break;
 				if (temp.substr(0, s.size()) == s) {
 					foundOnce = true;
@@ -371,8 +370,7 @@ public:
 			bool found = false;
 
 			while (!fin_.eof()) {
-				fin_ >> temp;
-				if (fin_.eof() || !fin_.good() || fin_.bad())
+				if (!(fin_ >> temp))
 					break;
 
 				if (temp.substr(0, s.size()) == s) {
-- 
2.43.0


From e81dca2b64019eb232388f95687a2c4605cdd5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 033/128] fix: IoSimple last instance counts from the position
 where the search began

---
 src/Io/IoSimple.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 300d70e..ae9e4e4 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -294,6 +294,7 @@ public:
 			LongSizeType counter = 0;
 			if (fin_.bad() || !fin_.good())
 				throw RuntimeError("Readline\n");
+			const std::streampos start = fin_.tellg();
 			while (!fin_.eof()) {
 				if (!(fin_ >> temp))
 					break;
@@ -316,8 +317,8 @@ public:
 			}
 
 			if (level == LAST_INSTANCE) {
-				fin_.close();
-				fin_.open(filename_.c_str());
+				fin_.clear();
+				fin_.seekg(start);
 				readline(x, s, counter - 1);
 			}
 
@@ -364,6 +365,7 @@ public:
 		                                    bool beQuiet = false)
 		{
 
+			const std::streampos start = fin_.tellg();
 			String temp = "NOTFOUND";
 			String tempSaved = "NOTFOUND";
 			LongSizeType counter = 0;
@@ -384,8 +386,8 @@ public:
 			}
 
 			if (level == LAST_INSTANCE && tempSaved != "NOTFOUND") {
-				fin_.close();
-				fin_.open(filename_.c_str());
+				fin_.clear();
+				fin_.seekg(start);
 				if (counter > 1)
 					advance(s, counter - 2);
 				return std::pair<String, SizeType>(tempSaved,
-- 
2.43.0


From 244d38d45b94a4aabdba3ec3a3740a584d413d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 034/128] fix: IoSimple read with LAST_INSTANCE reads the last
 instance

---
 src/Io/IoSimple.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index ae9e4e4..3c741ed 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -330,7 +330,7 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			std::pair<String, SizeType> sc = advanceToData(s, level, beQuiet);
 			int xsize;
 			fin_ >> xsize;
 			x.resize(xsize);
@@ -346,7 +346,7 @@ public:
 		void
 		read(X& mat, String const& s, LongIntegerType level = 0, typename EnableIf<IsMatrixLike<X>::True, int>::Type = 0)
 		{
-			advance(s, level);
+			advanceToData(s, level, false);
 			fin_ >> mat;
 		}
 
@@ -355,7 +355,7 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			std::pair<String, SizeType> sc = advanceToData(s, level, beQuiet);
 			fin_ >> x;
 			return sc;
 		}
@@ -443,6 +443,15 @@ public:
 
 	private:
 
+		// advance with LAST_INSTANCE stops before the last instance
+		std::pair<String, SizeType> advanceToData(String const& s, LongIntegerType level, bool beQuiet)
+		{
+			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			if (level == LAST_INSTANCE)
+				advance(s, 0, beQuiet);
+			return sc;
+		}
+
 		String filename_;
 		std::ifstream fin_;
 	};
-- 
2.43.0


From f7d071267e7095b8109b589a1de46fd416f24939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 035/128] fix: IoSimple printline leaves the message stream
 empty

---
 src/Io/IoSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 3c741ed..bd1cd62 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -195,7 +195,7 @@ public:
 				return;
 			(*fout_) << s().str() << "\n";
 			s().flush();
-			s().seekp(std::ios_base::beg);
+			s().str("");
 		}
 
 		template <typename T>
-- 
2.43.0


From 759af23ddce527c9fac744efc5f1fd1a1b4d1d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 036/128] fix: Ainur assignment to a name with an underscore
 was taken for a declaration

---
 src/Ainur/AinurSpirit1.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Ainur/AinurSpirit1.cpp b/src/Ainur/AinurSpirit1.cpp
index afd55c9..6b5382a 100644
--- a/src/Ainur/AinurSpirit1.cpp
+++ b/src/Ainur/AinurSpirit1.cpp
@@ -71,8 +71,9 @@ Ainur::Ainur(String str)
 	typeQualifier %= +(aToZ | ascii::char_(".") | ascii::char_("!"));
 	keywords = *(ascii::char_("_")) >> +aToZ >> *(ascii::char_("a", "z") | ascii::char_("A", "Z") | ascii::char_("0", "9") | ascii::char_(":") | ascii::char_("_"));
 	statement1 %= keywords >> '=' >> value;
-	statement2 %= typeQualifier >> keywords;
-	statement3 %= typeQualifier >> keywords >> '=' >> value;
+	// the type is followed by a blank, it's not the beginning of a name
+	statement2 %= typeQualifier >> qi::no_skip[&(qi::space | '#')] >> keywords;
+	statement3 %= typeQualifier >> qi::no_skip[&(qi::space | '#')] >> keywords >> '=' >> value;
 
 	Action action1("statement1", state_);
 	Action action2("statement2", state_);
-- 
2.43.0


From 27f52b4e56c882a4f3f22c07f1f4961526b51752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 037/128] fix: Ainur input without final semicolon was read
 past its end, and one extra character was ignored

---
 src/Ainur/AinurSpirit1.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Ainur/AinurSpirit1.cpp b/src/Ainur/AinurSpirit1.cpp
index 6b5382a..78d8fc3 100644
--- a/src/Ainur/AinurSpirit1.cpp
+++ b/src/Ainur/AinurSpirit1.cpp
@@ -84,12 +84,14 @@ Ainur::Ainur(String str)
 	IteratorType last = str.end();
 	qi::phrase_parse(first, last, statement % ";", AINUR_COMMENTS);
 
-	++first;
+	if (first != last && *first == ';')
+		++first;
 	if (first != last && !allEmpty(first, last)) {
 
 		qi::parse(first, last, +('#' >> *(qi::char_ - qi::eol) >> qi::eol | qi::eol | qi::space));
 
-		if (first + 1 != last && !allEmpty(first, last)) {
+		const bool onlySemicolon = (first + 1 == last && *first == ';');
+		if (!onlySemicolon && !allEmpty(first, last)) {
 			IteratorType e = (first + 20 < last) ? first + 20 : last;
 			err(AinurState::errLabel(AinurState::ERR_PARSE_FAILED,
 			                         String(first, e)));
-- 
2.43.0


From adf83e1b5bd5e1b717e2eb69391d49bbe04efe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 038/128] fix: Ainur values are independent of the blanks
 before the semicolon

---
 src/Ainur/AinurState.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 3136f73..724b8eb 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -5,6 +5,7 @@
 #include "../Vector.h"
 #include "AinurConvert.hh"
 #include "AinurDoubleOrFloat.h"
+#include "AinurLexical.h"
 #include "AinurMacros.hh"
 #include <cassert>
 #include <numeric>
@@ -56,7 +57,7 @@ public:
 		// if (values_[x] != "")
 		//	std::cerr<<"Overwriting label "<<k<<" with "<<v<<"\n";
 
-		ainurVariables_[x].value = v;
+		ainurVariables_[x].value = trimRight(v);
 	}
 
 	void declare(String d, String key, String v)
@@ -73,7 +74,7 @@ public:
 			d = d.substr(0, last - 1);
 		}
 
-		AinurVariable ainurVar({ key, v, d, "NORMAL" });
+		AinurVariable ainurVar({ key, trimRight(v), d, "NORMAL" });
 		ainurVariables_.emplace_back(ainurVar);
 
 		used_.push_back(u);
@@ -204,6 +205,14 @@ private:
 		return it - ainurVariables_.begin();
 	}
 
+	static String trimRight(const String& s)
+	{
+		SizeType n = s.length();
+		while (n > 0 && AinurLexical::isEmptyChar(s[n - 1]))
+			--n;
+		return s.substr(0, n);
+	}
+
 	static bool isEmptyValue(String s)
 	{
 		return (s.length() == 0 || s == ZERO_CHAR_STRING_);
-- 
2.43.0


From 31af89232374c52edac5c93d8213768e03340dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 039/128] fix: Ainur reports a value that is not an integer
 with an exception that can be caught

---
 src/Ainur/AinurConvert.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Ainur/AinurConvert.hh b/src/Ainur/AinurConvert.hh
index 3d12c97..e200303 100644
--- a/src/Ainur/AinurConvert.hh
+++ b/src/Ainur/AinurConvert.hh
@@ -79,9 +79,8 @@ public:
 		try {
 			t = PsimagLite::atoi(label.c_str());
 		}
-		catch (std::exception& e) {
-			std::cerr << "FATAL: AinurState: Label " + label + " must be an integer\n";
-			throw e.what();
+		catch (std::exception&) {
+			err("FATAL: AinurState: Label " + label + " must be an integer\n");
 		}
 	}
 
-- 
2.43.0


From aa037a949db8e7080b642bb2dd746e57ccb77440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 040/128] fix: Ainur ellipsis of length zero wrote to an empty
 vector

---
 src/Ainur/AinurConvert1.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ainur/AinurConvert1.cpp b/src/Ainur/AinurConvert1.cpp
index 247c31b..9de867b 100644
--- a/src/Ainur/AinurConvert1.cpp
+++ b/src/Ainur/AinurConvert1.cpp
@@ -60,6 +60,8 @@ void AinurConvert::Action<T>::operator()(A& attr, ContextType&, bool&) const
 		const SizeType mm = PsimagLite::atoi(attr[1].substr(4, l - 4));
 		if (m != 0)
 			std::cout << "Resizing vector to " << mm << "\n";
+		if (mm == 0)
+			err("Ellipsis must extend the vector to at least one element\n");
 		t_.resize(mm);
 		AinurComplex::convert(t_[0], attr[0]);
 		for (SizeType i = 1; i < mm; ++i)
-- 
2.43.0


From c5b975befe08736d466ada3551d24713851beb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 041/128] fix: Ainur reading an empty matrix leaves no old data
 in the destination

---
 src/Ainur/AinurConvert1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurConvert1.cpp b/src/Ainur/AinurConvert1.cpp
index 9de867b..5ea9202 100644
--- a/src/Ainur/AinurConvert1.cpp
+++ b/src/Ainur/AinurConvert1.cpp
@@ -23,8 +23,11 @@ template <typename A, typename ContextType>
 void AinurConvert::ActionMatrix<T>::operator()(A& attr, ContextType&, bool&) const
 {
 	SizeType rows = attr.size();
-	if (rows == 0)
+	if (rows == 0) {
+		t_.clear();
 		return;
+	}
+
 	SizeType cols = attr[0].size();
 	t_.resize(rows, cols);
 	for (SizeType i = 0; i < rows; ++i) {
-- 
2.43.0


From 5bf0e7f5f9d03ba9476a4a1c99b4536379c272c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 042/128] fix: Ainur expands macros also in variables that must
 be used

---
 src/Ainur/AinurState.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 724b8eb..8b66649 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -242,8 +242,6 @@ private:
 		const SizeType n = ainurVariables_.size();
 		bool atLeastOneValueHasMacro = false;
 		for (SizeType i = 0; i < n; ++i) {
-			if (!used_[i])
-				continue;
 			std::pair<bool, PsimagLite::String> macro = expandOneValue(ainurVariables_[i].value);
 
 			if (!macro.first)
-- 
2.43.0


From c97da76a31ed5cd80aad34fd26434ed581acc436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 043/128] fix: Ainur expands a macro at the end of a value and
 one right after another

---
 src/Ainur/AinurState.h | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 8b66649..87d94e0 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -268,34 +268,32 @@ private:
 		PsimagLite::String retString;
 		bool hasAtLeastOneMacro = false;
 		SizeType status = 0; // 0 = outsite a macro, 1 = inside a macro
-		for (SizeType i = 0; i < n; ++i) {
-			const char c = value[i];
-			if (c == '\\') {
-				status = 1;
-				continue;
-			}
-
-			if (status == 0) {
-				retString += c;
-				continue;
-			}
-
-			if (isValidCharForMacroName(c)) {
-				macroName += c;
-			}
-			else {
+		for (SizeType i = 0; i <= n; ++i) {
+			if (status == 1) {
+				if (i < n && isValidCharForMacroName(value[i])) {
+					macroName += value[i];
+					continue;
+				}
 
 				int x = storageIndexByName(macroName);
 				if (x < 0)
 					err("No macro named " + macroName + "\n");
 
 				assert(static_cast<SizeType>(x) < ainurVariables_.size());
-				retString += unquote(ainurVariables_[x].value) + c;
+				retString += unquote(ainurVariables_[x].value);
 
 				macroName = "";
 				hasAtLeastOneMacro = true;
 				status = 0;
 			}
+
+			if (i == n)
+				break;
+
+			if (value[i] == '\\')
+				status = 1;
+			else
+				retString += value[i];
 		}
 
 		return std::pair<bool, PsimagLite::String>(hasAtLeastOneMacro,
-- 
2.43.0


From 6c7999a447331c5f8131203f351cfceb39a4bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 044/128] fix: Ainur macros that refer to themselves more than
 once are refused before they fill the memory

---
 src/Ainur/AinurState.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 87d94e0..2142b34 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -242,7 +242,7 @@ private:
 		const SizeType n = ainurVariables_.size();
 		bool atLeastOneValueHasMacro = false;
 		for (SizeType i = 0; i < n; ++i) {
-			std::pair<bool, PsimagLite::String> macro = expandOneValue(ainurVariables_[i].value);
+			std::pair<bool, PsimagLite::String> macro = expandOneValue(ainurVariables_[i].key, ainurVariables_[i].value);
 
 			if (!macro.first)
 				continue;
@@ -261,7 +261,7 @@ private:
 
 	// \[a-zA-Z]+
 	std::pair<bool, PsimagLite::String>
-	expandOneValue(const String& value) const
+	expandOneValue(const String& key, const String& value) const
 	{
 		const SizeType n = value.length();
 		PsimagLite::String macroName;
@@ -279,6 +279,10 @@ private:
 				if (x < 0)
 					err("No macro named " + macroName + "\n");
 
+				// every cycle of references ends up here
+				if (macroName == key)
+					err("Macro " + macroName + " refers to itself\n");
+
 				assert(static_cast<SizeType>(x) < ainurVariables_.size());
 				retString += unquote(ainurVariables_[x].value);
 
-- 
2.43.0


From 661c0efa4edb4818c152a5774d7dc00f44a027c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 045/128] fix: Ainur function without value for its argument is
 an error

---
 src/Ainur/AinurMacros.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index e57b3a1..5beec7c 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -66,6 +66,8 @@ public:
 			    data_.begin(), data_.end(), [&x](const std::pair<double, double>& pair) {
 				    return (pair.first == x);
 			    });
+			if (it == data_.end())
+				throw RuntimeError("No value for " + std::to_string(x) + " in " + filename_ + "\n");
 			return it->second;
 		}
 
-- 
2.43.0


From 2cae49361b9d466b4578f639683423ccc0b5d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 046/128] fix: Ainur function file may contain blank lines

---
 src/Ainur/AinurMacros.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 5beec7c..aa7ca74 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -118,7 +118,7 @@ public:
 		static bool emptyLine(const std::string& s)
 		{
 			for (SizeType i = 0; i < s.size(); ++i) {
-				if (s[i] != ' ' || s[i] != '\t')
+				if (s[i] != ' ' && s[i] != '\t')
 					return false;
 			}
 
-- 
2.43.0


From c57f940dc7a4bdd04c53b6af94f63fbb01176d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 047/128] fix: Ainur function file with a line that lacks the
 column is an error

---
 src/Ainur/AinurMacros.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index aa7ca74..0731f0c 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -138,7 +138,7 @@ public:
 					continue;
 				std::vector<std::string> tokens;
 				split(tokens, s);
-				if (columnX_ > tokens.size() || columnY_ > tokens.size()) {
+				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
 					throw RuntimeError("Line too small: " + std::string(s) + "\n");
 				}
 
-- 
2.43.0


From d848a286ebb28042a7cac20708e6e2e577aebe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 048/128] fix: Ainur function file may be separated by commas

---
 src/Ainur/AinurMacros.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 0731f0c..2fc25db 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -137,7 +137,7 @@ public:
 				if (emptyLine(std::string(s)))
 					continue;
 				std::vector<std::string> tokens;
-				split(tokens, s);
+				split(tokens, s, separatorForSplit_);
 				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
 					throw RuntimeError("Line too small: " + std::string(s) + "\n");
 				}
-- 
2.43.0


From 17088f10423abb3521de9f43f23b7d6ab54a63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 049/128] fix: Ainur expands what a macro refers to before what
 follows the macro

---
 src/Ainur/AinurState.h | 43 +++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 2142b34..89022a3 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -226,42 +226,46 @@ private:
 		}
 	}
 
+	enum class ExpansionEnum { PENDING,
+		                   ACTIVE,
+		                   DONE };
+
 	void expandMacrosRecursively()
 	{
-		static const SizeType avoidInfMax = 100;
-		SizeType avoidInfCounter = 0;
-		while (expandMacros()) {
-			if (avoidInfCounter++ > avoidInfMax) {
-				err("Recursion limit of " + ttos(avoidInfMax) + " exceeded.\n");
-			}
-		}
+		const SizeType n = ainurVariables_.size();
+		std::vector<ExpansionEnum> expansion(n, ExpansionEnum::PENDING);
+		for (SizeType i = 0; i < n; ++i)
+			expandMacros(i, expansion);
 	}
 
-	bool expandMacros()
+	// what a macro refers to is expanded before it
+	void expandMacros(SizeType i, std::vector<ExpansionEnum>& expansion)
 	{
-		const SizeType n = ainurVariables_.size();
-		bool atLeastOneValueHasMacro = false;
-		for (SizeType i = 0; i < n; ++i) {
-			std::pair<bool, PsimagLite::String> macro = expandOneValue(ainurVariables_[i].key, ainurVariables_[i].value);
+		if (expansion[i] == ExpansionEnum::DONE)
+			return;
 
-			if (!macro.first)
-				continue;
+		if (expansion[i] == ExpansionEnum::ACTIVE)
+			err("Macro " + ainurVariables_[i].key + " refers to itself\n");
+
+		expansion[i] = ExpansionEnum::ACTIVE;
 
+		std::pair<bool, PsimagLite::String> macro = expandOneValue(ainurVariables_[i].value, expansion);
+
+		if (macro.first) {
 			if (macro.second.size() > 0 && macro.second[0] == '!') {
 				macro.second = ainurMacros_.procNativeMacro(macro.second);
 			}
 
 			ainurVariables_[i].value = macro.second;
 			ainurVariables_[i].opaque = "MACRO";
-			atLeastOneValueHasMacro = true;
 		}
 
-		return atLeastOneValueHasMacro;
+		expansion[i] = ExpansionEnum::DONE;
 	}
 
 	// \[a-zA-Z]+
 	std::pair<bool, PsimagLite::String>
-	expandOneValue(const String& key, const String& value) const
+	expandOneValue(const String& value, std::vector<ExpansionEnum>& expansion)
 	{
 		const SizeType n = value.length();
 		PsimagLite::String macroName;
@@ -279,11 +283,8 @@ private:
 				if (x < 0)
 					err("No macro named " + macroName + "\n");
 
-				// every cycle of references ends up here
-				if (macroName == key)
-					err("Macro " + macroName + " refers to itself\n");
-
 				assert(static_cast<SizeType>(x) < ainurVariables_.size());
+				expandMacros(x, expansion);
 				retString += unquote(ainurVariables_[x].value);
 
 				macroName = "";
-- 
2.43.0


From d7c56d75c3807280db7e577fca372f1034a31d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 050/128] fix: atoi refuses text with a sign after or without
 digits

---
 src/PsimagLite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 1edd10b..0cc4cee 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -69,7 +69,8 @@ int atoi(String str)
 	for (SizeType i = 0; i < n; ++i) {
 		if (isdigit(str[i]))
 			continue;
-		if (str[i] == '-' || str[i] == '+')
+		// a sign only before the digits
+		if ((str[i] == '-' || str[i] == '+') && i == 0 && n > 1)
 			continue;
 		throw RuntimeError("atoi received a non-digit: " + str + "\n");
 	}
-- 
2.43.0


From 48617e0aadf97859005a388f608d018601cecfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 051/128] fix: isAfloat and atof refuse text of which only a
 part is a number

---
 src/PsimagLite.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 0cc4cee..913c7ae 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -105,7 +105,13 @@ bool isAfloat(String str)
 		return false;
 	}
 
-	return hasDigit;
+	if (!hasDigit)
+		return false;
+
+	// it is a number if all of it converts
+	char* end = nullptr;
+	std::strtod(str.c_str(), &end);
+	return (end == str.c_str() + n);
 }
 
 double atof(String str)
-- 
2.43.0


From ce56b6656a7f79566a8ed60edac00f79265b25ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:26 +0000
Subject: [PATCH 052/128] fix: Ainur native macro without arguments is an error

---
 src/Ainur/AinurMacros.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 2fc25db..56cb190 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -177,7 +177,8 @@ public:
 		if (line.substr(1, AINUR_FROM_FILE.size()) == AINUR_FROM_FILE) {
 			SizeType start = AINUR_FROM_FILE.size() + 1;
 			SizeType len = line.size();
-			assert(len > start);
+			if (len <= start)
+				throw RuntimeError("Expected arguments after " + AINUR_FROM_FILE + "\n");
 			SizeType rest = len - start;
 			std::string content = line.substr(start, rest);
 			return addAinurFromFile(content);
-- 
2.43.0


From cfe6e557306994353db6e6b1a80f3211fc376fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 053/128] fix: InputNg read the last character of a file twice

---
 src/InputNg.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 380f2cc..64e2566 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -232,10 +232,8 @@ public:
 			}
 
 			char c = 0;
-			while (!fin.eof()) {
-				fin.get(c);
+			while (fin.get(c))
 				data += c;
-			}
 
 			fin.close();
 		}
-- 
2.43.0


From 139607ee086391e593a71634de40c3ce76282b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 054/128] fix: InputNg comments neither lose the value before
 them nor end a list

---
 src/InputNg.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 64e2566..e9d3d73 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -366,6 +366,7 @@ public:
 		void parseInternal()
 		{
 			String buffer = "";
+			SizeType stateBeforeComment = state_;
 			for (SizeType i = 0; i < data_.length(); i++) {
 				SizeType type = findTypeOf(data_.at(i));
 				if (state_ == IN_COMMENT && type != ENDOFLINE)
@@ -374,7 +375,7 @@ public:
 				case ENDOFLINE:
 					line_++;
 					if (state_ == IN_COMMENT) {
-						state_ = IN_LABEL;
+						state_ = stateBeforeComment;
 						break;
 					}
 					if (buffer == "")
@@ -402,6 +403,12 @@ public:
 					buffer = "";
 					break;
 				case COMMENT:
+					if (buffer != "") {
+						saveBuffer(buffer, ENDOFLINE);
+						buffer = "";
+					}
+
+					stateBeforeComment = state_;
 					state_ = IN_COMMENT;
 					break;
 				default:
-- 
2.43.0


From ba4471009a0b48e27be51c344577e7c8d3300cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 055/128] fix: InputNg refuses a label without value at the end
 of the input

---
 src/InputNg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/InputNg.h b/src/InputNg.h
index e9d3d73..2106d2b 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -429,6 +429,8 @@ public:
 			}
 			if (numericVector_.size() > 0)
 				checkNumbers();
+			else if (state_ == IN_VALUE_TEXT || state_ == IN_VALUE_NUMERIC)
+				throw RuntimeError("InputNg: label " + lastLabel_ + " has no value\n");
 		}
 
 		void saveBuffer(const String& buffer, SizeType whatchar)
-- 
2.43.0


From cc77904147221406633ad6212774f184a165818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 056/128] fix: InputNg replacement lines may contain tabs and
 comments

---
 src/InputNg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 2106d2b..5129002 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -342,14 +342,14 @@ public:
 
 			++ind;
 			String rest;
-			for (; ind < n; ++ind)
+			for (; ind < n && line[ind] != '#'; ++ind)
 				rest += line[ind];
 			if (rest == "")
 				throw RuntimeError(
 				    "replaceLine: syntax error near " + line + "\n");
 
 			VectorStringType tokens;
-			split(tokens, rest, " ");
+			split(tokens, rest, " \t");
 			const SizeType m = tokens.size();
 
 			String newline;
-- 
2.43.0


From d7b43b50fbfed67d50d5d83401ef74fa5f29d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 057/128] fix: InputNg forced removal of a label that is not
 repeated erased past the end

---
 src/InputNg.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 5129002..9c54ca4 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -957,10 +957,11 @@ public:
 			                                          labelsForRemoval_.end(),
 			                                          label);
 
-			if (it2 != labelsForRemoval_.end() || forceRemoval) {
+			if (it2 != labelsForRemoval_.end() || forceRemoval)
 				mymap.erase(it);
+
+			if (it2 != labelsForRemoval_.end())
 				labelsForRemoval_.erase(it2);
-			}
 		}
 
 		String label2label(const String& label)
-- 
2.43.0


From 05d502c9c598b445aed202a31de63a4074f0900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 058/128] fix: InputNg reading a map takes the entries of its
 own label only

---
 src/InputNg.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 9c54ca4..6dd184c 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -913,11 +913,7 @@ public:
 			     it != mapStrStr_.end();
 			     ++it) {
 				String mystr = it->first;
-				long unsigned int it0 = mystr.find(label2);
-				if (it0 == String::npos)
-					continue;
-				String::iterator it1 = find(mystr.begin(), mystr.end(), '[');
-				if (it1 == mystr.end())
+				if (mystr.compare(0, label2.length() + 1, label2 + "[") != 0)
 					continue;
 				String::iterator it2 = find(mystr.begin(), mystr.end(), ']');
 				if (it2 == mystr.end()) {
-- 
2.43.0


From 21d9f9ca2bed5673f1be0d9cb9d7b063067e1b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 059/128] fix: InputNg refuses to read a list of reals as
 integers

---
 src/InputNg.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 6dd184c..d19e508 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -1029,9 +1029,13 @@ public:
 		    typename Real<ComplexOrRealType>::Type>::Type
 		stringToComplexOrReal(const String& s) const
 		{
-			return static_cast<
-			    typename Real<ComplexOrRealType>::Type>(
-			    stringToReal(s));
+			const double value = stringToReal(s);
+			const typename Real<ComplexOrRealType>::Type converted
+			    = static_cast<typename Real<ComplexOrRealType>::Type>(value);
+			if (Loki::TypeTraits<ComplexOrRealType>::isIntegral && converted != value)
+				throw RuntimeError(s + " is not an integer\n");
+
+			return converted;
 		}
 
 		template <typename ComplexOrRealType>
-- 
2.43.0


From 94f7639d9973462c23f52000921b5bd0e08e038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 060/128] fix: InputNg refuses elements of a complex matrix
 that are not numbers

---
 src/InputNg.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index d19e508..53b0ca7 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -890,10 +890,8 @@ public:
 			}
 			SizeType k = 2;
 			for (SizeType i = 0; i < m.rows(); i++) {
-				for (SizeType j = 0; j < m.cols(); j++) {
-					IstringStream is(it->second[k++]);
-					is >> m(i, j);
-				}
+				for (SizeType j = 0; j < m.cols(); j++)
+					m(i, j) = stringToComplexOrReal<std::complex<FloatingType>>(it->second[k++]);
 			}
 			cleanLabelsIfNeeded(label2, mapStrVec_, it);
 		}
-- 
2.43.0


From 4715b168b342e860c61acdc99d67ec7db79fda08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 061/128] fix: InputNg refuses complex numbers without or with
 text after the closing parenthesis

---
 src/InputNg.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/InputNg.h b/src/InputNg.h
index 53b0ca7..412e6ee 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -997,6 +997,9 @@ public:
 				return stringToReal(s.c_str());
 			}
 
+			if (s.find(')') != s.length() - 1)
+				throw RuntimeError(s + " is not a complex number\n");
+
 			String buffer("");
 			SizeType start = 0;
 			for (SizeType i = 1; i < s.length(); ++i) {
-- 
2.43.0


From 7991c906cd6bd8850c73371d65aaacdf0c5f9ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 062/128] fix: InputNg reading a list does not consume a value
 of the same label, nor a value a list

---
 src/InputNg.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/InputNg.h b/src/InputNg.h
index 412e6ee..80c242f 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -951,6 +951,10 @@ public:
 			                                          labelsForRemoval_.end(),
 			                                          label);
 
+			// a label may be repeated among the values of the other kind only
+			if (std::count_if(mymap.begin(), mymap.end(), [&label](const typename SomeMapType::value_type& entry) { return findRootLabel(entry.first) == label; }) < 2)
+				it2 = labelsForRemoval_.end();
+
 			if (it2 != labelsForRemoval_.end() || forceRemoval)
 				mymap.erase(it);
 
-- 
2.43.0


From 943cbc7f94985781ba0d2655188956d31e7c87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 063/128] fix: stringToComplex honours the sign of the
 imaginary part and refuses what is no number

---
 src/Complex.h | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/Complex.h b/src/Complex.h
index de57113..6c7fabd 100644
--- a/src/Complex.h
+++ b/src/Complex.h
@@ -113,32 +113,34 @@ norm(const std::complex<T>& t)
 }
 
 inline std::complex<double> stringToComplex(const std::string& str) {
-	double real = 0;
-	double imag = 0;
-	char dummy = 0;
-	std::stringstream ss(str);
-
-	if (str.find('+') != std::string::npos || str.find('-') != std::string::npos) {
-		ss >> real >> dummy >> imag >> dummy;
-		if (str.back() != 'i') {
-			imag = 0;
+	// number, number followed by i, or the sum or difference of both; a+-bi is allowed
+	double part[2] = { 0, 0 }; // real, imaginary
+	bool seen[2] = { false, false };
+	const char* p = str.c_str();
+	bool ok = (*p != '\0');
+	while (ok && *p != '\0') {
+		double sign = 1;
+		if (*p == '+') ++p;
+		if (*p == '-') {
+			sign = -1;
+			++p;
 		}
-		if (str[str.find('+') + 1] == '-') {
-			imag = -imag;
-		}
-	} else if (str.find('i') != std::string::npos) {
-		ss >> imag >> dummy;
-		real = 0;
-		if (str.back() != 'i') {
-			imag = 0;
-		}
-	}
-	else {
-		ss >> real;
-		imag = 0;
+
+		char* end = const_cast<char*>(p);
+		const bool isNumber = ((*p >= '0' && *p <= '9') || *p == '.');
+		double value = (isNumber) ? std::strtod(p, &end) : 1;
+		const bool isImag = (*end == 'i');
+		ok = ((end != p || isImag) && !seen[isImag] && !seen[1]);
+		seen[isImag] = true;
+		part[isImag] = sign * value;
+		p = (isImag) ? end + 1 : end;
+		if (*p != '+' && *p != '-' && *p != '\0') ok = false;
 	}
 
-	return std::complex<double>(real, imag);
+	if (!ok)
+		throw RuntimeError("stringToComplex: not a complex number " + str + "\n");
+
+	return std::complex<double>(part[0], part[1]);
 }
 } // namespace PsimagLite
 
-- 
2.43.0


From 35d894972820d74c3bb17bb23640170d8b2a946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 064/128] fix: ExpressionForAST refuses expressions with
 missing operands

---
 src/AST/ExpressionForAST.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AST/ExpressionForAST.h b/src/AST/ExpressionForAST.h
index 79772ef..5e2939e 100644
--- a/src/AST/ExpressionForAST.h
+++ b/src/AST/ExpressionForAST.h
@@ -55,6 +55,9 @@ public:
 				break;
 		}
 
+		if (sumOfA != 0)
+			throw RuntimeError("ExpressionForAST: operands missing\n");
+
 		SizeType k = 0;
 		for (SizeType i = 0; i < vecTree_.size(); i++) {
 			SizeType a = va[i];
-- 
2.43.0


From a452131bcfcf1919de82fe1715883638200d2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 065/128] fix: PredicateSimple decides divisibility for
 negative and real numbers and refuses zero

---
 src/PredicateSimple.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index de4e62a..aa8698f 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -95,11 +95,27 @@ private:
 
 	template <typename T>
 	static bool divisibleBy(
-	    SizeType lv,
-	    SizeType rv,
+	    T lv,
+	    T rv,
 	    typename std::enable_if<Loki::TypeTraits<T>::isArith, int*>::type = 0)
 	{
-		return ((lv % rv) == 0);
+		if (rv == 0)
+			throw RuntimeError("PredicateSimple: divisible by zero\n");
+		return remainder(lv, rv) == 0;
+	}
+
+	template <typename T>
+	static typename std::enable_if<Loki::TypeTraits<T>::isFloat, T>::type
+	remainder(T lv, T rv)
+	{
+		return std::fmod(lv, rv);
+	}
+
+	template <typename T>
+	static typename std::enable_if<!Loki::TypeTraits<T>::isFloat, T>::type
+	remainder(T lv, T rv)
+	{
+		return lv % rv;
 	}
 
 	static SizeType operatorLength(String op)
-- 
2.43.0


From 50ad414fb1fa49c8f7e26ef632e3314131bdcfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 066/128] fix: PredicateSimple replaces variables as whole
 words and only once

---
 src/PredicateSimple.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index aa8698f..fb6fc67 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -163,19 +163,28 @@ private:
 		const String valString = ttos(val);
 		const SizeType nameLength = name.length();
 
-		while (true) {
-			size_t index = hs.find(name);
-			if (index == String::npos)
-				return hs;
-			String part1 = (index == 0) ? "" : hs.substr(0, index);
-			String part2 = hs.substr(index + nameLength,
-			                         hs.length() - nameLength - index);
-			hs = part1 + valString + part2;
+		if (nameLength == 0)
+			return hs;
+
+		// whole words only, and not in what has been replaced
+		size_t index = 0;
+		while ((index = hs.find(name, index)) != String::npos) {
+			const size_t end = index + nameLength;
+			if ((index > 0 && isInWord(hs[index - 1]) && isInWord(name[0]))
+			    || (end < hs.length() && isInWord(hs[end]) && isInWord(name[nameLength - 1]))) {
+				++index;
+				continue;
+			}
+
+			hs.replace(index, nameLength, valString);
+			index += valString.length();
 		}
 
 		return hs;
 	}
 
+	static bool isInWord(char c) { return (isalnum(static_cast<unsigned char>(c)) || c == '_'); }
+
 	static VectorStringType ops_;
 	String pred_;
 	String separator_;
-- 
2.43.0


From b5ebb02cd249a69d514b1b6dbda6f2644449265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 067/128] fix: CanonicalExpression assigns the first term that
 has items, not only the very first

---
 src/CanonicalExpression.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CanonicalExpression.h b/src/CanonicalExpression.h
index afafb5b..edb2d17 100644
--- a/src/CanonicalExpression.h
+++ b/src/CanonicalExpression.h
@@ -72,6 +72,7 @@ public:
 		// String exprCanonical = expr; // canonicalize here
 		// VectorStringType vecStr;
 		const SizeType numberOfTerms = quasiCanonical.numberOfTerms();
+		bool isFirst = true;
 
 		for (SizeType i = 0; i < numberOfTerms; ++i) {
 			AssignAndDestroyType assignAndDestroy(
@@ -83,12 +84,14 @@ public:
 			if (!assignAndDestroy.metaEqual(result))
 				err("CanonicalExpression: metas not equal\n");
 
-			if (i == 0)
+			if (isFirst)
 				assignAndDestroy.assignBackward(
 				    result); // result = t_;
 			else
 				assignAndDestroy.plusBackward(
 				    result); // result += t_;
+
+			isFirst = false;
 		}
 
 		return (ItemSpecType::isEmpty(result)) ? false : true;
-- 
2.43.0


From c77c4afab47de4941eb7f4721914bff0ae78515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 068/128] fix: OneOperatorSpec refuses unmatched and nested
 site brackets in any order

---
 src/OneOperatorSpec.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/OneOperatorSpec.h b/src/OneOperatorSpec.h
index 2c9841b..a9ca395 100644
--- a/src/OneOperatorSpec.h
+++ b/src/OneOperatorSpec.h
@@ -63,13 +63,20 @@ struct OneOperatorSpec {
 	{
 		int firstIndex = -1;
 		int lastIndex = -1;
+		bool isOpen = false;
 		for (SizeType i = 0; i < name.length(); ++i) {
 			if (name[i] == cBegin) {
+				if (isOpen)
+					err(name + " has unmatched " + cBegin + "\n");
+				isOpen = true;
 				firstIndex = i;
 				continue;
 			}
 
 			if (name[i] == cEnd) {
+				if (!isOpen)
+					err(name + " has unmatched " + cEnd + "\n");
+				isOpen = false;
 				lastIndex = i;
 				continue;
 			}
@@ -78,10 +85,8 @@ struct OneOperatorSpec {
 		if (firstIndex < 0 && lastIndex < 0)
 			return SiteSplit(false, name, "");
 
-		bool b1 = (firstIndex < 0 && lastIndex >= 0);
-		bool b2 = (firstIndex >= 0 && lastIndex < 0);
-		if (b1 || b2)
-			err(name + " has unmatched " + cBegin + " or " + cEnd + "\n");
+		if (isOpen)
+			err(name + " has unmatched " + cBegin + "\n");
 
 		String str = name.substr(0, firstIndex);
 		str += name.substr(lastIndex + 1, name.length() - lastIndex);
-- 
2.43.0


From e4bf706ed2a8e74283140c80844392029c252922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 069/128] fix: GetBraOrKet refuses a letter without its number

---
 src/GetBraOrKet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index 9ab2b89..a9a266c 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -122,7 +122,7 @@ private:
 		}
 
 		if (number == "")
-			RuntimeError("getNumberFrom: no number after character "
+			throw RuntimeError("getNumberFrom: no number after character "
 			             "location "
 			             + ttos(start) + " for string " + str + "\n");
 
-- 
2.43.0


From 7f620f9401b896a3257b4b8dccf5d94818890cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 070/128] fix: GetBraOrKet refuses trailing text and does not
 read past the text between | and >

---
 src/GetBraOrKet.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index a9a266c..8d4793d 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -27,7 +27,7 @@ public:
 		const SizeType last = l - 1;
 		if (braOrKet_[0] == '|' && braOrKet_[last] == '>' && l > 2)
 			braOrKet_ = braOrKet.substr(1, l - 2);
-		if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
+		else if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
 			braOrKet_ = braOrKet.substr(1, l - 2);
 			isKet_ = false;
 		}
@@ -96,14 +96,18 @@ private:
 		else if (str[0] == 'R') {
 			kind_ = Kind::R;
 			pair_.first = getNumberFrom(str, 1); // modifies str
+			if (str.size() > 0)
+				err("A vector spec has trailing " + str + "\n");
 			return;
 		}
 
-		if (str.size() < 2)
+		if (str.size() == 0)
 			return;
 
 		if (str[0] == 'X') {
 			pair_.second = getNumberFrom(str, 1); // modifies str
+			if (str.size() > 0)
+				err("A vector spec has trailing " + str + "\n");
 		}
 		else {
 			err("A vector spec can only start with P, gs, X or Q " + str + "\n");
-- 
2.43.0


From db7e3b5214cf81336825f5a0a34c4b3c3a2c558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 071/128] fix: basenameOf returns what stands before the last
 dot

---
 src/Vector.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index 4d65a46..11d80dc 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -556,16 +556,8 @@ public:
 
 inline String basenameOf(String s)
 {
-	int j = 0;
-	SizeType l = s.length();
-	for (SizeType i = 0; i < l; ++i) {
-		j = l - i - 1;
-		const char letter = s[j];
-		if (letter == '.')
-			break;
-	}
-
-	return s.substr(0, l - j);
+	const size_t dot = s.find_last_of('.');
+	return (dot == String::npos) ? s : s.substr(0, dot);
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From cdada16da8aa7fec7757010b45d9b927ad0c9ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 072/128] fix: integerDivision by zero is an error, not a crash

---
 src/PsimagLite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 913c7ae..94dd606 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -4,7 +4,7 @@ namespace PsimagLite {
 
 SizeType integerDivision(SizeType a, SizeType b)
 {
-	if ((a % b) != 0) {
+	if (b == 0 || (a % b) != 0) {
 		throw RuntimeError("integerDivision: failed\n");
 	}
 
-- 
2.43.0


From f12b0b7392393fc7513b7dbab97f8162d9d88c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 073/128] fix: LongChain numbers every bond of a periodic chain
 once

---
 src/Geometry/LongChain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index dda4894..83d3406 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -131,14 +131,16 @@ public:
 
 	SizeType handle(SizeType i, SizeType j) const
 	{
-		return (i < j) ? i : j;
+		const SizeType imin = (i < j) ? i : j;
+		const SizeType imax = (i < j) ? j : i;
+		// bonds that wrap around start at the larger site
+		return (imax - imin == distance_) ? imin : imax;
 	}
 
 	SizeType getVectorSize(SizeType dirId) const
 	{
 		assert(dirId == DIRECTION_X);
-		const SizeType oneOrZero = (isPeriodic_) ? 1 : 0;
-		return linSize_ - distance_ + oneOrZero;
+		return (isPeriodic_) ? linSize_ : linSize_ - distance_;
 	}
 
 	bool connected(SizeType i1, SizeType i2) const
-- 
2.43.0


From c9182eac1da080309581d231b817563f9fc90624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 074/128] fix: Ladder without IsPeriodicY is not periodic,
 instead of undefined

---
 src/Geometry/Ladder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 9440024..2cb89fe 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -96,6 +96,7 @@ public:
 	Ladder(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
 	    , isPeriodicX_(false)
+	    , isPeriodicY_(false)
 	{
 
 		io.readline(leg_, "LadderLeg=");
-- 
2.43.0


From afc467162ee13ea7dbec4b790cfdb46872b5e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 075/128] fix: Ladder refuses LadderLeg=0 instead of dividing
 by it

---
 src/Geometry/Ladder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 2cb89fe..165f007 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -133,7 +133,7 @@ public:
 		if (leg_ == 2)
 			isPeriodicY_ = false;
 
-		if (linSize % leg_ != 0)
+		if (leg_ == 0 || linSize % leg_ != 0)
 			throw RuntimeError(
 			    "Ladder: leg must divide number of sites\n");
 	}
-- 
2.43.0


From d16f80eb301dacba23539a025492ce8411b88310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 076/128] fix: LadderX numbers the bonds of periodic ladders
 once

---
 src/Geometry/LadderX.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index a2ba12a..7a04051 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -187,9 +187,8 @@ public:
 		SizeType imin = (i1 < i2) ? i1 : i2;
 		switch (dir) {
 		case DIRECTION_X:
-			return imin;
 		case DIRECTION_Y:
-			return imin - imin / leg_;
+			return ladder_.handle(i1, i2);
 		case DIRECTION_XPY: // only checked for leg_=2
 			return (imin - 1) / leg_;
 		case DIRECTION_XMY: // only checked for leg_=2
-- 
2.43.0


From 80c393720c0cd76053a4234ea4001271834974a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 077/128] fix: LadderX has the diagonals that cross a periodic
 boundary

---
 src/Geometry/LadderX.h | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index 7a04051..fde11da 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -140,20 +140,16 @@ public:
 		if (ladder_.connected(i1, i2))
 			return true;
 
-		SizeType lx = linSize_ / leg_;
-		bool isPeriodicY = ladder_.isPeriodicY();
 		SizeType c1 = i1 / leg_;
 		SizeType c2 = i2 / leg_;
 		SizeType r1 = i1 % leg_;
 		SizeType r2 = i2 % leg_;
 
-		if (c1 == c2)
-			return this->neighbors(r1, r2, isPeriodicY, leg_);
-
-		if (r1 == r2)
-			return this->neighbors(c1, c2, false, 0);
+		// bonds of the ladder itself were dealt with above
+		if (c1 == c2 || r1 == r2)
+			return false;
 
-		return (this->neighbors(r1, r2, isPeriodicY, leg_) && this->neighbors(c1, c2, isPeriodicY, lx));
+		return (this->neighbors(r1, r2, ladder_.isPeriodicY(), leg_ - 1) && this->neighbors(c1, c2, ladder_.isPeriodicX(), linSize_ / leg_ - 1));
 	}
 
 	// assumes i1 and i2 are connected
@@ -163,8 +159,7 @@ public:
 			return DIRECTION_Y;
 		if (ladder_.sameRow(i1, i2))
 			return DIRECTION_X;
-		SizeType imin = (i1 < i2) ? i1 : i2;
-		if (imin & 1)
+		if (leftSite(i1, i2) & 1)
 			return DIRECTION_XPY;
 		return DIRECTION_XMY;
 	}
@@ -184,15 +179,14 @@ public:
 	SizeType handle(SizeType i1, SizeType i2) const
 	{
 		SizeType dir = calcDir(i1, i2);
-		SizeType imin = (i1 < i2) ? i1 : i2;
 		switch (dir) {
 		case DIRECTION_X:
 		case DIRECTION_Y:
 			return ladder_.handle(i1, i2);
 		case DIRECTION_XPY: // only checked for leg_=2
-			return (imin - 1) / leg_;
+			return (leftSite(i1, i2) - 1) / leg_;
 		case DIRECTION_XMY: // only checked for leg_=2
-			return imin / leg_;
+			return leftSite(i1, i2) / leg_;
 		}
 		throw RuntimeError("handle: Unknown direction\n");
 	}
@@ -212,6 +206,15 @@ public:
 
 private:
 
+	// The site a diagonal starts from; it is the larger one
+	// if the diagonal wraps around from the last column to the first
+	SizeType leftSite(SizeType i1, SizeType i2) const
+	{
+		const SizeType imin = (i1 < i2) ? i1 : i2;
+		const SizeType imax = (i1 < i2) ? i2 : i1;
+		return (imax / leg_ - imin / leg_ == 1) ? imin : imax;
+	}
+
 	LadderType ladder_; // owner
 	SizeType linSize_;
 	SizeType leg_;
-- 
2.43.0


From fbe8a8deec4687664958c4626e6f5bff8e119fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 078/128] fix: LadderBath gives every cluster site its bath if
 their number is odd

---
 src/Geometry/LadderBath.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LadderBath.h b/src/Geometry/LadderBath.h
index d43360b..0f3bab7 100644
--- a/src/Geometry/LadderBath.h
+++ b/src/Geometry/LadderBath.h
@@ -237,13 +237,14 @@ private:
 		if (i >= firstClusterSite && i < lastP1ClusterSite)
 			return PairType(-1, -1);
 
-		SizeType middle = linSize_ / 2;
 		SizeType cs = clusterSize_ / 2;
 		// now i is in the bath:
-		if (i < middle) { // i is in the system
+		if (i < firstClusterSite) { // i is in the system
 			return PairType(i % cs + firstClusterSite, i / cs);
 		}
-		// is in the bath and in the environ:
+		// is in the bath and in the environ, which has
+		// one more cluster site than the system if their number is odd:
+		cs = clusterSize_ - cs;
 		SizeType iprime = i - lastP1ClusterSite;
 		SizeType offset = lastP1ClusterSite - cs;
 		return PairType(iprime % cs + offset, iprime / cs);
-- 
2.43.0


From 44e6474726cb654b72a0524e846a7c9b0f8f37d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 079/128] fix: LadderBath refuses a number of sites that leaves
 bath sites over

---
 src/Geometry/LadderBath.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry/LadderBath.h b/src/Geometry/LadderBath.h
index 0f3bab7..a5afbf3 100644
--- a/src/Geometry/LadderBath.h
+++ b/src/Geometry/LadderBath.h
@@ -104,6 +104,10 @@ public:
 	    , ladder_(0)
 	{
 		io.readline(bathSitesPerSite_, "BathSitesPerSite=");
+		if (linSize_ % (1 + bathSitesPerSite_) != 0)
+			throw RuntimeError("LadderBath: 1 + BathSitesPerSite must "
+			                   "divide number of sites\n");
+
 		clusterSize_ = linSize_ / (1 + bathSitesPerSite_);
 
 		ladder_ = new LadderType(clusterSize_, io);
-- 
2.43.0


From be5d70a423d8c130f1ae3059997b8e4ab62fa440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 080/128] fix: Honeycomb has all bonds between columns

---
 src/Geometry/Honeycomb.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Geometry/Honeycomb.h b/src/Geometry/Honeycomb.h
index 37cab57..c94a4a7 100644
--- a/src/Geometry/Honeycomb.h
+++ b/src/Geometry/Honeycomb.h
@@ -246,13 +246,13 @@ private:
 		if (x1 == x2)
 			return isDirectionYsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
+		SizeType dy = (y1 < y2) ? y2 - y1 : y1 - y2;
 		if (dy != 1)
 			return false;
 
 		assert(x1 < x2);
 		SizeType dx = x2 - x1;
-		if ((dx == 1) && isMultipleOf3(y1) && (y2 < y1))
+		if ((dx == 1) && is4nPlus3(y1) && (y2 < y1))
 			return true;
 
 		if (!periodicX_)
@@ -263,7 +263,7 @@ private:
 		if (dx + 1 != lx)
 			return false;
 
-		return (isMultipleOf3(y2) && (y1 < y2));
+		return (is4nPlus3(y2) && (y1 < y2));
 	}
 
 	// assumes i1 < i2
@@ -272,7 +272,7 @@ private:
 		if (x1 == x2)
 			return isDirectionXsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
+		SizeType dy = (y1 < y2) ? y2 - y1 : y1 - y2;
 		if (dy != 1)
 			return false;
 
@@ -320,7 +320,7 @@ private:
 		return false;
 	}
 
-	static bool isMultipleOf3(SizeType y) { return ((y % 3) == 0); }
+	static bool is4nPlus3(SizeType y) { return ((y % 4) == 3); }
 
 	static bool isMultipleOf4(SizeType y) { return ((y % 4) == 0); }
 
-- 
2.43.0


From bdcf73d03056310fc099b5fb130cce018739ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 081/128] fix: Honeycomb: the last site of the system counts
 for the fringe of the environment

---
 src/Geometry/Honeycomb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Honeycomb.h b/src/Geometry/Honeycomb.h
index c94a4a7..c1322bf 100644
--- a/src/Geometry/Honeycomb.h
+++ b/src/Geometry/Honeycomb.h
@@ -156,7 +156,7 @@ public:
 			return isThereAneighbor(i, emin, linSize_);
 
 		if (i >= emin)
-			return isThereAneighbor(i, 0, smax);
+			return isThereAneighbor(i, 0, smax + 1);
 
 		return false;
 	}
-- 
2.43.0


From d81430f047b9c5cd7ed43a173e12b9d737d1621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 082/128] fix: GeometryTerm: no site is connected to itself

---
 src/Geometry/GeometryTerm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Geometry/GeometryTerm.h b/src/Geometry/GeometryTerm.h
index b9d17c2..691d2e4 100644
--- a/src/Geometry/GeometryTerm.h
+++ b/src/Geometry/GeometryTerm.h
@@ -362,6 +362,9 @@ public:
 
 	bool connected(SizeType i1, SizeType i2) const
 	{
+		if (i1 == i2)
+			return false;
+
 		return (geometryBase_) ? geometryBase_->connected(i1, i2)
 		                       : false;
 	}
-- 
2.43.0


From f03f628c8b311b84d7a48ac48dbc8f88cb818a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 083/128] fix: Geometry::split lists every site once if a block
 is in the middle

---
 src/Geometry/Geometry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index 747267e..e6d5420 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -244,6 +244,9 @@ public:
 			i += sitesPerBlock;
 		}
 
+		// the block in the middle, if any, is already in X
+		middle = i;
+
 		SizeType lastMiddle = linSize_ - sitesPerBlock;
 		while (i < lastMiddle) {
 			typename Vector<SizeType>::Type tmpV(sitesPerBlock);
-- 
2.43.0


From b18d038aa913270301618dd3371c805803ea4859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:07 +0000
Subject: [PATCH 084/128] fix: Ladder::fringe: no wrap around zero for the
 first sites

---
 src/Geometry/Ladder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 165f007..cc63472 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -187,7 +187,7 @@ public:
 		if (smax + 1 == emin)
 			r = leg_; // finite loops
 
-		bool a = (i < emin && i >= smax - r + 1);
+		bool a = (i < emin && i + r >= smax + 1);
 		bool b = (i > smax && i <= emin + r - 1);
 		return (a || b);
 	}
-- 
2.43.0


From e6aaf8078bdfd709fbbce4e6499cf012c63110ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 085/128] fix: Lanczos must converge the state that is asked
 for

The number of eigenvalues to converge was the index of the excited state,
so that the ground state was given back after minSteps without being converged.
---
 src/LanczosSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index 4722237..b14e648 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -38,7 +38,7 @@ public:
 		Profiling profiling("LanczosSolver", std::cout);
 
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
 
 		VectorRealType eigs(ab.size());
 		typename LanczosCoreType::DenseMatrixType ritz;
@@ -72,7 +72,7 @@ public:
 	void computeAllStatesBelow(VectorRealType& eigs, VectorVectorType& z, const VectorType& initialVector, SizeType excited)
 	{
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
 
 		if (excited > ab.size())
 			throw RuntimeError("Excited too big\n");
-- 
2.43.0


From 220a5a63207d2e60b2b6243c279f54fb15f51343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 086/128] fix: Lanczos reads past the end if asked for more
 states than there are

---
 src/LanczosSolver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index b14e648..aaa9336 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -40,6 +40,9 @@ public:
 		TridiagonalMatrixType ab;
 		ls_.decomposition(initialVector, ab, excited + 1);
 
+		if (excited >= ab.size())
+			throw RuntimeError("LanczosSolver: computeOneState: Excited too big\n");
+
 		VectorRealType eigs(ab.size());
 		typename LanczosCoreType::DenseMatrixType ritz;
 		ab.buildDenseMatrix(ritz);
@@ -74,7 +77,7 @@ public:
 		TridiagonalMatrixType ab;
 		ls_.decomposition(initialVector, ab, excited + 1);
 
-		if (excited > ab.size())
+		if (excited >= ab.size())
 			throw RuntimeError("Excited too big\n");
 
 		typename LanczosCoreType::DenseMatrixType ritz;
-- 
2.43.0


From 2a70431542d8a17cad3137758a304a2b12ee120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 087/128] fix: Lanczos writes past the end of the tridiagonal
 matrix if it does only one step

---
 src/LanczosCore.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index e2c703d..1f7c55d 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -199,7 +199,8 @@ public:
 		}
 
 		btmp = sqrt(btmp);
-		ab.b(1) = btmp; // beta = sqrt(V1*V1)
+		if (ab.size() > 1)
+			ab.b(1) = btmp; // beta = sqrt(V1*V1)
 
 		if (btmp > 0) {
 			btmp = 1.0 / btmp;
-- 
2.43.0


From f253572011406f5584e4621dbd48a19b280f2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 088/128] fix: Lanczos saves a vector past the end if there are
 fewer steps than minSteps

---
 src/LanczosCore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 1f7c55d..5c00b7e 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -234,7 +234,7 @@ public:
 			if (deltaMax < params_.tolerance)
 				exitFlag = true;
 			if (j == max_nstep - 1)
-				exitFlag = true;
+				break;
 			if (exitFlag && mat_.rows() <= 4)
 				break;
 			if (exitFlag && j >= params_.minSteps)
-- 
2.43.0


From 410f6c0012a33182823fe09c6edb1cfc389f183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 089/128] fix: Lanczos takes eigenvalues as converged that were
 never compared

The first comparison was with zero, eigenvalues that the tridiagonal matrix
does not have yet counted as converged, and so did those that were close once.
---
 src/LanczosCore.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 5c00b7e..90e1dd3 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -213,6 +213,7 @@ public:
 
 		VectorRealType tmpEigs(ab.size(), 0);
 		VectorRealType eold(ab.size(), 0);
+		eold[0] = ab.a(0);
 		RealType deltaMax = 0;
 
 		// ---- Starting the loop -------
@@ -224,15 +225,15 @@ public:
 			                                       static_cast<SizeType>(tmpEigs.size()));
 
 			deltaMax = 0;
-			for (SizeType ii = 0; ii < eigsForError; ++ii) {
+			// of the j + 1 eigenvalues there are now, the first j can be compared
+			for (SizeType ii = 0; ii < std::min(eigsForError, j + 1); ++ii) {
 				const RealType delta = fabs(tmpEigs[ii] - eold[ii]);
 				eold[ii] = tmpEigs[ii];
 				if (delta > deltaMax)
 					deltaMax = delta;
 			}
 
-			if (deltaMax < params_.tolerance)
-				exitFlag = true;
+			exitFlag = (deltaMax < params_.tolerance && eigsForError <= j);
 			if (j == max_nstep - 1)
 				break;
 			if (exitFlag && mat_.rows() <= 4)
-- 
2.43.0


From 59bb23c16baee77c2e63c47a5f0e1fee655a914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 090/128] fix: Lanczos stops where its vectors span an
 invariant subspace

It went on with a vector of zeros, which gave an eigenvalue zero that the matrix
does not have, or with one of rounding errors.
---
 src/LanczosCore.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 90e1dd3..5406469 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -87,6 +87,8 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "TridiagonalMatrix.h"
 #include "Vector.h"
 #include <cassert>
+#include <cmath>
+#include <limits>
 
 namespace PsimagLite {
 
@@ -175,6 +177,7 @@ public:
 		ab.resize(max_nstep, 0);
 
 		bool exitFlag = false;
+		bool isInvariant = false;
 		SizeType j = 0;
 		lanczosVectors_.saveInitialVector(V0);
 		lanczosVectors_.prepareMemory(matsize, max_nstep);
@@ -219,6 +222,12 @@ public:
 		// ---- Starting the loop -------
 		for (j = 1; j < max_nstep; ++j) {
 
+			if (isNegligible(ab, j)) {
+				// vectors 0, 1, ..., j - 1 span an invariant subspace
+				isInvariant = true;
+				break;
+			}
+
 			lanczosVectors_.oneStepDecomposition(V0, V1, V2, ab, j);
 			ab.diag(tmpEigs, j + 1);
 			const SizeType eigsForError = std::min(excitedForStop,
@@ -251,7 +260,7 @@ public:
 		}
 
 		if (j < max_nstep) {
-			max_nstep = j + 1;
+			max_nstep = (isInvariant) ? j : j + 1;
 			ab.resize(max_nstep);
 		}
 
@@ -296,6 +305,17 @@ public:
 
 private:
 
+	//! whether b(j) is but the rounding error of what it was computed from
+	bool isNegligible(const TridiagonalMatrixType& ab, SizeType j) const
+	{
+		RealType scale = 0;
+		for (SizeType i = 0; i < j; ++i)
+			scale = std::max(scale, static_cast<RealType>(fabs(ab.a(i)) + fabs(ab.b(i))));
+		// rounding errors accumulate; neglecting b changes eigenvalues only to order b^2
+		const RealType eps = std::numeric_limits<RealType>::epsilon();
+		return (ab.b(j) <= std::pow(eps, static_cast<RealType>(2.0 / 3.0)) * scale);
+	}
+
 	ProgressIndicator progress_;
 	const MatrixType& mat_;
 	const SolverParametersType& params_;
-- 
2.43.0


From d0a6cb306343f55e0fe3d766e2f9feafbeb3faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 091/128] fix: a Lanczos solver can be used more than once

The second run threw if the first one had needed fewer steps than allowed.
---
 src/LanczosCore.h    | 1 +
 src/LanczosVectors.h | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 5406469..9b92736 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -150,6 +150,7 @@ public:
 	                   TridiagonalMatrixType& ab,
 	                   SizeType excitedForStop)
 	{
+		steps_ = params_.steps; // a previous run may have used fewer
 		SizeType& max_nstep = steps_;
 		SizeType matsize = mat_.rows();
 
diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index c544eb9..910d889 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -271,9 +271,9 @@ private:
 			return;
 
 		if (data_) {
+			// from a previous run
 			if (rows != data_->rows() || cols != data_->cols())
-				throw RuntimeError("LanczosVectors: data has "
-				                   "already been set!\n");
+				*data_ = DenseMatrixType(rows, cols);
 			return;
 		}
 
-- 
2.43.0


From 3a108bce49395054996479bcc423d73e97c985ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 092/128] fix: Lanczos: the vector given back is not added to
 what was there

---
 src/LanczosVectors.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index 910d889..9f778ee 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -192,6 +192,7 @@ public:
 	{
 		SizeType small = data_->cols();
 		SizeType big = data_->rows();
+		std::fill(z.begin(), z.end(), 0);
 		for (SizeType j = 0; j < small; j++) {
 			ComplexOrRealType ctmp = ritz(j, excited);
 			for (SizeType i = 0; i < big; i++)
-- 
2.43.0


From a950d61920410e63b85d47e1d8ee31de706dc85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:12 +0000
Subject: [PATCH 093/128] fix: ContinuedFraction: a plot with no points does
 not write past the end

---
 src/ContinuedFraction.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ContinuedFraction.h b/src/ContinuedFraction.h
index 0ed099a..552a6bd 100644
--- a/src/ContinuedFraction.h
+++ b/src/ContinuedFraction.h
@@ -156,9 +156,12 @@ public:
 	void plotReal(PlotDataType& result, const PlotParamsType& params) const
 	{
 		SizeType counter = 0;
-		SizeType n = SizeType((params.omega2 - params.omega1) / params.deltaOmega);
+		const RealType steps = (params.omega2 - params.omega1) / params.deltaOmega;
+		SizeType n = (steps > 0) ? SizeType(steps) : 0;
 		if (result.size() == 0)
 			result.resize(n);
+		if (result.size() == 0)
+			return;
 		for (RealType omega = params.omega1; omega < params.omega2;
 		     omega += params.deltaOmega) {
 			ComplexType z(omega, params.delta);
-- 
2.43.0


From c49dc60a9ac312469cd0a16cad669f1a4310a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:28 +0000
Subject: [PATCH 094/128] fix: Lanczos with a negative tolerance does all its
 steps

---
 src/LanczosCore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 9b92736..82a1cf4 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -223,7 +223,7 @@ public:
 		// ---- Starting the loop -------
 		for (j = 1; j < max_nstep; ++j) {
 
-			if (isNegligible(ab, j)) {
+			if (params_.tolerance >= 0 && isNegligible(ab, j)) {
 				// vectors 0, 1, ..., j - 1 span an invariant subspace
 				isInvariant = true;
 				break;
-- 
2.43.0


From 1553cfbc45e7ff67f40ce3de90c9e66bb4a93586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:28 +0000
Subject: [PATCH 095/128] fix: Lanczos: all states below the number of states
 are all of them

---
 src/LanczosSolver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index aaa9336..17734a5 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -77,7 +77,7 @@ public:
 		TridiagonalMatrixType ab;
 		ls_.decomposition(initialVector, ab, excited + 1);
 
-		if (excited >= ab.size())
+		if (excited > ab.size())
 			throw RuntimeError("Excited too big\n");
 
 		typename LanczosCoreType::DenseMatrixType ritz;
@@ -87,6 +87,8 @@ public:
 		SizeType n = z.size();
 		if (n > excited + 1)
 			n = excited + 1;
+		if (n > ab.size())
+			n = ab.size();
 		for (SizeType i = 0; i < n; ++i)
 			ls_.excitedVector(z[i], ritz, i);
 	}
-- 
2.43.0


From f44d42476e53b4d6a012a016c57f428c2120cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 096/128] fix: diag and inverse refuse matrices that are not
 square or empty

---
 src/Matrix.cpp | 17 +++++++++++++----
 src/Matrix.h   |  6 ++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/Matrix.cpp b/src/Matrix.cpp
index 4fc134c..a9f0b93 100644
--- a/src/Matrix.cpp
+++ b/src/Matrix.cpp
@@ -12,6 +12,13 @@ void checkBlasStatus(int info, PsimagLite::String msg)
 	throw RuntimeError(str);
 }
 
+template <typename T>
+static void checkSquare(const Matrix<T>& m, String what)
+{
+	if (m.rows() == 0 || m.rows() != m.cols())
+		throw RuntimeError(what + ": matrix must be square and not empty\n");
+}
+
 void diag(Matrix<double>& m, Vector<double>::Type& eigs, char option)
 {
 #ifdef NO_LAPACK
@@ -25,8 +32,7 @@ void diag(Matrix<double>& m, Vector<double>::Type& eigs, char option)
 	int info;
 	int lwork = -1;
 
-	if (lda <= 0)
-		throw RuntimeError("lda<=0\n");
+	checkSquare(m, "diag");
 
 	eigs.resize(n);
 
@@ -63,6 +69,8 @@ void diag(Matrix<std::complex<double>>& m, Vector<double>::Type& eigs, char opti
 	int info;
 	int lwork = -1;
 
+	checkSquare(m, "diag");
+
 	eigs.resize(n);
 
 	// query:
@@ -97,8 +105,7 @@ void diag(Matrix<float>& m, Vector<float>::Type& eigs, char option)
 	int info;
 	int lwork = -1;
 
-	if (lda <= 0)
-		throw RuntimeError("lda<=0\n");
+	checkSquare(m, "diag");
 
 	eigs.resize(n);
 
@@ -135,6 +142,8 @@ void diag(Matrix<std::complex<float>>& m, Vector<float>::Type& eigs, char option
 	Vector<float>::Type rwork(3 * n);
 	int info, lwork = -1;
 
+	checkSquare(m, "diag");
+
 	eigs.resize(n);
 
 	// query:
diff --git a/src/Matrix.h b/src/Matrix.h
index ee6a7ee..93974e8 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -606,6 +606,9 @@ inverse(Matrix<T>& m)
 #ifdef NO_LAPACK
 	throw RuntimeError("inverse: NO LAPACK!\n");
 #else
+	if (m.rows() == 0 || m.rows() != m.cols())
+		throw RuntimeError("inverse: matrix must be square and not empty\n");
+
 	int n = m.rows();
 	int info = 0;
 	Vector<int>::Type ipiv(n, 0);
@@ -629,6 +632,9 @@ inverse(Matrix<T>& m)
 #ifdef NO_LAPACK
 	throw RuntimeError("inverse: NO LAPACK!\n");
 #else
+	if (m.rows() == 0 || m.rows() != m.cols())
+		throw RuntimeError("inverse: matrix must be square and not empty\n");
+
 	int n = m.rows();
 	int info = 0;
 	Vector<int>::Type ipiv(n, 0);
-- 
2.43.0


From 1db01e7be675c14b4a010cc6bfcd5ee22356027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 097/128] fix: Svd refuses an empty matrix

---
 src/Svd.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Svd.h b/src/Svd.h
index 764cb85..c43ac01 100644
--- a/src/Svd.h
+++ b/src/Svd.h
@@ -32,6 +32,9 @@ public:
 			throw RuntimeError(msg + ", not " + jobzString + "\n");
 		}
 
+		if (a.rows() == 0 || a.cols() == 0)
+			throw RuntimeError("svd: matrix must not be empty\n");
+
 		int m = a.rows();
 		int n = a.cols();
 		int lda = m;
-- 
2.43.0


From b3ea0009f505acd964fd1f7ff59623411c1fe324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:38 +0000
Subject: [PATCH 098/128] fix: MersenneTwister: ranks 0 and 1 must not draw the
 same numbers

---
 src/MersenneTwister.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MersenneTwister.cpp b/src/MersenneTwister.cpp
index 546d266..0a91223 100644
--- a/src/MersenneTwister.cpp
+++ b/src/MersenneTwister.cpp
@@ -13,7 +13,7 @@ MersenneTwister::MersenneTwister(unsigned s, int rank, int)
 {
 	seed(s);
 	int news = random();
-	for (int i = 1; i < rank; ++i) {
+	for (int i = 0; i < rank; ++i) {
 		news = random();
 	}
 
-- 
2.43.0


From b2a673c1427e156abe1ec7ad1b743a971f0c6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:39 +0000
Subject: [PATCH 099/128] fix: ProgressIndicator: memory usage goes into the
 buffer once, and not the buffer onto the screen

---
 src/ProgressIndicator.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 7904590..35f3889 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -190,13 +190,6 @@ public:
 		msg() << "Current virtual memory is " << vmSize
 		      << " maximum was " << vmPeak;
 		printline(msg, std::cout);
-
-		if (!bufferActive_)
-			return;
-
-		buffer_() << "Current virtual memory is " << vmSize
-		          << " maximum was " << vmPeak;
-		printline(buffer_, std::cout);
 	}
 
 	static MemoryUsage::TimeHandle time() { return musage_.time(); }
-- 
2.43.0


From de6d44bfffc80f5fd37a801c814376e0497f914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:39 +0000
Subject: [PATCH 100/128] fix: ProgressIndicator: a message used again does not
 keep the end of a longer one

---
 src/ProgressIndicator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 35f3889..4c83795 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -153,16 +153,16 @@ public:
 			return;
 		if (rank_ != 0)
 			return;
+		const String str = s().str();
+		s().str(""); // the message may be used again
 		prefix(os);
-		os << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
+		os << str << "\n";
 
 		if (!bufferActive_)
 			return;
 
 		prefix(buffer_);
-		buffer_() << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
+		buffer_() << str << "\n";
 	}
 
 	void print(const String& something, std::ostream& os) const
-- 
2.43.0


From 190f5bccbfc2a200eca0baedfe66419091788d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 101/128] fix: PsiTag lost what follows the opening parenthesis
 of a block on the same line

---
 scripts/PsiTag.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 140fecd..826dd72 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -162,7 +162,7 @@ sub readTags
 				($tag) or die "$0: FATAL: tag does not exist in line scope $line\n";
 				if ($thisLineParens > 0) {
 					$blockScope = 1;
-					$multilineContent = "";
+					$multilineContent = (isEmptyLine($rest)) ? "" : $content;
 					$multilineTag = canonicalTagName($tag);
 					$multilineMode = $mode;
 				} else {
-- 
2.43.0


From 43888d4b9b8d628f8b60ca01ec4e660ea8f06e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 102/128] fix: PsiTag silently dropped a tag whose block is not
 closed

---
 scripts/PsiTag.pm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 826dd72..1b9aae3 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -192,6 +192,8 @@ sub readTags
 			}
 		}
 	}
+
+	die "$0: FATAL: Block of tag $multilineTag is not closed\n" if ($blockScope);
 }
 
 sub addTag
-- 
2.43.0


From 3af8d9738d80febcb6ccaa76513690de9bbf5471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 103/128] fix: PsiTag removed escapes again in what came from
 another tag

---
 scripts/PsiTag.pm | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 1b9aae3..6e4299d 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -292,11 +292,11 @@ sub unWrap
 			$content = $ptr->{"content"};
 			defined($content) or die "$0: FATAL: No content for $existingTag\n";
 			$content = unWrap($tags, $content);
+		} else {
+			$content =~ s/^[ \t]*\\//; # (4)
+			$content =~ s/\\([ \t]*)$/$1/; # (5)
 		}
 
-		$content =~ s/^[ \t]*\\//; # (4)
-		$content =~ s/\\([ \t]*)$/$1/; # (5)
-
 		$result .= $content."\n";
 	}
 
-- 
2.43.0


From d7b14c5311eb59dbc8d91dad4baa78641a60b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 104/128] fix: PsiTag filled the memory on tags that refer to
 themselves

---
 scripts/PsiTag.pm | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 6e4299d..52494de 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -274,7 +274,8 @@ sub canonicalTagName
 
 sub unWrap
 {
-	my ($tags, $text) = @_;
+	my ($tags, $text, $parents) = @_;
+	$parents = {} if (!defined($parents));
 	my @lines = split/\n/, $text;
 	my $n = scalar(@lines);
 	my $result = "";
@@ -291,7 +292,8 @@ sub unWrap
 			(ref($ptr) eq "HASH") or die "$0: FATAL: Tag $existingTag not hash ref but ".ref($ptr)."\n";
 			$content = $ptr->{"content"};
 			defined($content) or die "$0: FATAL: No content for $existingTag\n";
-			$content = unWrap($tags, $content);
+			die "$0: FATAL: Tag $existingTag refers to itself\n" if ($parents->{"$existingTag"});
+			$content = unWrap($tags, $content, {%$parents, "$existingTag" => 1});
 		} else {
 			$content =~ s/^[ \t]*\\//; # (4)
 			$content =~ s/\\([ \t]*)$/$1/; # (5)
-- 
2.43.0


From 034761a9b0bc8b33142948667a78804b0feae7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 105/128] fix: Chebyshev moments could not be written (did not
 compile) and were read into an empty vector

---
 src/ChebyshevSerializer.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 6e19cb4..19ba3bd 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -103,10 +103,15 @@ public:
 	{
 		VectorRealType tmp;
 		io.read(tmp, "#ChebyshevMoments");
-		SizeType n = tmp.size() / 2;
+		const SizeType n = tmp.size();
+		if (n == 0)
+			return;
+		moments_.resize(n, 0);
 		for (SizeType i = 0; i < n; ++i) {
-			moments_.a(i) = tmp[2 * i];
-			moments_.b(i) = tmp[2 * i + 1];
+			if (i & 1)
+				moments_.b(i / 2) = tmp[i];
+			else
+				moments_.a(i / 2) = tmp[i];
 		}
 	}
 
@@ -124,7 +129,10 @@ public:
 		io.write(params_.Eg, "#ChebyshevEnergy=");
 		io.write(params_.oneOverA, "#ChebyshevOneOverA=");
 		io.write(params_.b, "#ChebyshevB=");
-		io.write(moments_, "#ChebyshevMoments");
+		VectorRealType tmp(moments_.size());
+		for (SizeType i = 0; i < tmp.size(); ++i)
+			tmp[i] = (i & 1) ? moments_.b(i / 2) : moments_.a(i / 2);
+		io.write(tmp, "#ChebyshevMoments");
 	}
 
 	static const String& stringMarker() { return stringMarker_; }
-- 
2.43.0


From 99edf6f9b75a40d3ab4fcd29896049536408bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 106/128] fix: a debugging print of the Chebyshev plot read
 past the end of the kernel

---
 src/ChebyshevSerializer.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 19ba3bd..b73a0d1 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -153,7 +153,6 @@ public:
 		if (result.size() == 0)
 			result.resize(n);
 		RealType offset = params_.Eg;
-		std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
 		for (RealType omega = params.omega1; omega < params.omega2;
 		     omega += params.deltaOmega) {
 			RealType x = (omega + offset - params_.b) * params_.oneOverA;
-- 
2.43.0


From 49365f0eb98278770f42ce5912051b361164bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 107/128] fix: ChebyshevSolver::decomposition dereferenced a
 null pointer

---
 src/ChebyshevSolver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index da3bbca..2a60d40 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -182,9 +182,9 @@ public:
 		VectorType x(initVector.size(), 0.0);
 		VectorType y = initVector;
 
-		lanczosVectors_.prepareMemory(y.size(), lanczosVectors_.cols());
-		ab.resize(2 * params_.steps, 0);
-		SizeType cols = lanczosVectors_.cols();
+		const SizeType cols = params_.steps;
+		lanczosVectors_.prepareMemory(y.size(), cols);
+		ab.resize(2 * cols, 0);
 		for (SizeType j = 0; j < cols; ++j) {
 			if (lanczosVectors_.lotaMemory())
 				lanczosVectors_.saveVector(y, j);
-- 
2.43.0


From d74a97911e8f9d6fdf47231906250f9448e0e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 108/128] fix: the first two Chebyshev moments were doubled and
 the others were off by them

---
 src/ChebyshevSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index 2a60d40..2c1e5d7 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -192,8 +192,8 @@ public:
 			RealType atmp = 0;
 			RealType btmp = 0;
 			oneStepDec(x, y, atmp, btmp, j);
-			ab.a(j) = 2 * atmp - ab.a(0);
-			ab.b(j) = 2 * btmp - ab.b(0);
+			ab.a(j) = (j == 0) ? atmp : 2 * atmp - ab.a(0);
+			ab.b(j) = (j == 0) ? btmp : 2 * btmp - ab.b(0);
 		}
 
 		// lanczosVectors_.resize(cols); <--- not needed because all
-- 
2.43.0


From 8e7f2ceca09e59dc6bace3147b49b9e1929be960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:41 +0000
Subject: [PATCH 109/128] fix: ChebyshevSolver scaled spectra that do not
 contain zero to an interval outside [-1, 1]

---
 src/ChebyshevSolver.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index 2c1e5d7..2064138 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -339,8 +339,9 @@ private:
 		lanczosSolver.computeOneState(eMin, z, init, 0);
 
 		eMax = -eMax;
-		eMax *= 3;
-		eMin *= 3;
+		const RealType width = eMax - eMin;
+		eMax += width;
+		eMin -= width;
 		assert(eMax - eMin > 1e-2);
 
 		params_.oneOverA = 2.0 / (eMax - eMin);
-- 
2.43.0


From ccc5c78b3897589305faf5251f8d0f9743e4f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:41 +0000
Subject: [PATCH 110/128] fix: a Chebyshev plot of an interval shorter than its
 step wrote past the end of an empty result

---
 src/ChebyshevSerializer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index b73a0d1..7f0f807 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -149,9 +149,13 @@ public:
 		computeGnMuN(gnmun, gn);
 
 		SizeType counter = 0;
-		SizeType n = SizeType((params.omega2 - params.omega1) / params.deltaOmega);
+		SizeType n = (params.omega2 > params.omega1)
+		    ? SizeType((params.omega2 - params.omega1) / params.deltaOmega)
+		    : 0;
 		if (result.size() == 0)
 			result.resize(n);
+		if (result.size() == 0)
+			return;
 		RealType offset = params_.Eg;
 		for (RealType omega = params.omega1; omega < params.omega2;
 		     omega += params.deltaOmega) {
-- 
2.43.0


From ca0a96422b2cfb4a6b3f129e4bc6d09da21815de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:50 +0000
Subject: [PATCH 111/128] fix: ChebyshevSolver could not be constructed, its
 search of the spectrum asked for a removed mode

---
 src/ChebyshevSolver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index 2064138..5ac0468 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -322,6 +322,7 @@ private:
 		progress_.printline(msgg, std::cout);
 
 		SolverParametersType params;
+		params.lotaMemory = true; // LanczosVectors supports nothing else
 		InternalMatrix mat2(mat_);
 		RealType eMax = 0;
 		LanczosSolver<SolverParametersType, InternalMatrix, VectorType>
-- 
2.43.0


From 7d6ecac67ebafb2c34de9d4a845b7cee16a6d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:50 +0000
Subject: [PATCH 112/128] fix: written Chebyshev moments could not be read
 back, nor their scale

---
 src/ChebyshevSerializer.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 7f0f807..e7bc5cf 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -99,8 +99,10 @@ public:
 	template <typename IoInputType>
 	ChebyshevSerializer(IoInputType& io)
 	    : progress_("ChebyshevSerializer")
-	    , params_(io, "#Chebyshev")
 	{
+		io.readline(params_.Eg, "#ChebyshevEnergy=");
+		io.readline(params_.oneOverA, "#ChebyshevOneOverA=");
+		io.readline(params_.b, "#ChebyshevB=");
 		VectorRealType tmp;
 		io.read(tmp, "#ChebyshevMoments");
 		const SizeType n = tmp.size();
@@ -126,9 +128,9 @@ public:
 	void write(IoSimple::Out& io, String) const
 	{
 		io.write(0, stringMarker_);
-		io.write(params_.Eg, "#ChebyshevEnergy=");
-		io.write(params_.oneOverA, "#ChebyshevOneOverA=");
-		io.write(params_.b, "#ChebyshevB=");
+		io.write(params_.Eg, "#ChebyshevEnergy");
+		io.write(params_.oneOverA, "#ChebyshevOneOverA");
+		io.write(params_.b, "#ChebyshevB");
 		VectorRealType tmp(moments_.size());
 		for (SizeType i = 0; i < tmp.size(); ++i)
 			tmp[i] = (i & 1) ? moments_.b(i / 2) : moments_.a(i / 2);
-- 
2.43.0


From bc3a4335edfeb2c0a1a55eeec3d00a208ec7c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 113/128] fix: LinearPrediction refuses orders that its data
 cannot determine

---
 src/LinearPrediction.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 097d765..ee63119 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -237,6 +237,9 @@ private:
 	void computeA(MatrixType& A, SizeType n) const
 	{
 		SizeType p = A.rows();
+		if (p == 0 || p > n)
+			throw RuntimeError("LinearPrediction: order must be between 1 "
+			                   "and half the number of points\n");
 		for (SizeType l = 0; l < p; l++) {
 			for (SizeType j = 0; j < p; j++) {
 				A(l, j) = 0;
-- 
2.43.0


From b7f25c0892339348a3c765d01a3899b03b635e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 114/128] fix: LinearPrediction::linearPredictionfunction fits
 the data it is given

---
 src/LinearPrediction.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index ee63119..b64ba5c 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -113,8 +113,8 @@ public:
 		SizeType n = ysize / 2;
 		MatrixType A(p, p);
 		typename Vector<FieldType>::Type B(p);
-		computeA(A, n);
-		computeB(B, n);
+		computeA(A, y, n);
+		computeB(B, y, n);
 		computeD(A, B);
 	}
 
@@ -131,8 +131,8 @@ public:
 		SizeType n = ysize / 2;
 		MatrixType A(p, p);
 		typename Vector<FieldType>::Type B(p);
-		computeA(A, n);
-		computeB(B, n);
+		computeA(A, y, n);
+		computeB(B, y, n);
 		computeD(A, B);
 	}
 
@@ -234,7 +234,7 @@ private:
 		psimag::BLAS::GEMV('N', p, p, 1.0, &(A(0, 0)), p, &(B[0]), 1, 0.0, &(d_[0]), 1);
 	}
 
-	void computeA(MatrixType& A, SizeType n) const
+	void computeA(MatrixType& A, const typename Vector<FieldType>::Type& y, SizeType n) const
 	{
 		SizeType p = A.rows();
 		if (p == 0 || p > n)
@@ -244,18 +244,18 @@ private:
 			for (SizeType j = 0; j < p; j++) {
 				A(l, j) = 0;
 				for (SizeType i = n; i < 2 * n; i++)
-					A(l, j) += y_[i - l - 1] * y_[i - j - 1];
+					A(l, j) += y[i - l - 1] * y[i - j - 1];
 			}
 		}
 	}
 
-	void computeB(typename Vector<FieldType>::Type& B, SizeType n) const
+	void computeB(typename Vector<FieldType>::Type& B, const typename Vector<FieldType>::Type& y, SizeType n) const
 	{
 		SizeType p = B.size();
 		for (SizeType l = 0; l < p; l++) {
 			B[l] = 0;
 			for (SizeType i = n; i < 2 * n; i++)
-				B[l] += y_[i - l - 1] * y_[i];
+				B[l] += y[i - l - 1] * y[i];
 		}
 	}
 
-- 
2.43.0


From 69766f12c78f3724364eab5433ebdc3b866a5bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 115/128] fix: logfermi compiles where the matrix functions are
 in scope

---
 src/Fermi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fermi.h b/src/Fermi.h
index 66bda02..2c65e6a 100644
--- a/src/Fermi.h
+++ b/src/Fermi.h
@@ -111,7 +111,7 @@ FieldType logfermi(const FieldType& x)
 		return -x;
 	if (x < -20)
 		return 0;
-	res = -log(1.0 + exp(x));
+	res = -std::log(1.0 + std::exp(x));
 	return res;
 }
 
-- 
2.43.0


From 6398c57219576acd5e602631c42e1d459e58127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:10 +0000
Subject: [PATCH 116/128] fix: LinearPrediction::predict refuses to continue
 fewer points than it has coefficients

---
 src/LinearPrediction.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index b64ba5c..97f8e79 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -139,6 +139,9 @@ public:
 	void predict(SizeType p)
 	{
 		SizeType n = y_.size();
+		if (d_.size() > n)
+			throw RuntimeError("LinearPrediction::predict(...): fewer points "
+			                   "than coefficients\n");
 		for (SizeType i = n; i < n + p; i++) {
 			FieldType sum = 0;
 			for (SizeType j = 0; j < d_.size(); j++) {
-- 
2.43.0


From 8eac346991b89a343886fb58d8f26f520ea51614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:06 +0000
Subject: [PATCH 117/128] fix: LinearPrediction::predict2 refuses a number of
 points that is not its order

---
 src/LinearPrediction.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 97f8e79..d6233f7 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -153,6 +153,10 @@ public:
 
 	void predict2(SizeType p)
 	{
+		if (p != d_.size() || p > y_.size())
+			throw RuntimeError("LinearPrediction::predict2(...): the number of points "
+			                   "must be the number of coefficients\n");
+
 		// Fix roots
 		typedef std::complex<double> Complex;
 		SizeType twicep = 2 * p;
-- 
2.43.0


From c5574a70faa0e05ceb71e81d192f56f745ebda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:57 +0000
Subject: [PATCH 118/128] fix: MPI::allReduce of a number receives it in its
 own type, not in an int

---
 src/MpiYes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index ae72953..4f27735 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -467,7 +467,7 @@ namespace MPI {
 	typename EnableIf<Loki::TypeTraits<NumericType>::isArith, void>::Type
 	allReduce(NumericType& v, MPI_Op op = MPI_SUM, CommType mpiComm = COMM_WORLD)
 	{
-		int result = 0;
+		NumericType result = 0;
 		MPI_Datatype datatype = MpiData<NumericType>::Type;
 		int errorCode = MPI_Allreduce(&v, &result, 1, datatype, op, mpiComm);
 		checkError(errorCode, "MPI_Allreduce", mpiComm);
-- 
2.43.0


From eaa6bd3ed0808b8eeb9de6b567359b726663a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:57 +0000
Subject: [PATCH 119/128] fix: MPI::bcast of a complex vector tells its size,
 as that of a real vector does

---
 src/MpiYes.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index 4f27735..7cc5d92 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -371,6 +371,11 @@ namespace MPI {
 	    void>::Type
 	bcast(SomeVectorType& v, int root = 0, CommType mpiComm = COMM_WORLD)
 	{
+		SizeType total = v.size();
+		bcast(total, root, mpiComm);
+		if (total != v.size())
+			v.resize(total, 0);
+
 		MPI_Datatype datatype = MpiData<typename SomeVectorType::value_type::value_type>::Type;
 		int errorCode = MPI_Bcast(&(v[0]), 2 * v.size(), datatype, root, mpiComm);
 		checkError(errorCode, "MPI_Bcast", mpiComm);
-- 
2.43.0


From b44b97b722b157ff9b05a36288c4070fd4b78e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:57 +0000
Subject: [PATCH 120/128] fix: MPI::pointByPointGather sends to its root,
 within its communicator

---
 src/MpiYes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index 7cc5d92..310e6d1 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -234,7 +234,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				MPI::send(v[taskNumber], 0, taskNumber);
+				MPI::send(v[taskNumber], root, taskNumber, mpiComm);
 			}
 		}
 		else {
@@ -246,7 +246,7 @@ namespace MPI {
 					if (taskNumber >= v.size())
 						break;
 					NumericType value;
-					MPI::recv(value, r, taskNumber);
+					MPI::recv(value, r, taskNumber, mpiComm);
 					v[taskNumber] = value;
 				}
 			}
@@ -270,7 +270,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				v[taskNumber].send(0, taskNumber, mpiComm);
+				v[taskNumber].send(root, taskNumber, mpiComm);
 			}
 		}
 		else {
@@ -303,7 +303,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				send(v[taskNumber], 0, taskNumber, mpiComm);
+				send(v[taskNumber], root, taskNumber, mpiComm);
 			}
 		}
 		else {
-- 
2.43.0


From 4c6c5c828c49c4cf30a1a6947bcfea0e150b65d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:20 +0000
Subject: [PATCH 121/128] fix: IoSimple::Out of a process that does not write
 has no file to write a number to or to close

---
 src/Io/IoSimple.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index bd1cd62..a2ca33d 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -173,6 +173,8 @@ public:
 		{
 			if (filename_ == "OSTREAM")
 				throw RuntimeError("close: not possible\n");
+			if (rank_ != 0)
+				return;
 			fout_->close();
 		}
 
@@ -201,6 +203,8 @@ public:
 		template <typename T>
 		void write(const T& x, const String& label, typename EnableIf<PrintWithEqualSign<T>::True, int>::Type = 0)
 		{
+			if (rank_ != 0)
+				return;
 			(*fout_) << label << "=" << x << "\n";
 		}
 
-- 
2.43.0


From 03d14b161c8785b20b849c070b928a8ce720b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:07 +0000
Subject: [PATCH 122/128] fix: SampleCRSMatrix: row pointers count entries, not
 rows, also when rows are empty

---
 src/SampleCRSMatrix.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/SampleCRSMatrix.h b/src/SampleCRSMatrix.h
index 703c858..89a0003 100644
--- a/src/SampleCRSMatrix.h
+++ b/src/SampleCRSMatrix.h
@@ -203,21 +203,16 @@ private:
 		Sort<typename Vector<SizeType>::Type> s;
 		typename Vector<SizeType>::Type iperm(rows.size());
 		s.sort(rows, iperm);
-		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
+		SizeType row = 0;
 		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
-			}
+			// rows up to this one start here at the latest
+			while (row <= rows[i])
+				rowptr_[row++] = i;
 			colind_.push_back(cols[iperm[i]]);
 			values_.push_back(vals[iperm[i]]);
 		}
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank_; i++)
-			rowptr_[i] = counter;
+		while (row <= rank_)
+			rowptr_[row++] = rows.size();
 	}
 
 	SizeType rank_;
-- 
2.43.0


From f9bd7341027517905ba74ead2f0471178fa039d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:31 +0000
Subject: [PATCH 123/128] fix: function files may have long lines

---
 src/Ainur/AinurMacros.hh | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 56cb190..257e920 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -18,8 +18,6 @@ public:
 
 	class AinurFunction {
 
-		static constexpr SizeType MAX_LINE = 2048;
-
 	public:
 
 		AinurFunction(const std::string& args)
@@ -131,15 +129,14 @@ public:
 				throw RuntimeError("Could not open " + filename_ + "\n");
 			}
 
-			char s[MAX_LINE];
-			while (!fin.eof()) {
-				fin.getline(s, MAX_LINE);
-				if (emptyLine(std::string(s)))
+			std::string s;
+			while (std::getline(fin, s)) {
+				if (emptyLine(s))
 					continue;
 				std::vector<std::string> tokens;
 				split(tokens, s, separatorForSplit_);
 				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
-					throw RuntimeError("Line too small: " + std::string(s) + "\n");
+					throw RuntimeError("Line too small: " + s + "\n");
 				}
 
 				double vx = PsimagLite::atof(tokens[columnX_]);
-- 
2.43.0


From 750da7bb46b9d7753932ff4b1f083fffe2e34ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:57 +0000
Subject: [PATCH 124/128] fix: the value of a function keeps its digits

---
 src/Ainur/AinurMacros.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 257e920..d456d28 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -1,7 +1,9 @@
 #ifndef AINURMACROS_HH
 #define AINURMACROS_HH
 #include "../PsimagLite.h"
+#include <limits>
 #include <map>
+#include <sstream>
 #include <string>
 
 namespace PsimagLite {
@@ -211,7 +213,10 @@ public:
 		std::string argument = AinurFunction::deleteEnclosing(nameValue.second, '(', ')');
 		double x = PsimagLite::atof(argument);
 		double y = ainurFunctions_[index](x);
-		return std::to_string(y);
+		std::ostringstream text;
+		text.precision(std::numeric_limits<double>::digits10);
+		text << y;
+		return text.str();
 	}
 
 private:
-- 
2.43.0


From 1b67cb1811e6ff6c172b37890139caffc6ef5a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:15 +0000
Subject: [PATCH 125/128] fix: reading a number from a dataset of several
 elements is refused

---
 src/Io/IoNgSerializer.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 9f2cf74..987b8d0 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -396,6 +396,7 @@ public:
 	{
 		void* ptr = static_cast<void*>(&value);
 		std::unique_ptr<H5::DataSet> dataset(new H5::DataSet(hdf5file_->openDataSet("Def/" + name)));
+		checkOneElement(*dataset, name);
 		dataset->read(ptr, typeToH5<SomeType>());
 	}
 
@@ -407,6 +408,7 @@ public:
 		tmp[0] = 0;
 		void* ptr = static_cast<void*>(tmp);
 		std::unique_ptr<H5::DataSet> dataset(new H5::DataSet(hdf5file_->openDataSet("Def/" + name)));
+		checkOneElement(*dataset, name);
 		dataset->read(ptr, typeToH5<unsigned char>());
 		value = (tmp[0] & 1);
 	}
@@ -559,6 +561,13 @@ private:
 		              COMPLEX,
 		              OTHER };
 
+	// reading writes as many elements as there are on disk
+	static void checkOneElement(const H5::DataSet& dataset, const String& name)
+	{
+		if (dataset.getSpace().getSimpleExtentNpoints() != 1)
+			throw RuntimeError("IoNgSerializer: " + name + " doesn't have exactly one element\n");
+	}
+
 	template <typename SomeVectorType>
 	void readInternal(SomeVectorType& what, String name)
 	{
-- 
2.43.0


From 0af8b4e43d9a45aa7b393b9d09dee088ccd10964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:01 +0000
Subject: [PATCH 126/128] fix: the dense form of a tridiagonal matrix keeps
 nothing of what the matrix held before

---
 src/TridiagonalMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TridiagonalMatrix.h b/src/TridiagonalMatrix.h
index a9dd54b..3ccdf26 100644
--- a/src/TridiagonalMatrix.h
+++ b/src/TridiagonalMatrix.h
@@ -153,6 +153,7 @@ public:
 	{
 		if (n == 0)
 			n = a_.size();
+		m.clear();
 		m.resize(n, n, 0);
 		for (SizeType i = 0; i < n - 1; ++i) {
 			m(i, i) = a_[i];
-- 
2.43.0


From c865dae1a4e35232933de51a29f4efcb015044d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:27 +0000
Subject: [PATCH 127/128] fix: HEMM uses the leading dimension of its second
 matrix

---
 src/BLAS.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BLAS.h b/src/BLAS.h
index 1dd9b32..78630a0 100644
--- a/src/BLAS.h
+++ b/src/BLAS.h
@@ -413,13 +413,13 @@ namespace BLAS {
 		zsymm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
 	// ---------------------------------------------------------------------------
-	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<float>& a, const std::complex<float>* x, IntegerForBlasType sx, const std::complex<float>* y, IntegerForBlasType, const std::complex<float>& b, std::complex<float>* z, IntegerForBlasType sz)
+	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<float>& a, const std::complex<float>* x, IntegerForBlasType sx, const std::complex<float>* y, IntegerForBlasType sy, const std::complex<float>& b, std::complex<float>* z, IntegerForBlasType sz)
 	{
-		chemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sx, &b, z, &sz);
+		chemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
-	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<double>& a, const std::complex<double>* x, IntegerForBlasType sx, const std::complex<double>* y, IntegerForBlasType, const std::complex<double>& b, std::complex<double>* z, IntegerForBlasType sz)
+	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<double>& a, const std::complex<double>* x, IntegerForBlasType sx, const std::complex<double>* y, IntegerForBlasType sy, const std::complex<double>& b, std::complex<double>* z, IntegerForBlasType sz)
 	{
-		zhemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sx, &b, z, &sz);
+		zhemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
 	// **************************************************************************
 	inline void SYRK(char UPLO, char TRANS, IntegerForBlasType N, IntegerForBlasType K, const float& ALPHA, const float* A, IntegerForBlasType LDA, const float& BETA, float* C, IntegerForBlasType LDC)
-- 
2.43.0


From 21001aa6e68d8a83c52501e7174f55f4994078db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:27 +0000
Subject: [PATCH 128/128] fix: HPR takes a packed matrix of double precision

---
 src/BLAS.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BLAS.h b/src/BLAS.h
index 78630a0..c25a265 100644
--- a/src/BLAS.h
+++ b/src/BLAS.h
@@ -265,7 +265,7 @@ namespace BLAS {
 	// ******************************************************************************
 	extern "C" void chpr_(char*, IntegerForBlasType*, const std::complex<float>*, const std::complex<float>*, IntegerForBlasType*, std::complex<float>*);
 
-	extern "C" void zhpr_(char*, IntegerForBlasType*, const std::complex<double>*, const std::complex<double>*, IntegerForBlasType*, std::complex<float>*);
+	extern "C" void zhpr_(char*, IntegerForBlasType*, const std::complex<double>*, const std::complex<double>*, IntegerForBlasType*, std::complex<double>*);
 	// ******************************************************************************
 	// *                         HER2
 	// ******************************************************************************
@@ -743,7 +743,7 @@ namespace BLAS {
 	{
 		chpr_(&uplo, &n, &alpha, x, &incx, ap);
 	}
-	inline void HPR(char uplo, IntegerForBlasType n, const std::complex<double>& alpha, const std::complex<double>* x, IntegerForBlasType incx, std::complex<float>* ap)
+	inline void HPR(char uplo, IntegerForBlasType n, const std::complex<double>& alpha, const std::complex<double>* x, IntegerForBlasType incx, std::complex<double>* ap)
 	{
 		zhpr_(&uplo, &n, &alpha, x, &incx, ap);
 	}
-- 
2.43.0

