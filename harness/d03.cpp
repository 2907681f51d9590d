#include "common.h"
#include "mat.h"
#include "BLAS.h"
using namespace psimag;
OP(S) { }
struct Args {
	std::string f;
	char side, uplo, trans, transb, diag;
	int m, n, k, ku, lda, ldb, ldc;
};
template <typename T> struct IsC { enum { V = 0 }; };
template <typename T> struct IsC<std::complex<T>> { enum { V = 1 }; };
template <typename T> static void run(Args& g, vf::In& in, vf::Out& out)
{
	const std::string& f = g.f;
	T al = vf::Num<T>::get(in), be = vf::Num<T>::get(in);
	std::vector<T> A = vf::getVec<T>(in), B = vf::getVec<T>(in), C = vf::getVec<T>(in);
	const std::vector<T> A0 = A, B0 = B, C0 = C;
	T *a = A.data(), *b = B.data(), *c = C.data();
	int n = g.n, m = g.m, k = g.k, lda = g.lda, ldb = g.ldb, ldc = g.ldc;
	char w = 'C'; // the array that is written
	if (f == "AXPY") BLAS::AXPY(n, al, b, ldb, c, ldc);
	else if (f == "COPY") BLAS::COPY(n, b, ldb, c, ldc);
	else if (f == "SCAL") BLAS::SCAL(n, al, c, ldc);
	else if (f == "GEMV") BLAS::GEMV(g.trans, m, n, al, a, lda, b, ldb, be, c, ldc);
	else if (f == "GBMV") BLAS::GBMV(g.trans, m, n, k, g.ku, al, a, lda, b, ldb, be, c, ldc);
	else if (f == "TRMV") { w = 'B'; BLAS::TRMV(g.uplo, g.trans, g.diag, n, a, lda, b, ldb); }
	else if (f == "TBMV") { w = 'B'; BLAS::TBMV(g.uplo, g.trans, g.diag, n, k, a, lda, b, ldb); }
	else if (f == "TPMV") { w = 'B'; BLAS::TPMV(g.uplo, g.trans, g.diag, n, a, b, ldb); }
	else if (f == "TRSV") { w = 'B'; BLAS::TRSV(g.uplo, g.trans, g.diag, n, a, lda, b, ldb); }
	else if (f == "TBSV") { w = 'B'; BLAS::TBSV(g.uplo, g.trans, g.diag, n, k, a, lda, b, ldb); }
	else if (f == "TPSV") { w = 'B'; BLAS::TPSV(g.uplo, g.trans, g.diag, n, a, b, ldb); }
	else if (f == "GEMM") BLAS::GEMM(g.trans, g.transb, m, n, k, al, a, lda, b, ldb, be, c, ldc);
	else if (f == "SYMM") BLAS::SYMM(g.side, g.uplo, m, n, al, a, lda, b, ldb, be, c, ldc);
	else if (f == "SYRK") BLAS::SYRK(g.uplo, g.trans, n, k, al, a, lda, be, c, ldc);
	else if (f == "TRMM") { w = 'B'; BLAS::TRMM(g.side, g.uplo, g.trans, g.diag, m, n, al, a, lda, b, ldb); }
	else if (f == "TRSM") { w = 'B'; BLAS::TRSM(g.side, g.uplo, g.trans, g.diag, m, n, al, a, lda, b, ldb); }
	else if constexpr (IsC<T>::V) {
		if (f == "HEMV") BLAS::HEMV(g.uplo, n, al, a, lda, b, ldb, be, c, ldc);
		else if (f == "HBMV") BLAS::HBMV(g.uplo, n, k, al, a, lda, b, ldb, be, c, ldc);
		else if (f == "HPMV") BLAS::HPMV(g.uplo, n, al, a, b, ldb, be, c, ldc);
		else if (f == "GERU") { w = 'A'; BLAS::GERU(m, n, al, b, ldb, c, ldc, a, lda); }
		else if (f == "GERC") { w = 'A'; BLAS::GERC(m, n, al, b, ldb, c, ldc, a, lda); }
		else if (f == "HER") { w = 'A'; BLAS::HER(g.uplo, n, al, b, ldb, a, lda); }
		else if (f == "HPR") { w = 'A'; BLAS::HPR(g.uplo, n, al, b, ldb, a); }
		else if (f == "HER2") { w = 'A'; BLAS::HER2(g.uplo, n, al, b, ldb, c, ldc, a, lda); }
		else if (f == "HPR2") { w = 'A'; BLAS::HPR2(g.uplo, n, al, b, ldb, c, ldc, a); }
		else if (f == "HEMM") BLAS::HEMM(g.side, g.uplo, m, n, al, a, lda, b, ldb, be, c, ldc);
		else if (f == "HERK") BLAS::HERK(g.uplo, g.trans, n, k, al, a, lda, be, c, ldc);
		else if (f == "SYR2K") BLAS::SYR2k(g.uplo, g.trans, n, k, al, a, lda, b, ldb, be, c, ldc);
		else if (f == "HER2K") BLAS::HER2k(g.uplo, g.trans, n, k, al, a, lda, b, ldb, be, c, ldc);
		else _exit(97);
	} else {
		if (f == "SYMV") BLAS::SYMV(g.uplo, n, al, a, lda, b, ldb, be, c, ldc);
		else if (f == "SBMV") BLAS::SBMV(g.uplo, n, k, al, a, lda, b, ldb, be, c, ldc);
		else if (f == "SPMV") BLAS::SPMV(g.uplo, n, al, a, b, ldb, be, c, ldc);
		else if (f == "GER") { w = 'A'; BLAS::GER(m, n, al, b, ldb, c, ldc, a, lda); }
		else if (f == "SYR") { w = 'A'; BLAS::SYR(g.uplo, n, al, b, ldb, a, lda); }
		else if (f == "SPR") { w = 'A'; BLAS::SPR(g.uplo, n, al, b, ldb, a); }
		else if (f == "SYR2") { w = 'A'; BLAS::SYR2(g.uplo, n, al, b, ldb, c, ldc, a, lda); }
		else if (f == "SPR2") { w = 'A'; BLAS::SPR2(g.uplo, n, al, b, ldb, c, ldc, a); }
		else if (f == "SYR2K") BLAS::SYR2K(g.uplo, g.trans, n, k, al, a, lda, b, ldb, be, c, ldc);
		else if constexpr (sizeof(T) == 8) {
			if (f == "DOT") { w = 'D'; C.push_back(BLAS::DOT(n, b, ldb, c, ldc)); }
			else _exit(97);
		} else _exit(97);
	}
	if (w == 'D') {
		out.raw("out", vf::vecJs(std::vector<T>(1, C.back())));
		C.pop_back();
	} else out.raw("out", vf::vecJs(w == 'A' ? A : w == 'B' ? B : C));
	out.b("same", (w == 'A' || A == A0) && (w == 'B' || B == B0) && (w == 'C' || C == C0));
}
OP(blas)
{
	std::string ty = in.tok();
	Args g;
	g.f = in.tok();
	bool low = in.I();
	for (char* p : { &g.side, &g.uplo, &g.trans, &g.transb, &g.diag }) { *p = in.tok()[0]; if (low) *p = tolower(*p); }
	for (int* p : { &g.m, &g.n, &g.k, &g.ku, &g.lda, &g.ldb, &g.ldc }) *p = in.I();
	if (ty == "d") run<double>(g, in, out);
	else if (ty == "f") run<float>(g, in, out);
	else if (ty == "z") run<std::complex<double>>(g, in, out);
	else run<std::complex<float>>(g, in, out);
}
VF_MAIN
