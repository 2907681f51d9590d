#include "mat.h"
#include "PsimagLite.h"
#include "Matrix.h"
#include "MatrixNonOwned.h"
#include "Vector.h"
using namespace PsimagLite;
typedef vf::cplx cplx;
template <typename T> struct St { static Matrix<T> m[3]; static std::vector<T> v[3]; };
template <typename T> Matrix<T> St<T>::m[3];
template <typename T> std::vector<T> St<T>::v[3];
static bool isZ;
template <typename T> void dump(vf::Out& out)
{
	std::string r = "[", q = "[";
	for (size_t i = 0; i < 3; ++i) { r += (i ? "," : "") + vf::matJs(St<T>::m[i]); q += (i ? "," : "") + vf::vecJs(St<T>::v[i]); }
	out.raw("m", r + "]");
	out.raw("v", q + "]");
}
#define SOP(name) \
	template <typename T> static void VF_CAT(t_, name)(vf::In&, vf::Out&); \
	OP(name) { if (isZ) { VF_CAT(t_, name)<cplx>(in, out); dump<cplx>(out); } else { VF_CAT(t_, name)<double>(in, out); dump<double>(out); } } \
	template <typename T> static void VF_CAT(t_, name)(vf::In& in, vf::Out& out)
#define M St<T>::m
#define W St<T>::v
OP(S) { isZ = in.I(); for (size_t i = 0; i < 3; ++i) { St<double>::m[i] = Matrix<double>(); St<cplx>::m[i] = Matrix<cplx>(); St<double>::v[i].clear(); St<cplx>::v[i].clear(); } }
SOP(mset) { size_t d = in.I(); M[d] = vf::getMat<Matrix<T>>(in); }
#define THROWS(...) out.i("thrown", 0); try { __VA_ARGS__; } catch (const std::exception&) { out.clear(); out.i("thrown", 1); }
SOP(mdata) { size_t d = in.I(); SizeType r = in.I(), c = in.I(); std::vector<T> a = vf::getVec<T>(in); THROWS(Matrix<T> x(a, r, c); M[d] = x) }
SOP(mresize) { size_t d = in.I(); SizeType r = in.I(), c = in.I(); THROWS(M[d].resize(r, c)) }
SOP(mresizev) { size_t d = in.I(); SizeType r = in.I(), c = in.I(); T s = vf::Num<T>::get(in); M[d].resize(r, c, s); }
template <typename T> typename std::enable_if<std::is_same<T, double>::value>::type ctorScaled(const std::string& k, Matrix<T>& D, const Matrix<T>& A, const Matrix<T>& B, T s)
{
	if (k == "ctorsAB") { Matrix<T> x(s * A * B); D = x; } else { Matrix<T> x(s * (A + B)); D = x; }
}
template <typename T> typename std::enable_if<!std::is_same<T, double>::value>::type ctorScaled(const std::string& k, Matrix<T>& D, const Matrix<T>& A, const Matrix<T>& B, T s)
{
	double t = s.real();
	if (k == "ctorsAB") { Matrix<T> x(t * A * B); D = x; } else { D = s * (A + B); }
}
template <typename T> void mopDo(const std::string& k, size_t d, size_t a, size_t b, T s)
{
	Matrix<T>&D = M[d], &A = M[a], &B = M[b];
	if (k == "sA") D = s * A;
	else if (k == "As") D = A * s;
	else if (k == "A+B") D = A + B;
	else if (k == "A-B") D = A - B;
	else if (k == "A+sB") D = A + s * B;
	else if (k == "sA+B") D = s * A + B;
	else if (k == "s(A+B)") D = s * (A + B);
	else if (k == "s(A-B)") D = s * (A - B);
	else if (k == "AB") D = A * B;
	else if (k == "sAB") D = s * A * B;
	else if (k == "ctorAB") { Matrix<T> x(A * B); D = x; }
	else if (k == "ctorsAB" || k == "ctors(A+B)") ctorScaled(k, D, A, B, s);
	else if (k == "+=sA") D += s * A;
	else if (k == "+=As") D += A * s;
	else if (k == "+=A") D += A;
	else if (k == "-=A") D -= A;
	else if (k == "*=s") D *= s;
	else if (k == "conj") D.conjugate();
	else if (k == "setTo") D.setTo(s);
	else if (k == "identity") D.setToIdentity();
	else if (k == "dag") transposeConjugate(D, A);
	else if (k == "dagf") D = transposeConjugate(A);
	else if (k == "trans") transpose(D, A);
	else if (k == "AhB") D = multiplyTransposeConjugate(A, B);
	else if (k == "AtB") D = multiplyTransposeConjugate(A, B, 'T');
	else if (k == "outer") outerProduct(D, A, B);
	else if (k == "rotate") rotate(D, A);
	else if (k == "copy") { Matrix<T> x(A); D = x; }
	else if (k == "clear") D.clear();
	else _exit(97);
}
SOP(mop) { std::string k = in.tok(); size_t d = in.I(), a = in.I(), b = in.I(); T s = vf::Num<T>::get(in); THROWS(mopDo<T>(k, d, a, b, s)) }
SOP(mswap) { size_t d = in.I(), a = in.I(); M[d].swap(M[a]); }
SOP(mput) { size_t d = in.I(), i = in.I(), j = in.I(); T s = vf::Num<T>::get(in); if (in.I()) { MatrixNonOwned<T> w(M[d]); w(i, j) = s; } else M[d](i, j) = s; }
SOP(mget)
{
	size_t a = in.I(), i = in.I(), j = in.I();
	const Matrix<T>& A = M[a];
	if (in.I()) { MatrixNonOwned<const T> w(A); out.raw("res", vf::Num<T>::js(w(i, j))); } else out.raw("res", vf::Num<T>::js(A(i, j)));
}
SOP(viewv)
{
	size_t d = in.I();
	SizeType r = in.I(), c = in.I(), off = in.I(), i = in.I(), j = in.I();
	T s = vf::Num<T>::get(in);
	const std::vector<T>& cv = W[d];
	MatrixNonOwned<const T> cw(r, c, cv, off);
	out.raw("res", vf::Num<T>::js(cw(i, j)));
	MatrixNonOwned<T> w(r, c, W[d], off);
	w(i, j) = s;
}
template <typename T> long tri(bool (*f)(const Matrix<T>&, bool), const Matrix<T>& a) { try { return f(a, false); } catch (const std::exception&) { return 2; } }
SOP(minfo)
{
	size_t a = in.I(), b = in.I();
	const Matrix<T>& A = M[a];
	out.i("nz", A.nonZeros());
	out.b("zero", isZero(A));
	out.i("n2", vf::ex(norm2(A)));
	out.i("herm", tri<T>(isHermitian<T>, A));
	out.i("anti", tri<T>(isAntiHermitian<T>, A));
	out.i("id", A.rows() == A.cols() ? isTheIdentity(A) : 2);
	out.b("eq", A == M[b]);
}
OP(toreal)
{
	// a complex matrix from a real one
	size_t d = in.I();
	Matrix<double> a = vf::getMat<Matrix<double>>(in);
	Matrix<cplx> x(a);
	St<cplx>::m[d] = x;
	dump<cplx>(out);
}
SOP(vset) { size_t d = in.I(); W[d] = vf::getVec<T>(in); }
SOP(vop)
{
	std::string k = in.tok();
	size_t d = in.I(), a = in.I(), b = in.I(), c = in.I();
	T s = vf::Num<T>::get(in), t = vf::Num<T>::get(in), p = vf::Num<T>::get(in), q = vf::Num<T>::get(in);
	std::vector<T>&D = W[d], &A = W[a], &B = W[b], &C = W[c];
	if (k == "sv") D <= s * A;
	else if (k == "vs") D <= A * s;
	else if (k == "s(tv)") D <= s * (t * A);
	else if (k == "v+w") D <= A + B;
	else if (k == "v+sw") D <= A + s * B;
	else if (k == "sw+v") D <= s * A + B;
	else if (k == "s(v+w)") D <= s * (A + B);
	else if (k == "sum4") { std::vector<T> X = D; D <= s * A + t * B + p * C + q * X; }
	else if (k == "v-w") D <= A - B;
	else if (k == "v-sw") D <= A - s * B;
	else if (k == "s(v-w)") D <= s * (A - B);
	else if (k == "v-sw+tx") D <= A - s * B + t * C;
	else if (k == "+=v") D += A;
	else if (k == "-=v") D -= A;
	else if (k == "+=sv") D += s * A;
	else if (k == "-=sv") D -= s * A;
	else if (k == "*=s") D *= s;
	else if (k == "/=s") D /= s;
	else if (k == "copy") D = A;
	// numbers of another type: real ones and integers
	else if (k == "rsv") D <= std::real(s) * A;
	else if (k == "isv") { const int m = int(std::lround(std::real(s))); std::vector<T> X = A; for (auto& x : X) x = m * x; D = X; }
	else if (k == "r+=sv") D += std::real(s) * A;
	else if (k == "r*=s") D *= std::real(s);
	else _exit(97);
}
SOP(Av) { size_t d = in.I(), a = in.I(), b = in.I(); W[d] <= M[a] * W[b]; }
SOP(vA) { size_t d = in.I(), a = in.I(), b = in.I(); W[d] <= W[b] * M[a]; }
SOP(vvv)
{
	Matrix<T> m = vf::getMat<Matrix<T>>(in);
	size_t b = in.I();
	std::vector<std::vector<T>> vv(m.rows(), std::vector<T>(m.cols()));
	for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.cols(); ++j) vv[i][j] = m(i, j);
	std::vector<T> r = vv * W[b];
	out.raw("res", vf::vecJs(r));
}
SOP(dot) { size_t a = in.I(), b = in.I(); THROWS(out.raw("res", vf::Num<T>::js(W[a] * W[b])); out.raw("sp", vf::Num<T>::js(scalarProduct(W[a], W[b])))) if (W[a].size() != W[b].size()) { bool both = false; try { scalarProduct(W[a], W[b]); } catch (const std::exception&) { both = true; } if (!both) out.i("both", 0), out.i("thrown", 3); } }
SOP(vinfo)
{
	size_t a = in.I();
	T s = vf::Num<T>::get(in);
	double n = std::abs(PsimagLite::norm(W[a]));
	out.i("norm2", vf::near(n * n));
	out.raw("sum", vf::Num<T>::js(PsimagLite::sum(W[a])));
	out.i("at", indexOrMinusOne(W[a], s));
}
VF_MAIN
