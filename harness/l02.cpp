#include "mat.h"
#include "Matrix.h"
#include "Svd.h"
#include "TridiagonalMatrix.h"
using namespace PsimagLite;
using vf::cplx;
typedef std::vector<cplx> VC;
static long rnd(double x, double scale) { x *= scale; return (x > -1.9e9 && x < 1.9e9) ? lround(x) : vf::BAD; }
template <typename T> struct Conv { static T f(const cplx& z) { return z.real(); } };
template <typename T> struct Conv<std::complex<T>> { static std::complex<T> f(const cplx& z) { return std::complex<T>(z.real(), z.imag()); } };
template <typename T> struct Exp { static constexpr bool cx = false; };
template <typename T> struct Exp<std::complex<T>> { static constexpr bool cx = true; };
template <typename T> static bool single() { return sizeof(typename Real<T>::Type) == 4; }
// as matrix of whole multiples of 1/scale
template <typename M> static std::string fixM(const M& m, double scale, bool near = false, double tol = 0)
{
	std::string r = "{\"r\":" + vf::Out::num(m.rows()) + ",\"c\":" + vf::Out::num(m.cols()) + ",\"a\":[";
	for (size_t i = 0; i < m.rows(); ++i) {
		r += i ? ",[" : "[";
		for (size_t j = 0; j < m.cols(); ++j) {
			cplx z(m(i, j));
			r += (j ? ",[" : "[");
			r += near ? vf::Out::num(vf::near(z.real(), tol, scale)) + "," + vf::Out::num(vf::near(z.imag(), tol, scale))
			          : vf::Out::num(rnd(z.real(), scale)) + "," + vf::Out::num(rnd(z.imag(), scale));
			r += "]";
		}
		r += "]";
	}
	return r + "]}";
}
template <typename T> static Matrix<T> conv(const Matrix<cplx>& a)
{
	Matrix<T> m(a.rows(), a.cols());
	for (size_t i = 0; i < a.rows(); ++i)
		for (size_t j = 0; j < a.cols(); ++j) m(i, j) = Conv<T>::f(a(i, j));
	return m;
}
// M D M, times by
static double sizeOf(const VC& v) { double s = 0; for (auto& x : v) s += std::norm(x); return s; }
static Matrix<cplx> mdm(const VC& v, const std::vector<long>& d, double by)
{
	size_t n = v.size();
	double s = sizeOf(v);
	Matrix<cplx> m(n, n), a(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) m(i, j) = (i == j ? s : 0) - 2. * v[i] * std::conj(v[j]);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) {
			cplx x = 0;
			for (size_t k = 0; k < n; ++k) x += m(i, k) * double(d[k]) * m(k, j);
			a(i, j) = x * by;
		}
	return a;
}
template <typename T> struct Go {
	typedef typename Real<T>::Type R;
	static double tol() { return single<T>() ? 2e-3 : 1e-6; }
	static void diag_(const Matrix<cplx>& a, double s2, char opt, vf::Out& out)
	{
		Matrix<T> m = conv<T>(a);
		std::vector<R> e;
		diag(m, e, opt);
		std::vector<long> r;
		for (R x : e) r.push_back(vf::near(x / s2, tol()));
		out.v("E", r);
		if (opt == 'V') out.raw("z", fixM(m, 1e3));
	}
	static void exp_(const Matrix<cplx>& a, double s2, vf::Out& out)
	{
		Matrix<T> m = conv<T>(a);
		exp(m);
		out.raw("m", fixM(m, s2 * (Exp<T>::cx ? 1 : 8), true, single<T>() ? 2e-2 : 1e-6));
	}
	static void inv(const Matrix<cplx>& a, vf::Out& out)
	{
		Matrix<T> m = conv<T>(a);
		inverse(m);
		out.raw("X", fixM(m, 1e3));
	}
	static void svd(const std::string& name, char job, const Matrix<cplx>& a, vf::Out& out)
	{
		Matrix<T> m = conv<T>(a), vt;
		std::vector<R> s;
		Svd<T> f(name);
		out.i("again", f.canTryAgain());
		f(job, m, s, vt);
		out.raw("U", fixM(m, 1e3));
		out.raw("V", fixM(vt, 1e3));
		std::vector<long> r;
		for (R x : s) r.push_back(rnd(x, 1e3));
		out.v("s", r);
	}
};
// one tridiagonal matrix: pushed or set, as a dense one, and its eigenvalues
template <typename T> static void triDense(TridiagonalMatrix<T>& t, const VC& a, const VC& b, bool set, long n, long used, vf::Out& out)
{
	if (set) {
		t.resize(a.size(), 7);
		for (size_t i = 0; i < a.size(); ++i) { t.a(i) = Conv<T>::f(a[i]); t.b(i) = Conv<T>::f(b[i]); }
	} else for (size_t i = 0; i < a.size(); ++i) t.push(Conv<T>::f(a[i]), Conv<T>::f(b[i]));
	const TridiagonalMatrix<T>& c = t;
	std::vector<T> x, y;
	for (size_t i = 0; i < c.size(); ++i) { x.push_back(c.a(i)); y.push_back(c.b(i)); }
	out.raw("as", vf::vecJs(x));
	out.raw("bs", vf::vecJs(y));
	Matrix<T> m(used, used);
	m.setTo(9);
	if (n) c.buildDenseMatrix(m, n); else c.buildDenseMatrix(m);
	out.raw("m", vf::matJs(m));
}
template <typename T> static void triDiag(const VC& a, const VC& b, bool set, long n, long used, vf::Out& out)
{
	TridiagonalMatrix<T> t;
	triDense(t, a, b, set, n, used, out);
	std::vector<T> e(3, 5);
	size_t k = n ? n : a.size();
	t.diag(e, k);
	std::string r = "[";
	for (size_t i = 0; i < k && i < e.size(); ++i) r += (i ? ",[" : "[") + vf::Out::num(rnd(e[i], 1e3)) + ",0]";
	out.raw("w", r + "]");
}
#define GO(F, ...) switch (t) { case 0: Go<double>::F(__VA_ARGS__); break; case 1: Go<float>::F(__VA_ARGS__); break; \
	case 2: Go<cplx>::F(__VA_ARGS__); break; default: Go<std::complex<float>>::F(__VA_ARGS__); }
OP(S) { }
OP(diag)
{
	long t = in.I();
	VC v = vf::getVec<cplx>(in);
	std::vector<long> d = in.V<long>();
	char opt = in.tok()[0];
	double s = sizeOf(v);
	GO(diag_, mdm(v, d, 1), s * s, opt, out)
}
OP(exp)
{
	long t = in.I();
	VC v = vf::getVec<cplx>(in);
	std::vector<long> d = in.V<long>();
	double s = sizeOf(v);
	GO(exp_, mdm(v, d, (t >= 2 ? M_PI / 2 : M_LN2) / (s * s)), s * s, out)
}
// shapes that have no such function
OP(bad)
{
	long t = in.I();
	std::string w = in.tok();
	size_t r = in.I(), c = in.I();
	Matrix<cplx> a(r, c);
	for (size_t i = 0; i < r && i < c; ++i) a(i, i) = 1;
	if (w == "diag") { GO(diag_, a, 1, 'V', out) }
	else if (w == "diagN") { GO(diag_, a, 1, 'N', out) }
	else if (w == "exp") { GO(exp_, a, 1, out) }
	else { GO(inv, a, out) }
}
OP(inv) { long t = in.I(); Matrix<cplx> a = vf::getMat<Matrix<cplx>>(in); GO(inv, a, out) }
OP(tri)
{
	long t = in.I();
	VC a = vf::getVec<cplx>(in), b = vf::getVec<cplx>(in);
	bool set = in.I();
	long n = in.I(), used = in.I();
	if (t == 0) triDiag<double>(a, b, set, n, used, out);
	else triDiag<float>(a, b, set, n, used, out);
}
OP(svd)
{
	long t = in.I();
	std::string name = in.tok();
	char job = in.tok()[0];
	Matrix<cplx> a = vf::getMat<Matrix<cplx>>(in);
	GO(svd, name, job, a, out)
}
OP(geev)
{
	Matrix<cplx> a = vf::getMat<Matrix<cplx>>(in), b(a);
	size_t n = a.rows();
	VC w(n);
	Matrix<cplx> vl(n, n), vr(n, n);
	geev('V', 'V', b, w, vl, vr);
	Matrix<cplx> ww(1, n);
	std::string r = "[";
	for (size_t i = 0; i < n; ++i) r += (i ? ",[" : "[") + vf::Out::num(rnd(w[i].real(), 1e3)) + "," + vf::Out::num(rnd(w[i].imag(), 1e3)) + "]";
	out.raw("w", r + "]");
	out.raw("L", fixM(vl, 1e3));
	out.raw("R", fixM(vr, 1e3));
}
VF_MAIN
