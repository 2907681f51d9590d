// Chebyshev polynomials, moments and their sums.
#include "mat.h"
#include "CrsMatrix.h"
#include "ParametersForSolver.h"
#include "ChebyshevFunction.h"
#include "ChebyshevFunctionExplicit.h"
#include "ChebyshevSolver.h"
#include "ChebyshevSerializer.h"
#include "Io/IoSimple.h"
#include <memory>
using namespace PsimagLite;
using vf::cplx;
typedef std::vector<cplx> VC;
typedef ParametersForSolver<double> Params;
typedef TridiagonalMatrix<double> Tri;
typedef ChebyshevSerializer<std::vector<double>> Ser;
static long rnd(double x, double scale) { x *= scale; return (x > -1.9e9 && x < 1.9e9) ? lround(x) : vf::BAD; }
template <typename T> T conv(const cplx& z);
template <> double conv<double>(const cplx& z) { return z.real(); }
template <> cplx conv<cplx>(const cplx& z) { return z; }
OP(S) { }
// T_m(p / q) times q^m, for small m; in units of 1/2 for q = 2
OP(T)
{
	long m = in.I(), p = in.I(), q = in.I(), kind = in.I(), scale = in.I();
	double x = double(p) / q;
	double y = kind == 0 ? ChebyshevFunction<double>()(m, x) : kind == 1 ? ChebyshevFunctionExplicit<double>()(m, x)
	         : kind == 2 ? ChebyshevFunction<long double>()(m, (long double)(x)) : ChebyshevFunctionExplicit<float>()(m, float(x));
	out.i("y", vf::near(y * scale, kind == 3 ? 1e-2 : 1e-4));
}
template <typename T> static void moments(vf::In& in, vf::Out& out, const VC& v, const std::vector<long>& d)
{
	size_t n = v.size();
	double s = 0;
	for (auto& x : v) s += std::norm(x);
	std::vector<VC> m(n, VC(n));
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) m[i][j] = (i == j ? s : 0) - 2. * v[i] * std::conj(v[j]);
	Matrix<T> a(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) {
			cplx x = 0;
			for (size_t k = 0; k < n; ++k) x += m[i][k] * double(d[k]) * m[k][j];
			a(i, j) = conv<T>(x);
		}
	double s2 = s * s;
	CrsMatrix<T> h(a);
	VC x0 = vf::getVec<cplx>(in);
	std::vector<T> x;
	for (auto& q : x0) x.push_back(conv<T>(q));
	Params p;
	p.lotaMemory = true;
	typedef ChebyshevSolver<Params, CrsMatrix<T>, std::vector<T>> Solver;
	Solver c(h, p);
	// the interval it chose
	out.i("lo", rnd((p.b - 1 / p.oneOverA) / s2, 1e4));
	out.i("hi", rnd((p.b + 1 / p.oneOverA) / s2, 1e4));
	long b = in.I(), aa = in.I();
	p.b = b * s2;
	p.oneOverA = 1 / (aa * s2);
	long times = in.I();
	Tri ab;
	for (long t = 0; t < times; ++t)
		c.decomposition(x, ab);
	std::vector<long> mu;
	for (size_t i = 0; i < c.steps(); ++i) {
		mu.push_back(rnd(ab.a(i), 1e4));
		mu.push_back(rnd(ab.b(i), 1e4));
	}
	out.v("mu", mu);
	out.i("steps", c.steps());
	out.i("size", ab.size());
}
OP(mu)
{
	bool z = in.I();
	VC v = vf::getVec<cplx>(in);
	std::vector<long> d = in.V<long>();
	if (z) moments<cplx>(in, out, v, d);
	else moments<double>(in, out, v, d);
}
OP(plot)
{
	std::vector<long> mu = in.V<long>();
	Tri ab;
	ab.resize(mu.size(), 0);
	for (size_t i = 0; i < mu.size(); ++i) (i & 1 ? ab.b(i / 2) : ab.a(i / 2)) = mu[i];
	Params p;
	long a = in.I();
	p.oneOverA = 1. / a;
	p.b = in.I() / 4.;
	p.Eg = in.I() / 4.;
	double w1 = in.I() / 4., w2 = in.I() / 4., dw = in.I() / 4.;
	long kind = in.I(), cut = in.I(), lam = in.I(), file = in.I(), old = in.I();
	Ser* s = new Ser(ab, p);
	if (file) {
		{
			IoSimple::Out io("cheb.txt");
			s->write(io, "");
		}
		delete s;
		IoSimple::In io("cheb.txt");
		io.advance(Ser::stringMarker(), IoSimple::In::LAST_INSTANCE);
		s = new Ser(io);
	}
	Ser::PlotParamsType pp(w1, w2, dw, 0, 0, 0);
	Ser::KernelParametersType kp(kind, cut, lam * log(2.));
	Ser::PlotDataType v(old, std::pair<double, double>(99, 99));
	s->plot(v, pp, kp);
	std::vector<long> w, y;
	for (auto& q : v) {
		w.push_back(vf::near(q.first * 4));
		double x = (q.first + p.Eg - p.b) * p.oneOverA;
		y.push_back(rnd(q.second * (x * x < 1 ? sqrt(1 - x * x) : 1), 1000));
	}
	out.v("w", w);
	out.v("y", y);
	delete s;
}
VF_MAIN
