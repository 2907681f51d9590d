#include "mat.h"
#include "Vector.h"
#include "RungeKutta.h"
#include "LinearPrediction.h"
#include "Fermi.h"
using namespace PsimagLite;
using vf::cplx;
// y' = M y + g(t)
template <typename T> struct Flow {
	std::vector<std::vector<T>> m, c;
	std::vector<T> operator()(const double& t, const std::vector<T>& y) const
	{
		std::vector<T> r(y.size(), 0);
		double tq = 1;
		for (size_t q = 0; q < c.size(); ++q, tq *= t)
			for (size_t i = 0; i < r.size(); ++i)
				r[i] += c[q][i] * tq;
		for (size_t i = 0; i < r.size(); ++i)
			for (size_t j = 0; j < r.size(); ++j)
				r[i] += m[i][j] * y[j];
		return r;
	}
};
template <typename T> std::vector<std::vector<T>> rowsOf(vf::In& in)
{
	size_t n = in.I();
	std::vector<std::vector<T>> r;
	for (size_t i = 0; i < n; ++i)
		r.push_back(vf::getVec<T>(in));
	return r;
}
double whole(double x)
{
	double r = std::round(x);
	return std::fabs(x - r) <= 1e-9 * (1 + std::fabs(x)) ? r : x;
}
double whole2(const double& x) { return whole(x); }
cplx whole2(const cplx& z) { return cplx(whole(z.real()), whole(z.imag())); }
template <typename R> std::string valuesJs(const R& r, double unit)
{
	std::string s = "[";
	for (size_t i = 0; i < r.size(); ++i) {
		auto v = r[i];
		for (auto& z : v)
			z = whole2(z * unit);
		s += (i ? "," : "") + vf::vecJs(v);
	}
	return s + "]";
}
// the number of values is asked for directly (ex=0), or by an end time (in steps of h, plus a part of one)
template <typename T> void rk(vf::In& in, vf::Out& out, bool stepping)
{
	Flow<T> f;
	f.m = rowsOf<T>(in);
	f.c = rowsOf<T>(in);
	std::vector<T> y0 = vf::getVec<T>(in);
	double t0 = in.D();
	long b = in.I(), n = in.I(), ex = in.I();
	double h = 1. / b;
	RungeKutta<double, Flow<T>, std::vector<T>> r(f, h);
	std::vector<std::vector<T>> res;
	if (ex == 0)
		r.solve(res, t0, n, y0);
	else
		r.solveEx(res, t0, t0 + n * h + (ex - 1) * h / 4, y0);
	double unit = 24. * b * b * b * b;
	if (stepping)
		unit = std::pow(unit, n - 1);
	out.raw("ys", valuesJs(res, unit));
}
OP(S) { }
OP(rk) { if (in.I()) rk<cplx>(in, out, false); else rk<double>(in, out, false); }
OP(rkstep) { if (in.I()) rk<cplx>(in, out, true); else rk<double>(in, out, true); }
OP(lp)
{
	std::vector<long> y = in.V<long>(), two = in.V<long>();
	long p = in.I(), p2 = in.I(), q = in.I();
	std::vector<double> yd(y.begin(), y.end()), td(two.begin(), two.end());
	LinearPrediction<double> l(yd, p);
	if (td.size())
		l.linearPredictionfunction(td, p2);
	l.predict(q / 2);
	l.predict(q - q / 2);
	std::vector<long> v;
	for (size_t i = 0; i < yd.size() + q; ++i) {
		double x = l(i) * 100;
		v.push_back((x > -2e9 && x < 2e9) ? lround(x) : vf::BAD);
	}
	out.v("v", v);
}
OP(fermi)
{
	double x = in.I() * std::log(2.);
	double f = fermi(x), lf = logfermi(x);
	out.i("f", lround(f * 1073741824.));
	out.i("lf", lround(std::exp(lf) * 1073741824.));
	out.i("pr", lround(fermiPrime(x) * 1048576.));
	out.i("lg", f > 0 ? lround(-1000 * std::log2(f)) : vf::BAD);
	out.i("ll", lround(1000 * lf / std::log(2.)));
}
VF_MAIN
