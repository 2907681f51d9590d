#include "common.h"
#include "Vector.h"
#include "RootFindingBisection.h"
#include <cmath>
using namespace PsimagLite;
#include "AkimaSpline.h"
static long rnd(double x, double scale) { x *= scale; return (x > -1.9e9 && x < 1.9e9) ? lround(x) : vf::BAD; }
struct Fn {
	typedef double RealType;
	std::vector<long> f;
	double lo, hi;
	mutable long evals, outside;
	double operator()(double x) const
	{
		++evals;
		if (!(x >= lo && x <= hi)) { ++outside; return 0; }
		long i = static_cast<long>(std::floor(x));
		double r = x - i;
		return r == 0 ? f[i] : f[i] * (1 - r) + f[i + 1] * r;
	}
};
OP(S) { }
OP(root)
{
	Fn f;
	f.f = in.V<long>();
	long a = in.I(), b = in.I(), n = in.I(), tol = in.I();
	f.lo = std::min(a, b);
	f.hi = std::max(a, b);
	f.evals = f.outside = 0;
	RootFindingBisection<Fn> r(f, a, b, n, tol / 1024.);
	out.i("c", vf::ex(r() * 4096));
	out.i("evals", f.evals);
	out.i("outside", f.outside);
}
OP(akima)
{
	std::vector<long> x = in.V<long>(), s = in.V<long>();
	std::vector<double> xd(x.begin(), x.end()), sd(s.begin(), s.end());
	AkimaSpline<std::vector<double>> ak(xd, sd);
	std::vector<long> v;
	for (size_t i = 0; i + 1 < x.size(); ++i)
		for (int j = 0; j < 4; ++j) v.push_back(rnd(ak(xd[i] + (xd[i + 1] - xd[i]) * j / 4), 300));
	v.push_back(rnd(ak(xd.back()), 300));
	out.v("v", v);
	out.i("from", vf::ex(ak.getInterval().first));
	out.i("to", vf::ex(ak.getInterval().second));
	int below = 0, above = 0;
	try { ak(xd[0] - 0.001); } catch (std::exception&) { below = 1; }
	try { ak(xd.back() + 0.001); } catch (std::exception&) { above = 1; }
	out.i("below", below);
	out.i("above", above);
}
VF_MAIN
