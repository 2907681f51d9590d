#include "mat.h"
#include "Vector.h"
#include "Integrator.h"
#include "Minimizer.h"
#include "SpecialFunctions.h"
#include "LinearPrediction.h"
using namespace PsimagLite;
using vf::cplx;
typedef std::vector<double> Vec;
// the integrands: a polynomial p in several settings
struct Fn {
	typedef double RealType;
	struct Params {
		int kind;
		Vec c;
		double s;
	};
	Params p;
	Params& params() { return p; }
	static double poly(const Vec& c, double x)
	{
		double r = 0;
		for (size_t i = c.size(); i-- > 0;)
			r = r * x + c[i];
		return r;
	}
	static double function(double x, void* v)
	{
		const Params& p = *static_cast<Params*>(v);
		switch (p.kind) {
		case 0: return poly(p.c, x);
		case 1: return x < p.s ? -poly(p.c, x) : poly(p.c, x); // changes sign at s
		case 2: return poly(p.c, 1 / x) / (x * x);
		case 3: return poly(p.c, x - p.s) * std::exp(p.s - x);
		case 4: return poly(p.c, x) * std::exp(-x * x) / std::sqrt(M_PI);
		default: return poly(p.c, x) * std::cos(x) / x;
		}
	}
};
static Vec ints(vf::In& in)
{
	Vec v;
	size_t n = in.I();
	for (size_t i = 0; i < n; ++i)
		v.push_back(in.I());
	return v;
}
OP(S) { }
// one integrator, several integrals; unit: by what the results are multiplied
OP(integ)
{
	Fn f;
	f.p.kind = in.I();
	f.p.c = ints(in);
	f.p.s = in.I();
	double unit = in.I();
	Integrator<Fn> I(f);
	size_t n = in.I();
	std::vector<long> r;
	for (size_t i = 0; i < n; ++i) {
		in.I(); // length of the list
		int how = in.I(), key = in.I();
		Vec pts = ints(in);
		double x = how == 0 ? I(pts, Integrator<Fn>::INTEG_QAG, key) : how == 1 ? I(pts, Integrator<Fn>::INTEG_QAGP)
		    : how == 2 ? I.toInfinity(pts[0]) : I();
		r.push_back(vf::near(x * unit, 1e-4 + 2e-9 * std::fabs(x * unit)));
	}
	out.v("r", r);
}
// f(x) = (x - m)^T A (x - m) / 2 + c
struct Bowl {
	typedef double FieldType;
	std::vector<Vec> a;
	Vec m;
	double c;
	size_t size() const { return m.size(); }
	double operator()(const Vec& x) const
	{
		double r = c;
		for (size_t i = 0; i < m.size(); ++i)
			for (size_t j = 0; j < m.size(); ++j)
				r += .5 * (x.at(i) - m[i]) * a[i][j] * (x.at(j) - m[j]);
		return r;
	}
	void df(Vec& d, const Vec& x) const
	{
		for (size_t i = 0; i < m.size(); ++i) {
			d.at(i) = 0;
			for (size_t j = 0; j < m.size(); ++j)
				d[i] += a[i][j] * (x.at(j) - m[j]);
		}
	}
};
typedef Minimizer<double, Bowl> Min;
static Bowl bowl;
static Min* mini = nullptr;
OP(new)
{
	delete mini;
	mini = nullptr;
	bowl = Bowl();
	size_t n = in.I();
	for (size_t i = 0; i < n; ++i)
		bowl.a.push_back(ints(in));
	bowl.m = ints(in);
	bowl.c = in.I();
	size_t most = in.I();
	bool verbose = in.I();
	mini = new Min(bowl, most, verbose);
	out.s("st", mini->statusString());
}
// does the simplex method of the GSL alone go round in circles from here?
#ifdef USE_GSL
static double bareValue(const gsl_vector* x, void*)
{
	Vec v;
	for (size_t i = 0; i < x->size; ++i) v.push_back(gsl_vector_get(x, i));
	return bowl(v);
}
static bool circles(const Vec& start)
{
	size_t n = start.size();
	gsl_multimin_fminimizer* s = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex2, n);
	gsl_vector *x = gsl_vector_alloc(n), *step = gsl_vector_alloc(n);
	for (size_t i = 0; i < n; ++i) gsl_vector_set(x, i, start[i]);
	gsl_vector_set_all(step, .5);
	gsl_multimin_function f = { bareValue, n, nullptr };
	gsl_multimin_fminimizer_set(s, &f, x, step);
	for (int i = 0; i < 300; ++i) gsl_multimin_fminimizer_iterate(s);
	bool r = gsl_multimin_fminimizer_size(s) > 1e-2;
	gsl_multimin_fminimizer_free(s);
	gsl_vector_free(x);
	gsl_vector_free(step);
	return r;
}
#else
static bool circles(const Vec&) { return false; }
#endif
OP(min)
{
	int how = in.I(), save = in.I();
	Vec v = ints(in);
	long off = in.I(); // hundredths
	if (off) v[0] += off * .01;
	if (!mini) throw std::runtime_error("no minimizer");
	double before = bowl(v);
	bool round = !how && circles(v);
	int it = how ? mini->conjugateGradient(v, 1e-2, 1e-4, 1e-6, save) : mini->simplex(v, .5, 1e-5);
	std::vector<long> r;
	for (double x : v)
		r.push_back(vf::near(x, 1e-3));
	out.i("it", it);
	out.s("st", mini->statusString());
	out.b("ok", mini->status() == Min::GSL_SUCCESS);
	out.v("v", r);
	out.b("less", bowl(v) <= before);
	out.b("round", round);
}
static std::string pair(const cplx& z, double scale = 1)
{
	return "[" + vf::Out::num(vf::near(z.real(), 1e-7 * scale)) + "," + vf::Out::num(vf::near(z.imag(), 1e-7 * scale)) + "]";
}
// at z = (a + b i)/2
OP(gamma)
{
	double a = in.I(), b = in.I();
	cplx z(a / 2, b / 2);
	cplx g = LnGammaFunction(z);
	out.raw("next", pair(2. * std::exp(LnGammaFunction(z + 1.) - g), 1 + std::abs(z)));
	cplx h = LnGammaFunction(std::conj(z));
	out.raw("conj", pair(std::exp(std::conj(h) - g)));
	bool poles = b == 0 && a <= 0;
	out.raw("twice", poles ? "[1,0]" : pair(std::exp(g + LnGammaFunction(z + .5) - LnGammaFunction(2. * z) + (2. * z - 1.) * std::log(2.)) / std::sqrt(M_PI)));
	double x = std::exp(b == 0 ? g.real() : 0);
	out.i("val", a > 0 && a < 20 && b == 0 ? ((long)a % 2 ? vf::near(x / std::sqrt(M_PI) * std::pow(2., (a - 1) / 2), 1e-5 + 1e-10 * x) : vf::near(x, 1e-5 + 1e-10 * x)) : 0);
	out.b("pi", std::fabs(g.imag()) <= M_PI * (1 + 1e-12));
}
OP(ci)
{
	double a = in.I(), b = in.I();
	Fn f;
	f.p.kind = 5;
	f.p.c = Vec(1, 1);
	Integrator<Fn> I(f);
	Vec pts;
	pts.push_back(a / 4);
	pts.push_back(b / 4);
	double x = I(pts);
	out.i("d", vf::near((Ci(b / 4) - Ci(a / 4) - x) * 1e3, 1e-3));
	double e = .01 * a;
	out.i("s", vf::near(1e3 * (Ci(e) - 0.57721566490153286061 - std::log(e) + e * e / 4 - std::pow(e, 4) / 96 + std::pow(e, 6) / 4320), 1e-3));
}
// y in units of 2^-u
OP(lp2)
{
	long u = in.I();
	Vec y = ints(in);
	for (double& x : y)
		x = std::ldexp(x, -u);
	long p = in.I(), q = in.I();
	LinearPrediction<double> lp(y, p);
	lp.predict2(q);
	std::vector<long> r;
	for (size_t i = 0; i < y.size() + q; ++i)
		r.push_back(vf::near(std::ldexp(lp(i), u), 1e-3));
	out.v("v", r);
}
VF_MAIN
