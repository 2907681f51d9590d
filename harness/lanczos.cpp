#include "mat.h"
#include "CrsMatrix.h"
#include "ParametersForSolver.h"
#include "LanczosSolver.h"
#include "ContinuedFraction.h"
#include "ContinuedFractionCollection.h"
#include "Io/IoSimple.h"
#include <memory>
using namespace PsimagLite;
using vf::cplx;
typedef std::vector<std::complex<double>> VC;
typedef std::vector<double> VD;
typedef ParametersForSolver<double> Params;
static const double K = 1e4;
static long rnd(double x, double scale) { x *= scale; return (x > -1.9e9 && x < 1.9e9) ? lround(x) : vf::BAD; }
template <typename T> T conv(const cplx& z);
template <> double conv<double>(const cplx& z) { return z.real(); }
template <> cplx conv<cplx>(const cplx& z) { return z; }
template <typename V> static std::string fix(const V& v, double scale = K)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i) {
		cplx z(v[i]);
		r += (i ? ",[" : "[") + vf::Out::num(rnd(z.real(), scale)) + "," + vf::Out::num(rnd(z.imag(), scale)) + "]";
	}
	return r + "]";
}
struct Base {
	virtual ~Base() {}
	virtual void solver(const Params& p) = 0;
	virtual void one(vf::In& in, vf::Out& out) = 0;
	virtual void all(vf::In& in, vf::Out& out) = 0;
	virtual void dec(vf::In& in, vf::Out& out) = 0;
	virtual void basis(vf::In& in, vf::Out& out) = 0;
	virtual void cf(vf::In& in, vf::Out& out) = 0;
};
static std::vector<ContinuedFraction<TridiagonalMatrix<double>>> cfs;
template <typename T> struct Sys : Base {
	typedef std::vector<T> Vec;
	typedef LanczosSolver<Params, CrsMatrix<T>, Vec> Solver;
	typedef typename Solver::TridiagonalMatrixType Tri;
	CrsMatrix<T> h;
	double s2;
	Params p;
	std::unique_ptr<Solver> ls;
	Sys(const VC& v, const std::vector<long>& d)
	{
		size_t n = v.size();
		double s = 0;
		for (auto& x : v) s += std::norm(x);
		std::vector<VC> m(n, VC(n));
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) m[i][j] = (i == j ? s : 0) - 2. * v[i] * std::conj(v[j]);
		Matrix<T> a(n, n);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) {
				cplx x = 0;
				for (size_t k = 0; k < n; ++k) x += m[i][k] * double(d[k]) * m[k][j];
				a(i, j) = conv<T>(x);
			}
		h = CrsMatrix<T>(a);
		s2 = s * s;
	}
	void solver(const Params& q) { p = q; ls.reset(); ls.reset(new Solver(h, p)); }
	Vec start(vf::In& in) { VC x = vf::getVec<cplx>(in); Vec r; for (auto& q : x) r.push_back(conv<T>(q)); return r; }
	void one(vf::In& in, vf::Out& out)
	{
		Vec x = start(in);
		size_t k = in.I();
		Vec z(h.rows(), in.I());
		double e = 0;
		ls->computeOneState(e, z, x, k);
		out.i("E", vf::near(e / s2, 1e-7));
		out.i("Ef", rnd(e / s2, 1e6));
		out.raw("z", fix(z));
		out.i("steps", ls->steps());
	}
	void all(vf::In& in, vf::Out& out)
	{
		Vec x = start(in);
		size_t k = in.I(), nz = in.I();
		std::vector<Vec> z(nz, Vec(h.rows(), 0));
		VD e;
		ls->computeAllStatesBelow(e, z, x, k);
		std::vector<long> r;
		for (double q : e) r.push_back(vf::near(q / s2, 1e-7));
		out.v("E", r);
		std::string zs = "[";
		for (size_t i = 0; i < nz; ++i) zs += (i ? "," : "") + fix(z[i]);
		out.raw("z", zs + "]");
	}
	void dec(vf::In& in, vf::Out& out)
	{
		Vec x = start(in);
		Tri ab;
		ls->decomposition(x, ab);
		std::vector<long> a, b;
		for (size_t i = 0; i < ab.size(); ++i) { a.push_back(rnd(ab.a(i) / s2, 1e5)); b.push_back(rnd(ab.b(i) / s2, 1e5)); }
		out.v("a", a);
		out.v("b", b);
		vectors(out);
	}
	void basis(vf::In& in, vf::Out& out)
	{
		Vec x = start(in);
		Tri ab;
		ls->decomposition(x, ab);
		out.i("m", ab.size());
		vectors(out);
	}
	void vectors(vf::Out& out)
	{
		Matrix<T> v;
		ls->lanczosVectorsSwap(v);
		std::string vs = "[";
		for (size_t j = 0; j < v.cols(); ++j) {
			Vec c;
			for (size_t i = 0; i < v.rows(); ++i) c.push_back(v(i, j));
			vs += (j ? "," : "") + fix(c, 1e3);
		}
		out.raw("V", vs + "]");
	}
	void cf(vf::In& in, vf::Out& out)
	{
		Vec x = start(in);
		Tri ab;
		ls->decomposition(x, ab);
		Params q;
		q.Eg = in.D() * s2;
		q.weight = in.D();
		q.isign = in.I();
		ContinuedFraction<Tri> c(ab, q);
		int set = in.I();
		if (set) { ContinuedFraction<Tri> c2(set == 2 ? FREQ_MATSUBARA : FREQ_REAL); c2.set(ab, q.Eg, q.weight, q.isign); c = c2; }
		cfs.push_back(c);
		out.i("size", c.size());
	}
};
static std::unique_ptr<Base> sys;
static double scaleS2;
OP(S)
{
	sys.reset();
	cfs.clear();
	bool c = in.I();
	VC v = vf::getVec<cplx>(in);
	std::vector<long> d = in.V<long>();
	if (c) sys.reset(new Sys<cplx>(v, d));
	else sys.reset(new Sys<double>(v, d));
	double s = 0;
	for (auto& x : v) s += std::norm(x);
	scaleS2 = s * s;
}
OP(solver)
{
	Params p;
	p.steps = in.I();
	p.minSteps = in.I();
	static const double tol[] = { 0, 1e-12, 1e-9 };
	p.tolerance = tol[in.I()];
	p.lotaMemory = in.I();
	p.options = in.I() ? "none,reortho,x" : "none";
	p.eigsForStop = in.I();
	sys->solver(p);
}
OP(one) { sys->one(in, out); }
OP(all) { sys->all(in, out); }
OP(dec) { sys->dec(in, out); }
OP(basis) { sys->basis(in, out); }
OP(cf) { sys->cf(in, out); }
static void value(vf::Out& out, const cplx& z) { std::vector<long> r = { rnd(z.real(), 1e4), rnd(z.imag(), 1e4) }; out.v("g", r); }
OP(at)
{
	size_t i = in.I();
	double x = in.D(), y = in.D(), off = in.D();
	int sgn = in.I();
	value(out, scaleS2 * cfs[i].iOfOmega(cplx(x * scaleS2, y * scaleS2), off * scaleS2, sgn));
}
static void points(vf::Out& out, const std::vector<std::pair<double, cplx>>& r)
{
	std::vector<long> w;
	std::vector<cplx> g;
	for (auto& q : r) { w.push_back(vf::near(q.first / scaleS2, 1e-6)); g.push_back(q.second * scaleS2); }
	out.v("w", w);
	out.raw("g", fix(g));
}
// the plot parameters are whole multiples of s^2
static PlotParams<double> pp(vf::In& in)
{
	double a = in.D() * scaleS2, b = in.D() * scaleS2, c = in.D() * scaleS2, d = in.D() * scaleS2;
	long beta = in.I();
	size_t nm = in.I();
	// beta so that the frequencies are whole numbers
	return PlotParams<double>(a, b, c, d, beta ? M_PI / (beta * scaleS2) : 1, nm);
}
OP(plot)
{
	size_t i = in.I();
	PlotParams<double> q = pp(in);
	std::vector<std::pair<double, cplx>> r;
	cfs[i].plot(r, q);
	points(out, r);
}
OP(coll)
{
	std::vector<long> ids = in.V<long>();
	PlotParams<double> q = pp(in);
	bool file = in.I();
	long times = in.I();
	ContinuedFractionCollection<ContinuedFraction<TridiagonalMatrix<double>>> c(FREQ_REAL);
	for (long i : ids) c.push(cfs[i]);
	std::vector<std::pair<double, cplx>> r;
	if (file) {
		{ IoSimple::Out o("cf.txt"); c.write(o); }
		IoSimple::In io("cf.txt");
		ContinuedFractionCollection<ContinuedFraction<TridiagonalMatrix<double>>> c2(io);
		out.i("n", c2.size());
		for (long i = 0; i < times; ++i) c2.plot(r, q);
		// the file holds enough digits
		std::vector<std::pair<double, cplx>> m;
		for (long i = 0; i < times; ++i) c.plot(m, q);
		bool same = m.size() == r.size();
		for (size_t i = 0; same && i < m.size(); ++i)
			same = std::abs(m[i].second - r[i].second) <= 1e-7 * (1 + std::abs(m[i].second));
		out.b("p", same);
	} else {
		out.b("p", true);
		out.i("n", c.size());
		for (long i = 0; i < times; ++i) c.plot(r, q);
	}
	points(out, r);
}
// a tridiagonal matrix by itself
OP(tri)
{
	std::vector<long> a = in.V<long>(), b = in.V<long>();
	size_t nn = in.I();
	TridiagonalMatrix<double> t;
	for (size_t i = 0; i < a.size(); ++i) t.push(a[i], b[i]);
	out.i("n", t.size());
	Matrix<double> m;
	t.buildDenseMatrix(m, nn);
	out.raw("m", vf::matJs(m));
	VD e(1, 5);
	t.diag(e, nn ? nn : a.size());
	std::vector<long> r;
	for (size_t i = 0; i < (nn ? nn : a.size()); ++i) r.push_back(rnd(e[i], 1e4));
	out.v("ev", r);
}
VF_MAIN
