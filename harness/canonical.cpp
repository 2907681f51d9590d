#include "common.h"
#include "PsimagLite.h"
#include "CanonicalExpression.h"
#include <cmath>
using namespace PsimagLite;
typedef vf::cplx cplx;
template <typename F> struct Mat {
	int n;
	std::vector<F> m;
	Mat() : n(0) {}
	Mat& operator+=(const Mat& o)
	{
		if (n != o.n) throw std::runtime_error("sizes");
		for (size_t i = 0; i < m.size(); ++i) m[i] += o.m[i];
		return *this;
	}
	Mat& operator*=(const Mat& o)
	{
		std::vector<F> r(n * n, F(0));
		for (int i = 0; i < n; ++i)
			for (int j = 0; j < n; ++j)
				for (int k = 0; k < n; ++k) r[i * n + j] += m[i * n + k] * o.m[k * n + j];
		m = r;
		return *this;
	}
	Mat& operator*=(const F& f)
	{
		for (auto& x : m) x *= f;
		return *this;
	}
};
static std::map<std::string, std::pair<int, std::vector<cplx> > > env;
static void put(double& x, const cplx& z) { x = z.real(); }
static void put(cplx& x, const cplx& z) { x = z; }
template <typename F> static Mat<F> make(int n, const std::vector<cplx>& v)
{
	Mat<F> r;
	r.n = n;
	r.m.resize(v.size());
	for (size_t i = 0; i < v.size(); ++i) put(r.m[i], v[i]);
	return r;
}
template <typename F> struct Spec {
	typedef Mat<F> ResultType;
	typedef F ComplexOrRealType;
	typedef int AuxiliaryType;
	static bool isEmpty(const ResultType& r) { return r.n == 0; }
	static bool metaEqual(const ResultType& a, const ResultType& b) { return a.n == b.n; }
	ResultType operator()(const std::string& s, int& aux) const
	{
		++aux;
		auto it = env.find(s);
		if (it == env.end()) throw RuntimeError("no item " + s + "\n");
		return make<F>(it->second.first, it->second.second);
	}
};
static std::vector<cplx> cells(vf::In& in)
{
	std::vector<cplx> v(in.I());
	for (auto& z : v) {
		in.I();
		double a = in.I();
		z = cplx(a, in.I());
	}
	return v;
}
OP(S) { env.clear(); }
OP(let)
{
	std::string s = in.S();
	int n = in.I();
	env[s] = std::make_pair(n, cells(in));
}
template <typename F> static void run(vf::Out& out, const std::string& s, int n, const std::vector<cplx>& v, long den)
{
	Spec<F> spec;
	CanonicalExpression<Spec<F> > ce(spec);
	Mat<F> r = make<F>(n, v), empty;
	int aux = 0;
	bool b = ce(r, s, empty, aux);
	out.b("some", b);
	out.i("rn", r.n);
	std::string t = "[";
	for (auto& x : r.m) {
		cplx z(x);
		t += (t.size() > 1 ? ",[" : "[") + vf::Out::num(vf::near(z.real(), 1e-6, den)) + "," + vf::Out::num(vf::near(z.imag(), 1e-6, den)) + "]";
	}
	out.raw("rm", t + "]");
}
OP(canon)
{
	std::string t = in.tok(), s = in.S();
	int n = in.I();
	std::vector<cplx> v = cells(in);
	long den = in.I();
	if (t == "d") run<double>(out, s, n, v, den);
	else run<cplx>(out, s, n, v, den);
}
OP(pi)
{
	env["one"] = std::make_pair(1, std::vector<cplx>(1, 1.0));
	Spec<double> spec;
	CanonicalExpression<Spec<double> > ce(spec);
	Mat<double> r = make<double>(1, std::vector<cplx>(1, 0.0)), empty;
	int aux = 0;
	ce(r, "(pi)*one", empty, aux);
	out.i("v", static_cast<long>(std::floor(r.m[0] * 1e6 + .5)));
}
VF_MAIN
