#include "common.h"
#include "PsimagLite.h"
#include "Complex.h"
#include "PredicateAwesome.h"
#include <memory>
using namespace PsimagLite;
typedef vf::cplx cplx;
static std::string two(double a, double b, long den)
{
	return "[" + vf::Out::num(vf::near(a, 1e-6, den)) + "," + vf::Out::num(vf::near(b, 1e-6, den)) + "]";
}
static std::string cell(double x, long den) { return two(x, 0, den); }
static std::string cell(int x, long den) { return two(x, 0, den); }
static std::string cell(SizeType x, long den) { return two(static_cast<double>(x), 0, den); }
static std::string cell(const cplx& x, long den) { return two(x.real(), x.imag(), den); }
template <typename T> static std::string eval(const std::vector<std::string>& toks, long den)
{
	typedef PlusMinusMultiplyDivide<T> P;
	P p;
	ExpressionForAST<P> e(toks, p);
	std::string a = cell(e.exec(), den);
	std::string b = cell(e.exec(), den);
	return a == b ? a : "[2000000002,0]";
}
OP(eval)
{
	std::string t = in.tok();
	long den = in.I();
	std::vector<std::string> toks = in.VS();
	std::string v;
	switch (t[0]) {
	case 'i': v = eval<int>(toks, den); break;
	case 'u': v = eval<SizeType>(toks, den); break;
	case 'd': v = eval<double>(toks, den); break;
	default: v = eval<cplx>(toks, den);
	}
	out.raw("v", v);
}
OP(lit) { out.raw("v", cell(stringToComplex(in.S()), 1000)); }
struct Settings {
	std::vector<std::string> seen;
	void operator()(String s) { seen.push_back(s); }
};
static std::unique_ptr<PredicateAwesome<> > plain;
static std::unique_ptr<PredicateAwesome<Settings> > full;
OP(S)
{
	plain.reset();
	full.reset();
}
OP(pred)
{
	plain.reset();
	full.reset();
	std::string s = in.S(), o = in.S(), a = in.S();
	Settings set;
	if (in.I()) {
		full.reset(new PredicateAwesome<Settings>(s, o, a, &set));
	} else if (o == "," && a == "&") {
		plain.reset(new PredicateAwesome<>(s));
	} else {
		plain.reset(new PredicateAwesome<>(s, o, a));
	}
	out.vs("set", set.seen);
}
template <typename T, typename P> static bool is(P& p, const std::vector<std::string>& n, const std::vector<T>& v)
{
	switch (n.size()) {
	case 1: return p.isTrue(n[0], v[0]);
	case 2: return p.isTrue(n[0], v[0], n[1], v[1]);
	case 3: return p.isTrue(n[0], v[0], n[1], v[1], n[2], v[2]);
	default: return p.isTrue(n[0], v[0], n[1], v[1], n[2], v[2], n[3], v[3]);
	}
}
template <typename T> static bool ask(const std::vector<std::string>& n, const std::vector<T>& v)
{
	if (full) return is(*full, n, v);
	if (!plain) throw std::runtime_error("no predicate");
	return is(*plain, n, v);
}
OP(is)
{
	std::string t = in.tok();
	std::vector<std::string> n = in.VS();
	std::vector<long> m = in.V<long>(); // thousandths
	std::vector<int> vi;
	std::vector<SizeType> vu;
	std::vector<double> vd;
	for (long x : m) {
		vi.push_back(x / 1000);
		vu.push_back(x / 1000);
		vd.push_back(x / 1000.0);
	}
	bool b = (t == "i") ? ask(n, vi) : (t == "u") ? ask(n, vu) : ask(n, vd);
	out.b("v", b);
}
VF_MAIN
