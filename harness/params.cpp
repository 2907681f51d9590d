#include "common.h"
#include "PsimagLite.h"
#include "InputNg.h"
#include "ParametersForSolver.h"
#include <memory>
using namespace PsimagLite;
struct Checker {
	std::string import() const { return ""; }
	bool check(const String&, const Vector<String>::Type&, SizeType) const { return false; }
	void check(const String&, const String&, SizeType) const {}
	bool checkSimpleLabel(const String&, SizeType) const { return false; }
};
typedef InputNg<Checker> Ng;
static std::unique_ptr<Ng::Readable> r;
OP(S) { r.reset(); }
OP(file)
{
	std::string t = in.S();
	long how = in.I();
	r.reset();
	Checker c;
	if (how) {
		std::string n = how == 1 ? "input.ain" : "input.inp";
		{ std::ofstream f(n, std::ios::binary); f << t; }
		Ng::Writeable w(n, c);
		r.reset(new Ng::Readable(w));
	} else {
		Ng::Writeable w(c, t);
		r.reset(new Ng::Readable(w));
	}
}
static std::string num(double x, double unit) { return vf::Out::num(vf::near(x, 1e-4, unit)); }
template <typename P> static void dump(const P& p, vf::Out& out)
{
	std::string s = "[" + vf::Out::num(p.steps) + "," + vf::Out::num(p.minSteps) + "," + num(p.tolerance, 1e12) + "," + vf::Out::num(p.stepsForEnergyConvergence) + ","
	    + vf::Out::num(p.eigsForStop) + "," + vf::Out::codes(p.options) + "," + num(p.oneOverA, 1000) + "," + num(p.b, 1000) + "," + num(p.Eg, 1000) + "," + (p.lotaMemory ? "1" : "0") + "]";
	if (p.weight != 0 || p.isign != 0) s = "0";
	out.raw("got", s);
}
OP(get)
{
	std::string prefix = in.S();
	int ind = in.I();
	long how = in.I();
	if (!r) throw 2;
	if (how) { ParametersForSolver<double> p(*r, prefix); dump(p, out); }
	else { ParametersForSolver<double> p(*r, prefix, ind); dump(p, out); }
}
OP(none) { ParametersForSolver<double> p; dump(p, out); }
VF_MAIN
