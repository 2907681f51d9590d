#include "common.h"
#include "PsimagLite.h"
#include "OneOperatorSpec.h"
#include "GetBraOrKet.h"
using namespace PsimagLite;
OP(S) {}
OP(op)
{
	OneOperatorSpec o(in.S());
	out.s("label", o.label);
	out.i("dof", o.dof);
	out.b("tr", o.transpose);
}
OP(site)
{
	std::string s = in.S();
	char b = in.I(), c = in.I();
	OneOperatorSpec::SiteSplit p = (b == '[' && c == ']') ? OneOperatorSpec::extractSiteIfAny(s) : OneOperatorSpec::extractSiteIfAny(s, b, c);
	out.b("has", p.hasSiteString);
	out.s("root", p.root);
	out.s("site", p.siteString);
}
OP(num)
{
	std::string s = in.S();
	out.b("is", OneOperatorSpec::isNonNegativeInteger(s));
	long n = -1;
	try {
		n = OneOperatorSpec::strToNumberOrFail(s);
	} catch (const std::exception&) {
	}
	out.i("n", n);
}
template <typename F> static long val(F f)
{
	try {
		return f();
	} catch (const std::exception&) {
		return -1;
	}
}
OP(vec)
{
	GetBraOrKet g(in.S());
	out.b("ket", g.isKet());
	out.s("body", g.toString());
	out.b("pv", g.isPvector());
	out.b("rv", g.isRvector());
	out.i("level", val([&]() { return g.levelIndex(); }));
	out.i("sector", val([&]() { return g.sectorIndex(); }));
	out.i("p", val([&]() { return g.pIndex(); }));
}
VF_MAIN
