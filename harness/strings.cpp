#include "common.h"
#include "PsimagLite.h"
#include "Options.h"
#include "CanonicalExpression.h"
#include <memory>
using namespace PsimagLite;
static std::unique_ptr<Options::Readable> opts;
OP(S) { opts.reset(); }
OP(split)
{
	std::string s = in.S(), d = in.S();
	std::vector<std::string> v = in.VS();
	if (d == " " && s.size() % 2) split(v, s);
	else split(v, s, d);
	out.vs("got", v);
}
OP(replace)
{
	std::string s = in.S(), f = in.S(), t = in.S();
	replaceAll(s, f, t);
	out.s("got", s);
}
struct Item {
	typedef std::vector<double> ResultType;
	typedef double ComplexOrRealType;
	typedef int AuxiliaryType;
};
OP(subst)
{
	typedef CanonicalExpression<Item, int> C;
	std::string s = in.S(), l = in.S(), v = in.S();
	bool number = in.I();
	std::pair<bool, std::string> a = number ? C::replaceAll(s, l, ::atoi(v.c_str())) : C::replaceAll(s, l, v);
	std::pair<bool, std::string> o = number ? C::replaceOne(s, l, ::atoi(v.c_str())) : C::replaceOne(s, l, v);
	out.b("any", a.first);
	out.s("all", a.second);
	out.b("some", o.first);
	out.s("one", o.second);
}
OP(base)
{
	std::string s = in.S();
	out.s("name", PsimagLite::basename(s));
	out.s("stem", basenameOf(s));
}
OP(isnum)
{
	std::string s = in.S();
	out.b("int", isAnInteger(s));
	out.b("real", isAfloat(s));
}
OP(atoi) { out.i("v", PsimagLite::atoi(in.S())); }
OP(atof) { out.i("v", vf::near(PsimagLite::atof(in.S()), 1e-6, 1000)); }
OP(bits) { out.i("v", log2Integer(in.I())); }
OP(div)
{
	SizeType a = in.I(), b = in.I();
	out.i("v", integerDivision(a, b));
}
OP(opts)
{
	opts.reset();
	int mode = in.I();
	std::vector<std::string> known = in.VS();
	std::string given = in.S();
	typedef Options::Writeable W;
	W w(known, mode == 0 ? W::DISABLED : mode == 1 ? W::PERMISSIVE : W::STRICT);
	known.clear();
	std::ostringstream hide;
	std::streambuf* old = std::cerr.rdbuf(hide.rdbuf());
	try {
		opts.reset(new Options::Readable(w, given));
	} catch (...) {
		std::cerr.rdbuf(old);
		throw;
	}
	std::cerr.rdbuf(old);
}
OP(isset)
{
	if (!opts) throw std::runtime_error("no options");
	out.b("v", opts->isSet(in.S()));
}
VF_MAIN
