#include "common.h"
#include "PsimagLite.h"
#include "InputNg.h"
#include <map>
#include <memory>
#include <set>
using namespace PsimagLite;
typedef vf::cplx cplx;
struct Checker {
	std::set<std::string> known, lax;
	std::string import() const { return ""; }
	bool check(const String& l, const Vector<String>::Type&, SizeType) const { return lax.count(l) > 0; }
	void check(const String&, const String&, SizeType) const {}
	bool checkSimpleLabel(const String& l, SizeType) const
	{
		if (!known.count(l)) throw RuntimeError("label " + l + " unknown\n");
		return false;
	}
};
typedef InputNg<Checker> Ng;
static std::unique_ptr<Ng::Readable> r;
static Ng::Readable& R()
{
	if (!r) throw std::runtime_error("no input");
	return *r;
}
static std::string el(int x) { return vf::Out::num(x); }
static std::string el(long x) { return vf::Out::num(x); }
static std::string el(SizeType x) { return vf::Out::num(x < 1000000000 ? long(x) : vf::BAD); }
static std::string el(double x) { return vf::Out::num(vf::near(x, 1e-5, 1000)); }
static std::string el(const cplx& x) { return "[" + vf::Out::num(vf::near(x.real(), 1e-5, 1000)) + "," + vf::Out::num(vf::near(x.imag(), 1e-5, 1000)) + "]"; }
static std::string el(const std::string& x) { return vf::Out::codes(x); }
OP(S) { r.reset(); }
OP(parse)
{
	r.reset();
	std::string t = in.S();
	Checker c;
	for (auto& s : in.VS()) c.known.insert(s);
	for (auto& s : in.VS()) c.lax.insert(s);
	if (in.I()) {
		{ std::ofstream f("input.inp", std::ios::binary); f << t; }
		Ng::Writeable w("input.inp", c);
		r.reset(new Ng::Readable(w));
	} else {
		Ng::Writeable w(c, t);
		r.reset(new Ng::Readable(w));
	}
}
OP(map)
{
	std::map<std::string, std::vector<std::string> > g;
	auto m = R().map();
	for (auto& p : m) g[p.first.substr(0, p.first.find('@'))].push_back(p.second);
	std::string s = "[";
	for (auto& p : g) {
		s += (s.size() > 1 ? ",[" : "[") + el(p.first) + ",[";
		for (size_t i = 0; i < p.second.size(); ++i) s += (i ? "," : "") + el(p.second[i]);
		s += "]]";
	}
	out.raw("got", s + "]");
}
template <typename T> void line(vf::Out& out, const std::string& n, T t)
{
	R().readline(t, n);
	out.raw("got", el(t));
}
OP(line)
{
	std::string n = in.S(), k = in.tok();
	bool clean = in.I(), force = in.I();
	if (k == "i") line<int>(out, n, 77);
	else if (k == "u") line<SizeType>(out, n, 77);
	else if (k == "l") line<long>(out, n, 77);
	else if (k == "d") line<double>(out, n, 77);
	else {
		std::string t = "old";
		R().readline(t, n, clean, force);
		out.raw("got", el(t));
	}
}
OP(rread)
{
	std::string n = in.S();
	SizeType u = 77;
	R().read(u, n);
	out.raw("got", el(u));
}
template <typename T> void list(vf::Out& out, const std::string& n)
{
	std::vector<T> t(2);
	R().read(t, n);
	std::string s = "[";
	for (size_t i = 0; i < t.size(); ++i) s += (i ? "," : "") + el(t[i]);
	out.raw("got", s + "]");
}
OP(list)
{
	std::string n = in.S(), k = in.tok();
	if (k == "i") list<int>(out, n);
	else if (k == "u") list<SizeType>(out, n);
	else if (k == "d") list<double>(out, n);
	else if (k == "z") list<cplx>(out, n);
	else list<std::string>(out, n);
}
template <typename T> void mat(vf::Out& out, const std::string& n)
{
	Matrix<T> t;
	R().read(t, n);
	std::string s = "[";
	for (size_t i = 0; i < t.rows(); ++i) {
		s += i ? ",[" : "[";
		for (size_t j = 0; j < t.cols(); ++j) s += (j ? "," : "") + el(t(i, j));
		s += "]";
	}
	out.raw("got", s + "]");
}
OP(mat)
{
	std::string n = in.S(), k = in.tok();
	if (k == "d") mat<double>(out, n);
	else mat<cplx>(out, n);
}
OP(rmap)
{
	std::map<std::string, double> m;
	R().read(m, in.S());
	std::string s = "[";
	for (auto& p : m) s += (s.size() > 1 ? ",[" : "[") + el(p.first) + "," + el(p.second) + "]";
	out.raw("got", s + "]");
}
VF_MAIN
