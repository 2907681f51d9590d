#include "common.h"
#include "PsimagLite.h"
#include "Ainur/Ainur.h"
#include "InputNg.h"
#include "Matrix.h"
#include <map>
#include <memory>
using namespace PsimagLite;
typedef vf::cplx cplx;
struct Checker {
	std::string import_;
	std::string import() const { return import_; }
	bool check(const String&, const Vector<String>::Type&, SizeType) const { return false; }
	void check(const String&, const String&, SizeType) const {}
	bool checkSimpleLabel(const String&, SizeType) const { return false; }
};
typedef InputNg<Checker> Ng;
static std::unique_ptr<Ng::Readable> a;
static Ng::Readable& R()
{
	if (!a) throw std::runtime_error("no input");
	return *a;
}
static std::string el(long x) { return "[" + vf::Out::num(x) + "]"; }
static std::string el(int x) { return "[" + vf::Out::num(x) + "]"; }
static std::string el(SizeType x) { return "[" + vf::Out::num(x < 1000000000 ? long(x) : vf::BAD) + "]"; }
static std::string el(double x) { return "[" + vf::Out::num(vf::near(x, 1e-5, 1000)) + "]"; }
static std::string el(const cplx& x) { return "[" + vf::Out::num(vf::near(x.real(), 1e-5, 1000)) + "," + vf::Out::num(vf::near(x.imag(), 1e-5, 1000)) + "]"; }
static std::string el(const std::string& x) { return vf::Out::codes(x); }
OP(S) { a.reset(); }
OP(file)
{
	std::string n = in.S();
	std::vector<std::string> l = in.VS();
	std::ofstream f(n);
	for (size_t i = 0; i < l.size(); ++i) f << l[i] << "\n";
}
// text import from-a-file
OP(text)
{
	Ng::Writeable w(Checker(), in.S());
	out.s("data", w.data());
}
OP(prog)
{
	a.reset();
	std::string t = in.S();
	Checker c;
	c.import_ = in.S();
	long file = in.I();
	if (file) {
		std::string n = file == 1 ? "input.ain" : "input.inp";
		{ std::ofstream f(n, std::ios::binary); f << t; }
		Ng::Writeable w(n, c);
		a.reset(new Ng::Readable(w));
	} else {
		Ng::Writeable w(c, t);
		a.reset(new Ng::Readable(w));
	}
	out.s("data", a->data());
	out.i("ainur", a->isAinur());
	out.i("version", a->version() == 3 ? 3 : a->version() == 2 ? 2 : vf::BAD);
	auto m = a->map();
	std::string r = "[";
	for (auto& p : m) r += (r.size() > 1 ? ",[" : "[") + el(p.first) + "," + el(p.second) + "]";
	out.raw("map", r + "]");
}
template <typename T> void scalar(vf::Out& out, const std::string& n, T t)
{
	R().readline(t, n);
	out.raw("got", el(t));
}
template <typename T> void vec(vf::Out& out, const std::string& n, size_t had)
{
	std::vector<T> t(had);
	R().read(t, n);
	std::string r = "[";
	for (size_t i = 0; i < t.size(); ++i) r += (i ? "," : "") + el(t[i]);
	out.raw("got", r + "]");
}
template <typename T> void mat(vf::Out& out, const std::string& n, size_t had)
{
	Matrix<T> t;
	if (had) t.resize(had, 3);
	R().read(t, n);
	std::string r = "[";
	for (size_t i = 0; i < t.rows(); ++i) {
		r += i ? ",[" : "[";
		for (size_t j = 0; j < t.cols(); ++j) r += (j ? "," : "") + el(t(i, j));
		r += "]";
	}
	out.raw("got", r + "]");
}
OP(rd)
{
	std::string n = in.S(), sh = in.tok(), k = in.tok();
	int had = in.I();
	if (sh == "s") {
		if (k == "i" && had) scalar<long>(out, n, 77);
		else if (k == "i") scalar<int>(out, n, 77);
		else if (k == "u") scalar<SizeType>(out, n, 77);
		else if (k == "d") scalar<double>(out, n, 77);
		else scalar<std::string>(out, n, "old");
	} else if (sh == "v") {
		if (k == "i") vec<int>(out, n, had);
		else if (k == "u") vec<SizeType>(out, n, had);
		else if (k == "d") vec<double>(out, n, had);
		else if (k == "z") vec<cplx>(out, n, had);
		else vec<std::string>(out, n, had);
	} else {
		if (k == "d") mat<double>(out, n, had);
		else if (k == "z") mat<cplx>(out, n, had);
		else mat<std::string>(out, n, had);
	}
}
OP(unused)
{
	std::ostringstream os;
	R().printUnused(os);
	std::istringstream is(os.str());
	std::vector<std::string> r;
	std::string l;
	bool first = true;
	while (std::getline(is, l)) {
		if (!first) r.push_back(l);
		first = false;
	}
	out.vs("got", r);
}
VF_MAIN
