#include "common.h"
#include "PsimagLite.h"
#include "Ainur/Ainur.h"
#include "Matrix.h"
#include <map>
#include <memory>
using namespace PsimagLite;
typedef vf::cplx cplx;
static std::unique_ptr<Ainur> a;
static std::string el(int x) { return "[" + vf::Out::num(x) + "]"; }
static std::string el(SizeType x) { return "[" + vf::Out::num(x < 1000000000 ? long(x) : vf::BAD) + "]"; }
static std::string el(double x) { return "[" + vf::Out::num(vf::near(x, 1e-5, 1000)) + "]"; }
static std::string el(const cplx& x) { return "[" + vf::Out::num(vf::near(x.real(), 1e-5, 1000)) + "," + vf::Out::num(vf::near(x.imag(), 1e-5, 1000)) + "]"; }
static std::string el(const std::string& x) { return vf::Out::codes(x); }
OP(S) { a.reset(); }
OP(file)
{
	std::string n = in.S();
	std::vector<std::string> l = in.VS();
	long pad = in.I(); // so many blanks more on every second line
	std::ofstream f(n);
	for (size_t i = 0; i < l.size(); ++i) f << l[i] << std::string((i + 1) % 2 * pad, ' ') << "\n";
}
OP(prog) { a.reset(); a.reset(new Ainur(in.S())); }
template <typename T> void scalar(vf::Out& out, const std::string& n, T t)
{
	a->readValue(t, n);
	out.raw("got", el(t));
}
template <typename T> void vec(vf::Out& out, const std::string& n, size_t had)
{
	std::vector<T> t(had);
	a->readValue(t, n);
	std::string r = "[";
	for (size_t i = 0; i < t.size(); ++i) r += (i ? "," : "") + el(t[i]);
	out.raw("got", r + "]");
}
template <typename T> void mat(vf::Out& out, const std::string& n, size_t had)
{
	Matrix<T> t;
	if (had) t.resize(had, 3);
	a->readValue(t, n);
	std::string r = "[";
	for (size_t i = 0; i < t.rows(); ++i) {
		r += i ? ",[" : "[";
		for (size_t j = 0; j < t.cols(); ++j) r += (j ? "," : "") + el(t(i, j));
		r += "]";
	}
	out.raw("got", r + "]");
}
OP(rd)
{
	std::string n = in.S(), sh = in.tok(), k = in.tok();
	int had = in.I();
	if (sh == "s") {
		if (k == "i") scalar<int>(out, n, 77);
		else if (k == "u") scalar<SizeType>(out, n, 77);
		else if (k == "d") scalar<double>(out, n, 77);
		else scalar<std::string>(out, n, "old");
	} else if (sh == "v") {
		if (k == "i") vec<int>(out, n, had);
		else if (k == "u") vec<SizeType>(out, n, had);
		else if (k == "d") vec<double>(out, n, had);
		else if (k == "z") vec<cplx>(out, n, had);
		else vec<std::string>(out, n, had);
	} else {
		if (k == "d") mat<double>(out, n, had);
		else if (k == "z") mat<cplx>(out, n, had);
		else mat<std::string>(out, n, had);
	}
}
OP(unused)
{
	std::ostringstream os;
	a->printUnused(os);
	std::istringstream is(os.str());
	std::vector<std::string> r;
	std::string l;
	bool first = true;
	while (std::getline(is, l)) {
		if (!first) r.push_back(l);
		first = false;
	}
	out.vs("got", r);
}
OP(map)
{
	std::map<std::string, std::string> m;
	a->setMap(m);
	std::string r = "[";
	for (auto& p : m) r += (r.size() > 1 ? ",[" : "[") + el(p.first) + "," + el(p.second) + "]";
	out.raw("got", r + "]");
}
OP(resolve) { out.raw("got", el(a->resolve(in.S()))); }
VF_MAIN
