#include "common.h"
#include "mat.h"
#include <cassert>
#include <cmath>
#include <cstring>
#include <new>
#include "Geometry/Geometry.h"
#include "Geometry/GeometryDca.h"
#include <deque>
#include <memory>
using namespace PsimagLite;
// Fresh memory is dirty, so that what a constructor leaves uninitialised shows.
void* operator new(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	memset(p, 0xa5, n);
	return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
// The input a geometry is built from: labels with their values, as text.
struct Source {
	std::string prefix_;
	int version_ = 0;
	std::map<std::string, std::deque<std::string>> values;
	std::string& prefix() { return prefix_; }
	int version() const { return version_; }
	std::string next(const std::string& label, bool prefixed = true)
	{
		auto it = values.find((prefixed ? prefix_ : std::string()) + label);
		if (it == values.end() || it->second.empty()) throw std::runtime_error("no " + label);
		std::string s = it->second.front();
		if (it->second.size() > 1) it->second.pop_front();
		return s;
	}
	template <typename T> void readline(T& x, const std::string& label, bool prefixed = true)
	{
		std::istringstream is(next(label.substr(0, label.size() - 1), prefixed));
		is >> x;
	}
	template <typename T> void read(std::vector<T>& v, const std::string& label)
	{
		std::istringstream is(next(label));
		size_t n = 0;
		is >> n;
		v.resize(n);
		for (T& x : v) is >> x;
	}
	template <typename T> void read(Matrix<T>& m, const std::string& label)
	{
		std::istringstream is(next(label));
		size_t r = 0, c = 0;
		is >> r >> c;
		m = Matrix<T>(r, c);
		for (size_t i = 0; i < r; ++i)
			for (size_t j = 0; j < c; ++j) is >> m(i, j);
	}
};
struct Globals {
	enum class ConnectionEnum { SYSTEM_SYSTEM, SYSTEM_ENVIRON, ENVIRON_SYSTEM, ENVIRON_ENVIRON };
};
typedef Geometry<double, Source, Globals> GeoR;
typedef Geometry<vf::cplx, Source, Globals> GeoC;
template <typename G> struct Holder {
	G* g = nullptr;
	void make(Source& s)
	{
		clear();
		g = new G(s);
	}
	void clear()
	{
		delete g;
		g = nullptr;
	}
};
static Holder<GeoR> gr;
static Holder<GeoC> gc;
static bool cplxMode = false;
static std::unique_ptr<Source> src;
template <typename F> static auto with(F f) { return cplxMode ? f(*gc.g) : f(*gr.g); }
#define G(...) with([&](auto& g) { return __VA_ARGS__; })
static void fresh()
{
	cplxMode = false;
	gr.clear();
	gc.clear();
	src.reset(new Source);
}
OP(S) { fresh(); }
OP(mk)
{
	fresh();
	cplxMode = in.I();
	src->version_ = in.I();
	std::vector<std::string> l = in.VS();
	for (size_t q = 0; q + 1 < l.size(); q += 2) src->values[l[q]].push_back(l[q + 1]);
	if (cplxMode) gc.make(*src); else gr.make(*src);
	out.i("sites", G(g.numberOfSites()));
	out.i("terms", G(g.terms()));
	out.s("prefix", src->prefix());
}
static bool alive() { return cplxMode ? gc.g != nullptr : gr.g != nullptr; }
#define NEED if (!alive()) { out.i("no", 1); return; }
OP(graph)
{
	NEED
	size_t t = in.I();
	size_t L = G(g.numberOfSites());
	std::vector<long> c, d, h, o;
	int want = in.I(); // 1: directions as well, 2: bond numbers as well
	for (size_t i = 0; i < L; ++i) {
		o.push_back(G(g.orbitals(t, i)));
		for (size_t j = 0; j < L; ++j) {
			bool b = G(g.connected(0, 1, i, j)); // any term
			c.push_back(b);
			d.push_back(want && b ? long(G(g.calcDir(t, i, j))) : -1);
			h.push_back(want > 1 && b ? long(G(g.handle(t, i, j))) : -1);
		}
	}
	out.v("conn", c);
	out.v("dir", d);
	out.v("num", h);
	out.v("orb", o);
	out.i("dirs", G(g.directions(t)));
}
OP(move)
{
	NEED
	size_t t = in.I(), dir = in.I(), amount = in.I();
	size_t L = G(g.numberOfSites());
	std::vector<long> to;
	for (size_t i = 0; i < L; ++i) to.push_back(G(g.translate(i, dir, amount, t)));
	out.v("to", to);
}
OP(refl)
{
	NEED
	size_t t = in.I();
	size_t L = G(g.numberOfSites());
	std::vector<long> to;
	for (size_t i = 0; i < L; ++i) to.push_back(G(g.findReflection(i, t)));
	out.v("to", to);
}
OP(len) { NEED size_t t = in.I(), d = in.I(); out.i("n", G(g.length(d, t))); }
// every coupling of a term, site by site and orbital by orbital
OP(vals)
{
	NEED
	size_t t = in.I();
	size_t L = G(g.numberOfSites());
	std::vector<long> re, im;
	for (size_t i = 0; i < L; ++i)
		for (size_t a = 0; a < G(g.orbitals(t, i)); ++a)
			for (size_t j = 0; j < L; ++j)
				for (size_t b = 0; b < G(g.orbitals(t, j)); ++b) {
					vf::cplx v = G(vf::cplx(g(i, a, j, b, t)));
					vf::cplx w = G(vf::cplx(g(0, 1, i, a, j, b, t)));
					re.push_back(v == w ? vf::ex(v.real()) : vf::BAD);
					im.push_back(vf::ex(v.imag()));
				}
	out.v("re", re);
	out.v("im", im);
}
// the couplings as printed
OP(show)
{
	NEED
	std::ostringstream os;
	with([&](auto& g) { os << g; return 0; });
	std::string t = os.str();
	std::vector<long> re, im;
	size_t q = t.rfind("#orbital changes first\n");
	std::istringstream is(q == std::string::npos ? "" : t.substr(q + 23));
	std::string w;
	while (is >> w) {
		std::istringstream ws(w);
		vf::cplx v;
		if (!(ws >> v)) v = vf::cplx(0.5, 0.5);
		re.push_back(vf::ex(v.real()));
		im.push_back(vf::ex(v.imag()));
	}
	out.v("re", re);
	out.v("im", im);
}
// couplings between system and environment while sites are still missing between them
OP(grow)
{
	NEED
	size_t t = in.I(), smax = in.I(), emin = in.I();
	size_t L = G(g.numberOfSites());
	std::vector<long> re, im, c, sre, sim;
	for (size_t i = 0; i <= smax; ++i)
		for (size_t j = emin; j < L; ++j) {
			c.push_back(G(g.connected(smax, emin, i, j)));
			for (size_t a = 0; a < G(g.orbitals(t, i)); ++a)
				for (size_t b = 0; b < G(g.orbitals(t, j)); ++b) {
					vf::cplx v = G(vf::cplx(g(smax, emin, i, a, j, b, t)));
					re.push_back(vf::ex(v.real()));
					im.push_back(vf::ex(v.imag()));
					// the same pair named the other way round
					vf::cplx w = G(vf::cplx(g(smax, emin, j, b, i, a, t)));
					sre.push_back(vf::ex(w.real()));
					sim.push_back(vf::ex(w.imag()));
				}
		}
	out.v("re", re);
	out.v("im", im);
	out.v("conn", c);
	out.v("sre", sre);
	out.v("sim", sim);
}
OP(kind)
{
	NEED
	size_t smax = in.I(), i = in.I(), j = in.I();
	Globals::ConnectionEnum k = G(g.connectionKind(smax, i, j));
	out.i("k", static_cast<long>(k));
}
OP(split)
{
	NEED
	size_t n = in.I();
	bool all = in.I();
	std::vector<SizeType> S, E;
	std::vector<std::vector<SizeType>> X, Y;
	with([&](auto& g) { g.split(n, S, X, Y, E, all); return 0; });
	auto js = [](const std::vector<std::vector<SizeType>>& v) {
		std::string r = "[";
		for (size_t i = 0; i < v.size(); ++i) {
			r += i ? ",[" : "[";
			for (size_t j = 0; j < v[i].size(); ++j) r += (j ? "," : "") + vf::Out::num(v[i][j]);
			r += "]";
		}
		return r + "]";
	};
	out.raw("S", js({ S }));
	out.raw("X", js(X));
	out.raw("Y", js(Y));
	out.raw("E", js({ E }));
}
OP(label) { NEED size_t t = in.I(); out.s("s", G(g.label(t))); }
OP(dca)
{
	NEED
	size_t orb = in.I(), a = in.I(), b = in.I();
	std::vector<long> r;
	r.push_back(G(GeometryDca<double, typename std::decay<decltype(g)>::type>(g, orb).kSum(a, b)));
	r.push_back(G(GeometryDca<double, typename std::decay<decltype(g)>::type>(g, orb).kSustract(a, b)));
	out.v("r", r);
}
VF_MAIN
