#include "common.h"
#include "PsimagLite.h"
#include "Vector.h"
#include "Concurrency.h"
#include "Matrix.h"
#include "GemmR.h"
using namespace PsimagLite;
OP(S) { }
template <typename T> struct Mk { static T get(vf::In& in) { T re = in.I(); in.I(); return re; } };
template <typename T> struct Mk<std::complex<T>> { static std::complex<T> get(vf::In& in) { in.I(); T re = in.I(); T im = in.I(); return std::complex<T>(re, im); } };
template <> double Mk<double>::get(vf::In& in) { in.I(); double re = in.I(); in.I(); return re; }
template <> float Mk<float>::get(vf::In& in) { in.I(); float re = in.I(); in.I(); return re; }
template <typename T> static std::vector<T> vec(vf::In& in) { size_t n = in.I(); std::vector<T> v(n); for (auto& x : v) x = Mk<T>::get(in); return v; }
static std::string pj(double x) { return "[" + vf::Out::num(vf::ex(x)) + ",0]"; }
static std::string pj(float x) { return "[" + vf::Out::num(vf::ex(x)) + ",0]"; }
template <typename T> static std::string pj(const std::complex<T>& z) { return "[" + vf::Out::num(vf::ex(z.real())) + "," + vf::Out::num(vf::ex(z.imag())) + "]"; }
template <typename T> static void run(vf::In& in, vf::Out& out)
{
	SizeType nb = in.I(), nt = in.I();
	char ta = in.I(), tb = in.I();
	int m = in.I(), n = in.I(), k = in.I();
	T alpha = Mk<T>::get(in), beta = Mk<T>::get(in);
	int lda = in.I(), ldb = in.I(), ldc = in.I();
	std::vector<T> a = vec<T>(in), b = vec<T>(in), c = vec<T>(in);
	bool dbg = in.I();
	std::vector<T> a0 = a, b0 = b;
	GemmR<T> g(dbg, nb, nt);
	g(ta, tb, m, n, k, alpha, a.data(), lda, b.data(), ldb, beta, c.data(), ldc);
	std::string r = "[";
	for (size_t i = 0; i < c.size(); ++i) r += (i ? "," : "") + pj(c[i]);
	out.raw("out", r + "]");
	out.b("same", a == a0 && b == b0);
}
OP(gemm)
{
	std::string t = in.tok();
	if (t == "d") run<double>(in, out);
	else if (t == "f") run<float>(in, out);
	else if (t == "z") run<std::complex<double>>(in, out);
	else run<std::complex<float>>(in, out);
}
VF_MAIN
