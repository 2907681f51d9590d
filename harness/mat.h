// Reading and reporting matrices with exact integer (or Gaussian integer) entries.
#ifndef VF_MAT_H
#define VF_MAT_H
#include "common.h"
namespace vf {
template <typename T> struct Num;
template <> struct Num<double> {
	static double get(In& in) { in.I(); double x = in.D(); in.D(); return x; }
	static std::string js(double x) { return "[" + Out::num(ex(x)) + ",0]"; }
};
template <> struct Num<float> {
	static float get(In& in) { in.I(); float x = in.D(); in.D(); return x; }
	static std::string js(float x) { return "[" + Out::num(ex(x)) + ",0]"; }
};
template <> struct Num<cplx> {
	static cplx get(In& in) { in.I(); double x = in.D(); double y = in.D(); return cplx(x, y); }
	static std::string js(const cplx& x) { return "[" + Out::num(ex(x.real())) + "," + Out::num(ex(x.imag())) + "]"; }
};
template <> struct Num<std::complex<float>> {
	static std::complex<float> get(In& in) { in.I(); float x = in.D(); float y = in.D(); return std::complex<float>(x, y); }
	static std::string js(const std::complex<float>& x) { return "[" + Out::num(ex(x.real())) + "," + Out::num(ex(x.imag())) + "]"; }
};
template <typename T> std::vector<T> getVec(In& in)
{
	size_t n = in.I();
	std::vector<T> v;
	for (size_t i = 0; i < n; ++i)
		v.push_back(Num<T>::get(in));
	return v;
}
template <typename V> std::string vecJs(const V& v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i)
		r += (i ? "," : "") + Num<typename V::value_type>::js(v[i]);
	return r + "]";
}
// r c and the entries row by row
template <typename M> M getMat(In& in)
{
	size_t r = in.I(), c = in.I();
	in.I();
	M m(r, c);
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < c; ++j)
			m(i, j) = Num<typename M::value_type>::get(in);
	return m;
}
template <typename M> std::string matJs(const M& m)
{
	std::string r = "{\"r\":" + Out::num(m.rows()) + ",\"c\":" + Out::num(m.cols()) + ",\"a\":[";
	for (size_t i = 0; i < m.rows(); ++i) {
		r += i ? ",[" : "[";
		for (size_t j = 0; j < m.cols(); ++j)
			r += (j ? "," : "") + Num<typename M::value_type>::js(m(i, j));
		r += "]";
	}
	return r + "]}";
}
}
#endif
