// Values as lists of entries, an entry as a list of integers (numbers in quarters).
#ifndef VF_ENTRIES_H
#define VF_ENTRIES_H
#include "common.h"
#include "PsimagLite.h"
#include "Matrix.h"
#include "Stack.h"
#include "Vector.h"
using namespace PsimagLite;
typedef vf::cplx cplx;
typedef std::vector<long> Ints;
// entries <-> lists of integers (numbers in quarters)
template <typename T> struct En;
template <> struct En<int> { static int of(const Ints& v) { return v[0]; } static Ints to(int x) { return Ints{x}; } };
template <> struct En<double> { static double of(const Ints& v) { return v[0] / 4.; } static Ints to(double x) { return Ints{vf::ex(4 * x)}; } };
template <> struct En<cplx> { static cplx of(const Ints& v) { return cplx(v[0] / 4., v[1] / 4.); } static Ints to(const cplx& x) { return Ints{vf::ex(4 * x.real()), vf::ex(4 * x.imag())}; } };
template <> struct En<std::string> { static std::string of(const Ints& v) { return std::string(v.begin(), v.end()); } static Ints to(const std::string& x) { return Ints(x.begin(), x.end()); } };
typedef std::pair<SizeType, SizeType> PairType;
template <> struct En<PairType> { static PairType of(const Ints& v) { return PairType(v[0], v[1]); } static Ints to(const PairType& x) { return Ints{(long)x.first, (long)x.second}; } };
template <> struct En<std::vector<int>> { static std::vector<int> of(const Ints& v) { return std::vector<int>(v.begin(), v.end()); } static Ints to(const std::vector<int>& x) { return Ints(x.begin(), x.end()); } };
inline std::vector<Ints> entries(vf::In& in)
{
	std::vector<Ints> r(in.I());
	for (auto& e : r) e = in.V<long>();
	return r;
}
template <typename V> std::string entJs(const V& v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + vf::Out::arr(En<typename V::value_type>::to(v[i]));
	return r + "]";
}
template <typename T> std::vector<T> vecOf(const std::vector<Ints>& a)
{
	std::vector<T> v;
	for (auto& e : a) v.push_back(En<T>::of(e));
	return v;
}
template <typename T> Matrix<T> matOf(SizeType r, SizeType c, const std::vector<Ints>& a)
{
	Matrix<T> m(r, c);
	for (SizeType i = 0; i < r; ++i) for (SizeType j = 0; j < c; ++j) m(i, j) = En<T>::of(a[i * c + j]);
	return m;
}
template <typename T> std::string matJs(const Matrix<T>& m)
{
	std::vector<T> v;
	for (SizeType i = 0; i < m.rows(); ++i) for (SizeType j = 0; j < m.cols(); ++j) v.push_back(m(i, j));
	return "{\"k\":\"m\",\"r\":" + vf::Out::num(m.rows()) + ",\"c\":" + vf::Out::num(m.cols()) + ",\"a\":" + entJs(v) + "}";
}
#endif
