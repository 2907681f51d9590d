#include "mat.h"
// the library leaves this one to the application
namespace PsimagLite {
inline bool isAlmostZero(double x, double eps) { return x < eps && x > -eps; }
inline bool isAlmostZero(const std::complex<double>& x, double eps) { return std::abs(x) < eps; }
}
#include "PsimagLite.h"
#include "Matrix.h"
#include "CrsMatrix.h"
#include "SparseRow.h"
#include "SparseRowCached.h"
#include "SparseVector.h"
#include <memory>
using namespace PsimagLite;
typedef vf::cplx cplx;
template <typename T> struct St {
	static std::unique_ptr<SparseRow<CrsMatrix<T>>> row;
	static std::unique_ptr<SparseRowCached<CrsMatrix<T>>> cached;
	static CrsMatrix<T> m;
	static std::vector<SparseVector<T>> v;
	static void reset(int cache, int cols)
	{
		row.reset(new SparseRow<CrsMatrix<T>>());
		cached.reset(new SparseRowCached<CrsMatrix<T>>(cache));
		m = CrsMatrix<T>(1, cols);
		v.assign(3, SparseVector<T>(SizeType(0)));
	}
};
template <typename T> std::unique_ptr<SparseRow<CrsMatrix<T>>> St<T>::row;
template <typename T> std::unique_ptr<SparseRowCached<CrsMatrix<T>>> St<T>::cached;
template <typename T> CrsMatrix<T> St<T>::m;
template <typename T> std::vector<SparseVector<T>> St<T>::v;
static bool isZ, isCached;
#define SOP(name) \
	template <typename T> static void VF_CAT(t_, name)(vf::In&, vf::Out&); \
	OP(name) { if (isZ) VF_CAT(t_, name)<cplx>(in, out); else VF_CAT(t_, name)<double>(in, out); } \
	template <typename T> static void VF_CAT(t_, name)(vf::In& in, vf::Out& out)
OP(S)
{
	isZ = in.I();
	isCached = in.I();
	int cache = in.I(), cols = in.I();
	St<double>::reset(cache, cols);
	St<cplx>::reset(cache, cols);
}
SOP(add) { size_t i = in.I(); T s = vf::Num<T>::get(in); if (isCached) St<T>::cached->add(i, s); else St<T>::row->add(i, s); }
SOP(fin)
{
	SizeType n = isCached ? St<T>::cached->finalize(St<T>::m) : St<T>::row->finalize(St<T>::m);
	if (!isCached) St<T>::row.reset(new SparseRow<CrsMatrix<T>>());
	std::vector<long> ii;
	std::vector<T> vv;
	for (int k = 0; k < St<T>::m.nonZero(); ++k) { ii.push_back(St<T>::m.getCol(k)); vv.push_back(St<T>::m.getValue(k)); }
	out.i("n", n);
	out.v("ii", ii);
	out.raw("vv", vf::vecJs(vv));
}
SOP(mvp) { std::vector<T> y = vf::getVec<T>(in); out.raw("res", vf::Num<T>::js(isCached ? St<T>::cached->matrixVectorProduct(y) : St<T>::row->matrixVectorProduct(y))); }
SOP(finy) { std::vector<T> y = vf::getVec<T>(in); out.raw("res", vf::Num<T>::js(St<T>::row->finalize(y))); St<T>::row.reset(new SparseRow<CrsMatrix<T>>()); }
template <typename T> void show(const SparseVector<T>& v, vf::Out& out)
{
	std::vector<long> ii;
	std::vector<T> vv;
	for (size_t k = 0; k < v.indices(); ++k) { ii.push_back(v.index(k)); vv.push_back(v.value(k)); }
	out.i("n", v.size());
	out.v("ii", ii);
	out.raw("vv", vf::vecJs(vv));
}
#define W St<T>::v
SOP(vfrom) { size_t d = in.I(); W[d] = SparseVector<T>(vf::getVec<T>(in)); show(W[d], out); }
SOP(vnew) { size_t d = in.I(); SizeType n = in.I(); W[d] = SparseVector<T>(n); show(W[d], out); }
SOP(vresize) { size_t d = in.I(); SizeType n = in.I(); W[d].resize(n); show(W[d], out); }
SOP(vclear) { size_t d = in.I(); W[d].clear(); show(W[d], out); }
SOP(vchunk) { size_t d = in.I(); std::vector<T> v = vf::getVec<T>(in); SizeType off = in.I(), total = in.I(); W[d].fromChunk(v, off, total); show(W[d], out); }
SOP(vadd) { size_t d = in.I(); int i = in.I(); W[d].add(i, vf::Num<T>::get(in)); show(W[d], out); }
SOP(vcopy) { size_t d = in.I(), a = in.I(); W[d] = W[a]; show(W[d], out); }
SOP(vscale) { size_t d = in.I(); W[d] *= vf::Num<T>::get(in); show(W[d], out); }
SOP(vscaled) { size_t d = in.I(), a = in.I(); T s = vf::Num<T>::get(in); W[d] = s * W[a]; show(W[d], out); }
SOP(vsub) { size_t d = in.I(), a = in.I(); W[d] -= W[a]; show(W[d], out); }
SOP(vsort) { size_t d = in.I(); W[d].sort(); show(W[d], out); }
SOP(veq) { size_t a = in.I(), b = in.I(); out.b("res", W[a] == W[b]); }
SOP(vdot) { size_t a = in.I(), b = in.I(); out.raw("res", vf::Num<T>::js(W[a].scalarProduct(W[b]))); }
SOP(vone) { out.b("res", W[in.I()].isOne()); }
SOP(vtochunk)
{
	size_t a = in.I();
	SizeType i0 = in.I(), total = in.I();
	bool test = in.I();
	std::vector<T> dest(in.I(), T(9));
	W[a].toChunk(dest, i0, total, test);
	out.raw("res", vf::vecJs(dest));
}
struct Parts {
	std::vector<SizeType> p;
	SizeType partition() const { return p.size(); }
	SizeType partition(SizeType i) const { return p[i]; }
};
SOP(vpart)
{
	size_t a = in.I();
	bool chunk = in.I();
	Parts p;
	p.p = in.V<SizeType>();
	std::vector<T> dest(in.I(), T(9));
	out.i("part", chunk ? W[a].toChunk(dest, p) : W[a].findPartition(p));
	out.raw("res", vf::vecJs(dest));
}
VF_MAIN
