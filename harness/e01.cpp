#include "common.h"
#include "PsimagLite.h"
#include "Vector.h"
#include "Sort.h"
#include "Permutations.h"
#include "SumDecomposition.h"
#include "PackIndices.h"
#include "BitManip.h"
#include <memory>
using namespace PsimagLite;
typedef Vector<SizeType>::Type VS;
static std::unique_ptr<Permutations<VS>> perm;
OP(S) { perm.reset(); }
template <typename T> static void doSort(std::vector<long>& v, size_t n, size_t small, vf::Out& out)
{
	typename Vector<T>::Type x(v.begin(), v.end());
	VS p(n);
	Sort<typename Vector<T>::Type> s;
	s.sort(x, p, small);
	out.v("y", x);
	out.v("p", p);
}
OP(sort)
{
	int type = in.I();
	std::vector<long> v = in.V<long>();
	size_t n = in.I();
	size_t small = (n == v.size()) ? 0 : n;
	if (type == 0) doSort<SizeType>(v, n, small, out);
	if (type == 1) doSort<int>(v, n, small, out);
	if (type == 2) doSort<double>(v, n, small, out);
	if (type == 3) doSort<SizeType>(v, n, n, out);
}
static void show(vf::Out& out)
{
	std::vector<long> r(perm->size());
	for (size_t i = 0; i < r.size(); ++i) r[i] = (*perm)[i];
	out.v("r", r);
}
OP(perm) { VS v = in.V<SizeType>(); perm.reset(new Permutations<VS>(v)); show(out); }
OP(inc) { bool b = perm->increase(); out.b("b", b); show(out); }
static std::string all(const SumDecomposition& sd)
{
	std::string r = "[";
	for (size_t i = 0; i < sd.storedSize(); ++i) r += (i ? "," : "") + vf::Out::arr(sd(i));
	return r + "]";
}
OP(sum) { size_t a = in.I(), b = in.I(); SumDecomposition sd(a, b); out.i("size", sd.size()); out.raw("r", all(sd)); }
OP(sumsel)
{
	size_t a = in.I(), b = in.I(); long k = in.I();
	SumDecomposition sd(a, b, (k < 0) ? SumDecomposition::SEL_SIZE : SumDecomposition::SEL_INDEX, (k < 0) ? 0 : k);
	out.i("size", sd.size());
	out.raw("r", all(sd));
}
OP(unpack) { PackIndices p(in.I()); SizeType x = 0, y = 0; p.unpack(x, y, in.I()); std::vector<long> r = { long(x), long(y) }; out.v("r", r); }
OP(pack) { PackIndices p(in.I()); SizeType a = in.I(), b = in.I(); VS perm = in.V<SizeType>(); out.i("r", p.pack(a, b, perm)); }
OP(bits)
{
	std::vector<long> w = in.V<long>();
	unsigned long v = 0;
	for (size_t i = 0; i < w.size(); ++i) v = (v << 16) | w[i];
	out.i("c", BitManip::count(v));
	out.i("k", BitManip::countKernighan(v));
}
OP(log2) { out.i("r", log2Integer(in.I())); }
OP(idiv) { SizeType a = in.I(), b = in.I(); out.i("r", integerDivision(a, b)); }
VF_MAIN
