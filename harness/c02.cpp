#include "common.h"
#include "PsimagLite.h"
#include "Vector.h"
#include "LoadBalancerDefault.h"
#include "LoadBalancerWeights.h"
#include "LoadBalancerMpi.h"
using namespace PsimagLite;
OP(S) { }
template <typename B> static void show(const B& b, size_t T, vf::Out& out)
{
	std::string r = "[";
	for (size_t t = 0; t < T; ++t) {
		std::vector<long> v;
		// far more than any correct balancer gives: enough to show the fault
		for (size_t p = 0; p < b.blockSize(t) && p < 2000; ++p)
			v.push_back(b.taskNumber(t, p));
		r += (t ? "," : "") + vf::Out::arr(v);
	}
	out.raw("sh", r + "]");
}
OP(default)
{
	int kind = in.I();
	size_t n = in.I(), t = in.I();
	if (kind == 0) show(LoadBalancerDefault(n, t), t, out);
	else show(LoadBalancerMpi(n, t), t, out);
}
OP(weights) { LoadBalancerDefault::VectorSizeType w = in.V<SizeType>(); size_t t = in.I(); show(LoadBalancerWeights(w, t), t, out); }
OP(even) { size_t n = in.I(), t = in.I(); show(LoadBalancerWeights(n, t), t, out); }
VF_MAIN
