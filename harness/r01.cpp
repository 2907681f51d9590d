#include "common.h"
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
static long fakePid = 0, fakeUsec = 0;
extern "C" pid_t getpid() noexcept { return fakePid ? fakePid : syscall(SYS_getpid); }
extern "C" int gettimeofday(struct timeval* tv, void* z) noexcept
{
	int r = syscall(SYS_gettimeofday, tv, z);
	if (fakePid) tv->tv_usec = fakeUsec;
	return r;
}
#include "MersenneTwister.h"
#include "Random48.h"
#include "RandomForTests.h"
#include "ApplicationInfo.h"
#include <cmath>
#include <memory>
using namespace PsimagLite;
static std::map<long, std::unique_ptr<MersenneTwister>> gens;
static std::map<long, std::unique_ptr<Random48<double>>> r48;
static std::map<long, std::unique_ptr<RandomForTests<double>>> rt;
static unsigned word(vf::In& in) { in.I(); unsigned h = in.I(); unsigned l = in.I(); return (h << 16) + l; }
static std::string js(unsigned x) { return "[" + vf::Out::num(x >> 16) + "," + vf::Out::num(x & 65535) + "]"; }
OP(S) { gens.clear(); r48.clear(); rt.clear(); fakePid = 0; }
OP(new) { long id = in.I(); gens[id].reset(new MersenneTwister(word(in))); }
OP(rank) { long id = in.I(); unsigned s = word(in); int r = in.I(); gens[id].reset(new MersenneTwister(s, r, in.I())); }
OP(seed) { long id = in.I(); gens[id]->seed(word(in)); }
OP(copy) { long id = in.I(), to = in.I(); MersenneTwister g(*gens[id]); gens[to].reset(new MersenneTwister(g)); }
OP(draw)
{
	long id = in.I(), n = in.I();
	bool real = in.I();
	long outside = 0;
	unsigned all = 0;
	std::vector<unsigned> v;
	for (long i = 0; i < n; ++i) {
		unsigned r = 0;
		if (real) {
			double d = (*gens[id])();
			if (!(d >= 0 && d <= 1)) ++outside;
			r = static_cast<unsigned>(llround(d * 4294967295.0));
		} else r = gens[id]->random();
		if (r > MersenneTwister::max()) ++outside;
		v.push_back(r);
		all ^= r;
	}
	std::string s = "[";
	size_t k = v.size() > 6 ? v.size() - 6 : 0;
	for (size_t i = k; i < v.size(); ++i) s += (i > k ? "," : "") + js(v[i]);
	out.raw("last", s + "]");
	out.raw("all", js(all));
	out.i("out", outside);
}
OP(n48)
{
	long id = in.I();
	unsigned s = word(in);
	size_t rank = in.I(), n = in.I();
	r48[id].reset(n == 1 && rank == 0 ? new Random48<double>(s) : new Random48<double>(s, rank, n));
	out.i("seed", r48[id]->seed());
}
OP(s48) { long id = in.I(); r48[id]->seed(in.I()); out.i("seed", r48[id]->seed()); }
OP(d48)
{
	long id = in.I(), n = in.I();
	bool old = in.I();
	std::string s = "[";
	for (long i = 0; i < n; ++i) {
		double d = old ? r48[id]->random() : (*r48[id])();
		unsigned long x = static_cast<unsigned long>(d * 281474976710656.0);
		s += (i ? ",[" : "[") + vf::Out::num(x >> 32) + "," + vf::Out::num((x >> 16) & 65535) + "," + vf::Out::num(x & 65535) + "]";
	}
	out.raw("d", s + "]");
}
OP(newm) { long id = in.I(); rt[id].reset(new RandomForTests<double>(in.I())); }
OP(drawm)
{
	long id = in.I(), n = in.I();
	std::vector<long> v;
	for (long i = 0; i < n; ++i) v.push_back(llround((*rt[id])() * 2147483647.0));
	out.v("d", v);
}
// kind 1: a process and a time with which the number is made of one half only
OP(runid)
{
	long kind = in.I();
	unsigned s = word(in);
	if (kind == 0) { fakePid = 1 + s % 4000000; fakeUsec = s % 1000000; }
	else {
		unsigned r = MersenneTwister(s).random();
		fakeUsec = r;
		fakePid = static_cast<int>(s - r);
		if (!fakePid) fakePid = 1;
	}
	std::string id;
	{
		ApplicationInfo a("x");
		id = a.runId();
	}
	fakePid = 0;
	out.s("id", id);
}
OP(bits)
{
	std::string s = in.S();
	unsigned long x = strtoul(s.c_str(), 0, 10);
	out.i("a", BitManip::countKernighan(x));
	out.i("b", BitManip::count(x));
}
VF_MAIN
