#include "common.h"
#include "PsimagLite.h"
#include "Vector.h"
#include "Concurrency.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "LabelDisabled.h"
#include <memory>
#include <mutex>
#include <pthread.h>
using namespace PsimagLite;
static std::unique_ptr<LabelDisabled> lab;
static std::string sess;
static int nsess;
OP(S)
{
	Concurrency::codeSectionParams = CodeSectionParams(1);
	Concurrency::mode = 0;
	lab.reset(new LabelDisabled);
	sess = std::to_string(getpid()) + "_" + std::to_string(nsess++) + "_";
}
OP(ctor) { int argc = 1; char a[] = "x"; char* v[] = { a, 0 }; char** pv = v; Concurrency c(&argc, &pv, in.I()); fedisableexcept(FE_ALL_EXCEPT); out.i("mode", Concurrency::mode); }
OP(set) { size_t a = in.I(), b = in.I(); bool c = in.I(); size_t d = in.I(); CodeSectionParams cs(a, b, c, d); Concurrency::setOptions(cs); }
OP(get)
{
	const CodeSectionParams& c = Concurrency::codeSectionParams;
	std::vector<long> r = { long(c.npthreads), long(c.npthreadsLevelTwo), c.setAffinities, long(c.stackSize), Concurrency::hasPthreads(), Concurrency::hasMpi(),
		                Concurrency::root(), long(Concurrency::nprocs()), long(Concurrency::rank()) };
	out.v("r", r);
}
OP(mode) { Concurrency::mode = in.I(); }
OP(slots)
{
	size_t np = in.I();
	out.i("size", Concurrency::storageSize(np));
	std::vector<long> r;
	for (size_t i = 0; i < np; ++i) r.push_back(Concurrency::storageIndex(i));
	out.v("idx", r);
}
static std::mutex mtx;
static std::vector<long> thr;
static long minStack;
// thread, and the processors it may run on: all those of the process (-1), a single one, or others (-2)
static std::vector<std::vector<long>> where;
static cpu_set_t whole;
static void body(size_t t)
{
	cpu_set_t mine;
	CPU_ZERO(&mine);
	pthread_getaffinity_np(pthread_self(), sizeof(mine), &mine);
	long own = -2;
	if (CPU_EQUAL(&mine, &whole)) own = -1;
	else if (CPU_COUNT(&mine) == 1)
		for (own = 0; !CPU_ISSET(own, &mine);) ++own;
	pthread_attr_t a;
	pthread_getattr_np(pthread_self(), &a);
	size_t sz = 0;
	pthread_attr_getstacksize(&a, &sz);
	pthread_attr_destroy(&a);
	std::lock_guard<std::mutex> lk(mtx);
	thr.push_back(t);
	where.push_back({ long(t), own });
	if (long(sz / 1024) < minStack) minStack = sz / 1024;
}
struct H { size_t n; SizeType tasks() const { return n; } void doTask(SizeType, SizeType t) { body(t); } };
OP(loop)
{
	std::string k = in.tok();
	size_t n = in.I();
	thr.clear();
	where.clear();
	CPU_ZERO(&whole);
	pthread_getaffinity_np(pthread_self(), sizeof(whole), &whole);
	minStack = 2000000000;
	long nth = 0, af = 0, st = 0;
	if (k == "ng") {
		H h { n };
		Parallelizer<H> p(Concurrency::codeSectionParams);
		af = p.affinities();
		st = p.stackSize();
		p.loopCreate(h);
	} else {
		Parallelizer2<> p(Concurrency::codeSectionParams);
		nth = p.numberOfThreads();
		p.parallelFor(0, n, [](SizeType, SizeType t) { body(t); });
	}
	out.i("calls", thr.size());
	out.v("thr", thr);
	std::string w = "[", all = "[";
	for (auto& x : where) w += (w.size() > 1 ? "," : "") + vf::Out::arr(x);
	for (int i = 0; i < CPU_SETSIZE; ++i)
		if (CPU_ISSET(i, &whole)) all += (all.size() > 1 ? "," : "") + std::to_string(i);
	out.raw("where", w + "]");
	out.raw("cpus", all + "]");
	out.i("minstack", minStack);
	out.i("nth", nth);
	out.i("af", af);
	out.i("st", st);
}
OP(mdis) { Concurrency::mpiDisable(sess + in.S()); }
OP(misdis) { out.b("r", Concurrency::isMpiDisabled(sess + in.S())); }
OP(mneed)
{
	std::string l = sess + in.S();
	SizeType r = in.I(), b = in.I(), t = in.I();
	Concurrency::mpiDisableIfNeeded(r, b, l, t);
	std::vector<long> v = { long(r), long(b) };
	out.v("r", v);
}
OP(ldis) { lab->disable(in.S()); }
OP(lis) { out.b("r", (*lab)(in.S())); }
VF_MAIN
