// Observes parallel loops.  A forced schedule makes each body wait until it is its
// turn to begin or end; when a turn does not come the rest runs freely.
#include "common.h"
#include "PsimagLite.h"
#include "Vector.h"
#include "Concurrency.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "InterNode.h"
#include "LoadBalancerDefault.h"
#include "LoadBalancerWeights.h"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <chrono>
using namespace PsimagLite;
typedef LoadBalancerDefault::VectorSizeType VS;

struct Ev { int k; long loop, t, i; };
static std::mutex mtx;
static std::condition_variable cv;
static std::vector<Ev> evs;
static std::vector<std::pair<int, long>> sched;
static size_t spos;
static bool freeRun;
static unsigned naps; // 0: none, else maximum nap in microseconds
static void note(int k, long loop, long t, long i)
{
	std::unique_lock<std::mutex> lk(mtx);
	if (loop == 0 && (k == 0 || k == 1) && !sched.empty()) {
		auto turn = [&] { return freeRun || spos >= sched.size() || (sched[spos].first == k && sched[spos].second == i); };
		if (!cv.wait_for(lk, std::chrono::milliseconds(250), turn))
			freeRun = true;
		++spos;
		evs.push_back(Ev { k, loop, t, i });
		cv.notify_all();
		return;
	}
	evs.push_back(Ev { k, loop, t, i });
}
static void nap(long a, long b)
{
	if (!naps)
		return;
	unsigned long h = (a * 2654435761u + b * 40503u + 12345u) ^ (naps * 97u);
	h ^= h >> 13;
	if (h % 3 == 0)
		return;
	usleep(h % naps);
}
static void body(long loop, long i, long t)
{
	note(0, loop, t, i);
	nap(i, t);
	note(1, loop, t, i);
}
struct Helper {
	Helper(size_t n) : n_(n) { }
	SizeType tasks() const { return n_; }
	void doTask(SizeType i, SizeType t) { body(0, i, t); }
	size_t n_;
};
// a user's own balancer, given as a table
struct TableBalancer {
	typedef VS VectorSizeType;
	TableBalancer(SizeType, SizeType) { }
	TableBalancer(const VS&, SizeType) { }
	std::vector<VS> tab;
	SizeType blockSize(SizeType t) const { return (t < tab.size()) ? tab[t].size() : 0; }
	SizeType taskNumber(SizeType t, SizeType p) const { return tab[t][p]; }
};
typedef Parallelizer<Helper> PDef;
typedef Parallelizer<Helper, LoadBalancerWeights> PWei;
typedef Parallelizer<Helper, TableBalancer> PTab;
struct Engine {
	std::unique_ptr<PDef> d;
	std::unique_ptr<PWei> w;
	std::unique_ptr<PTab> tb;
	std::unique_ptr<Parallelizer2<>> p2;
#ifdef USE_PTHREADS
	std::unique_ptr<Parallelizer2<LoadBalancerWeights>> p2w;
	std::unique_ptr<Parallelizer2<TableBalancer>> p2t;
#endif
	std::unique_ptr<InterNode<>> in;
	std::string kind;
	size_t t;
};
static std::unique_ptr<Engine> eng;
OP(S) { eng.reset(); }
OP(mk)
{
	eng.reset(new Engine);
	eng->kind = in.tok();
	in.I(); // serial?, for the specification
	eng->t = in.I();
	bool aff = in.I();
	size_t stack = in.I();
	CodeSectionParams cs(eng->t, 1, aff, stack);
	const std::string& k = eng->kind;
	if (k == "ng") eng->d.reset(new PDef(cs));
	else if (k == "ngw" || k == "ngb") eng->w.reset(new PWei(cs));
	else if (k == "ngt") eng->tb.reset(new PTab(cs));
	else if (k == "p2") eng->p2.reset(new Parallelizer2<>(cs));
#ifdef USE_PTHREADS
	else if (k == "p2w") eng->p2w.reset(new Parallelizer2<LoadBalancerWeights>(cs));
	else if (k == "p2t") eng->p2t.reset(new Parallelizer2<TableBalancer>(cs));
#endif
	else if (k == "inter") eng->in.reset(new InterNode<>(PsimagLite::MPI::COMM_WORLD));
	else _exit(95);
}
static void start(vf::In& in)
{
	std::lock_guard<std::mutex> lk(mtx);
	evs.clear();
	sched.clear();
	spos = 0;
	freeRun = false;
	std::vector<long> s = in.V<long>(); // kind, index, kind, index...
	for (size_t i = 0; i + 1 < s.size(); i += 2)
		sched.push_back(std::make_pair(int(s[i]), s[i + 1]));
	naps = in.I();
}
static void finish(vf::Out& out)
{
	note(2, 0, 0, 0);
	// late bodies, if any, get a chance to show themselves
	size_t seen = 0;
	for (int round = 0; round < 200; ++round) {
		std::unique_lock<std::mutex> lk(mtx);
		freeRun = true;
		cv.notify_all();
		size_t b = 0, e = 0;
		for (auto& x : evs) { b += x.k == 0; e += x.k == 1; }
		if (b == e && round > 0 && seen == evs.size()) break;
		seen = evs.size();
		lk.unlock();
		usleep((round == 0) ? 200 : 3000);
	}
	std::lock_guard<std::mutex> lk(mtx);
	std::string r = "[";
	for (size_t i = 0; i < evs.size(); ++i) {
		std::vector<long> v = { evs[i].k, evs[i].loop, evs[i].t, evs[i].i };
		r += (i ? "," : "") + vf::Out::arr(v);
	}
	out.raw("ev", r + "]");
}
// n start t weights table sched naps
OP(loop)
{
	size_t n = in.I(), s0 = in.I();
	in.I();
	VS w = in.V<SizeType>();
	std::vector<VS> tab(in.I());
	for (auto& x : tab) x = in.V<SizeType>();
	start(in);
	Helper h(n);
	auto lam = [](SizeType i, SizeType t) { body(0, i, t); };
	const std::string& k = eng->kind;
	if (k == "ng") eng->d->loopCreate(h);
	else if (k == "ngw") eng->w->loopCreate(h, w);
	else if (k == "ngb") { LoadBalancerWeights b(w, eng->t); eng->w->loopCreate(h, b); }
	else if (k == "ngt") { TableBalancer b(n, eng->t); b.tab = tab; eng->tb->loopCreate(h, b); }
	else if (k == "p2") eng->p2->parallelFor(s0, s0 + n, lam);
#ifdef USE_PTHREADS
	else if (k == "p2w") { LoadBalancerWeights b(w, eng->t); eng->p2w->parallelFor(s0, s0 + n, lam, b); }
	else if (k == "p2t") { TableBalancer b(n, eng->t); b.tab = tab; eng->p2t->parallelFor(s0, s0 + n, lam, b); }
#endif
	else if (k == "inter") eng->in->parallelFor(s0, s0 + n, lam);
	finish(out);
}
// a loop whose bodies run loops: n t m t2 sched naps, with or without pthread level
struct Nest {
	Nest(size_t n, size_t m, size_t t2) : n_(n), m_(m), t2_(t2) { }
	SizeType tasks() const { return n_; }
	void doTask(SizeType i, SizeType t) const
	{
		note(0, 0, t, i);
		CodeSectionParams cs(t2_);
		Parallelizer2<> p(cs);
		long loop = i + 1;
		auto lam = [loop](SizeType j, SizeType u) { body(loop, j, u); };
		note(3, loop, 0, 0);
		p.parallelFor(0, m_, lam);
		note(2, loop, 0, 0);
		note(1, 0, t, i);
	}
	size_t n_, m_, t2_;
};
OP(nest)
{
	size_t n = in.I(), t = in.I(), m = in.I(), t2 = in.I();
	start(in);
	Nest h(n, m, t2);
	CodeSectionParams cs(t);
	Parallelizer<Nest> p(cs);
	p.loopCreate(h);
	finish(out);
}
VF_MAIN
