// One process of several (or the only one, built without MPI).  Data come as lists of lists of integers.
#include "common.h"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include "Concurrency.h"
#include "Vector.h"
#include "Matrix.h"
#include "CrsMatrix.h"
#include "InterNode.h"
#include "LoadBalancerWeights.h"
#include "Io/IoSimple.h"
#include "ProgressIndicator.h"
#include <fstream>
#include <sstream>
using namespace PsimagLite;
typedef std::complex<double> cplx;
typedef std::vector<long> L;
typedef std::vector<L> LL;
static LL getLL(vf::In& in)
{
	LL r(in.I());
	for (L& l : r) {
		l.resize(in.I());
		for (long& x : l)
			x = in.I();
	}
	return r;
}
static std::string js(const LL& v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i)
		r += (i ? "," : "") + vf::Out::arr(v[i]);
	return r + "]";
}
// --- the types -----------------------------------------------------------------------
template <typename T> struct Codec { // a number
	static T get(const LL& x) { return static_cast<T>(x[0][0]); }
	static void put(LL& r, const T& x) { r.push_back(L(1, vf::ex(x))); }
};
template <typename T> struct Codec<std::vector<T>> {
	static std::vector<T> get(const LL& x) { return std::vector<T>(x[0].begin(), x[0].end()); }
	static void put(LL& r, const std::vector<T>& v)
	{
		L l;
		for (const T& x : v)
			l.push_back(vf::ex(x));
		r.push_back(l);
	}
};
template <> struct Codec<std::vector<cplx>> {
	static std::vector<cplx> get(const LL& x)
	{
		std::vector<cplx> v;
		for (size_t i = 0; i + 1 < x[0].size(); i += 2)
			v.push_back(cplx(x[0][i], x[0][i + 1]));
		return v;
	}
	static void put(LL& r, const std::vector<cplx>& v)
	{
		L l;
		for (const cplx& x : v) {
			l.push_back(vf::ex(x.real()));
			l.push_back(vf::ex(x.imag()));
		}
		r.push_back(l);
	}
};
template <typename T> struct Codec<std::vector<std::vector<T>>> {
	static std::vector<std::vector<T>> get(const LL& x)
	{
		std::vector<std::vector<T>> v;
		for (const L& l : x)
			v.push_back(Codec<std::vector<T>>::get(LL(1, l)));
		return v;
	}
	static void put(LL& r, const std::vector<std::vector<T>>& v)
	{
		for (const std::vector<T>& x : v)
			Codec<std::vector<T>>::put(r, x);
	}
};
template <typename A, typename B> struct Codec<std::pair<A, B>> {
	static std::pair<A, B> get(const LL& x) { return std::pair<A, B>(x[0][0], x[0][1]); }
	static void put(LL& r, const std::pair<A, B>& p) { L l { vf::ex(p.first), vf::ex(p.second) }; r.push_back(l); }
};
// rows and columns; the entries, column by column
template <typename T> struct Codec<Matrix<T>> {
	static Matrix<T> get(const LL& x, size_t at = 0)
	{
		Matrix<T> m(x[at][0], x[at][1]);
		std::vector<T> v = Codec<std::vector<T>>::get(LL(1, x[at + 1]));
		for (size_t i = 0; i < v.size(); ++i)
			m(i % m.rows(), i / m.rows()) = v[i];
		return m;
	}
	static void put(LL& r, const Matrix<T>& m)
	{
		r.push_back(L { long(m.rows()), long(m.cols()) });
		std::vector<T> v;
		for (size_t j = 0; j < m.cols(); ++j)
			for (size_t i = 0; i < m.rows(); ++i)
				v.push_back(m(i, j));
		Codec<std::vector<T>>::put(r, v);
	}
};
template <typename T> struct Codec<std::vector<Matrix<T>>> {
	static std::vector<Matrix<T>> get(const LL& x)
	{
		std::vector<Matrix<T>> v;
		for (size_t i = 0; i + 1 < x.size(); i += 2)
			v.push_back(Codec<Matrix<T>>::get(x, i));
		return v;
	}
	static void put(LL& r, const std::vector<Matrix<T>>& v)
	{
		for (const Matrix<T>& m : v)
			Codec<Matrix<T>>::put(r, m);
	}
};
// rows and columns; row starts; columns; values
template <typename T> struct Codec<CrsMatrix<T>> {
	static CrsMatrix<T> get(const LL& x)
	{
		CrsMatrix<T> m(x[0][0], x[0][1]);
		std::vector<T> v = Codec<std::vector<T>>::get(LL(1, x[3]));
		for (size_t i = 0; i < x[1].size(); ++i)
			m.setRow(i, x[1][i]);
		for (size_t i = 0; i < v.size(); ++i) {
			m.pushCol(x[2][i]);
			m.pushValue(v[i]);
		}
		return m;
	}
	static void put(LL& r, const CrsMatrix<T>& m)
	{
		r.push_back(L { long(m.rows()), long(m.cols()) });
		L p, j;
		for (size_t i = 0; i < m.rows() + 1; ++i)
			p.push_back(m.getRowPtr(i));
		std::vector<T> v;
		for (size_t i = 0; i < m.nonZeros(); ++i) {
			j.push_back(m.getCol(i));
			v.push_back(m.getValue(i));
		}
		r.push_back(p);
		r.push_back(j);
		Codec<std::vector<T>>::put(r, v);
	}
};
// --- communicators ---------------------------------------------------------------------
// 0: all, 1: all in reverse order, 2: the even and the odd ones apart
static MPI::CommType comms[3];
static int myRank = 0;
static MPI::CommType getComm(vf::In& in) { return comms[in.I()]; }
static void wait()
{
#ifdef USE_MPI
	MPI_Barrier(MPI_COMM_WORLD);
#endif
}
// nothing sent is left over
static void finish(vf::Out& out)
{
	wait();
	int flag = 0;
#ifdef USE_MPI
	MPI_Status st;
	for (int i = 0; i < 3 && !flag; ++i)
		MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, comms[i], &flag, &st);
#endif
	wait(); // the next operation may send
	out.b("left", flag);
}
static LL mine(vf::In& in)
{
	size_t n = in.I();
	LL r;
	for (size_t i = 0; i < n; ++i) {
		LL x = getLL(in);
		if (int(i) == myRank)
			r = x;
	}
	return r;
}
OP(S)
{
	size_t np = in.I();
	out.b("np", np == Concurrency::nprocs());
}
OP(id)
{
	MPI::CommType c = getComm(in);
	out.i("size", MPI::commSize(c));
	out.i("rank", MPI::commRank(c));
	out.b("root", Concurrency::root(c));
	out.i("nprocs", Concurrency::nprocs(c));
	out.i("rank2", Concurrency::rank(c));
	out.b("has", Concurrency::hasMpi());
	out.i("b", MPI::barrier(c));
}
// --- collective ----------------------------------------------------------------------------
template <typename T> static void bc(T v, int root, MPI::CommType c, const LL& x, vf::Out& out)
{
	v = Codec<T>::get(x);
	MPI::bcast(v, root, c);
	LL r;
	Codec<T>::put(r, v);
	out.raw("v", js(r));
}
// those that have their own
template <typename T> static void bcOwn(int root, MPI::CommType c, const LL& x, vf::Out& out)
{
	T v = Codec<T>::get(x);
	v.bcast(root, c);
	LL r;
	Codec<T>::put(r, v);
	out.raw("v", js(r));
}
template <typename T> static void bcCrs(const LL& x, vf::Out& out)
{
	CrsMatrix<T> v = Codec<CrsMatrix<T>>::get(x);
	bcast(v);
	LL r;
	Codec<CrsMatrix<T>>::put(r, v);
	out.raw("v", js(r));
}
OP(bcast)
{
	std::string t = in.tok();
	MPI::CommType c = getComm(in);
	int root = in.I();
	LL x = mine(in);
	if (t == "i") bc(int(), root, c, x, out);
	else if (t == "l") bc(SizeType(), root, c, x, out);
	else if (t == "d") bc(double(), root, c, x, out);
	else if (t == "vi") bc(std::vector<int>(), root, c, x, out);
	else if (t == "vl") bc(std::vector<SizeType>(), root, c, x, out);
	else if (t == "vd") bc(std::vector<double>(), root, c, x, out);
	else if (t == "vc") bc(std::vector<cplx>(), root, c, x, out);
	else if (t == "vvl") bc(std::vector<std::vector<SizeType>>(), root, c, x, out);
	else if (t == "vvd") bc(std::vector<std::vector<double>>(), root, c, x, out);
	else if (t == "pd") bc(std::pair<int, double>(), root, c, x, out);
	else if (t == "md") bcOwn<Matrix<double>>(root, c, x, out);
	else if (t == "mc") bcOwn<Matrix<cplx>>(root, c, x, out);
	else if (t == "vmd") bc(std::vector<Matrix<double>>(), root, c, x, out);
	else if (t == "vmc") bc(std::vector<Matrix<cplx>>(), root, c, x, out);
	else if (t == "sd") bcCrs<double>(x, out);
	else bcCrs<cplx>(x, out);
	finish(out);
}
#ifdef USE_MPI
typedef MPI_Op SumOp;
static SumOp getOp(int k) { return k == 0 ? MPI_SUM : k == 1 ? MPI_MAX : k == 2 ? MPI_MIN : MPI_PROD; }
#else
static int getOp(int) { return 0; }
#endif
template <typename T> static void red(bool all, int op, int root, MPI::CommType c, const LL& x, vf::Out& out)
{
	T v = Codec<T>::get(x);
#ifdef USE_MPI
	if (all) MPI::allReduce(v, getOp(op), c);
	else MPI::reduce(v, getOp(op), root, c);
#else
	if (all) MPI::allReduce(v);
	else MPI::reduce(v);
#endif
	LL r;
	Codec<T>::put(r, v);
	out.raw("v", js(r));
}
template <typename T> static void redAll(int op, MPI::CommType c, const LL& x, vf::Out& out)
{
	T v = Codec<T>::get(x);
#ifdef USE_MPI
	MPI::allReduce(v, getOp(op), c);
#endif
	LL r;
	Codec<T>::put(r, v);
	out.raw("v", js(r));
}
OP(reduce)
{
	std::string t = in.tok();
	bool all = in.I();
	int op = in.I();
	MPI::CommType c = getComm(in);
	int root = in.I();
	LL x = mine(in);
	if (t == "vi") red<std::vector<int>>(all, op, root, c, x, out);
	else if (t == "vl") red<std::vector<SizeType>>(all, op, root, c, x, out);
	else if (t == "vd") red<std::vector<double>>(all, op, root, c, x, out);
	else if (t == "vc") red<std::vector<cplx>>(all, op, root, c, x, out);
	else if (t == "i") redAll<int>(op, c, x, out);
	else if (t == "l") redAll<SizeType>(op, c, x, out);
	else if (t == "d") redAll<double>(op, c, x, out);
	else if (t == "md") redAll<Matrix<double>>(op, c, x, out);
	else redAll<Matrix<cplx>>(op, c, x, out);
	finish(out);
}
template <typename T> static void gat(int root, MPI::CommType c, const std::vector<LL>& x, vf::Out& out)
{
	std::vector<T> v;
	for (const LL& e : x)
		v.push_back(Codec<T>::get(e));
	MPI::pointByPointGather(v, root, c);
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i) {
		LL e;
		Codec<T>::put(e, v[i]);
		r += (i ? "," : "") + js(e);
	}
	out.raw("v", r + "]");
}
OP(gather)
{
	std::string t = in.tok();
	MPI::CommType c = getComm(in);
	int root = in.I();
	std::vector<LL> x;
	size_t np = in.I();
	for (size_t i = 0; i < np; ++i) {
		size_t n = in.I();
		std::vector<LL> y;
		for (size_t k = 0; k < n; ++k)
			y.push_back(getLL(in));
		if (int(i) == myRank)
			x = y;
	}
	if (t == "i") gat<int>(root, c, x, out);
	else if (t == "d") gat<double>(root, c, x, out);
	else if (t == "vd") gat<std::vector<double>>(root, c, x, out);
	else if (t == "vi") gat<std::vector<int>>(root, c, x, out);
	else if (t == "pd") gat<std::pair<int, double>>(root, c, x, out);
	else if (t == "md") gat<Matrix<double>>(root, c, x, out);
	else if (t == "mc") gat<Matrix<cplx>>(root, c, x, out);
	else if (t == "sd") gat<CrsMatrix<double>>(root, c, x, out);
	else gat<CrsMatrix<cplx>>(root, c, x, out);
	finish(out);
}
// --- from one to another -------------------------------------------------------------------------
#ifdef USE_MPI
template <typename T> static void tx(T v, int dst, int tag, MPI::CommType c) { MPI::send(v, dst, tag, c); }
template <typename T> static void tx(Matrix<T> v, int dst, int tag, MPI::CommType c) { v.send(dst, tag, c); }
template <typename T> static void tx(CrsMatrix<T> v, int dst, int tag, MPI::CommType c) { v.send(dst, tag, c); }
template <typename T> static void rx(T& v, int src, int tag, MPI::CommType c) { MPI::recv(v, src, tag, c); }
template <typename T> static void rx(Matrix<T>& v, int src, int tag, MPI::CommType c) { v.recv(src, tag, c); }
template <typename T> static void rx(CrsMatrix<T>& v, int src, int tag, MPI::CommType c) { v.recv(src, tag, c); }
template <typename T> static LL move(bool sending, const LL& x, const LL& pre, int other, int tag, MPI::CommType c)
{
	LL r;
	if (sending) {
		tx(Codec<T>::get(x), other, tag, c);
		return r;
	}
	T v = Codec<T>::get(pre);
	rx(v, other, tag, c);
	Codec<T>::put(r, v);
	return r;
}
struct Item {
	std::string t;
	int src, dst, tag;
	LL x, pre;
};
static LL act(bool sending, const Item& i, MPI::CommType c)
{
	int o = sending ? i.dst : i.src;
	if (i.t == "i") return move<int>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "l") return move<SizeType>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "d") return move<double>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "vi") return move<std::vector<int>>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "vl") return move<std::vector<SizeType>>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "vd") return move<std::vector<double>>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "vc") return move<std::vector<cplx>>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "pd") return move<std::pair<int, double>>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "md") return move<Matrix<double>>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "mc") return move<Matrix<cplx>>(sending, i.x, i.pre, o, i.tag, c);
	if (i.t == "sd") return move<CrsMatrix<double>>(sending, i.x, i.pre, o, i.tag, c);
	return move<CrsMatrix<cplx>>(sending, i.x, i.pre, o, i.tag, c);
}
// every process sends what is its to send, in order, and then receives in the order given by rank
OP(p2p)
{
	MPI::CommType c = getComm(in);
	std::vector<Item> v(in.I());
	for (Item& i : v) {
		in.I();
		i.t = in.tok();
		i.src = in.I();
		i.dst = in.I();
		i.tag = in.I();
		i.x = getLL(in);
		i.pre = getLL(in);
	}
	std::vector<int> order = in.V<int>();
	int me = MPI::commRank(c);
	for (const Item& i : v)
		if (i.src == me)
			act(true, i, c);
	std::string r = "[";
	for (int k : order)
		if (v[k].dst == me)
			r += (r == "[" ? "" : ",") + js(act(false, v[k], c));
	out.raw("v", r + "]");
	finish(out);
}
#endif
// --- what only the first process writes ------------------------------------------------------
// steps: 0 a number, 1 a list, 2 a line, 3 pieces; the values are those of the process
OP(file)
{
	bool closing = in.I();
	std::vector<std::pair<int, L>> todo(in.I());
	for (auto& t : todo) {
		in.I();
		t.first = in.I();
		t.second.resize(in.I());
		for (long& x : t.second)
			x = in.I() + 1000 * myRank;
	}
	if (myRank == 0)
		unlink("written");
	wait();
	{
		IoSimple::Out f("written");
		for (auto& t : todo) {
			if (t.first == 0) f.write(t.second[0], "Number");
			else if (t.first == 1) f.write(t.second, "List");
			else if (t.first == 2) f.printline("Line" + std::to_string(t.second[0]));
			else f << "Piece" << t.second[0] << "\n";
		}
		if (closing)
			f.close();
	}
	wait();
	std::ifstream f("written");
	std::vector<std::string> lines;
	std::string l;
	while (std::getline(f, l))
		if (l != "")
			lines.push_back(l);
	out.vs("lines", lines);
	finish(out);
}
OP(progress)
{
	int how = in.I(), n = in.I();
	std::ostringstream os;
	ProgressIndicator p("Caller", 0);
	for (int i = 0; i < n; ++i) {
		OstringStream msg(6);
		msg() << "hello";
		if (how == 0) p.printline("hello", os);
		else if (how == 1) p.printline(msg, os);
		else p.print("hello\n", os);
	}
	std::istringstream is(os.str());
	std::string l;
	long c = 0;
	while (std::getline(is, l))
		c += l.size() > 12 && l.substr(0, 8) == "Caller [" && l.substr(l.size() - 5) == "hello";
	out.i("count", c);
	out.b("any", os.str() != "");
	finish(out);
}
// --- loops --------------------------------------------------------------------------------------
static void nap(int ms) { usleep(ms * 1000); }
// counters all processes share
static int* counters(size_t n)
{
	const char* name = "counters";
	if (myRank == 0)
		unlink(name);
	wait();
	if (myRank == 0) {
		int fd = open(name, O_CREAT | O_RDWR, 0600);
		if (ftruncate(fd, n * sizeof(int))) _exit(97);
		close(fd);
	}
	wait();
	int fd = open(name, O_RDWR);
	int* p = static_cast<int*>(mmap(nullptr, n * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
	close(fd);
	return p;
}
// one process is slow; seen: how often each order number had run when the loop returned here
OP(loop)
{
	int how = in.I(), which = in.I();
	size_t start = in.I(), end = in.I();
	int slow = in.I();
	std::vector<SizeType> w = in.V<SizeType>();
	MPI::CommType c = comms[which];
	const size_t most = 256;
	int* cnt = counters(most * 2);
	int* base = cnt + (which == 2 && (myRank & 1) ? most : 0);
	std::vector<long> did, as;
	auto f = [&](SizeType i, SizeType r) {
		if (myRank == slow)
			nap(2);
		if (i < most)
			__atomic_fetch_add(base + i, 1, __ATOMIC_SEQ_CST);
		did.push_back(i);
		as.push_back(r);
	};
	std::string name;
	long size = 0;
	if (how == 0) {
		InterNode<> n(c);
		size = n.size();
		name = n.name();
		n.parallelFor(start, end, f);
#ifdef USE_MPI
	} else if (how == 1) {
		InterNode<> n(c);
		size = n.size();
		name = n.name();
		LoadBalancerMpi lb(end - start, n.size());
		n.parallelFor(start, end, f, lb);
	} else {
		InterNode<LoadBalancerWeights> n(c);
		size = n.size();
		name = n.name();
		LoadBalancerWeights lb(w, n.size());
		n.parallelFor(start, end, f, lb);
#endif
	}
	std::vector<long> seen;
	for (size_t i = 0; i < most; ++i) {
		int k = __atomic_load_n(base + i, __ATOMIC_SEQ_CST);
		for (int q = 0; q < k; ++q)
			seen.push_back(i);
	}
	wait();
	munmap(cnt, 2 * most * sizeof(int));
	out.v("did", did);
	out.v("as", as);
	out.v("seen", seen);
	out.i("size", size);
	out.s("name", name);
	finish(out);
}
static Concurrency* con = nullptr;
static void end() { delete con; }
int main(int argc, char** argv)
{
	con = new Concurrency(&argc, &argv, 1);
#ifdef USE_MPI
	MPI_Comm_rank(MPI_COMM_WORLD, &myRank);
	int np = 1;
	MPI_Comm_size(MPI_COMM_WORLD, &np);
	MPI_Comm_split(MPI_COMM_WORLD, 0, np - myRank, &comms[1]);
	MPI_Comm_split(MPI_COMM_WORLD, myRank & 1, myRank, &comms[2]);
	comms[0] = MPI_COMM_WORLD;
#endif
	std::string o = argv[2];
	if (getenv("VF_NP"))
		o += "." + std::to_string(myRank);
	argv[2] = &o[0];
	vf::atEnd = end;
	return vf::drive(argc, argv);
}
