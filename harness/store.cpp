#include "common.h"
#include "PsimagLite.h"
#include "Matrix.h"
#include "Io/IoNg.h"
#include <cstring>
#include <memory>
#include <sys/wait.h>
using namespace PsimagLite;
typedef std::vector<int> Bytes;
typedef std::vector<Bytes> Arr;
enum PlainEnum { PE0, PE1, PE2, PEBIG = 70000 };
enum class EnumC { A, B, BIG = 70000 };
// --- values from and to bytes
template <typename T> T el(const int* b)
{
	unsigned char c[sizeof(T)];
	for (size_t i = 0; i < sizeof(T); ++i) c[i] = b[i];
	T x;
	memcpy(&x, c, sizeof(T));
	return x;
}
template <> bool el<bool>(const int* b) { return b[0]; }
template <typename T> void app(Bytes& r, const T& x)
{
	unsigned char c[sizeof(T)];
	memcpy(c, &x, sizeof(T));
	for (size_t i = 0; i < sizeof(T); ++i) r.push_back(c[i]);
}
template <typename T> Bytes by(const T& x) { Bytes r; app(r, x); return r; }
template <> Bytes by<bool>(const bool& x) { return Bytes(1, x); }
template <typename T> Matrix<T> mat(const Bytes& b)
{
	Matrix<T> m(b[0], b[1]);
	size_t k = 2;
	for (int i = 0; i < b[0]; ++i) for (int j = 0; j < b[1]; ++j, k += sizeof(T)) m(i, j) = el<T>(&b[k]);
	return m;
}
template <typename T> Bytes matB(const Matrix<T>& m)
{
	Bytes r;
	r.push_back(m.rows());
	r.push_back(m.cols());
	for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.cols(); ++j) app(r, m(i, j));
	return r;
}
template <typename T> std::vector<T> inner(const Bytes& b)
{
	std::vector<T> v;
	for (size_t k = 0; k < b.size(); k += sizeof(T)) v.push_back(el<T>(&b[k]));
	return v;
}
// how a kind of value is made and dumped
template <typename T> struct Scalar { typedef T type; static T make(const Arr& a) { return el<T>(a[0].data()); } static Arr dump(const T& x) { return Arr{by(x)}; } };
struct Str {
	typedef std::string type;
	static type make(const Arr& a) { std::string s; for (auto& b : a) s.push_back(b[0]); return s; }
	static Arr dump(const type& s) { Arr r; for (char c : s) r.push_back(by(c)); return r; }
};
template <typename T> struct Vect {
	typedef std::vector<T> type;
	static type make(const Arr& a) { type v; for (auto& b : a) v.push_back(el<T>(b.data())); return v; }
	static Arr dump(const type& v) { Arr r; for (T x : v) r.push_back(by<T>(x)); return r; }
};
template <typename A, typename B> struct Pair {
	typedef std::pair<A, B> type;
	static type make(const Arr& a) { return type(el<A>(a[0].data()), el<B>(a[1].data())); }
	static Arr dump(const type& p) { return Arr{by(p.first), by(p.second)}; }
};
template <typename T> struct VecVec {
	typedef std::vector<std::vector<T>> type;
	static type make(const Arr& a) { type v; for (auto& b : a) v.push_back(inner<T>(b)); return v; }
	static Arr dump(const type& v)
	{
		Arr r;
		for (auto& x : v) { Bytes b; for (T y : x) { Bytes e = by<T>(y); b.insert(b.end(), e.begin(), e.end()); } r.push_back(b); }
		return r;
	}
};
template <typename A, typename B> struct VecPair {
	typedef std::vector<std::pair<A, B>> type;
	static type make(const Arr& a) { type v; for (auto& b : a) v.push_back({el<A>(b.data()), el<B>(b.data() + sizeof(A))}); return v; }
	static Arr dump(const type& v) { Arr r; for (auto& p : v) { Bytes b = by(p.first); app(b, p.second); r.push_back(b); } return r; }
};
template <typename T> struct Mat { typedef Matrix<T> type; static type make(const Arr& a) { return mat<T>(a[0]); } static Arr dump(const type& m) { return Arr{matB(m)}; } };
struct VecMat {
	typedef std::vector<Matrix<double>> type;
	static type make(const Arr& a) { type v; for (auto& b : a) v.push_back(mat<double>(b)); return v; }
	static Arr dump(const type& v) { Arr r; for (auto& m : v) r.push_back(matB(m)); return r; }
};
struct PairMat {
	typedef std::pair<int, Matrix<double>> type;
	static type make(const Arr& a) { return type(el<int>(a[0].data()), mat<double>(a[1])); }
	static Arr dump(const type& p) { return Arr{by(p.first), matB(p.second)}; }
};
struct StackMat {
	typedef std::stack<Matrix<double>> type;
	static type make(const Arr& a) { type s; for (size_t i = a.size(); i-- > 0;) s.push(mat<double>(a[i])); return s; }
	static Arr dump(type s) { Arr r; for (; !s.empty(); s.pop()) r.push_back(matB(s.top())); return r; }
};
static std::unique_ptr<IoNg::Out> O;
static std::unique_ptr<IoNg::In> I;
static std::unique_ptr<IoNg::Out> oldO; // closed, to be opened again
static std::unique_ptr<IoNg::In> oldI;
template <typename K> void wr(typename K::type& x, const std::string& p, int mode, int how)
{
	IoNgSerializer::WriteMode wm = mode ? IoNgSerializer::ALLOW_OVERWRITE : IoNgSerializer::NO_OVERWRITE;
	if (mode == 0 && how == 1) O->write(x, p); else O->write(x, p, wm);
}
template <typename K> void rd(typename K::type& x, const std::string& p)
{
	if (I.get()) { I->read(x, p); return; }
	struct S { IoNgSerializer& s; };
	if constexpr (IsRootUnDelegated<typename K::type>::True) O->serializer().read(x, p); else x.read(p, O->serializer());
}
struct Kind {
	std::function<void(const Arr&, const std::string&, int, int)> write;
	std::function<Arr(const Arr&, const std::string&)> read;
};
static std::map<std::string, Kind> kinds;
template <typename K> struct RegK {
	RegK(const char* n)
	{
		kinds[n].write = [](const Arr& a, const std::string& p, int mode, int how) { typename K::type x = K::make(a); wr<K>(x, p, mode, how); };
		kinds[n].read = [](const Arr& pre, const std::string& p) { typename K::type x = K::make(pre); rd<K>(x, p); return K::dump(x); };
	}
};
typedef vf::cplx cplx;
typedef std::complex<float> cplxf;
static RegK<Scalar<int>> k1("int"); static RegK<Scalar<SizeType>> k2("size"); static RegK<Scalar<double>> k3("dbl"); static RegK<Scalar<float>> k4("flt");
static RegK<Scalar<char>> k5("chr"); static RegK<Scalar<unsigned char>> k6("uch"); static RegK<Scalar<short>> k7("sht"); static RegK<Scalar<unsigned short>> k8("ush");
static RegK<Scalar<unsigned int>> k9("uin"); static RegK<Scalar<long>> k10("lng"); static RegK<Scalar<bool>> k11("bool"); static RegK<Scalar<PlainEnum>> k12("enum"); static RegK<Scalar<EnumC>> k13("enumc");
static RegK<Str> k14("str"); static RegK<Vect<bool>> k15("vb");
static RegK<Vect<int>> k16("vi"); static RegK<Vect<double>> k17("vd"); static RegK<Vect<float>> k18("vf"); static RegK<Vect<cplx>> k19("vz"); static RegK<Vect<cplxf>> k20("vzf");
static RegK<Vect<char>> k21("vc"); static RegK<Vect<SizeType>> k22("vs"); static RegK<Vect<unsigned char>> k23("vuc"); static RegK<Vect<long>> k24("vl");
static RegK<Pair<int, double>> k25("pair"); static RegK<Pair<SizeType, bool>> k26("psb");
static RegK<VecVec<double>> k27("vv"); static RegK<VecVec<cplx>> k28("vvz"); static RegK<VecVec<int>> k29("vvi"); static RegK<VecVec<bool>> k30("vvb");
static RegK<VecMat> k31("vm"); static RegK<Mat<double>> k32("m"); static RegK<Mat<cplx>> k33("mz"); static RegK<Mat<float>> k34("mf");
static RegK<VecPair<int, double>> k35("vp"); static RegK<PairMat> k36("pm"); static RegK<StackMat> k37("st"); static RegK<Vect<EnumC>> k38("ve");

static std::string path(vf::In& in)
{
	size_t n = in.I();
	std::string r;
	for (size_t i = 0; i < n; ++i) r += (i ? "/" : "") + in.tok();
	return r;
}
static Arr arr(vf::In& in)
{
	Arr a(in.I());
	for (auto& b : a) b = in.V<int>();
	return a;
}
static std::string js(const Arr& a)
{
	std::string r = "[";
	for (size_t i = 0; i < a.size(); ++i) r += (i ? "," : "") + vf::Out::arr(a[i]);
	return r + "]";
}
// --- the writer may be another process, which takes the operations one by one
static pid_t child = 0;
static int toChild[2], fromChild[2];
static bool forking = false, isChild = false;
static FILE* reply = 0;
static void put(int fd, const std::string& s)
{
	size_t k = 0;
	while (k < s.size()) {
		ssize_t n = write(fd, s.data() + k, s.size() - k);
		if (n <= 0) _exit(94);
		k += n;
	}
}
static std::string getl(int fd)
{
	std::string s;
	char c;
	while (true) {
		if (read(fd, &c, 1) != 1) return "";
		if (c == '\n') return s;
		s += c;
	}
}
static void spawn()
{
	if (pipe(toChild) || pipe(fromChild)) _exit(94);
	child = fork();
	if (child) { close(toChild[0]); close(fromChild[1]); return; }
	isChild = true;
	close(toChild[1]);
	close(fromChild[0]);
	while (true) {
		std::string l = getl(toChild[0]);
		if (l == "") _exit(0);
		if (l == "exit") { O.release(); exit(0); }
		put(fromChild[1], vf::exec(l) + "\n");
	}
}
static void endChild(int how)
{
	if (!child) return;
	if (how == 0) kill(child, SIGKILL); else put(toChild[1], "exit\n");
	int st;
	waitpid(child, &st, 0);
	close(toChild[1]);
	close(fromChild[0]);
	child = 0;
}
// true if the operation was done by the writer process
static bool forwarded(vf::Out& out)
{
	if (isChild || !child) return false;
	put(toChild[1], vf::current() + "\n");
	std::string r = getl(fromChild[0]);
	if (r == "") throw 1;
	size_t k = r.rfind("\"x\":");
	int x = atoi(r.c_str() + k + 4);
	if (x == 1) throw std::runtime_error("in the writer");
	if (x) throw 2;
	if (k > 2) { std::string body = r.substr(1, k - 2); size_t c = body.find(':'); std::string key = body.substr(1, c - 2); out.raw(key.c_str(), body.substr(c + 1)); }
	return true;
}
#define FWD if (forwarded(out)) return
OP(S)
{
	if (isChild) return;
	endChild(0);
	forking = in.I();
	O.reset(); I.reset(); oldO.reset(); oldI.reset();
	unlink("f0"); unlink("f1");
	IoNg::dontPrintDebug();
}
OP(open)
{
	std::string f = in.tok(), mode = in.tok();
	int via = in.I();
	if (!isChild && forking && !child && mode != "read") spawn();
	FWD;
	if (mode == "read") {
		if (via == 2) { O.reset(new IoNg::Out(f, IoNg::ACC_RDONLY)); out.raw("name", "\"" + O->filename() + "\""); return; }
		if (via && oldI.get()) { oldI->open(f); I = std::move(oldI); }
		else I.reset(new IoNg::In(f));
		out.raw("name", "\"" + I->filename() + "\"");
		return;
	}
	IoNg::OpenMode m = mode == "trunc" ? IoNg::ACC_TRUNC : mode == "excl" ? IoNg::ACC_EXCL : IoNg::ACC_RDW;
	if (via && oldO.get()) { oldO->open(f, m); O = std::move(oldO); }
	else O.reset(new IoNg::Out(f, m));
	out.raw("name", "\"" + O->filename() + "\"");
}
OP(close)
{
	int how = in.I();
	FWD;
	if (I.get()) { if (how) I.reset(); else { I->close(); oldI = std::move(I); } }
	if (O.get()) { if (how) O.reset(); else { O->close(); oldO = std::move(O); } }
}
OP(flush) { FWD; O->flush(); }
OP(kill) { endChild(in.I()); }
OP(tamper)
{
	std::string f = in.tok();
	int how = in.I();
	if (how != 1 && how != 2) {
		H5::H5File h(f, H5F_ACC_RDWR);
		H5::DataSet d(h.openDataSet("/Def/Canary"));
		unsigned char c = how;
		d.write(&c, H5::PredType::NATIVE_UCHAR);
	} else if (how == 1) {
		H5::H5File h(f, H5F_ACC_RDWR);
		h.unlink("/Def/Canary");
	} else { std::ofstream o(f); o << "not a store\n"; }
}
OP(remove) { std::string f = in.tok(); unlink(f.c_str()); }
OP(put)
{
	std::string p = path(in), k = in.tok();
	Arr a = arr(in);
	int mode = in.I(), how = in.I();
	FWD;
	kinds.at(k).write(a, p, mode, how);
}
OP(over)
{
	std::string p = path(in), k = in.tok();
	Arr a = arr(in);
	FWD;
	if (k == "m") O->overwrite(Mat<double>::make(a), p); else O->overwrite(VecMat::make(a), p);
}
OP(group) { std::string p = path(in); FWD; O->createGroup(p); }
OP(hasgroup) { std::string p = path(in); FWD; out.b("res", I.get() ? I->serializer().doesGroupExist(p) : O->serializer().doesGroupExist(p)); }
OP(ent)
{
	std::string p = path(in);
	Arr a = arr(in);
	int n = in.I();
	FWD;
	O->writeVectorEntry(Vect<double>::make(a), p, n);
}
OP(lastent) { std::string p = path(in); FWD; std::vector<double> v(2); I->readLastVectorEntry(v, p); out.raw("got", js(Vect<double>::dump(v))); }
OP(read)
{
	std::string p = path(in), k = in.tok();
	Arr pre = arr(in);
	FWD;
	out.raw("got", js(kinds.at(k).read(pre, p)));
}
VF_MAIN
