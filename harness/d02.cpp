#include "entries.h"
#include <fcntl.h>
static std::stringstream* ss = 0;
static std::vector<std::string> words(const std::string& s)
{
	std::istringstream is(s);
	std::vector<std::string> r;
	std::string t;
	while (is >> t) r.push_back(t);
	return r;
}
// what one call writes
struct Rec {
	std::string before;
	Rec() : before(ss->str()) {}
	std::vector<std::string> end() { return words(ss->str().substr(before.size())); }
};
OP(S) { delete ss; ss = new std::stringstream; }
template <typename T> void putV(const std::vector<Ints>& a, bool stack)
{
	std::vector<T> v = vecOf<T>(a);
	(void)stack;
	*ss << v;
}
static void putStack(const std::vector<Ints>& a)
{
	Stack<int>::Type st;
	for (size_t i = a.size(); i-- > 0;) st.push(a[i][0]);
	*ss << st;
	if (st.size() != a.size()) *ss << "CHANGED";
}
OP(put)
{
	std::string k = in.tok(), t = in.tok();
	SizeType r = in.I(), c = in.I();
	std::vector<Ints> a = entries(in);
	bool stack = in.I();
	Rec rec;
	if (k == "m") { if (t == "d") *ss << matOf<double>(r, c, a); else *ss << matOf<cplx>(r, c, a); }
	else if (stack) putStack(a);
	else if (t == "i") putV<int>(a, stack);
	else if (t == "d") putV<double>(a, stack);
	else if (t == "z") putV<cplx>(a, stack);
	else if (t == "s") putV<std::string>(a, stack);
	else if (t == "p") putV<PairType>(a, stack);
	else putV<std::vector<int>>(a, stack);
	*ss << " ";
	out.vs("w", rec.end());
}
OP(putchop)
{
	in.tok();
	std::string t = in.tok();
	SizeType r = in.I(), c = in.I();
	std::vector<Ints> a = entries(in);
	double eps = in.I() / 4.;
	Rec rec;
	if (t == "d") matOf<double>(r, c, a).print(*ss, eps); else matOf<cplx>(r, c, a).print(*ss, eps);
	out.vs("w", rec.end());
}
OP(feed)
{
	std::vector<std::string> w = in.VS(), sep = in.VS();
	for (size_t i = 0; i < w.size(); ++i) *ss << w[i] << sep[i % sep.size()];
}
template <typename T> void getV(vf::Out& out, int pre)
{
	std::vector<T> v(pre);
	*ss >> v;
	out.raw("got", "{\"k\":\"v\",\"a\":" + entJs(v) + "}");
}
template <typename T> void getM(vf::Out& out, SizeType r, SizeType c)
{
	Matrix<T> m(r, c);
	for (SizeType i = 0; i < r; ++i) for (SizeType j = 0; j < c; ++j) m(i, j) = 77;
	std::string was = matJs(m);
	try { *ss >> m; } catch (const std::exception&) { out.b("same", was == matJs(m)); out.i("refused", 1); return; }
	out.raw("got", matJs(m));
}
// rows and cols: of the destination before reading (for a vector, its size)
OP(get)
{
	std::string k = in.tok(), t = in.tok();
	SizeType r = in.I(), c = in.I();
	bool stack = in.I();
	if (k == "m") { if (t == "d") getM<double>(out, r, c); else getM<cplx>(out, r, c); }
	else if (stack) {
		Stack<int>::Type st;
		*ss >> st;
		std::vector<int> v;
		for (; !st.empty(); st.pop()) v.push_back(st.top());
		out.raw("got", "{\"k\":\"v\",\"a\":" + entJs(v) + "}");
	}
	else if (t == "i") getV<int>(out, r);
	else if (t == "d") getV<double>(out, r);
	else if (t == "z") getV<cplx>(out, r);
	else if (t == "s") getV<std::string>(out, r);
	else if (t == "p") getV<PairType>(out, r);
	else getV<std::vector<int>>(out, r);
}
template <typename T> void mfile(vf::Out& out, const Matrix<T>& m)
{
	{ std::ofstream f("m.txt"); f << m; }
	std::ifstream f("m.txt");
	Matrix<T> g(f);
	out.raw("got", matJs(g));
}
OP(mfile)
{
	in.tok();
	std::string t = in.tok();
	SizeType r = in.I(), c = in.I();
	std::vector<Ints> a = entries(in);
	if (t == "d") mfile(out, matOf<double>(r, c, a)); else mfile(out, matOf<cplx>(r, c, a));
}
template <typename T> void fdm(vf::Out& out, const Matrix<T>& m, int pre)
{
	int fd = ::open("m.bin", O_RDWR | O_CREAT | O_TRUNC, 0600);
	m.print(fd);
	lseek(fd, 0, SEEK_SET);
	Matrix<T> g(pre, 2);
	g.read(fd);
	::close(fd);
	out.raw("got", matJs(g));
}
OP(fd)
{
	in.tok();
	std::string t = in.tok();
	SizeType r = in.I(), c = in.I();
	std::vector<Ints> a = entries(in);
	int pre = in.I();
	if (t == "d") fdm(out, matOf<double>(r, c, a), pre); else fdm(out, matOf<cplx>(r, c, a), pre);
}
template <typename F> void printed(vf::In& in, vf::Out& out, F f, bool lines = false)
{
	in.tok();
	std::string t = in.tok();
	SizeType r = in.I(), c = in.I();
	std::vector<Ints> a = entries(in);
	std::ostringstream os;
	if (t == "d") f(os, matOf<double>(r, c, a)); else f(os, matOf<cplx>(r, c, a));
	std::string w = os.str();
	if (lines) for (size_t i = 0; (i = w.find('\n', i)) != std::string::npos; i += 4) w.replace(i, 1, " ;\n ");
	out.vs("w", words(w));
}
OP(math) { printed(in, out, [](std::ostream& os, const auto& m) { mathematicaPrint(os, m); }); }
OP(nonz) { printed(in, out, [](std::ostream& os, const auto& m) { printNonZero(m, os); }, true); }
OP(sym) { printed(in, out, [](std::ostream& os, const auto& m) { symbolicPrint(os, m); }); }
OP(vprint)
{
	std::string t = in.tok();
	std::vector<Ints> a = entries(in);
	std::string name = in.S();
	std::ostringstream os;
	if (t == "d") vectorPrint(vecOf<double>(a), name.c_str(), os);
	else if (t == "z") vectorPrint(vecOf<cplx>(a), name.c_str(), os);
	else vectorPrint(vecOf<int>(a), name.c_str(), os);
	out.vs("w", words(os.str()));
}
VF_MAIN
