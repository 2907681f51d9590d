#include "entries.h"
#include "Io/IoSimple.h"
#include <memory>
static std::unique_ptr<IoSimple::Out> o;
static std::unique_ptr<IoSimple::In> f;
static std::unique_ptr<OstringStream> msg;
static const char* NAME = "labels.txt";
OP(S)
{
	o.reset();
	f.reset();
	msg.reset(new OstringStream(6));
	unlink(NAME);
}
// the text itself
OP(file)
{
	std::string text = in.S();
	std::ofstream g(NAME);
	g << text;
}
OP(oopen)
{
	int how = in.I();
	if (how == 0) o.reset(new IoSimple::Out(NAME));
	else {
		if (!o) o.reset(new IoSimple::Out);
		o->open(NAME, how == 1 ? std::ios_base::out : std::ios_base::app);
	}
}
OP(oclose) { if (in.I()) o->close(); else o.reset(); }
OP(wsc)
{
	std::string label = in.S(), t = in.tok();
	std::vector<long> e = in.V<long>();
	if (t == "i") o->write(En<int>::of(e), label);
	else if (t == "d") o->write(En<double>::of(e), label);
	else o->write(En<cplx>::of(e), label);
}
OP(wv)
{
	std::string label = in.S(), k = in.tok(), t = in.tok();
	SizeType r = in.I(), c = in.I();
	std::vector<Ints> a = entries(in);
	if (k == "m") { if (t == "d") o->write(matOf<double>(r, c, a), label); else o->write(matOf<cplx>(r, c, a), label); }
	else if (k == "t") {
		Stack<int>::Type st;
		for (size_t i = a.size(); i-- > 0;) st.push(a[i][0]);
		o->write(st, label);
	}
	else if (t == "i") o->write(vecOf<int>(a), label);
	else if (t == "d") o->write(vecOf<double>(a), label);
	else if (t == "z") o->write(vecOf<cplx>(a), label);
	else if (t == "s") o->write(vecOf<std::string>(a), label);
	else if (t == "p") o->write(vecOf<PairType>(a), label);
	else o->write(vecOf<std::vector<int>>(a), label);
}
OP(line)
{
	std::string s = in.S();
	int how = in.I();
	if (how == 0) o->printline(s);
	else if (how == 1) { (*msg)() << s; o->printline(*msg); }
	else (*o) << s << "\n";
}
OP(iopen)
{
	if (in.I()) { f.reset(new IoSimple::In); f->open(NAME); }
	else f.reset(new IoSimple::In(NAME));
}
OP(reopen) { f->close(); f->open(NAME); }
template <typename T> void rl(vf::Out& out, const std::string& s, long level, T x)
{
	SizeType n = f->readline(x, s, level);
	out.raw("got", vf::Out::arr(En<T>::to(x)));
	out.i("n", n);
}
OP(rl)
{
	std::string s = in.S();
	long level = in.I();
	std::string t = in.tok();
	if (t == "i") rl<int>(out, s, level, 77);
	else if (t == "d") rl<double>(out, s, level, 77);
	else if (t == "z") rl<cplx>(out, s, level, cplx(7, 7));
	else rl<std::string>(out, s, level, "old");
}
template <typename T> void rv(vf::Out& out, const std::string& s, long level, int pre)
{
	std::vector<T> v(pre);
	f->read(v, s, level, true);
	out.raw("got", "{\"k\":\"v\",\"a\":" + entJs(v) + "}");
}
template <typename T> void rm(vf::Out& out, const std::string& s, long level, int pre)
{
	Matrix<T> m;
	(void)pre;
	f->read(m, s, level);
	out.raw("got", matJs(m));
}
OP(rv)
{
	std::string s = in.S();
	long level = in.I();
	std::string k = in.tok(), t = in.tok();
	int pre = in.I();
	if (k == "m") { if (t == "d") rm<double>(out, s, level, pre); else rm<cplx>(out, s, level, pre); }
	else if (k == "t") {
		Stack<int>::Type st;
		f->read(st, s, level, true);
		std::vector<int> v;
		for (; !st.empty(); st.pop()) v.push_back(st.top());
		out.raw("got", "{\"k\":\"v\",\"a\":" + entJs(v) + "}");
	}
	else if (t == "i") rv<int>(out, s, level, pre);
	else if (t == "d") rv<double>(out, s, level, pre);
	else if (t == "z") rv<cplx>(out, s, level, pre);
	else if (t == "s") rv<std::string>(out, s, level, pre);
	else if (t == "p") rv<PairType>(out, s, level, pre);
	else rv<std::vector<int>>(out, s, level, pre);
}
OP(adv)
{
	std::string s = in.S();
	long level = in.I();
	std::pair<String, SizeType> p = f->advance(s, level, true);
	out.s("w", p.first);
	out.i("n", p.second);
}
OP(count) { out.i("n", f->count(in.S())); }
OP(rewind) { f->rewind(); }
// the words that follow
OP(rest)
{
	std::vector<std::string> w;
	for (;;) {
		std::string t;
		(*f) >> t;
		if (t.empty()) break;
		w.push_back(t);
	}
	out.vs("w", w);
}
VF_MAIN
