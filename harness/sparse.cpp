#include "mat.h"
#include "PsimagLite.h"
#include "Matrix.h"
#include "CrsMatrix.h"
#include "Io/IoNg.h"
#include "SampleCRSMatrix.h"
using namespace PsimagLite;
typedef vf::cplx cplx;
static const size_t NREG = 4;
static bool isZ = false;
template <typename T> struct Regs { static CrsMatrix<T> m[NREG]; };
template <typename T> CrsMatrix<T> Regs<T>::m[NREG];

template <typename T> std::string crsJs(const CrsMatrix<T>& a)
{
	// the arrays are reached through the interface; their sizes through nonZeros() and a copy to text is not used
	std::vector<int> p, j;
	std::vector<T> v;
	size_t n = a.rows();
	if (n > 0) {
		for (size_t i = 0; i <= n; ++i) p.push_back(a.getRowPtr(i));
		size_t nz = a.nonZeros();
		for (size_t k = 0; k < nz; ++k) { j.push_back(a.getCol(k)); v.push_back(a.getValue(k)); }
	}
	return "{\"r\":" + vf::Out::num(n) + ",\"c\":" + vf::Out::num(a.cols()) + ",\"p\":" + vf::Out::arr(p) + ",\"j\":" + vf::Out::arr(j) + ",\"v\":" + vf::vecJs(v) + "}";
}
template <typename T> void dump(vf::Out& out)
{
	std::string r = "[";
	for (size_t i = 0; i < NREG; ++i) r += (i ? "," : "") + crsJs(Regs<T>::m[i]);
	out.raw("m", r + "]");
}
template <typename T> struct VerySparse {
	size_t r, c;
	std::vector<size_t> ri, ci;
	std::vector<T> v;
	bool sorted() const { return true; }
	size_t nonZeros() const { return v.size(); }
	size_t rows() const { return r; }
	size_t cols() const { return c; }
	size_t getRow(size_t k) const { return ri[k]; }
	size_t getColumn(size_t k) const { return ci[k]; }
	T getValue(size_t k) const { return v[k]; }
};
#define SOP(name) \
	template <typename T> static void VF_CAT(t_, name)(vf::In&, vf::Out&); \
	OP(name) { if (isZ) VF_CAT(t_, name)<cplx>(in, out); else VF_CAT(t_, name)<double>(in, out); } \
	template <typename T> static void VF_CAT(t_, name)(vf::In& in, vf::Out& out)
#define R Regs<T>::m
OP(S)
{
	isZ = in.I();
	for (size_t i = 0; i < NREG; ++i) { Regs<double>::m[i] = CrsMatrix<double>(); Regs<cplx>::m[i] = CrsMatrix<cplx>(); }
	unlink("s.hd5");
}
SOP(dense) { size_t d = in.I(); Matrix<T> a = vf::getMat<Matrix<T>>(in); CrsMatrix<T> b(a); R[d] = b; dump<T>(out); }
SOP(fromfull) { size_t d = in.I(); Matrix<T> a = vf::getMat<Matrix<T>>(in); fullMatrixToCrsMatrix(R[d], a); dump<T>(out); }
SOP(trip)
{
	size_t d = in.I(), n = in.I();
	std::vector<SizeType> rr = in.V<SizeType>(), cc = in.V<SizeType>();
	std::vector<T> v = vf::getVec<T>(in);
	CrsMatrix<T> b(n, rr, cc, v);
	R[d] = b;
	dump<T>(out);
}
// entries in row order; how: 0 push, 1 preallocated with set, 2 through a list-of-entries matrix
SOP(build)
{
	size_t d = in.I(), r = in.I(), c = in.I();
	int how = in.I();
	std::vector<SizeType> rr = in.V<SizeType>(), cc = in.V<SizeType>();
	std::vector<T> v = vf::getVec<T>(in);
	if (how == 2) {
		VerySparse<T> s;
		s.r = r; s.c = c; s.ri.assign(rr.begin(), rr.end()); s.ci.assign(cc.begin(), cc.end()); s.v = v;
		R[d] = s;
		dump<T>(out);
		return;
	}
	size_t k = 0;
	if (how == 1) {
		CrsMatrix<T> b(r, c, v.size());
		for (size_t i = 0; i < r; ++i) {
			b.setRow(i, k);
			for (; k < v.size() && rr[k] == i; ++k) { b.setCol(k, cc[k]); b.setValues(k, v[k]); }
		}
		b.setRow(r, k);
		b.checkValidity();
		R[d].swap(b);
	} else {
		R[d].resize(r, c);
		R[d].reserve(v.size());
		for (size_t i = 0; i < r; ++i) {
			R[d].setRow(i, k);
			for (; k < v.size() && rr[k] == i; ++k) { R[d].pushCol(cc[k]); R[d].pushValue(v[k]); }
		}
		R[d].setRow(r, k);
		R[d].checkValidity();
	}
	dump<T>(out);
}
SOP(clear) { R[in.I()].clear(); dump<T>(out); }
SOP(empty) { size_t d = in.I(), r = in.I(), c = in.I(); if (in.I()) R[d].resize(r, c); else { CrsMatrix<T> b(r, c); R[d] = b; } dump<T>(out); }
SOP(diag) { size_t d = in.I(), n = in.I(); T v = vf::Num<T>::get(in); R[d].makeDiagonal(n, v); dump<T>(out); }
SOP(copy) { size_t d = in.I(), s = in.I(); R[d] = R[s]; dump<T>(out); }
SOP(copyctor) { size_t d = in.I(), s = in.I(); CrsMatrix<T> b(R[s]); R[d].swap(b); dump<T>(out); }
SOP(swap) { size_t d = in.I(), s = in.I(); R[d].swap(R[s]); dump<T>(out); }
SOP(mul)
{
	size_t d = in.I(), a = in.I(), b = in.I();
	if (in.I()) { CrsMatrix<T> c(R[a] * R[b]); R[d].swap(c); }
	else if (d == a || d == b) { CrsMatrix<T> c; multiply(c, R[a], R[b]); R[d] = c; }
	else multiply(R[d], R[a], R[b]);
	dump<T>(out);
}
SOP(dag) { size_t d = in.I(), a = in.I(); if (d == a) { CrsMatrix<T> c; transposeConjugate(c, R[a]); R[d] = c; } else transposeConjugate(R[d], R[a]); dump<T>(out); }
SOP(plus)
{
	size_t d = in.I(), a = in.I();
	T s = vf::Num<T>::get(in);
	size_t b = in.I();
	T t = vf::Num<T>::get(in);
	if (d == a || d == b) { CrsMatrix<T> c; operatorPlus(c, R[a], s, R[b], t); R[d] = c; } else operatorPlus(R[d], R[a], s, R[b], t);
	dump<T>(out);
}
SOP(pluseq) { size_t d = in.I(), a = in.I(); R[d] += R[a]; dump<T>(out); }
SOP(plusseq) { size_t d = in.I(); T s = vf::Num<T>::get(in); size_t a = in.I(); R[d] += s * R[a]; dump<T>(out); }
SOP(plussmul) { size_t d = in.I(); T s = vf::Num<T>::get(in); size_t a = in.I(), b = in.I(); R[d] += s * R[a] * R[b]; dump<T>(out); }
SOP(scaled) { size_t d = in.I(); T s = vf::Num<T>::get(in); size_t a = in.I(); if (in.I()) { CrsMatrix<T> c(s * R[a]); R[d].swap(c); } else R[d] = s * R[a]; dump<T>(out); }
SOP(sum)
{
	size_t d = in.I();
	std::vector<size_t> w = in.V<size_t>();
	std::vector<T> f = vf::getVec<T>(in);
	std::vector<const CrsMatrix<T>*> p;
	for (size_t i = 0; i < w.size(); ++i) p.push_back(&R[w[i]]);
	CrsMatrix<T> c;
	bool alias = false;
	for (size_t i = 0; i < w.size(); ++i) alias |= w[i] == d;
	if (alias) { sum(c, p, f); R[d] = c; } else sum(R[d], p, f);
	dump<T>(out);
}
SOP(scale) { size_t d = in.I(); T s = vf::Num<T>::get(in); R[d] *= s; dump<T>(out); }
SOP(conj) { R[in.I()].conjugate(); dump<T>(out); }
SOP(mtc) { size_t a = in.I(), b = in.I(); out.raw("res", vf::matJs(multiplyTc(R[a], R[b]))); dump<T>(out); }
SOP(todense) { size_t a = in.I(); if (in.I()) { Matrix<T> g; if (R[a].rows() && R[a].cols()) { g.resize(R[a].rows(), R[a].cols()); g.setTo(7); } crsMatrixToFullMatrix(g, R[a]); out.raw("res", vf::matJs(g)); } else out.raw("res", vf::matJs(R[a].toDense())); dump<T>(out); }
SOP(mvp) { size_t a = in.I(); std::vector<T> x = vf::getVec<T>(in), y = vf::getVec<T>(in); R[a].matrixVectorProduct(x, y); out.raw("res", vf::vecJs(x)); out.raw("yy", vf::vecJs(y)); dump<T>(out); }
SOP(mv) { size_t a = in.I(); std::vector<T> x = vf::getVec<T>(in), y = vf::getVec<T>(in); multiply<T>(x, R[a], y); out.raw("res", vf::vecJs(x)); out.raw("yy", vf::vecJs(y)); dump<T>(out); }
SOP(eq) { size_t a = in.I(), b = in.I(); out.b("eq", R[a] == R[b]); dump<T>(out); }
SOP(pred)
{
	size_t a = in.I();
	out.b("zero", isZero(R[a]));
	out.b("diag", isDiagonal(R[a]));
	out.b("herm", isHermitian(R[a]));
	out.b("anti", isAntiHermitian(R[a]));
	out.b("id", isTheIdentity(R[a]));
	out.i("n2", vf::ex(norm2(R[a])));
	dump<T>(out);
}
// block embedding: R[d] has the size wanted
SOP(block) { size_t d = in.I(), b = in.I(), off = in.I(); fromBlockToFull(R[d], R[b], off); dump<T>(out); }
SOP(ext1)
{
	size_t d = in.I(), a = in.I(), nout = in.I();
	std::vector<double> sg = in.V<double>();
	bool order = in.I();
	std::vector<SizeType> perm = in.V<SizeType>();
	CrsMatrix<T> c(R[d]);
	externalProduct(c, R[a], nout, sg, order, perm);
	R[d] = c;
	dump<T>(out);
}
SOP(ext2)
{
	size_t d = in.I(), a = in.I(), b = in.I();
	std::vector<double> sg = in.V<double>();
	bool order = in.I();
	std::vector<SizeType> perm = in.V<SizeType>();
	CrsMatrix<T> c(R[d]);
	externalProduct(c, R[a], R[b], sg, order, perm);
	R[d] = c;
	dump<T>(out);
}
// several matrices to one stream, then read into several registers
SOP(text)
{
	std::vector<size_t> from = in.V<size_t>(), to = in.V<size_t>();
	std::stringstream ss;
	for (size_t i = 0; i < from.size(); ++i) ss << R[from[i]];
	for (size_t i = 0; i < to.size(); ++i) ss >> R[to[i]];
	dump<T>(out);
}
SOP(hw)
{
	size_t a = in.I();
	std::string name = in.tok();
	int mode = in.I();
	bool is = access("s.hd5", F_OK) == 0;
	IoNg::Out io("s.hd5", is ? IoNg::ACC_RDW : IoNg::ACC_TRUNC);
	if (mode == 0) io.write(R[a], name);
	if (mode == 1) io.write(R[a], name, IoNgSerializer::ALLOW_OVERWRITE);
	if (mode == 2) io.overwrite(R[a], name);
	io.close();
	dump<T>(out);
}
SOP(hr) { size_t d = in.I(); std::string name = in.tok(); IoNg::In io("s.hd5"); io.read(R[d], name); dump<T>(out); }
// the random matrix: its arrays, the draws it is made of, its product with a vector; and the same once read back
static void sampleOut(vf::Out& out, const char* tag, const SampleCRSMatrix<int>& m, const std::vector<int>& x, const std::vector<int>& y)
{
	std::vector<int> p, j, v;
	for (size_t i = 0; i <= m.rank(); ++i) p.push_back(m.getRowPtr(i));
	for (int k = 0; k < p.back(); ++k) { j.push_back(m.getCol(k)); v.push_back(m.getValues(k)); }
	PsimagLite::Vector<int>::Type a(x.begin(), x.end()), b(y.begin(), y.end());
	m.matrixVectorProduct(a, b);
	std::string t(tag);
	out.v((t + "p").c_str(), p);
	out.v((t + "j").c_str(), j);
	out.v((t + "v").c_str(), v);
	out.v((t + "y").c_str(), std::vector<int>(a.begin(), a.end()));
}
OP(sample)
{
	size_t n = in.I(), seed = in.I(), nz = in.I();
	int top = in.I();
	std::vector<int> x = in.V<int>(), y = in.V<int>();
	std::vector<int> rr, cc, vv;
	srand48(seed);
	for (size_t i = 0; i < nz; ++i) {
		rr.push_back(int(drand48() * n));
		cc.push_back(int(drand48() * n));
		vv.push_back(int(drand48() * top));
	}
	out.v("rr", rr);
	out.v("cc", cc);
	out.v("vv", vv);
	SampleCRSMatrix<int> m(n, seed, nz, top);
	sampleOut(out, "", m, x, y);
	std::stringstream ss;
	ss << m;
	SampleCRSMatrix<int> m2(ss);
	sampleOut(out, "b", m2, x, y);
	// filled by hand
	SampleCRSMatrix<int> m3(n);
	for (size_t i = 0; i <= n; ++i) m3.setRow(i, m.getRowPtr(i));
	for (size_t k = 0; k < m.getRowPtr(n); ++k) { m3.pushCol(m.getCol(k)); m3.pushValue(m.getValues(k)); }
	sampleOut(out, "c", m3, x, y);
}
VF_MAIN
