// Common part of the conformance drivers.  A driver reads a script (one
// operation per line, tokens separated by blanks), calls the public interface of
// PsimagLite and writes one JSON object per line with what it observed.  It
// contains no expectations: those are in the TLA+ specifications.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include <complex>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <unistd.h>
#include <vector>

#ifdef VF_COV
extern "C" void __gcov_dump(void);
#endif
namespace vf {
typedef std::complex<double> cplx;
class In {
public:
	explicit In(const std::string& line) : is_(line) {}
	std::string tok()
	{
		std::string s;
		if (!(is_ >> s)) {
			fprintf(stderr, "driver: script line too short\n");
			_exit(97);
		}
		return s;
	}
	bool more()
	{
		is_ >> std::ws;
		return !is_.eof();
	}
	long I() { return atol(tok().c_str()); }
	double D() { return static_cast<double>(I()); }
	std::string S()
	{
		std::string t = tok();
		std::string r;
		for (size_t i = 1; i + 1 < t.size(); i += 2)
			r.push_back(static_cast<char>(strtol(t.substr(i, 2).c_str(), 0, 16)));
		return r;
	}
	template <typename T> std::vector<T> V()
	{
		size_t n = I();
		std::vector<T> v(n);
		for (size_t i = 0; i < n; ++i)
			v[i] = static_cast<T>(I());
		return v;
	}
	std::vector<std::string> VS()
	{
		size_t n = I();
		std::vector<std::string> v(n);
		for (size_t i = 0; i < n; ++i)
			v[i] = S();
		return v;
	}

private:
	std::istringstream is_;
};

// A JSON object under construction; integers and arrays of integers only.
class Out {
public:
	void raw(const char* k, const std::string& v)
	{
		if (!s_.empty())
			s_ += ",";
		s_ += std::string("\"") + k + "\":" + v;
	}
	static std::string num(long x) { return std::to_string(x); }
	void i(const char* k, long x) { raw(k, num(x)); }
	void b(const char* k, bool x) { raw(k, x ? "1" : "0"); }
	template <typename V> static std::string arr(const V& v)
	{
		std::string r = "[";
		for (size_t j = 0; j < v.size(); ++j)
			r += (j ? "," : "") + num(static_cast<long>(v[j]));
		return r + "]";
	}
	template <typename V> void v(const char* k, const V& x) { raw(k, arr(x)); }
	static std::string codes(const std::string& x)
	{
		std::string r = "[";
		for (size_t j = 0; j < x.size(); ++j)
			r += (j ? "," : "") + num(static_cast<unsigned char>(x[j]));
		return r + "]";
	}
	void s(const char* k, const std::string& x) { raw(k, codes(x)); }
	void vs(const char* k, const std::vector<std::string>& x)
	{
		std::string r = "[";
		for (size_t j = 0; j < x.size(); ++j)
			r += (j ? "," : "") + codes(x[j]);
		raw(k, r + "]");
	}
	const std::string& str() const { return s_; }
	void clear() { s_.clear(); }

private:
	std::string s_;
};

// An exact integer, or a value that no specification produces
const long BAD = 2000000001;
inline long ex(double x)
{
	if (!(x > -1.9e9 && x < 1.9e9))
		return BAD;
	long r = static_cast<long>(x);
	return (static_cast<double>(r) == x) ? r : BAD + 1;
}
// x rounded to 1/scale when it is that close, else BAD
inline long near(double x, double tol = 1e-6, double scale = 1)
{
	x *= scale;
	if (!(x > -1.9e9 && x < 1.9e9))
		return BAD;
	long r = static_cast<long>(x < 0 ? x - 0.5 : x + 0.5);
	double d = x - r;
	return (d < tol && d > -tol) ? r : BAD + 1;
}
inline std::string cj(double x) { return Out::num(ex(x)); }
inline std::string cj(const cplx& z) { return "[" + Out::num(ex(z.real())) + "," + Out::num(ex(z.imag())) + "]"; }

typedef std::function<void(In&, Out&)> Op;
inline std::map<std::string, Op>& ops()
{
	static std::map<std::string, Op> m;
	return m;
}
struct Reg {
	Reg(const char* n, Op f) { ops()[n] = f; }
};
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define OP(name) \
	static void VF_CAT(op_, name)(vf::In&, vf::Out&); \
	static vf::Reg VF_CAT(reg_, name)(#name, VF_CAT(op_, name)); \
	static void VF_CAT(op_, name)(vf::In & in, vf::Out & out)

inline void onAlarm(int) { _exit(98); }
// called when the script is done
inline void (*atEnd)() = nullptr;

inline std::string& current()
{
	static std::string s;
	return s;
}
// runs one line of the script
inline std::string exec(const std::string& line)
{
	current() = line;
	In in(line);
	std::string name = in.tok();
	std::map<std::string, Op>::iterator it = ops().find(name);
	if (it == ops().end()) {
		fprintf(stderr, "driver: unknown op %s\n", name.c_str());
		_exit(95);
	}
	Out out;
	int x = 0;
	try {
		it->second(in, out);
	} catch (const std::exception& e) {
		x = 1;
		if (getenv("VF_WHAT"))
			fprintf(stderr, "%s\n", e.what());
	} catch (...) {
		x = 2;
	}
	if (x)
		out.clear();
	out.i("x", x);
	return "{" + out.str() + "}";
}

// argv: script, output file, first line (0-based), seconds per operation
inline int drive(int argc, char** argv)
{
	if (argc < 5)
		return 96;
	std::ifstream script(argv[1]);
	FILE* of = fopen(argv[2], "a");
	size_t from = atol(argv[3]);
	int secs = atoi(argv[4]);
	if (!script || !of)
		return 96;
	struct rlimit rl;
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
	rl.rlim_cur = rl.rlim_max = 6ull << 30;
	setrlimit(RLIMIT_AS, &rl);
#endif
	signal(SIGALRM, onAlarm);
	std::string line;
	size_t n = 0;
	while (std::getline(script, line)) {
		if (n++ < from)
			continue;
		alarm(secs);
		std::string res = exec(line);
		alarm(0);
		fprintf(of, "%s\n", res.c_str());
		fflush(of);
	}
	fclose(of);
	fflush(stdout);
	if (atEnd)
		atEnd();
#ifdef VF_COV
	__gcov_dump();
#endif
	_exit(0);
}
} // namespace vf
#define VF_MAIN \
	int main(int argc, char** argv) { return vf::drive(argc, argv); }
#endif
