// Has the real scripts write a build file, and runs make on it with a compiler that only records what it is asked for.
#include "common.h"
#include <filesystem>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace fs = std::filesystem;
typedef std::vector<std::string> VS;
static fs::path top, app;
static int serial = 0;
static void put(const fs::path& p, const std::string& s, bool exec = false)
{
	std::ofstream(p) << s;
	if (exec)
		chmod(p.c_str(), 0755);
}
// every file gets a time of its own, later than the others
static void now(const fs::path& p)
{
	usleep(5000);
	std::string n = p.string();
	if (utimensat(AT_FDCWD, n.c_str(), 0, 0))
		_exit(96);
}
static int sh(const std::string& c)
{
	int st = system(c.c_str());
	if (st < 0 || WIFSIGNALED(st))
		abort();
	return WEXITSTATUS(st);
}
static void done()
{
	if (!top.empty())
		fs::remove_all(top);
	top.clear();
}
OP(S)
{
	vf::atEnd = done;
	done();
	top = fs::current_path() / ("t02." + std::to_string(getpid()) + "." + std::to_string(serial++));
	app = top / "app" / "src";
	fs::create_directories(app);
	fs::create_directories(top / "PsimagLite" / "lib");
	put(top / "PsimagLite" / "lib" / "Makefile", "libpsimaglite.a:\n\techo lib >> " + (app / "log").string() + "\n\ttouch libpsimaglite.a\n");
	// the compiler: what it was asked for, and a file where it should be
	put(top / "cxx", R"SH(#!/bin/sh
echo "$*" >> )SH" + (app / "log").string() + R"SH(
o= c= mm=
while [ $# -gt 0 ]; do
	case "$1" in
	-o) shift; o=$1;;
	-c) c=1;;
	-MM) mm=1;;
	*.cpp) [ -f "$1" ] || exit 1; s="$s $1";;
	*.o) [ -f "$1" ] || exit 1;;
	esac
	shift
done
if [ -n "$mm" ]; then
	for f in $s; do
		echo "${f%.cpp}.o: $f" $(sed -n 's/^#include "\(.*\)"$/\1/p' $f)
	done
elif [ -n "$c" ]; then
	for f in $s; do echo o > ${f%.cpp}.o; done
elif [ -n "$o" ]; then
	echo p > $o
else
	exit 1
fi
)SH", true);
	put(top / "strip", "#!/bin/sh\necho \"strip $*\" >> " + (app / "log").string() + "\nsleep 0.004\n", true);
}
OP(file)
{
	std::string n = in.S();
	VS inc = in.VS();
	std::string t;
	for (const std::string& i : inc)
		t += "#include \"" + i + "\"\n";
	fs::path p = (n[0] == '@') ? top / "PsimagLite" / "lib" / n.substr(1) : app / n;
	put(p, t);
	now(p);
}
OP(touch) { now(app / in.S()); }
OP(rm)
{
	std::string n = in.S();
	fs::remove(n[0] == '@' ? top / "PsimagLite" / "lib" / n.substr(1) : app / n);
}
OP(write)
{
	VS lines = in.VS();
	std::string config = in.S(), t;
	for (std::string l : lines) {
		size_t q;
		while ((q = l.find("TOP")) != std::string::npos)
			l.replace(q, 3, top.string());
		t += l + "\n";
	}
	put(app / "spec", t);
	std::string c = config;
	size_t q;
	while ((q = c.find("TOP")) != std::string::npos)
		c.replace(q, 3, top.string());
	put(app / "cfg.psiTag", "default flavor = main\nflavor main = (\n" + c + ")\n");
	put(app / "Config.make", c);
	now(app / "Config.make");
	int rc = sh("cd '" + app.string() + "' && perl -I'" + getenv("VF_SCRIPTS") + "' '" + getenv("VF_BUILDFILE") + "' spec Makefile >/dev/null 2>&1");
	if (rc)
		throw std::runtime_error("refused");
	now(app / "Makefile");
}
static VS words(const std::string& l)
{
	std::istringstream is(l);
	VS r;
	std::string w;
	while (is >> w) {
		if (!r.empty() && r.back() == "-I")
			r.back() += w;
		else
			r.push_back(w);
	}
	return r;
}
static std::string js(const VS& v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i)
		r += (i ? ",\"" : "\"") + v[i] + "\"";
	return r + "]";
}
OP(make)
{
	std::string target = in.S();
	int jobs = in.I();
	fs::remove(app / "log");
	usleep(5000);
	int rc = sh("cd '" + app.string() + "' && make -s -j" + std::to_string(jobs) + " " + target + " >/dev/null 2>&1 </dev/null");
	std::ifstream f(app / "log");
	std::string l, evs = "[";
	while (std::getline(f, l)) {
		VS w = words(l), src, obj, flags;
		std::string kind = "l", o;
		if (w.size() && (w[0] == "lib" || w[0] == "strip")) {
			kind = w[0];
			src.assign(w.begin() + 1, w.end());
		}
		else
			for (size_t i = 0; i < w.size(); ++i) {
				const std::string& x = w[i];
				if (x == "-c")
					kind = "c";
				else if (x == "-MM")
					kind = "d";
				else if (x == "-o" && i + 1 < w.size())
					o = w[++i];
				else if (x.size() > 4 && x.substr(x.size() - 4) == ".cpp")
					src.push_back(x);
				else if (x.size() > 2 && x.substr(x.size() - 2) == ".o")
					obj.push_back(x);
				else
					flags.push_back(x);
			}
		evs += std::string(evs.size() > 1 ? "," : "") + "{\"k\":\"" + kind + "\",\"out\":\"" + o + "\",\"src\":" + js(src) + ",\"obj\":" + js(obj) + ",\"f\":" + js(flags) + "}";
	}
	out.i("rc", rc ? 1 : 0);
	out.raw("ev", evs + "]");
	std::set<std::string> there;
	for (const auto& e : fs::directory_iterator(app))
		if (e.is_regular_file())
			there.insert(e.path().filename().string());
	for (const char* n : { "log", "spec", "cfg.psiTag", "Config.make" })
		there.erase(n);
	out.raw("files", js(VS(there.begin(), there.end())));
}
VF_MAIN
