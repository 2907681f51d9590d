// Runs the tag reader of the build configuration on files.
#include "common.h"
#include <fstream>
#include <stdexcept>
#include <sys/wait.h>
#include <csignal>
static std::string hex(const std::string& s)
{
	std::string r = "x";
	char b[4];
	for (unsigned char c : s) {
		snprintf(b, 4, "%02x", c);
		r += b;
	}
	return r;
}
static std::string unhex(const std::string& h)
{
	std::string r;
	for (size_t i = 1; i + 1 < h.size(); i += 2)
		r += static_cast<char>(strtol(h.substr(i, 2).c_str(), 0, 16));
	return r;
}
static std::vector<std::string> run(const std::string& what, const std::vector<std::string>& files)
{
	std::string cmd = std::string("ulimit -v 1000000; exec perl -I'") + getenv("VF_SCRIPTS") + "' '" + getenv("VF_PSITAG") + "' " + what;
	for (size_t i = 0; i < files.size(); ++i) {
		std::string f = "f" + std::to_string(i) + ".psiTag";
		std::ofstream(f) << files[i];
		cmd += " " + f;
	}
	FILE* p = popen((cmd + " 2>stderr.txt").c_str(), "r");
	if (!p)
		_exit(96);
	std::vector<std::string> w;
	std::string all;
	char buf[4096];
	size_t n;
	while ((n = fread(buf, 1, sizeof buf, p)) > 0)
		all.append(buf, n);
	int st = pclose(p);
	if (WIFSIGNALED(st))
		abort();
	// running out of memory is not a refusal
	std::ifstream err("stderr.txt");
	std::string line;
	while (std::getline(err, line))
		if (line.find("Out of memory") != std::string::npos || line.find("panic:") != std::string::npos)
			abort();
	std::istringstream is(all);
	std::string t;
	while (is >> t)
		w.push_back(t);
	if (WEXITSTATUS(st) != 0)
		throw std::runtime_error("refused");
	if (w.empty() || w.back() != "end")
		abort();
	w.pop_back();
	return w;
}
OP(S) { }
OP(tags)
{
	std::vector<std::string> f = in.VS(), w = run("tags", f);
	std::string r = "[";
	for (size_t i = 0; i + 1 < w.size(); i += 2)
		r += (i ? ",[" : "[") + vf::Out::codes(unhex(w[i])) + "," + vf::Out::codes(unhex(w[i + 1])) + "]";
	out.raw("tags", r + "]");
}
OP(text)
{
	std::vector<std::string> f = in.VS();
	std::string s = in.S();
	out.s("t", unhex(run("text " + hex(s), f).at(0)));
}
// the base file, the one given and the one of the user's environment: the files used
OP(conf)
{
	std::string b = in.S();
	std::vector<std::string> g = in.VS(), e = in.VS(), r;
	for (const std::string& w : run("conf " + hex(b) + (g.empty() ? " -" : " " + hex(g[0])) + (e.empty() ? " -" : " " + hex(e[0])), {})) {
		if (w[0] != 'x') throw std::runtime_error("no file");
		r.push_back(unhex(w));
	}
	out.vs("list", r);
}
OP(flavor)
{
	std::vector<std::string> f = in.VS();
	std::string s = in.S();
	out.s("t", unhex(run("flavor " + hex(s), f).at(0)));
}
VF_MAIN
