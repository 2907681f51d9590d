#include "common.h"
#include "ProgressIndicator.h"
#include "Profiling.h"
#include "RedirectOutput.hh"
#include "ApplicationInfo.h"
#include "Io/IoNg.h"
#include <sys/time.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <memory>
using namespace PsimagLite;
typedef std::vector<std::string> VS;
static std::string slurp(const std::string& f, bool& there)
{
	std::ifstream in(f.c_str());
	there = bool(in);
	return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
// the words, "/" for the end of a line; a number is #, a time [#]:, the files A and B
static VS words(const std::string& s)
{
	VS r;
	std::string w;
	auto put = [&]() {
		if (w.empty()) return;
		size_t n = w.size();
		bool num = true, tim = n > 3 && w[0] == '[' && w[n - 2] == ']' && w[n - 1] == ':';
		for (char c : w) if (c < '0' || c > '9') num = false;
		// seconds and exactly three digits of them
		size_t dot = w.find('.');
		if (tim && dot != n - 6) tim = false;
		if (tim)
			for (size_t i = 1; i < n - 2; ++i) if (i != dot && (w[i] < '0' || w[i] > '9')) tim = false;
		if (num) w = "#";
		if (tim) w = "[#]:";
		if (w == "outA.txt") w = "A";
		if (w == "outB.txt") w = "B";
		r.push_back(w);
		w.clear();
	};
	for (char c : s) {
		if (c == ' ' || c == '\t' || c == '\n') {
			put();
			if (c == '\n') r.push_back("/");
		} else w += (c > 32 && c < 127 && c != '"' && c != '\\') ? c : '?';
	}
	put();
	return r;
}
static std::string js(const VS& v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i) r += (i ? ",\"" : "\"") + v[i] + "\"";
	return r + "]";
}
static std::string fileJs(const std::string& f)
{
	bool there;
	std::string s = slurp(f, there);
	return js(there ? words(s) : VS(1, "-"));
}
struct Act { long c, a, b; };
typedef std::vector<std::pair<std::string, long>> Inds;
static void child(const std::vector<Act>& acts, const Inds& inds, const VS& texts, std::ofstream& log)
{
	std::vector<std::unique_ptr<ProgressIndicator>> pi;
	for (auto& i : inds) pi.emplace_back(new ProgressIndicator(i.first, i.second));
	std::vector<Profiling*> sec; // never destroyed by itself
	// one message for each, used again and again
	std::vector<std::unique_ptr<OstringStream>> msgs;
	for (size_t i = 0; i < inds.size(); ++i) msgs.emplace_back(new OstringStream(std::cout.precision()));
	RedirectOutput ro;
	RedirectOutput::setAppName("First", "Second");
	std::string to;
	bool unbuf = false;
	for (size_t k = 0; k < acts.size(); ++k) {
		const Act& q = acts[k];
		const std::string& t = texts[q.b % texts.size()];
		ProgressIndicator& p = *pi[q.a % pi.size()];
		try {
			switch (q.c) {
			case 1: p.printline(t, std::cout); break;
			case 2: { OstringStream& msg = *msgs[q.a % pi.size()]; msg() << t; p.printline(msg, std::cout); break; }
			case 3: p.print(t + " ", std::cout); break;
			case 4: ProgressIndicator::updateBuffer(q.a); break;
			case 5: std::cout << t << " "; break;
			case 6: {
				std::string f = q.a ? "outB.txt" : "outA.txt";
				RedirectOutput::doIt(f, q.b % 2 ? std::ofstream::app : std::ofstream::out, q.b >= 2);
				to = f;
				unbuf = q.b >= 2;
				break;
			}
			case 7: RedirectOutput::doIt("nowhere/x.txt", std::ofstream::out, true); break;
			case 8: p.printMemoryUsage(); break;
			case 9: sec.push_back(new Profiling(t, std::cout)); break;
			case 10: sec.push_back(new Profiling(t, "more", std::cout)); break;
			case 11: if (sec.size() && sec[q.a % sec.size()]) sec[q.a % sec.size()]->end(t); break;
			case 12: if (sec.size()) { delete sec[q.a % sec.size()]; sec[q.a % sec.size()] = 0; } break;
			case 13: log << "said " << ro.hasBeenRedirected() << "\n"; break;
			case 15: if (sec.size() && sec[q.a % sec.size()]) sec[q.a % sec.size()]->end(""); break;
			case 16: std::cout.precision(q.a); break;
			case 17: log << "said " << std::cout.precision() << "\n"; break;
			case 14: if (unbuf) { bool there; std::string s = slurp(to, there); std::string o = js(words(s)); log << "snap " << o << "\n"; } break;
			}
		} catch (std::exception& e) {
			log << "thrown " << k + 1 << "\n";
		}
		log.flush();
	}
}
static MemoryUsage* usage = 0;
// value of NAME=, or -1
static long after(const std::string& s, const std::string& name)
{
	size_t p = s.find("\n" + name);
	return p == std::string::npos ? -1 : atol(s.c_str() + p + 1 + name.size());
}
static bool isNow(long x, long t0) { return x >= t0 && x <= time(0) + 1; }
OP(info)
{
	std::string name = in.S();
	bool twice = in.I();
	unlink("info.hd5");
	long t0 = time(0) - 1;
	ApplicationInfo a(name);
	std::ostringstream o1, o2;
	{
		IoNg::Out io("info.hd5", IoNg::ACC_TRUNC);
		a.write("Application", io.serializer());
		o1 << a;
		if (twice) {
			io.close();
			io.open("info.hd5", IoNg::ACC_RDW);
		}
		a.finalize();
		a.write("Application", io.serializer());
		o2 << a;
	}
	IoNg::In io("info.hd5");
	std::string n, id;
	io.read(n, "Application/Name");
	io.read(id, "Application/RunId");
	out.s("name", n);
	out.b("id", id == a.runId() && id.size() > 2 && id.find_first_not_of("0123456789") == std::string::npos);
	{
		H5::H5File f("info.hd5", H5F_ACC_RDONLY);
		std::string r;
		for (std::string k : { "UnixTimeStart", "UnixTimeEnd" }) {
			long t = -1;
			if (H5Lexists(f.getId(), ("Def/Application/" + k).c_str(), H5P_DEFAULT) > 0)
				f.openDataSet("Def/Application/" + k).read(&t, H5::PredType::NATIVE_LONG);
			r += isNow(t, t0) ? 'y' : 'n';
		}
		out.s("times", r);
	}
	std::string h(300, 0);
	gethostname(&h[0], h.size());
	h = h.c_str();
	std::string s = "\n" + o1.str();
	out.b("host", s.find("\nHostname: " + h + "\n") != std::string::npos);
	out.b("run", s.find("\nRunID=" + std::string(a.runId()) + "\n") != std::string::npos);
	out.b("start", isNow(after(s, "UnixTimeStart="), t0));
	out.i("size", after(s, "SizeType="));
	s = o2.str();
	out.s("first", s.substr(0, s.find('\n')));
	out.b("end", isNow(after(s, "UnixTimeEnd="), t0));
	unlink("info.hd5");
}
OP(env)
{
	std::string n = in.S(), v = in.S();
	{
		std::ostringstream os;
		std::streambuf* old = std::cout.rdbuf(os.rdbuf());
		try { ApplicationInfo::setEnv(n, v); } catch (...) { std::cout.rdbuf(old); throw; }
		std::cout.rdbuf(old);
		out.s("said", os.str());
	}
}
OP(getenv) { const char* v = getenv(in.S().c_str()); out.b("there", v != 0); out.s("v", v ? v : ""); }
OP(S) { for (const char* n : { "VF_A", "VF_AB", "VF_OTHER" }) unsetenv(n); delete usage; usage = 0; unlink("status.txt"); }
OP(status) { std::string s = in.S(); std::ofstream("status.txt") << s; }
OP(nostatus) { unlink("status.txt"); }
OP(usage) { delete usage; usage = new MemoryUsage("status.txt"); }
OP(update) { usage->update(); }
OP(entry) { out.s("got", usage->findEntry(in.S())); }
OP(times)
{
	std::vector<long> t = in.V<long>(); // seconds and microseconds of three times
	MemoryUsage::TimeHandle a(t[0], t[1]), b(t[2], t[3]), c(t[4], t[5]), d = a - b;
	d += c;
	out.i("sec", d.seconds());
	out.i("usec", d.useconds());
	out.i("ms", std::lround(d.millis() * 1000));
}
OP(run)
{
	bool old = in.I();
	size_t n = in.I();
	std::vector<Act> acts(n);
	for (auto& a : acts) { in.I(); a.c = in.I(); a.a = in.I(); a.b = in.I(); }
	n = in.I();
	Inds inds(n);
	for (auto& i : inds) { in.I(); i.first = in.tok(); i.second = in.I(); }
	n = in.I();
	VS texts(n);
	for (auto& t : texts) t = in.tok();
	char dir[] = "r02XXXXXX";
	if (!mkdtemp(dir)) throw std::runtime_error("mkdtemp");
	if (chdir(dir)) throw std::runtime_error("chdir");
	if (old) { std::ofstream("outA.txt") << "OLD\n"; std::ofstream("outB.txt") << "OLD\n"; }
	fflush(0);
	std::cout.flush();
	pid_t p = fork();
	if (p == 0) {
		int o = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(o, 1);
		dup2(e, 2);
		std::ofstream log("log.txt");
		child(acts, inds, texts, log);
		log.close();
		exit(0);
	}
	int st = -1;
	waitpid(p, &st, 0);
	out.i("code", st);
	out.raw("out", fileJs("stdout.txt"));
	out.raw("err", fileJs("stderr.txt"));
	out.raw("A", fileJs("outA.txt"));
	out.raw("B", fileJs("outB.txt"));
	out.raw("saved", fileJs("buffer" + std::to_string(p) + ".txt"));
	std::ifstream log("log.txt");
	std::string w, snap;
	std::vector<long> thrown, said;
	while (log >> w) {
		if (w == "snap") { std::string l; std::getline(log, l); snap += (snap.size() ? "," : "") + l; continue; }
		long k;
		log >> k;
		(w == "said" ? said : thrown).push_back(k);
	}
	out.v("thrown", thrown);
	out.v("said", said);
	out.raw("snap", "[" + snap + "]");
	for (std::string f : { "outA.txt", "outB.txt", "stdout.txt", "stderr.txt", "log.txt" }) unlink(f.c_str());
	unlink(("buffer" + std::to_string(p) + ".txt").c_str());
	if (chdir("..")) throw std::runtime_error("chdir");
	rmdir(dir);
}
VF_MAIN
