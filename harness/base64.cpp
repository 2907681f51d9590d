#include "common.h"
#include "PsimagLite.h"
using namespace PsimagLite;
OP(S) {}
OP(enc)
{
	std::string s = in.S();
	PsiBase64::Encode e(s);
	out.s("got", e());
	PsiBase64::Encode f(reinterpret_cast<const unsigned char*>(s.data()), s.size());
	std::string t = f();
	// the same text where it is printed for the user
	std::ostringstream a, b, c;
	a << e;
	if (a.str() != "#InputStartsHere\n" + t + "\n#InputEndsHere\n") t = "stream:" + a.str();
	PsiApp::base64encode(b, s, false);
	if (b.str() != e() + "\n") t = "base64encode:" + b.str();
	if (s.size() < 40) {
		{ std::ofstream o("data.bin", std::ios::binary); o << s; }
		PsiApp::echoBase64(c, "data.bin");
		std::string l = c.str();
		if (l.size() < e().size() + 1 || l.substr(l.size() - e().size() - 1) != e() + "\n") t = "echo:" + l;
		if (PsiApp::slurp("data.bin") != s) t = "slurp";
	}
	out.s("got2", t);
	out.s("back", PsiBase64::Decode(e())());
}
OP(dec) { out.s("got", PsiBase64::Decode(in.S())()); }
VF_MAIN
