// base64: exact text, reversible, whatever the chunking
#include "mc.hpp"
#include <cybozu/base64.hpp>
#include <sstream>
static const char *T64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// reader that delivers a string in pieces: piece sizes repeat
struct In {
	const std::string& s; size_t pos; std::vector<size_t> cut; size_t k; bool ended;
	In(const std::string& s, const std::vector<size_t>& cut) : s(s), pos(0), cut(cut), k(0), ended(false) {}
	size_t readSome(void *p, size_t n)
	{
		size_t r = s.size() - pos; if (r > n) r = n;
		if (!cut.empty()) { size_t c = cut[k++ % cut.size()]; if (r > c) r = c; }
		memcpy(p, s.data() + pos, r); pos += r; return r;
	}
};
struct Out { std::string s; void write(const void *p, size_t n) { s.append((const char*)p, n); } };
// reference, bit string based
static std::string refEnc(const std::string& in, size_t line, int mode)
{
	std::string t;
	for (size_t i = 0; i < in.size(); i += 3) {
		unsigned v = 0; size_t m = in.size() - i; if (m > 3) m = 3;
		for (size_t j = 0; j < 3; j++) v = v << 8 | (j < m ? (unsigned char)in[i + j] : 0);
		for (size_t j = 0; j < 4; j++) t += j <= m ? T64[v >> (18 - 6 * j) & 63] : '=';
	}
	if (!line) return t;
	std::string eol = mode == cybozu::base64::useCRLF ? "\r\n" : mode == cybozu::base64::useLF ? "\n" : "";
	std::string r;
	for (size_t i = 0; i < t.size(); i += line) { r += t.substr(i, line); r += eol; }
	return r;
}
static std::string refDec(const std::string& t)
{
	std::string r; unsigned acc = 0; int bits = 0;
	for (size_t i = 0; i < t.size(); i++) {
		const char *q = t[i] ? strchr(T64, t[i]) : 0; if (!q) continue;
		acc = acc << 6 | unsigned(q - T64); bits += 6;
		if (bits >= 8) { bits -= 8; r += char(acc >> bits & 255); acc &= (1u << bits) - 1; }
	}
	return r;
}
static std::string enc(const std::string& in, size_t line, int mode, const std::vector<size_t>& cut) { In is(in, cut); Out os; cybozu::EncodeToBase64(os, is, line, mode); return os.s; }
static std::string dec(const std::string& t, const std::vector<size_t>& cut) { In is(t, cut); Out os; cybozu::DecodeFromBase64(os, is); return os.s; }
static void round(const std::string& in, size_t line, int mode, const std::vector<size_t>& cut)
{
	std::string e = enc(in, line, mode, cut), x = refEnc(in, line, mode);
	MC_CHECK(e == x, "encoded as %s, expected %s", mc::show(e).c_str(), mc::show(x).c_str());
	std::string d = dec(e, cut);
	MC_CHECK(d == in, "decoded to %s instead of %s", mc::hex(d).c_str(), mc::hex(in).c_str());
	mc::eval(!in.empty());
}
static std::string pat(size_t n) { std::string s; unsigned x = 12345 + n; for (size_t i = 0; i < n; i++) { x = x * 1103515245 + 12345; s += char(x >> 16); } return s; }
void mc_main()
{
	using namespace cybozu;
	std::vector<size_t> whole;
	{ mc::Section s("short"); // all inputs of 0..2 bytes, 3 bytes over 40 values
		for (int a = 0; a < 256; a++) { if (!s.pick()) continue; mc::what("inputs starting with %02x", a); if (a == 0) round("", 0, base64::noEndLine, whole), round("", 76, base64::useCRLF, whole); round(std::string(1, (char)a), 76, base64::useCRLF, whole); for (int b = 0; b < 256; b++) round(std::string(1, (char)a) + (char)b, 4, base64::useLF, whole);
			static const int V[] = { 0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 48, 60, 62, 63, 64, 127, 128, 129, 170, 191, 192, 207, 224, 240, 243, 252, 253, 254, 255 };
			for (int b = 0; b < 30; b++) for (int c = 0; c < 30; c++) { std::string t; t += (char)a; t += (char)V[b]; t += (char)V[c]; round(t, 0, base64::useLF, whole); } mc::sample(mc::g().sh->what); } }
	{ mc::Section s("sizes"); // every size around the buffers, line lengths, modes, chunkings
		const size_t cuts[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 2, 0, 0 }, { 3, 0, 0 }, { 7, 1, 2 }, { 1023, 1, 0 }, { 1000, 0, 0 }, { 4, 1000, 0 } };
		for (size_t n = 0; n <= mc::tier<size_t>(420, 4300); n++) for (size_t li = 0; li <= 128; li += 4) {
			if (n > 200 && li != 0 && li != 4 && li != 76 && li != 128 && li != 60) continue;
			if (!s.pick()) continue;
			for (int mode = 0; mode < 3; mode++) for (int c = 0; c < 8; c++) { if (c >= 2 && n > 60 && li != 76 && li != 0) continue; std::vector<size_t> cut; for (int k = 0; k < 3; k++) if (cuts[c][k]) cut.push_back(cuts[c][k]); mc::what("size %zu line %zu mode %d cut %d", n, li, mode, c); round(pat(n), li, mode, cut); } mc::sample(mc::g().sh->what); } }
	{ mc::Section s("big"); for (size_t b = 768; b <= 4096; b += 256) for (int d = -4; d <= 4; d++) for (size_t li = 0; li <= 128; li += (li == 0 ? 4 : li == 4 ? 72 : 52)) { if (!s.pick()) continue; for (int mode = 0; mode < 3; mode++) { mc::what("size %zu line %zu mode %d", b + d, li, mode); round(pat(b + d), li, mode, whole); std::vector<size_t> cut(1, 1021); round(pat(b + d), li, mode, cut); } } }
	{ mc::Section s("badLine"); for (size_t li = 0; li <= 300; li++) { if (!s.pick()) continue; mc::what("line size %zu", li); bool thr = false; try { enc("abcdef", li, base64::useLF, whole); } catch (std::exception&) { thr = true; } MC_CHECK(thr == (li > 128 || li % 4), "%s", thr ? "refused" : "accepted"); mc::eval(); } }
	{ mc::Section s("decodeTexts"); // all texts over critical symbols x all 2-way and 3-way splits
		const std::string al("Az9+/=\n \x80", 9); const int L = mc::tier(5, 6);
		for (int n = 0; n <= L; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= al.size();
			for (size_t c = 0; c < tot; c++) { if (!s.pick()) continue; std::string t; size_t x = c; for (int i = 0; i < n; i++) { t += al[x % al.size()]; x /= al.size(); }
				mc::what("decode %s", mc::show(t).c_str()); std::string e = refDec(t);
				for (int m = 0; m < (1 << (n > 1 ? n - 1 : 0)); m++) { std::vector<size_t> cut; size_t run = 1; for (int i = 0; i + 1 < n; i++) { if (m >> i & 1) { cut.push_back(run); run = 1; } else run++; } cut.push_back(run ? run : 1); cut.push_back(100);
					std::string d = dec(t, cut); MC_CHECK(d == e, "gives %s, expected %s (split %d)", mc::hex(d).c_str(), mc::hex(e).c_str(), m); mc::eval(n > 0); } mc::sample(mc::g().sh->what); } } }
	{ mc::Section s("everyByte"); // each byte value at each of 6 positions
		for (int b = 0; b < 256; b++) for (int p = 0; p < 6; p++) { if (!s.pick()) continue; std::string t = "QmFzZT"; t[p] = (char)b; mc::what("decode %s", mc::show(t).c_str()); MC_CHECK(dec(t, whole) == refDec(t), "got %s", mc::hex(dec(t, whole)).c_str()); t = "QmFzZT"; t.insert(p, 1, (char)b); MC_CHECK(dec(t, whole) == refDec(t), "got %s", mc::hex(dec(t, whole)).c_str()); mc::eval(); } }
	{ mc::Section s("streaming"); // Base64Decoder used directly with two writes, std streams
		for (size_t n = 0; n <= 40; n++) for (size_t k = 0; k <= 56; k++) { if (!s.pick()) continue; std::string in = pat(n), t = refEnc(in, 0, 0); if (k > t.size()) continue; mc::what("decoder fed %zu then %zu characters", k, t.size() - k); Out os; Base64Decoder<Out> d(os); MC_CHECK(d.write(t.data(), k) == (ssize_t)k, "return value"); if (k & 1) d.flush(); MC_CHECK(d.write(t.data() + k, t.size() - k) == (ssize_t)(t.size() - k), "return value"); d.flush(); d.flush(); MC_CHECK(os.s == in, "got %s", mc::hex(os.s).c_str());
			std::istringstream is(in); std::ostringstream o1; EncodeToBase64(o1, is); MC_CHECK(o1.str() == refEnc(in, 76, base64::useCRLF), "std streams: %s", mc::show(o1.str()).c_str()); std::istringstream i2(o1.str()); std::ostringstream o2; DecodeFromBase64(o2, i2); MC_CHECK(o2.str() == in, "std streams decode"); mc::eval(n > 0); } }
}
