// Decoders, encoders, labels and streaming: each case is a line of the case file,
//   OP ENCODING HEX [...]
// and the observed outcome is recorded for the offline reference.
#include <limits>
#include "common.hpp"
#include <wordring/whatwg/encoding/api.hpp>
using namespace wordring::whatwg::encoding;

static std::map<std::string, encoding_name> const names{
	{"utf-8", encoding_name::UTF_8}, {"ibm866", encoding_name::IBM866}, {"iso-8859-2", encoding_name::ISO_8859_2}, {"iso-8859-3", encoding_name::ISO_8859_3},
	{"iso-8859-4", encoding_name::ISO_8859_4}, {"iso-8859-5", encoding_name::ISO_8859_5}, {"iso-8859-6", encoding_name::ISO_8859_6}, {"iso-8859-7", encoding_name::ISO_8859_7},
	{"iso-8859-8", encoding_name::ISO_8859_8}, {"iso-8859-8-i", encoding_name::ISO_8859_8_I}, {"iso-8859-10", encoding_name::ISO_8859_10}, {"iso-8859-13", encoding_name::ISO_8859_13},
	{"iso-8859-14", encoding_name::ISO_8859_14}, {"iso-8859-15", encoding_name::ISO_8859_15}, {"iso-8859-16", encoding_name::ISO_8859_16}, {"koi8-r", encoding_name::KOI8_R},
	{"koi8-u", encoding_name::KOI8_U}, {"macintosh", encoding_name::macintosh}, {"windows-874", encoding_name::windows_874}, {"windows-1250", encoding_name::windows_1250},
	{"windows-1251", encoding_name::windows_1251}, {"windows-1252", encoding_name::windows_1252}, {"windows-1253", encoding_name::windows_1253}, {"windows-1254", encoding_name::windows_1254},
	{"windows-1255", encoding_name::windows_1255}, {"windows-1256", encoding_name::windows_1256}, {"windows-1257", encoding_name::windows_1257}, {"windows-1258", encoding_name::windows_1258},
	{"x-mac-cyrillic", encoding_name::x_mac_cyrillic}, {"gbk", encoding_name::GBK}, {"gb18030", encoding_name::gb18030}, {"big5", encoding_name::Big5},
	{"euc-jp", encoding_name::EUC_JP}, {"iso-2022-jp", encoding_name::ISO_2022_JP}, {"shift_jis", encoding_name::Shift_JIS}, {"euc-kr", encoding_name::EUC_KR},
	{"replacement", encoding_name::replacement}, {"utf-16be", encoding_name::UTF_16BE}, {"utf-16le", encoding_name::UTF_16LE}, {"x-user-defined", encoding_name::x_user_defined} };

static std::string name_of(encoding_name n)
{
	for (auto const& [k, v] : names) if (v == n) return k;
	return n == static_cast<encoding_name>(0) ? "-" : "?";
}

static std::string kind(result_value const& r)
{
	if (std::holds_alternative<result_finished>(r)) return "finished";
	if (std::holds_alternative<result_continue>(r)) return "continue";
	if (std::holds_alternative<result_error>(r)) return "error";
	return "other";
}

static std::string text(io_queue<char32_t> q) { std::u32string s; from_io_queue_convert(q, std::back_inserter(s)); return vf::hex(vf::u8(s)); }
static std::string bytes(io_queue<char> q) { std::string s; from_io_queue_convert(q, std::back_inserter(s)); return vf::hex(s); }

// a random history on an io_queue against a plain deque
static void queue_case(vf::rng& r)
{
	io_queue<char> q;
	std::deque<int> m; // -1 is the end of the queue
	unsigned n = 3 + static_cast<unsigned>(r.below(40));
	for (unsigned k = 0; k < n; ++k)
	{
		char c = static_cast<char>('a' + r.below(6));
		switch (r.below(8))
		{
		case 0: case 1:
			vf::ev(std::string("push ") + c);
			q.push(c);
			if (!m.empty() && m.back() == -1) m.insert(m.end() - 1, c); else m.push_back(c);
			break;
		case 2:
		{
			std::string s(r.below(4), 'x'); for (auto& x : s) x = static_cast<char>('a' + r.below(6));
			vf::ev("push range " + s);
			q.push(s.begin(), s.end());
			for (char x : s) if (!m.empty() && m.back() == -1) m.insert(m.end() - 1, x); else m.push_back(x);
			break;
		}
		case 3:
			vf::ev("push end");
			q.push(io_item<char>{ 0, true });
			if (m.empty() || m.back() != -1) m.push_back(-1);
			break;
		case 4:
		{
			vf::ev("prepend");
			if (r.chance(1, 2)) { q.prepend(c); m.push_front(c); }
			else
			{
				std::string s(1 + r.below(3), 'x'); for (auto& x : s) x = static_cast<char>('a' + r.below(6));
				q.prepend(s.begin(), s.end());
				m.insert(m.begin(), s.begin(), s.end());
			}
			break;
		}
		case 5:
		{
			vf::ev("read");
			auto x = q.read();
			VF_CHECK(x.m_wait == m.empty(), "reading waits exactly when the queue is empty");
			if (!m.empty())
			{
				VF_CHECK(x->m_eoq == (m.front() == -1), "the end of the queue is read when it is reached");
				if (m.front() != -1) { VF_CHECK(**x == static_cast<char>(m.front()), "items are read in order"); m.pop_front(); }
			}
			break;
		}
		case 6:
		{
			std::uint32_t w = 1 + static_cast<std::uint32_t>(r.below(4));
			vf::ev("peek " + std::to_string(w));
			auto x = q.peek(w);
			bool ended = !m.empty() && m.back() == -1;
			bool wait = m.size() < w && !ended;
			VF_CHECK(x.m_wait == wait, "peeking waits exactly when the items have not arrived");
			if (!wait)
			{
				std::vector<int> e; for (int y : m) { if (y == -1 || e.size() == w) break; e.push_back(y); }
				VF_CHECK(x->size() == e.size(), "peeking gives the requested items");
				for (std::size_t j = 0; j < e.size(); ++j) VF_CHECK(x->at(j).m_value == static_cast<char>(e[j]), "peeking gives the requested items");
			}
			break;
		}
		default:
		{
			std::uint32_t w = 1 + static_cast<std::uint32_t>(r.below(3));
			vf::ev("read " + std::to_string(w));
			bool wait = m.size() < w;
			auto x = q.read(w);
			VF_CHECK(x.m_wait == wait, "reading several waits exactly when too few are there");
			if (!wait)
			{
				std::vector<int> e; while (e.size() < w && m.front() != -1) { e.push_back(m.front()); m.pop_front(); }
				VF_CHECK(x->size() == e.size(), "reading several gives the items before the end");
				for (std::size_t j = 0; j < e.size(); ++j) VF_CHECK(x->at(j).m_value == static_cast<char>(e[j]), "items are read in order");
			}
		}
		}
	}
	std::string rest, want;
	from_io_queue_convert(q, std::back_inserter(rest));
	for (int y : m) { if (y == -1) break; want += static_cast<char>(y); }
	VF_CHECK(rest == want, "the queue converts to the items it holds");
	vf::count("queue histories");
}

int main(int argc, char** argv)
{
	return vf::drive(argc, argv, [](vf::rng& r, std::uint64_t i, std::vector<std::string> const& a)
	{
		auto const& ls = vf::lines(a.at(0));
		auto f = vf::split(ls.at(i));
		std::string op = f[0];
		vf::ev(op);
		if (f.size() > 1) vf::ev(f[1] + " " + (f.size() > 2 ? f[2].substr(0, 300) : ""));
		vf::count("op " + op);
		std::string out;
		if (op == "Q") { queue_case(r); vf::result(i, "ok"); return; }
		if (op == "L")
		{
			std::string l = vf::unhex(f.at(1) == "." ? "" : f.at(1));
			encoding_name n = get_encoding_name(vf::u32(l));
			out = name_of(n);
			if (n != static_cast<encoding_name>(0)) { out += " " + vf::u8(get_encoding_label(n)) + " " + name_of(get_output_encoding_name(n)); }
			vf::result(i, out); return;
		}
		encoding_name name = names.at(f.at(1));
		auto arg = [&](std::size_t k) { return f.at(k) == "." ? std::string() : vf::unhex(f.at(k)); };
		if (op == "e" || op == "f")
		{
			std::u32string s = vf::u32(arg(2));
			auto in = to_io_queue_convert(s.begin(), s.end());
			io_queue<char> o;
			if (op == "e") { auto rv = name == encoding_name::UTF_8 && i % 2 ? utf8_encode(in, o) : encode(in, name, o); out = kind(rv) + " " + bytes(o); }
			else
			{
				auto rv = encode_or_fail(in, get_encoder(name), o);
				out = kind(rv);
				if (auto* e = std::get_if<result_error>(&rv)) out += ":" + std::to_string(e->code_point);
				out += " " + bytes(o);
			}
		}
		else if (op == "T")
		{
			// T ENC fatal ignorebom chunk/chunk/.. : the last chunk of each group flushes; groups separated by '|'
			text_decoder td = i % 2 ? text_decoder(name, f.at(2) == "1", f.at(3) == "1") : text_decoder(get_encoding_label(name), f.at(2) == "1", f.at(3) == "1");
			VF_CHECK(td.fatal() == (f.at(2) == "1") && td.ignore_bom() == (f.at(3) == "1"), "the options of a text decoder are as given");
			VF_CHECK(td.encoding() == get_encoding_label(name), "a text decoder reports another encoding");
			for (auto const& g : vf::split(f.at(4), '|'))
			{
				std::u32string s; bool thrown = false;
				auto cs = vf::split(g, '/');
				for (std::size_t k = 0; k < cs.size() && !thrown; ++k)
				{
					std::string c = cs[k] == "." ? "" : vf::unhex(cs[k]);
					try { s += td.decode(c.begin(), c.end(), k + 1 < cs.size()); }
					catch (std::range_error const&) { thrown = true; }
				}
				if (thrown) { out += "error"; vf::count("fatal errors raised"); break; }
				out += "text:" + vf::hex(vf::u8(s)) + "|";
			}
		}
		else
		{
			std::string s = arg(2);
			auto in = to_io_queue_convert(s.begin(), s.end());
			io_queue<char32_t> o;
			result_value rv;
			if (op == "D") rv = decode(in, name, o);
			else if (op == "U") rv = utf8_decode(in, o);
			else if (op == "V") rv = utf8_decode_without_bom(in, o);
			else if (op == "W") rv = utf8_decode_without_bom_or_fail(in, o);
			else if (op == "N") { auto c = get_encoding_decoder(name); rv = process_queue(c, in, o, error_mode_name::Replacement); }
			else if (op == "X") { auto c = get_encoding_decoder(name); rv = process_queue(c, in, o, error_mode_name::Fatal); }
			else VF_FAIL("harness", "unknown op");
			out = kind(rv) + " " + text(o);
		}
		vf::result(i, out);
	});
}
