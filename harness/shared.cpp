// X01: several threads read one object at the same time, through its const interface; each must observe what one
// thread alone observes.  usage: shared SEED START COUNT OUT THREADS ROUNDS
#include <limits>
#include <wordring/css/selector.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/wwwc/selectors/api.hpp>
#include <wordring/whatwg/url/api.hpp>
#include <wordring/static_vector/static_vector.hpp>
#include <wordring/string/atom.hpp>
#include <wordring/tree/tree.hpp>
#include <wordring/tree/tree_iterator.hpp>
#include <wordring/trie/trie.hpp>
#include "common.hpp"

namespace html = wordring::html;
namespace css = wordring::wwwc::css;
using namespace vf;

using reader = std::function<std::string()>;

static std::string word(rng& r) { std::string s; for (auto n = r.range(1, 6); n; --n) s += static_cast<char>('a' + r.below(3)); return s; }

static reader tree_reader(rng& r)
{
	auto t = std::make_shared<wordring::tree<std::string>>();
	std::vector<wordring::tree<std::string>::iterator> v{ t->insert(t->end(), "root") };
	for (auto n = r.range(0, 30); n; --n) v.push_back(t->insert(r.pick(v).end(), word(r)));
	return [t]
	{
		wordring::tree<std::string> const& c = *t;
		std::string o = std::to_string(c.size()) + (c.empty() ? "e" : "f");
		for (auto it = c.begin(); it != c.end(); ++it)
		{
			wordring::tree_iterator<decltype(it)> w(it);
			for (; w != decltype(w)(); ++w) o += *w + ",";
			wordring::level_order_tree_iterator<decltype(it)> l(it);
			for (; l != decltype(l)(); ++l) { auto b = l.base(); o += *b; if (b != c.begin()) o += *b.parent(); for (auto k = b.begin(); k != b.end(); ++k) o += "."; }
		}
		auto copy = c;
		return o + std::to_string(copy.size());
	};
}

template <template <typename, typename> class Trie>
static reader trie_reader(rng& r)
{
	using T = Trie<char, std::allocator<wordring::detail::trie_node>>;
	auto t = std::make_shared<T>();
	std::vector<std::string> keys, asked;
	for (auto n = r.range(0, 40); n; --n) { std::string k = word(r); t->insert(k, static_cast<std::int32_t>(n)); keys.push_back(k); }
	asked = keys;
	for (int n = 0; n < 20; ++n) asked.push_back(word(r));
	for (auto n = keys.size() / 4; n; --n) if (t->contains(keys[n])) t->erase(keys[n]);
	return [t, asked]
	{
		T const& c = *t;
		std::string o = std::to_string(c.size());
		for (auto const& k : asked)
		{
			o += c.contains(k) ? "+" : "-";
			auto f = c.find(k);
			if (f != c.cend()) { std::string s; f.string(s); o += s + std::to_string(c.at(f)); }
			auto x = c.search(k);
			if (x != c.cend()) { std::string s; x.string(s); o += s; }
			auto lk = c.lookup(k.begin(), k.end());
			o += std::to_string(lk.second - k.begin());
		}
		for (wordring::tree_iterator<typename T::const_iterator> it(c.cbegin()), e; it != e; ++it) { std::string s; it.base().string(s); o += s + (it.base() ? "!" : "."); }
		for (auto i = c.ibegin(); i != c.iend(); ++i) o += std::to_string(*i) + " ";
		T copy = c;
		return o + std::to_string(copy.size());
	};
}

static reader atom_reader(rng& r)
{
	using A = wordring::basic_atom_set<std::u32string>;
	auto a = std::make_shared<A>();
	std::vector<std::u32string> words;
	for (auto n = r.range(1, 20); n; --n) { std::string w = word(r); words.push_back(std::u32string(w.begin(), w.end())); if (r.chance(2, 3)) a->insert(std::u32string_view(words.back())); }
	return [a, words]
	{
		A const& c = *a;
		std::string o = std::to_string(c.size());
		for (auto const& w : words)
		{
			auto x = c.at(std::u32string_view(w));
			auto id = static_cast<std::uint32_t>(x);
			o += std::to_string(id) + u8(static_cast<std::u32string>(x)) + (c.contains(std::u32string_view(w)) ? "+" : "-");
			if (id) o += u8(static_cast<std::u32string>(c.at(id)));
		}
		return o;
	};
}

static char const* const DOC[] = {
	"<!DOCTYPE html><title>t</title><p id=a class='b c'>x<b>y<i>z</b>w</i><table><tr><td>1<p>2</table><svg><a xlink:href=u>v</a></svg>",
	"<ul><li class=b>1<li id=a>2<ul><li>3</ul><li lang=en-US title=''>4</ul>&amp;&lt;<!--c--><pre>\n\nx</pre>",
	"<div><p>a<p>b<div><p class=c>c</div></div><math><mi>x</mi></math><select><option>1<option selected>2</select>" };
static char const* const SEL[] = { "p", "#a", ".b", "*", "p, b", "div p", "div > p", "p + p", "li ~ li", "[class~=b]", "[id]", ":first-child", "li:nth-child(2n+1)", "svg|a", "p.c" };

template <typename Tree>
static reader html_reader(rng& r)
{
	std::string d = DOC[r.below(3)];
	if (r.chance(1, 2)) { std::string e = DOC[r.below(3)]; d += e.substr(0, r.below(e.size())); }
	auto t = std::make_shared<Tree>(html::make_document<Tree>(d.begin(), d.end()));
	auto ctx = std::make_shared<css::parse_context>();
	auto lists = std::make_shared<std::vector<css::selector_list>>();
	for (auto const* s : SEL) if (std::strchr(s, '|') == nullptr) { std::string b(s); lists->push_back(css::parse_selector(std::u32string(b.begin(), b.end()), *ctx)); }
	return [t, ctx, lists]
	{
		Tree const& c = *t;
		std::string o;
		html::to_string(c.begin(), std::back_inserter(o));
		std::vector<typename Tree::const_iterator> v;
		for (auto const& l : *lists)
		{
			auto b = c.begin(), e = c.begin();
			++e;
			css::match_selector(l, *ctx, b, e, std::back_inserter(v));
			for (auto const& n : v) { o += " "; html::to_string(n, std::back_inserter(o)); }
			v.clear();
		}
		wordring::css::query_selector_all(c.begin(), std::u32string(U"li, .b"), std::back_inserter(v));
		for (auto const& n : v) for (auto a = n->begin(); a != n->end(); ++a) o += " " + u8(wordring::encoding_cast<std::u32string>(a->value()));
		Tree copy = c;
		html::to_string(copy.begin(), std::back_inserter(o));
		return o;
	};
}

static reader url_reader(rng& r)
{
	static char const* const U[] = { "http://u:p@h.example:81/a/../b%41?q=\xC3\xA9#f", "file:///C|/x", "a:b", "https://[2001:db8::1]/", "ws://1.2.0x3.4/x y", "http://b\xC3\xBC" "cher.example/" };
	using X = wordring::whatwg::basic_url<std::u32string>;
	auto u = std::make_shared<X>(vf::u32(U[r.below(6)]));
	auto w = std::make_shared<X>(vf::u32(U[r.below(6)]));
	return [u, w]
	{
		X const& c = *u;
		std::string o = vf::u8(c.href()) + "|" + vf::u8(c.protocol()) + vf::u8(c.username()) + vf::u8(c.password()) + "|" + vf::u8(c.host()) + vf::u8(c.hostname()) + vf::u8(c.port()) + "|" + vf::u8(c.pathname()) + vf::u8(c.search()) + vf::u8(c.hash());
		o += vf::u8(to_string(c, true));
		X copy(c);
		return o + vf::u8(copy.href()) + vf::u8(w->href());
	};
}

static reader vector_reader(rng& r)
{
	using V = wordring::static_vector<std::string, 16>;
	auto a = std::make_shared<V>(), b = std::make_shared<V>();
	for (auto n = r.below(16); n; --n) { a->push_back(word(r)); b->push_back(word(r)); }
	return [a, b]
	{
		V const& c = *a;
		std::string o = std::to_string(c.size()) + (c.empty() ? "e" : c.front() + c.back());
		for (auto const& s : c) o += s;
		for (auto i = c.rbegin(); i != c.rend(); ++i) o += *i;
		V copy(c);
		return o + (c == *b ? "=" : "!") + (c < *b ? "<" : ">") + copy.data()->substr(0, 0) + std::to_string(copy.size());
	};
}

int main(int argc, char** argv)
{
	if (argc < 7) { std::fprintf(stderr, "usage\n"); return 2; }
	std::uint64_t seed = std::strtoull(argv[1], nullptr, 10), start = std::strtoull(argv[2], nullptr, 10), n = std::strtoull(argv[3], nullptr, 10);
	out_fd() = ::open(argv[4], O_WRONLY | O_CREAT | O_APPEND, 0644);
	unsigned threads = static_cast<unsigned>(std::strtoul(argv[5], nullptr, 10)), rounds = static_cast<unsigned>(std::strtoul(argv[6], nullptr, 10));
	static char const* const KIND[] = { "tree", "trie", "stable_trie", "atom_set", "html u8", "html u32", "url", "static_vector" };
	std::uint64_t cmp = 0, fails = 0;
	std::map<std::string, std::uint64_t> kinds;
	std::unordered_set<std::uint64_t> distinct;
	for (std::uint64_t i = start; i < start + n; ++i)
	{
		rng r(case_seed(seed, i));
		reader f;
		std::string alone;
		try
		{
			switch (i % 8)
			{
			case 0: f = tree_reader(r); break;
			case 1: f = trie_reader<wordring::trie>(r); break;
			case 2: f = trie_reader<wordring::stable_trie>(r); break;
			case 3: f = atom_reader(r); break;
			case 4: f = html_reader<html::u8simple_tree>(r); break;
			case 5: f = html_reader<html::u32simple_tree>(r); break;
			case 6: f = url_reader(r); break;
			default: f = vector_reader(r); break;
			}
		}
		catch (...) { continue; }
		struct job { reader* f; unsigned rounds; std::atomic<unsigned>* ready; unsigned all; std::vector<std::string> out; };
		std::atomic<unsigned> ready{ 0 };
		std::vector<std::unique_ptr<job>> js;
		std::vector<pthread_t> ts(threads);
		for (unsigned t = 0; t < threads; ++t) js.push_back(std::unique_ptr<job>(new job{ &f, rounds, &ready, threads, {} }));
		auto go = [](void* p) -> void*
		{
			auto* j = static_cast<job*>(p);
			j->ready->fetch_add(1, std::memory_order_relaxed);
			while (j->ready->load(std::memory_order_relaxed) < j->all) {}
			for (unsigned k = 0; k < j->rounds; ++k)
				try { j->out.push_back((*j->f)()); } catch (...) { j->out.push_back("exception"); }
			return nullptr;
		};
		for (unsigned t = 0; t < threads; ++t) if (pthread_create(&ts[t], nullptr, go, js[t].get()) != 0) { std::fprintf(stderr, "usage: no threads\n"); return 2; }
		for (auto t : ts) pthread_join(t, nullptr);
		try { alone = f(); } catch (...) { alone = "exception"; }
		distinct.insert(fnv(alone, i % 8));
		++kinds[KIND[i % 8]];
		for (auto& j : js) for (auto const& o : j->out)
		{
			++cmp;
			if (o != alone && ++fails <= 20) emit("F {\"case\":" + std::to_string(i) + ",\"sig\":\"another observation while other threads read the same object\",\"detail\":\"" + std::string(KIND[i % 8]) + " read together: " + esc(o.substr(0, 300)) + " alone: " + esc(alone.substr(0, 300)) + "\",\"trace\":[]}");
		}
	}
	std::string js = "S {\"evals\":" + std::to_string(cmp) + ",\"counters\":{\"cases\":" + std::to_string(n) + ",\"readings compared\":" + std::to_string(cmp);
	for (auto const& [k, v] : kinds) js += ",\"objects read: " + k + "\":" + std::to_string(v);
	js += "},\"states\":[],\"cases\":[";
	bool first = true;
	for (auto h : distinct) { if (!first) js += ","; first = false; js += std::to_string(h); }
	emit(js + "]}");
	emit("E");
	return 0;
}
