// Shared scaffolding of the monitored drivers: a seeded generator, the per-case
// loop with crash attribution and a CPU watchdog, coverage counters, and the
// event trace that a violated case is reported with.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <csignal>
#include <unistd.h>
#include <unordered_set>
#include <vector>
// VF_THREADS: the same cases run in several threads at once, see drive() below
#ifdef VF_THREADS
#include <atomic>
#include <memory>
#include <pthread.h>
#define VF_TLS thread_local
#else
#define VF_TLS
#endif

namespace vf
{
	struct rng
	{
		std::uint64_t s;
		explicit rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
		std::uint64_t next()
		{
			std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
		std::int64_t range(std::int64_t a, std::int64_t b) { return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a + 1))); }
		bool chance(unsigned num, unsigned den) { return below(den) < num; }
		template <typename C> auto& pick(C& c) { return c[below(c.size())]; }
		template <typename C> auto const& pick(C const& c) { return c[below(c.size())]; }
	};

	inline std::uint64_t fnv(void const* p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
	{
		auto const* b = static_cast<unsigned char const*>(p);
		for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
		return h;
	}
	inline std::uint64_t fnv(std::string const& s, std::uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

	struct failure : std::runtime_error
	{
		std::string sig;
		failure(std::string s, std::string d) : std::runtime_error(d), sig(std::move(s)) {}
	};

	inline std::map<std::string, std::uint64_t>& counters() { static VF_TLS std::map<std::string, std::uint64_t> m; return m; }
	inline void count(std::string const& k, std::uint64_t n = 1) { counters()[k] += n; }
	inline std::unordered_set<std::uint64_t>& states() { static VF_TLS std::unordered_set<std::uint64_t> s; return s; }
	inline void state(std::uint64_t h) { if (states().size() < 4000000) states().insert(h); }

	inline std::unordered_set<std::uint64_t>& cases() { static VF_TLS std::unordered_set<std::uint64_t> s; return s; }

	// the event trace of the running case
	inline std::vector<std::string>& trace() { static VF_TLS std::vector<std::string> t; return t; }
	inline void ev(std::string s) { if (trace().size() < 4000) trace().push_back(std::move(s)); }

	inline void raise(char const* file, int line, std::string const& sig, std::string const& detail)
	{
		std::ostringstream o;
		char const* b = std::strrchr(file, '/');
		o << detail << " [" << (b ? b + 1 : file) << ":" << line << "]";
		throw failure(sig, o.str());
	}
	#define VF_FAIL(sig, detail) ::vf::raise(__FILE__, __LINE__, (sig), (detail))
	#define VF_CHECK(cond, sig) do { ++::vf::evals(); if (!(cond)) ::vf::raise(__FILE__, __LINE__, (sig), "monitor condition false: " #cond); } while (0)
	inline std::uint64_t& evals() { static VF_TLS std::uint64_t e = 0; return e; }

	inline std::string esc(std::string const& s)
	{
		std::string o;
		char buf[8];
		for (unsigned char c : s)
		{
			if (c == '\\' || c == '"') { o += '\\'; o += static_cast<char>(c); }
			else if (c < 0x20 || c >= 0x7F) { std::snprintf(buf, sizeof buf, "\\u%04x", c); o += buf; }
			else o += static_cast<char>(c);
		}
		return o;
	}

	inline void on_hang(int)
	{
		static char const m[] = "\nVF-HANG: the case used up its CPU budget\n";
		(void)!::write(2, m, sizeof m - 1);
		::_exit(97);
	}

	inline int& out_fd() { static int fd = 1; return fd; }
	inline void emit(std::string const& line)
	{
		std::string s = line + "\n";
		std::size_t p = 0;
		while (p < s.size())
		{
			ssize_t n = ::write(out_fd(), s.data() + p, s.size() - p);
			if (n <= 0) ::_exit(96);
			p += static_cast<std::size_t>(n);
		}
	}

	inline std::uint64_t case_seed(std::uint64_t seed, std::uint64_t i) { return seed * 1000003ull + i * 7919ull + 17; }

#ifdef VF_THREADS
	// The outcome of one case: how it failed, if it did, what it recorded and its event trace.
	inline std::string& record() { static thread_local std::string r; return r; }

	// usage: driver SEED START COUNT OUT THREADS ROUNDS [mode...]
	// THREADS threads run the same cases at the same time, on objects of their own, in orders of their own; then
	// one thread runs them alone.  Every outcome must be the one of the run alone.  THREADS 0: the run alone only.
	inline int drive(int argc, char** argv, std::function<void(rng&, std::uint64_t, std::vector<std::string> const&)> body)
	{
		if (argc < 7) { std::fprintf(stderr, "usage\n"); return 2; }
		std::uint64_t seed = std::strtoull(argv[1], nullptr, 10), start = std::strtoull(argv[2], nullptr, 10), n = std::strtoull(argv[3], nullptr, 10);
		out_fd() = ::open(argv[4], O_WRONLY | O_CREAT | O_APPEND, 0644);
		unsigned threads = static_cast<unsigned>(std::strtoul(argv[5], nullptr, 10));
		std::vector<std::string> rest(argv + 7, argv + argc);
		struct outcome { std::uint64_t hash = 0; std::string text; };
		auto one = [&](std::uint64_t i) -> outcome
		{
			trace().clear();
			record().clear();
			rng r(case_seed(seed, i));
			std::string o;
			try { body(r, i, rest); }
			catch (failure const& e) { o = "failed: " + e.sig + " "; }
			catch (std::exception const& e) { o = std::string("exception: ") + e.what() + " "; }
			catch (...) { o = "exception "; }
			o += record();
			std::uint64_t h = fnv(o);
			for (auto const& e : trace()) h = fnv(e, h);
			return { h, o.substr(0, 300) };
		};
		struct job
		{
			std::vector<outcome> out; std::vector<std::uint64_t> order, tickets; std::uint64_t evals = 0; std::size_t states = 0;
			std::function<void(job&)> run;
		};
		std::atomic<std::uint64_t> ticket{ 0 };
		std::atomic<unsigned> ready{ 0 };
		std::vector<std::unique_ptr<job>> jobs;
		for (unsigned t = 0; t < threads; ++t)
		{
			auto j = std::make_unique<job>();
			j->out.resize(n);
			j->tickets.resize(n);
			// all together from the first case on; the same backwards; from the middle on; in a random order
			rng r(seed * 31 + t);
			for (std::uint64_t k = 0; k < n; ++k) j->order.push_back(k);
			if (t % 4 == 2) for (std::uint64_t k = 0; k < n; ++k) j->order[k] = n - 1 - k;
			if (t % 4 == 3) for (std::uint64_t k = n; k > 1; --k) std::swap(j->order[k - 1], j->order[r.below(k)]);
			j->run = [&](job& me)
			{
				ready.fetch_add(1);
				while (ready.load() < threads) {}
				for (std::uint64_t k : me.order)
				{
					me.tickets[k] = ticket.fetch_add(1, std::memory_order_relaxed);
					me.out[k] = one(start + k);
				}
				me.evals = evals();
				me.states = states().size();
			};
			jobs.push_back(std::move(j));
		}
		std::vector<pthread_t> ts(threads);
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 256u << 20);
		for (unsigned t = 0; t < threads; ++t)
			if (pthread_create(&ts[t], &at, [](void* p) -> void* { auto* j = static_cast<job*>(p); j->run(*j); return nullptr; }, jobs[t].get()) != 0) { std::fprintf(stderr, "usage: no threads\n"); return 2; }
		for (auto t : ts) pthread_join(t, nullptr);
		// alone
		job alone;
		alone.out.resize(n);
		alone.run = [&](job& me) { for (std::uint64_t k = 0; k < n; ++k) me.out[k] = one(start + k); me.evals = evals(); };
		pthread_t ta;
		if (pthread_create(&ta, &at, [](void* p) -> void* { auto* j = static_cast<job*>(p); j->run(*j); return nullptr; }, &alone) != 0) return 2;
		pthread_join(ta, nullptr);
		unsigned fails = 0;
		std::uint64_t same = 0, switches = 0, ev = alone.evals;
		std::vector<std::pair<std::uint64_t, unsigned>> sched;
		for (unsigned t = 0; t < threads; ++t)
		{
			ev += jobs[t]->evals;
			for (std::uint64_t k = 0; k < n; ++k)
			{
				sched.push_back({ jobs[t]->tickets[k], t });
				if (jobs[t]->out[k].hash == alone.out[k].hash) { ++same; continue; }
				if (++fails <= 20) emit("F {\"case\":" + std::to_string(start + k) + ",\"sig\":\"another outcome while other threads ran\",\"detail\":\"thread " + std::to_string(t) + ": " + esc(jobs[t]->out[k].text) + " alone: " + esc(alone.out[k].text) + "\",\"trace\":[]}");
			}
		}
		std::sort(sched.begin(), sched.end());
		std::set<std::string> windows;
		for (std::size_t k = 1; k < sched.size(); ++k) switches += sched[k].second != sched[k - 1].second;
		for (std::size_t k = 0; k + 8 <= sched.size(); ++k) { std::string w; for (std::size_t x = 0; x < 8; ++x) w += static_cast<char>('0' + sched[k + x].second); windows.insert(w); }
		std::unordered_set<std::uint64_t> distinct;
		for (auto const& o : alone.out) distinct.insert(o.hash);
		std::string js = ("S {\"evals\":" + std::to_string(ev + same) + ",\"counters\":{\"cases\":" + std::to_string(n) + ",\"outcomes compared\":" + std::to_string(same + fails)
			+ ",\"switches between threads\":" + std::to_string(switches) + ",\"distinct windows of 8 case starts\":" + std::to_string(windows.size()) + "},\"states\":[],\"cases\":[");
		bool f = true;
		for (auto h : distinct) { if (!f) js += ","; f = false; js += std::to_string(h); }
		emit(js + "]}");
		emit("E");
		return 0;
	}

#else
	// usage: driver SEED START COUNT OUT PROGRESS CPU_PER_CASE [mode...]
	inline int drive(int argc, char** argv, std::function<void(rng&, std::uint64_t, std::vector<std::string> const&)> body)
	{
		if (argc < 7) { std::fprintf(stderr, "usage\n"); return 2; }
		std::uint64_t seed = std::strtoull(argv[1], nullptr, 10), start = std::strtoull(argv[2], nullptr, 10), n = std::strtoull(argv[3], nullptr, 10);
		out_fd() = ::open(argv[4], O_WRONLY | O_CREAT | O_APPEND, 0644);
		int pfd = ::open(argv[5], O_WRONLY | O_CREAT, 0644);
		long cpu = std::strtol(argv[6], nullptr, 10);
		std::vector<std::string> rest(argv + 7, argv + argc);
		std::signal(SIGPROF, on_hang);
		unsigned fails = 0;
		for (std::uint64_t i = start; i < start + n; ++i)
		{
			(void)!::pwrite(pfd, &i, sizeof i, 0);
			itimerval t{}; t.it_value.tv_sec = cpu; ::setitimer(ITIMER_PROF, &t, nullptr);
			trace().clear();
			rng r(case_seed(seed, i));
			std::string sig, det;
			try { body(r, i, rest); }
			catch (failure const& e) { sig = e.sig; det = e.what(); }
			catch (std::exception const& e) { sig = std::string("unexpected exception"); det = e.what(); }
			catch (...) { sig = "unexpected exception"; det = "unknown"; }
			count("cases");
			{
				std::uint64_t h = 77;
				for (auto const& e : trace()) h = fnv(e, h);
				if (trace().size() >= 2) cases().insert(h);
				if (i < start + 2 && trace().size() >= 2)
				{
					std::string tr;
					for (std::size_t k = 0; k < trace().size() && k < 12; ++k) { if (k) tr += "; "; tr += esc(trace()[k]); }
					emit("X \"case " + std::to_string(i) + ": " + tr.substr(0, 380) + "\"");
				}
			}
			if (!sig.empty())
			{
				std::string tr;
				std::size_t from = trace().size() > 60 ? trace().size() - 60 : 0;
				for (std::size_t k = from; k < trace().size(); ++k) { if (k != from) tr += ","; tr += "\"" + esc(trace()[k]) + "\""; }
				emit("F {\"case\":" + std::to_string(i) + ",\"sig\":\"" + esc(sig) + "\",\"detail\":\"" + esc(det) + "\",\"trace\":[" + tr + "]}");
				if (++fails >= 20) { ++i; break; }
			}
		}
		itimerval z{}; ::setitimer(ITIMER_PROF, &z, nullptr);
		std::string js = "S {\"evals\":" + std::to_string(evals()) + ",\"counters\":{";
		bool f = true;
		for (auto const& [k, v] : counters()) { if (!f) js += ","; f = false; js += "\"" + esc(k) + "\":" + std::to_string(v); }
		js += "},\"states\":[";
		f = true;
		std::size_t lim = 200000;
		for (auto h : states()) { if (!lim--) break; if (!f) js += ","; f = false; js += std::to_string(h); }
		js += "],\"cases\":[";
		f = true;
		for (auto h : cases()) { if (!f) js += ","; f = false; js += std::to_string(h); }
		js += "]}";
		emit(js);
		emit("E");
		return 0;
	}
#endif

	inline std::string hex(std::string const& s)
	{
		static char const* d = "0123456789abcdef";
		std::string o;
		for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
		return o;
	}
	inline std::string unhex(std::string const& s)
	{
		auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
		std::string o;
		for (std::size_t i = 0; i + 1 < s.size(); i += 2) o += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
		return o;
	}

	// cases given by a file, one per line
	inline std::vector<std::string> const& lines(std::string const& path)
	{
		static std::vector<std::string> const v = [&]
		{
			std::vector<std::string> v;
			std::FILE* f = std::fopen(path.c_str(), "rb");
			if (!f) { std::fprintf(stderr, "usage: no case file\n"); ::_exit(2); }
			std::string all; char buf[65536]; std::size_t n;
			while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, n);
			std::fclose(f);
			std::size_t p = 0;
			while (p < all.size()) { std::size_t q = all.find('\n', p); if (q == std::string::npos) q = all.size(); v.push_back(all.substr(p, q - p)); p = q + 1; }
			return v;
		}();
		return v;
	}
	inline std::vector<std::string> split(std::string const& s, char c = ' ')
	{
		std::vector<std::string> v;
		std::size_t p = 0;
		while (true) { std::size_t q = s.find(c, p); if (q == std::string::npos) { v.push_back(s.substr(p)); return v; } v.push_back(s.substr(p, q - p)); p = q + 1; }
	}
#ifdef VF_THREADS
	inline void result(std::uint64_t, std::string const& payload) { record() += payload; }
#else
	inline void result(std::uint64_t i, std::string const& payload) { emit("R " + std::to_string(i) + " " + payload); }
#endif
	// code points as UTF-8 (surrogates and out-of-range values included, in the generalized form)
	inline void put8(std::string& o, std::uint32_t c)
	{
		if (c < 0x80) o += static_cast<char>(c);
		else if (c < 0x800) { o += static_cast<char>(0xC0 | c >> 6); o += static_cast<char>(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += static_cast<char>(0xE0 | c >> 12); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
		else if (c < 0x200000) { o += static_cast<char>(0xF0 | c >> 18); o += static_cast<char>(0x80 | (c >> 12 & 63)); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
		else o += "{out-of-range}";
	}
	template <typename S> std::string u8(S const& s) { std::string o; for (auto c : s) put8(o, static_cast<std::uint32_t>(c)); return o; }
	inline std::u32string u32(std::string const& s)
	{
		std::u32string o;
		for (std::size_t i = 0; i < s.size();)
		{
			unsigned char c = static_cast<unsigned char>(s[i]);
			int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
			std::uint32_t v = n == 0 ? c : n == 1 ? c & 31u : n == 2 ? c & 15u : c & 7u;
			for (int k = 1; k <= n && i + static_cast<std::size_t>(k) < s.size(); ++k) v = v << 6 | (static_cast<unsigned char>(s[i + static_cast<std::size_t>(k)]) & 63u);
			i += static_cast<std::size_t>(n) + 1;
			o += static_cast<char32_t>(v);
		}
		return o;
	}
}
