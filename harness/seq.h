// Harness of the sequential components: a driver implements reset(), apply() and random(); this file provides main().
//   driver rand FIRST COUNT   runs seeds FIRST..FIRST+COUNT-1 of random()
//   driver file PATH          runs the operation sequences of PATH, one JSON array of ["name", int...] arrays per line
// Output: one JSON object per sequence: {"id":n,"events":[{"op":["name",1,2],"out":[...]},...]}. A crash (sanitizer
// report, signal, escaped exception) or a hang ends the sequence with {"op":["crash"],"of":[...],"out":[]}.
#pragma once
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
namespace seq
{
	// bytes currently allocated (counted by the sanitized build only)
	inline size_t live_bytes()
	{
#if defined(__SANITIZE_ADDRESS__)
		return __sanitizer_get_current_allocated_bytes();
#else
		return 0;
#endif
	}
}
namespace seq
{
	struct op
	{
		std::string name;
		std::vector<long> a;
		std::vector<std::string> s; // string arguments, in order
		op() = default;
		op(const char* n, std::vector<long> args = {}) : name(n), a(std::move(args)) {}
		long operator[](size_t i) const { return i < a.size() ? a[i] : 0; }
	};
	using out = std::vector<long>;
	struct rng
	{
		uint64_t s;
		uint64_t next()
		{
			s += 0x9E3779B97F4A7C15ull;
			uint64_t z = s;
			z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		long operator()(long n) { return n <= 0 ? 0 : (long)(next() % (uint64_t)n); }
		long range(long lo, long hi) { return lo + (*this)(hi - lo + 1); }
		template <size_t N>
		long pick(const long (&v)[N])
		{
			return v[(*this)((long)N)];
		}
	};

	// provided by the driver
	void reset();                              // a fresh start
	void apply(const op&, out&);               // performs one operation on the real code
	std::vector<op> random(rng&);              // a random sequence
	void finish(std::vector<std::pair<op, out>>&); // optional trailing observations

	struct shared
	{
		size_t index;   // sequence being run
		size_t len;     // bytes of text
		size_t partial; // offset of the operation being run, or 0
		char text[8 << 20];
	};
	inline shared* sh;

	inline void put(const char* p, size_t n)
	{
		if (sh->len + n >= sizeof sh->text)
		{
			fprintf(stderr, "seq: log full\n");
			_exit(3);
		}
		memcpy(sh->text + sh->len, p, n);
		sh->text[sh->len + n] = 0;
		sh->len += n;
	}
	inline void put(const std::string& s) { put(s.data(), s.size()); }
	inline std::string num(long v) { return std::to_string(v); }
	inline std::string show(const op& o)
	{
		std::string r = "[\"" + o.name + "\"";
		for (long v : o.a)
			r += "," + num(v);
		return r + "]";
	}
	inline void log(const op& o, const out& w)
	{
		std::string r = sh->partial == 1 ? "" : ",";
		r += "{\"op\":" + show(o) + ",\"out\":[";
		for (size_t i = 0; i < w.size(); i++)
			r += (i ? "," : "") + num(w[i]);
		put(r + "]}");
		sh->partial = 2;
	}

	inline std::vector<op> parse(const std::string& line)
	{
		std::vector<op> r;
		size_t i = 0;
		auto skip = [&]() { while (i < line.size() && (line[i] == ' ' || line[i] == ',')) i++; };
		skip();
		if (i < line.size() && line[i] == '[')
			i++;
		for (;;)
		{
			skip();
			if (i >= line.size() || line[i] == ']')
				break;
			i++; // [
			op o;
			for (;;)
			{
				skip();
				if (line[i] == ']')
				{
					i++;
					break;
				}
				if (line[i] == '"')
				{
					size_t e = line.find('"', i + 1);
					o.name   = line.substr(i + 1, e - i - 1);
					i        = e + 1;
				}
				else
				{
					char* end;
					o.a.push_back(strtol(line.c_str() + i, &end, 10));
					i = (size_t)(end - line.c_str());
				}
			}
			r.push_back(o);
		}
		return r;
	}

	inline void run_one(const std::vector<op>& ops)
	{
		sh->partial = 1;
		reset();
		for (auto& o : ops)
		{
			out w;
			std::string cur = show(o);
			// the operation in progress sits just behind the log
			size_t keep = sh->len;
			memcpy(sh->text + sh->len, cur.c_str(), cur.size() + 1);
			sh->len = keep;
			apply(o, w);
			log(o, w);
		}
		sh->text[sh->len] = 0;
		std::vector<std::pair<op, out>> tail;
		finish(tail);
		for (auto& t : tail)
			log(t.first, t.second);
	}

	inline int main_(int argc, char** argv)
	{
		std::vector<std::string> lines;
		size_t first = 0, count = 0;
		bool file = argc > 2 && !strcmp(argv[1], "file");
		if (file)
		{
			std::ifstream f(argv[2]);
			for (std::string l; std::getline(f, l);)
				if (!l.empty())
					lines.push_back(l);
			count = lines.size();
		}
		else
		{
			first = argc > 2 ? strtoul(argv[2], nullptr, 10) : 1;
			count = argc > 3 ? strtoul(argv[3], nullptr, 10) : 1;
		}
		sh        = (shared*)mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		sh->index = 0;
		int crashes = 0;
		while (sh->index < count && crashes < 40)
		{
			fflush(stdout);
			pid_t pid = fork();
			if (pid == 0)
			{
				for (; sh->index < count; sh->index++)
				{
					sh->len     = 0;
					sh->partial = 0;
					sh->text[0] = 0;
					alarm(20);
					std::vector<op> ops;
					if (file)
						ops = parse(lines[sh->index]);
					else
					{
						rng r{ (first + sh->index) * 1000003 + 7 };
						ops = random(r);
					}
					run_one(ops);
					sh->text[sh->len] = 0;
					printf("{\"id\":%zu,\"events\":[%s]}\n", first + sh->index, sh->text);
					fflush(stdout);
				}
				fflush(stdout);
				_exit(0);
			}
			int st = 0;
			while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
				break;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
				return 3;
			crashes++;
			std::string done(sh->text, sh->len), cur(sh->text + sh->len);
			const char* what = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash";
			printf("{\"id\":%zu,\"events\":[%s%s{\"op\":[\"%s\"],\"of\":%s,\"out\":[]}]}\n", first + sh->index, done.c_str(), done.empty() ? "" : ",",
				   what, cur.empty() ? "[]" : cur.c_str());
			sh->index++;
		}
		fflush(stdout);
		return 0;
	}
}
#define SEQ_MAIN()                                                                                                                         \
	int main(int argc, char** argv) { return seq::main_(argc, argv); }
