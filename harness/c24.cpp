// C24: assertions abort exactly when violated; logs are complete and flushed.
// Every scenario runs in a child process with its own stdin/stdout/stderr (pipe, file, terminal, closed, full device); the monitor
// observes the exit status, all bytes written, and counters in shared memory which tell what was called and what was flushed when.
#define VH_MAIN
#include "vh.hpp"

#include <functional>
#include <iostream>
#include <sstream>

#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>

#include <locale>

#include <utki/debug.hpp>
#include <utki/log.hpp>
#include <utki/utility.hpp>

#ifdef assert
#	undef assert
#endif

using namespace vh;

namespace {

#ifdef DEBUG
constexpr bool debug = true;
#else
constexpr bool debug = false;
#endif

struct shared {
	int print_calls;
	int cond_calls;
	int proc_calls;
	int survived; // reached the end of the scenario
	int bad_flush; // number of log calls after which not everything was in the file
	int macro_evaluations;
	int term_bits;
	char aux[200];
};

enum stream_kind { s_pipe, s_file, s_pty, s_null, s_full, s_closed };
const char* const kind_names[] = {"pipe", "file", "terminal", "/dev/null", "/dev/full", "closed"};

struct stream {
	int kind = s_pipe;
	int child_fd = -1; // what the child gets
	int parent_fd = -1; // what the parent reads
	std::string got;

	bool open(int k)
	{
		this->kind = k;
		switch (k) {
			case s_pipe: {
				int p[2];
				if (::pipe(p) != 0) {
					return false;
				}
				this->parent_fd = p[0];
				this->child_fd = p[1];
				return true;
			}
			case s_file: {
				int fd = memfd_create("vh", 0);
				if (fd < 0) {
					return false;
				}
				this->child_fd = fd;
				this->parent_fd = -1;
				return true;
			}
			case s_pty: {
				int m = ::posix_openpt(O_RDWR | O_NOCTTY);
				if (m < 0 || ::grantpt(m) != 0 || ::unlockpt(m) != 0) {
					return false;
				}
				char name[100];
				if (::ptsname_r(m, name, sizeof(name)) != 0) {
					return false;
				}
				int s = ::open(name, O_RDWR | O_NOCTTY);
				if (s < 0) {
					::close(m);
					return false;
				}
				termios t{};
				::tcgetattr(s, &t);
				::cfmakeraw(&t);
				::tcsetattr(s, TCSANOW, &t);
				this->parent_fd = m;
				this->child_fd = s;
				return true;
			}
			case s_null: this->child_fd = ::open("/dev/null", O_RDWR); return this->child_fd >= 0;
			case s_full: this->child_fd = ::open("/dev/full", O_WRONLY); return this->child_fd >= 0;
			default: return true;
		}
	}
	void read_some()
	{
		char b[65536];
		auto n = ::read(this->parent_fd, b, sizeof(b));
		if (n > 0) {
			this->got.append(b, size_t(n));
		} else {
			::close(this->parent_fd);
			this->parent_fd = -1;
		}
	}
	void close_all()
	{
		if (this->child_fd >= 0) {
			::close(this->child_fd);
			this->child_fd = -1;
		}
		if (this->parent_fd >= 0) {
			::close(this->parent_fd);
			this->parent_fd = -1;
		}
	}
	bool observed() const { return this->kind == s_pipe || this->kind == s_file || this->kind == s_pty; }
};

struct outcome {
	int status = 0;
	std::string out, err;
	shared sh{};
	bool aborted() const { return WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT; }
	bool exited(int code) const { return WIFEXITED(status) && WEXITSTATUS(status) == code; }
	std::string text() const
	{
		std::string s = WIFEXITED(status) ? "exit code " + std::to_string(WEXITSTATUS(status)) : "signal " + std::to_string(WTERMSIG(status));
		return s + ", stdout " + esc(out) + ", stderr " + esc(err);
	}
};

constexpr int exit_ok = 42;

// runs f in a child process
outcome in_child(int k0, int k1, int k2, const std::function<void(shared&)>& f)
{
	stream s[3];
	int kinds[3] = {k0, k1, k2};
	for (int i = 0; i != 3; ++i) {
		if (!s[i].open(kinds[i])) { // e.g. no terminals available: fall back to a pipe
			s[i].close_all();
			COUNT("stream fallbacks");
			s[i].open(s_pipe);
		}
	}
	auto m = static_cast<shared*>(::mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (m == MAP_FAILED) {
		throw std::bad_alloc();
	}
	pid_t pid = ::fork();
	if (pid == 0) {
		rlimit nocore{0, 0};
		::setrlimit(RLIMIT_CORE, &nocore);
		::signal(SIGABRT, SIG_DFL);
		::alarm(60);
		// free the standard descriptors first: the streams of the parent may use these numbers
		int fds[3];
		for (int i = 0; i != 3; ++i) {
			fds[i] = s[i].kind == s_closed ? -1 : ::fcntl(i == 0 && s[i].kind == s_pipe ? s[i].parent_fd : s[i].child_fd, F_DUPFD, 100);
		}
		for (int i = 0; i != 3; ++i) {
			if (fds[i] >= 0) {
				::dup2(fds[i], i);
				::close(fds[i]);
			} else {
				::close(i);
			}
		}
		for (auto& x : s) {
			x.close_all();
		}
		try {
			f(*m);
		} catch (...) {
			::_exit(99);
		}
		m->survived = 1;
		::_exit(exit_ok); // nothing is flushed here
	}
	// the parent: read until the ends are closed
	for (int i = 0; i != 3; ++i) {
		if (s[i].kind != s_file && s[i].child_fd >= 0) {
			::close(s[i].child_fd);
			s[i].child_fd = -1;
		}
	}
	for (;;) {
		pollfd p[2];
		stream* who[2];
		nfds_t n = 0;
		for (int i = 1; i != 3; ++i) {
			if (s[i].parent_fd >= 0) {
				p[n] = {s[i].parent_fd, POLLIN, 0};
				who[n] = &s[i];
				++n;
			}
		}
		if (n == 0) {
			break;
		}
		if (::poll(p, n, 90000) <= 0) {
			break;
		}
		for (nfds_t i = 0; i != n; ++i) {
			if (p[i].revents != 0) {
				who[i]->read_some();
			}
		}
	}
	outcome o;
	::waitpid(pid, &o.status, 0);
	for (int i = 1; i != 3; ++i) {
		if (s[i].kind == s_file) {
			auto size = ::lseek(s[i].child_fd, 0, SEEK_END);
			s[i].got.resize(size_t(size));
			if (size > 0 && ::pread(s[i].child_fd, s[i].got.data(), size_t(size), 0) != size) {
				abort();
			}
		}
	}
	o.out = s[1].got;
	o.err = s[2].got;
	o.sh = *m;
	for (auto& x : s) {
		x.close_all();
	}
	::munmap(m, sizeof(shared));
	progress();
	COUNT("child processes");
	return o;
}

int err_kind(rng& r)
{
	static const int ks[] = {s_pipe, s_pipe, s_file, s_pty, s_null, s_full, s_closed};
	return r.pick(ks);
}

std::string message(rng& r)
{
	switch (r.below(5)) {
		case 0: return "";
		case 1: return "value is " + std::to_string(r.integer<int>());
		case 2: return "two\nlines with 100%s";
		case 3: return r.text(r.chance(1, 12) ? size_t(r.range(4000, 200000)) : r.size(3000), "abc \n%d\\");
		default: return "some message";
	}
}

struct where {
	const char* file;
	unsigned line;
};

} // namespace

namespace {
enum api {
	always_bool_msg,
	always_bool,
	bool_msg,
	bool_only,
	func_msg,
	func_only,
	raw_msg,
	raw_only,
	shared_msg,
	shared_only,
	unique_msg,
	unique_only,
	function_msg,
	function_only,
	macro_one,
	macro_two,
	macro_func,
	macro_ptr,
	always_null_print,
	std_func_bool,
	implicit_location,
	num_apis
};
const char* const api_names[] = {
	"assert_always(bool, print, sl)", "assert_always(bool, sl)", "assert(bool, print, sl)", "assert(bool, sl)", "assert(lambda, print, sl)", "assert(lambda, sl)",
	"assert(T*, print, sl)", "assert(T*, sl)", "assert(shared_ptr, print, sl)", "assert(shared_ptr, sl)", "assert(unique_ptr, print, sl)", "assert(unique_ptr, sl)",
	"assert(std::function, print, sl)", "assert(std::function, sl)", "ASSERT(x)", "ASSERT(x, print)", "ASSERT(lambda, print)", "ASSERT(pointer)", "assert_always(bool, nullptr, sl)",
	"assert(std::function<bool()>, print, sl)", "assert(bool) with implicit location"
};
bool is_always(int a)
{
	return a == always_bool_msg || a == always_bool || a == always_null_print;
}
bool has_msg(int a)
{
	switch (a) {
		case always_bool_msg:
		case bool_msg:
		case func_msg:
		case raw_msg:
		case shared_msg:
		case unique_msg:
		case function_msg:
		case macro_two:
		case macro_func:
		case std_func_bool: return true;
		default: return false;
	}
}
bool has_cond_func(int a)
{
	return a == func_msg || a == func_only || a == macro_func || a == std_func_bool;
}

struct own_file {
	std::string name;
	unsigned line;
};

void call_api(int a, bool cond, const std::string& msg, const utki::source_location& sl, shared& sh)
{
	auto print = [&](std::ostream& o) {
		++sh.print_calls;
		o << msg;
	};
	auto check = [&]() {
		++sh.cond_calls;
		return cond;
	};
	int object = 5;
	int* raw = cond ? &object : nullptr;
	switch (a) {
		case always_bool_msg: utki::assert_always(cond, print, sl); break;
		case always_bool: utki::assert_always(cond, sl); break;
		case always_null_print: utki::assert_always(cond, nullptr, sl); break;
		case bool_msg: utki::assert(cond, print, sl); break;
		case bool_only: utki::assert(cond, sl); break;
		case func_msg: utki::assert(check, print, sl); break;
		case func_only: utki::assert(check, sl); break;
		case raw_msg: utki::assert(raw, print, sl); break;
		case raw_only: utki::assert(raw, sl); break;
		case shared_msg: utki::assert(cond ? std::make_shared<int>(1) : std::shared_ptr<int>(), print, sl); break;
		case shared_only: utki::assert(cond ? std::make_shared<int>(1) : std::shared_ptr<int>(), sl); break;
		case unique_msg: utki::assert(cond ? std::make_unique<int>(1) : std::unique_ptr<int>(), print, sl); break;
		case unique_only: utki::assert(cond ? std::make_unique<int>(1) : std::unique_ptr<int>(), sl); break;
		case function_msg: {
			std::function<void(int)> f;
			if (cond) {
				f = [](int) {};
			}
			utki::assert(f, print, sl);
			break;
		}
		case function_only: {
			std::function<int(int, int)> f;
			if (cond) {
				f = [](int, int) { return 0; };
			}
			utki::assert(f, sl);
			break;
		}
		case std_func_bool: {
			std::function<bool()> f = check;
			utki::assert(f, print, sl);
			break;
		}
		default: break;
	}
	(void)print;
	(void)check;
	(void)raw;
}

// the location is where the macro is used
unsigned macro_line(int a, bool cond, [[maybe_unused]] const std::string& msg, [[maybe_unused]] shared* sh)
{
	[[maybe_unused]] auto count = [&](bool v) {
		++sh->macro_evaluations;
		return v;
	};
	[[maybe_unused]] int object = 5;
	[[maybe_unused]] auto print = [&](std::ostream& o) {
		++sh->print_calls;
		o << msg;
	};
	unsigned line = 0;
	switch (a) {
		case macro_one:
			line = __LINE__ + 2;
			if (sh) {
				ASSERT(count(cond))
			}
			break;
		case macro_two:
			line = __LINE__ + 2;
			if (sh) {
				ASSERT(count(cond), print)
			}
			break;
		case macro_func:
			line = __LINE__ + 2;
			if (sh) {
				ASSERT([&]() { ++sh->cond_calls; return cond; }, print)
			}
			break;
		case macro_ptr:
			line = __LINE__ + 2;
			if (sh) {
				ASSERT((count(true), cond ? &object : nullptr))
			}
			break;
		default:
#if CFG_CPP >= 20
			line = __LINE__ + 2;
			if (sh) {
				utki::assert(cond);
			}
#else
			line = __LINE__ + 2;
			if (sh) {
				utki::assert(cond, SL);
			}
#endif
			break;
	}
	return line;
}

bool uses_macro_line(int a)
{
	return a == macro_one || a == macro_two || a == macro_func || a == macro_ptr || a == implicit_location;
}
} // namespace

struct hostile_punct : std::numpunct<char> {
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\1\2"; }
};

SUITE(assertions, 600, nofuzz | novg, "the condition is false or a message function is given")
{
	int a = int(c.r.below(num_apis));
	bool cond = c.r.chance(2, 5);
	auto msg = message(c.r);
	int k2 = err_kind(c.r);
	int k1 = c.r.coin() ? s_pipe : s_pty;
	static const char* const files[] = {"file.cpp", "/a/long/path/with spaces/source file.cpp", "x", "%s%n.cpp"};
	static const unsigned lines[] = {0, 1, 13, 1000, 99999, 4294967295u};
	std::string file = c.r.pick(files);
	unsigned line = c.r.pick(lines);
	utki::source_location sl(line, 3, file.c_str());
	if (c.r.chance(1, 12)) { // an unknown location
		sl = utki::source_location();
		file.clear();
		line = 0;
		COUNT("default-constructed locations");
	}
	bool hostile = c.r.chance(1, 4);
	if (uses_macro_line(a)) {
		file = __FILE__;
		line = macro_line(a, true, msg, nullptr);
	}
	auto o = in_child(s_null, k1, k2, [&](shared& sh) {
		if (hostile) { // a global locale which writes numbers another way
			std::locale::global(std::locale(std::locale::classic(), new hostile_punct));
		}
		if (uses_macro_line(a)) {
			macro_line(a, cond, msg, &sh);
		} else {
			call_api(a, cond, msg, sl, sh);
		}
	});
	bool active = debug || is_always(a);
	std::string what = vh::str(std::string(api_names[a]), cond ? std::string(" true") : std::string(" false"), ", stderr ", std::string(kind_names[k2]), debug ? std::string(", debug build: ") : std::string(", release build: "), o.text());
	if (active && !cond) {
		CHECK("abort", o.aborted(), "a false condition did not abort: ", what);
		CHECK("abort", o.sh.survived == 0, what);
		if (has_msg(a)) {
			CHECK_EQ("message-calls", o.sh.print_calls, 1, what);
		}
		if (k2 == s_pipe || k2 == s_file || k2 == s_pty) {
			auto loc = file + ":" + std::to_string(line);
			CHECK("location", o.err.find(loc) != std::string::npos, "no ", loc, " in the output: ", what);
			if (has_msg(a)) {
				CHECK("message", o.err.find(msg) != std::string::npos, "the message is not in the output: ", what);
			}
			CHECK("failed-text", !o.err.empty() && o.err.back() == '\n', "the report does not end with a new line: ", what);
			COUNT("failed assertions with observed stderr");
		}
		COUNT("failed assertions");
	} else {
		CHECK("no-effect", o.exited(exit_ok) && o.sh.survived == 1, "the program did not go on: ", what);
		CHECK_EQ("message-calls", o.sh.print_calls, 0, "message function called: ", what);
		CHECK("silent", o.err.empty(), "output on stderr: ", what);
		if (cond) {
			COUNT("assertions with a true condition");
		} else {
			COUNT("false conditions in a release build");
		}
	}
	CHECK("stdout-untouched", o.out.empty(), "output on stdout: ", what);
	if (has_cond_func(a)) {
		if (active) {
			CHECK("condition-evaluated", o.sh.cond_calls >= 1, what);
		} else {
			CHECK_EQ("release-no-effect", o.sh.cond_calls, 0, "condition function called in a release build: ", what);
		}
	}
	if (a == macro_one || a == macro_two || a == macro_ptr) {
		CHECK_EQ("macro-evaluations", o.sh.macro_evaluations, active ? 1 : 0, what);
	}
	c.nt(!cond || has_msg(a));
	SAMPLE(what);
	c.distinct(u64(a) * 100 + u64(k2) * 10 + cond);
}

// the message function fails: a violated assertion is still never passed
SUITE(throwing_messages, 40, nofuzz | novg, "the condition is false")
{
	int a = int(c.r.below(num_apis));
	bool cond = c.r.chance(1, 4);
	int what = int(c.r.below(3));
	auto o = in_child(s_null, s_pipe, err_kind(c.r), [&](shared& sh) {
		auto print = [&](std::ostream& o) {
			++sh.print_calls;
			o << "partly";
			switch (what) {
				case 0:
					throw std::runtime_error("no message");
				case 1:
					throw 5;
				default:
					o.setstate(std::ios::badbit); // all further output is lost
					break;
			}
		};
		int object = 3;
		int* p = cond ? &object : nullptr;
		switch (a % 4) {
			case 0: utki::assert_always(cond, print, utki::source_location(1, 1, "f.cpp")); break;
			case 1: utki::assert(cond, print, SL); break;
			case 2: utki::assert(p, print, SL); break;
			default: utki::assert([&]() { return cond; }, print, SL); break;
		}
	});
	bool active = debug || a % 4 == 0;
	auto shown = vh::str("way ", a % 4, cond ? std::string(" true") : std::string(" false"), " message function fails in way ", what, ": ", o.text());
	if (active && !cond) {
		CHECK("never-passed", o.sh.survived == 0, shown);
		CHECK("abort", o.aborted() || (what < 2 && o.exited(99)), shown); // the exception reaches the caller, or ends the program
		COUNT("failing message functions");
	} else {
		CHECK("no-effect", o.exited(exit_ok) && o.sh.survived == 1 && o.sh.print_calls == 0, shown);
	}
	c.nt(!cond);
	c.distinct(u64(a % 4) * 10 + u64(what) * 2 + cond);
}

// every way to assert x both conditions x kinds of stderr, once
SUITE(all_ways, num_apis * 2 * 3, nofuzz | novg | fixed, "every way to assert, both conditions, stderr as pipe, terminal or closed")
{
	int a = int(c.index % num_apis);
	bool cond = c.index / num_apis % 2 == 1;
	static const int ks[] = {s_pipe, s_pty, s_closed};
	int k2 = ks[c.index / num_apis / 2 % 3];
	utki::source_location sl(77, 3, "here.cpp");
	auto o = in_child(s_null, s_pipe, k2, [&](shared& sh) {
		if (uses_macro_line(a)) {
			macro_line(a, cond, "the message", &sh);
		} else {
			call_api(a, cond, "the message", sl, sh);
		}
	});
	bool active = debug || is_always(a);
	std::string what = std::string(api_names[a]) + (cond ? " true " : " false ") + kind_names[k2] + ": " + o.text();
	if (active && !cond) {
		CHECK("abort", o.aborted(), what);
		if (k2 != s_closed && has_msg(a)) {
			CHECK("message", o.err.find("the message") != std::string::npos, what);
		}
		if (k2 != s_closed) {
			auto loc = uses_macro_line(a) ? std::string(__FILE__) + ":" + std::to_string(macro_line(a, true, "", nullptr)) : std::string("here.cpp:77");
			CHECK("location", o.err.find(loc) != std::string::npos, "no ", loc, ": ", what);
		}
	} else {
		CHECK("no-effect", o.exited(exit_ok), what);
		CHECK("silent", o.err.empty() && o.sh.print_calls == 0, what);
	}
	c.nt();
	c.distinct(c.index);
	COUNT("ways to assert");
}

namespace {
struct log_call {
	int api; // 0 log, 1 logcat, 2 log_debug, 3 logcat_debug, 4 LOG, 5 log(nullptr), 6 plain std::cout, 7 log_debug(nullptr)
	std::string text;
	int number = 0;
};
std::string expected_text(const log_call& l)
{
	if ((l.api >= 2 && l.api <= 4) && !debug) {
		return "";
	}
	switch (l.api) {
		case 1:
		case 3: {
			std::ostringstream ss;
			ss << l.text << l.number << ' ' << "lit" << -1.5 << true << l.number % 7;
			return ss.str();
		}
		case 5:
		case 7: return "";
		default: return l.text;
	}
}
void do_log(const log_call& l, shared& sh)
{
	auto print = [&](std::ostream& o) {
		++sh.print_calls;
		// in pieces
		auto half = l.text.size() / 2;
		o << std::string_view(l.text).substr(0, half);
		o << std::string_view(l.text).substr(half);
	};
	(void)print;
	switch (l.api) {
		case 0: utki::log(print); break;
		case 1: utki::logcat(l.text, l.number, ' ', "lit", -1.5, true, l.number % 7); break;
		case 2: utki::log_debug(print); break;
		case 3: utki::logcat_debug(l.text, l.number, ' ', "lit", -1.5, true, l.number % 7); break;
		case 4: LOG(print) break;
		case 5: utki::log(nullptr); break;
		case 6: std::cout << l.text; break;
		default: utki::log_debug(nullptr); break;
	}
}
} // namespace

SUITE(logging, 400, nofuzz | novg, "at least one call produces text")
{
	std::vector<log_call> calls(c.r.range(1, 6));
	std::string exp;
	int exp_calls = 0;
	for (auto& l : calls) {
		l.api = int(c.r.below(8));
		l.number = c.r.integer<int>();
		switch (c.r.below(6)) {
			case 0: l.text = ""; break;
			case 1: l.text = c.r.bytes_str(c.r.size(300)); break;
			case 2: l.text = c.r.text(c.r.size(20000), "abc\n%s"); break;
			case 3: l.text = std::string(c.r.range(1000, 9000), 'x') + "\n"; break;
			default: l.text = "a line of log\n"; break;
		}
		if (&l == &calls.back() && l.api == 6) {
			l.api = 0; // what is last has to be flushed by the library
		}
	}
	// un-flushed plain output comes only before a call which flushes
	for (auto& l : calls) {
		exp += expected_text(l);
		if (l.api == 0 || ((l.api == 2 || l.api == 4) && debug)) {
			++exp_calls;
		}
	}
	bool last_flushes = calls.back().api <= 1 || (debug && calls.back().api <= 4);
	if (!last_flushes) {
		calls.push_back({0, "end", 0});
		exp += "end";
		++exp_calls;
	}
	static const int ks[] = {s_pipe, s_pipe, s_file, s_file, s_pty};
	int k1 = c.r.pick(ks);
	bool unsync = c.r.chance(1, 4);
	auto o = in_child(s_null, k1, s_pipe, [&](shared& sh) {
		if (unsync) {
			std::ios::sync_with_stdio(false); // std::cout has a buffer of its own then
		}
		size_t so_far = 0;
		for (auto& l : calls) {
			do_log(l, sh);
			so_far += expected_text(l).size();
			bool flushes = l.api <= 1 || (debug && l.api <= 4);
			if (k1 == s_file && flushes) {
				struct stat st{};
				::fstat(1, &st);
				if (size_t(st.st_size) != so_far) {
					++sh.bad_flush;
				}
			}
		}
	});
	std::string what = std::string("stdout ") + kind_names[k1] + ", " + std::to_string(calls.size()) + " calls, " + (debug ? "debug" : "release") + ", " +
		(WIFEXITED(o.status) ? "exit code " : "status ") + std::to_string(WEXITSTATUS(o.status));
	CHECK("log-survives", o.exited(exit_ok), what, o.text());
	CHECK("log-flushed", o.sh.bad_flush == 0, "the text was not in the file when the call returned: ", what);
	CHECK("log-text", o.out == exp, "the child was stopped right after the last log call; got ", o.out.size(), " bytes ", esc(o.out, 300), ", expected ", exp.size(), " bytes ", esc(exp, 300), " ", what);
	CHECK_EQ("log-print-calls", o.sh.print_calls, exp_calls, what);
	CHECK("log-stderr", o.err.empty(), "output on stderr ", o.err);
	c.nt(!exp.empty());
	SAMPLE(what, ", ", exp.size(), " bytes");
	COUNT_N("log calls", calls.size());
	COUNT_N("logged bytes", exp.size());
	c.distinct(hash_bytes(exp.data(), exp.size()));
}

SUITE(log_trouble, 60, nofuzz | novg, "the print function fails or the text cannot be written")
{
	int way = int(c.r.below(3)), trouble = int(c.r.below(4));
	auto o = in_child(s_null, trouble < 2 ? s_full : s_pipe, s_pipe, [&](shared& sh) {
		auto print = [&](std::ostream& o) {
			++sh.print_calls;
			o << "text";
			if (trouble == 2) {
				throw std::runtime_error("no text");
			}
			if (trouble == 3) {
				throw 17;
			}
		};
		if (trouble == 1) {
			std::cout.exceptions(std::ios::badbit);
		}
		int caught = 0;
		try {
			switch (way) {
				case 0:
					utki::log(print);
					break;
				case 1: {
					const std::function<void(std::ostream&)> f = print;
					utki::log(f);
					break;
				}
				default:
					if (trouble >= 2) {
						utki::log(print);
					} else {
						++sh.print_calls;
						utki::logcat("te", "xt");
					}
					break;
			}
		} catch (const std::ios_base::failure&) {
			caught = 1;
		} catch (const std::runtime_error&) {
			caught = 2;
		} catch (int i) {
			caught = i == 17 ? 3 : 4;
		}
		sh.term_bits = caught | (std::cout.fail() ? 16 : 0) | (std::cout.exceptions() == (trouble == 1 ? std::ios::badbit : std::ios::goodbit) ? 32 : 0);
	});
	auto what = vh::str("way ", way, " trouble ", trouble, ": ", o.text());
	CHECK("log-survives", o.exited(exit_ok), what);
	CHECK_EQ("log-print-calls", o.sh.print_calls, 1, what);
	CHECK_EQ("log-failure-reaches-caller", o.sh.term_bits & 15, trouble, what);
	CHECK_EQ("log-failure-stays-visible", (o.sh.term_bits & 16) != 0, trouble < 2, what);
	CHECK("log-stream-settings", (o.sh.term_bits & 32) != 0, what);
	COUNT("failing logs");
	c.nt();
	c.distinct(u64(way * 4 + trouble));
}

SUITE(terminals, 150, nofuzz | novg, "at least one of the streams is a terminal and one is not")
{
	static const int ks[] = {s_pipe, s_file, s_pty, s_pty, s_null};
	int k[3];
	for (auto& x : k) {
		x = c.r.pick(ks);
	}
	auto o = in_child(k[0], k[1], k[2], [&](shared& sh) {
		// the truth, as seen by the child
		auto tty = [](int fd) {
			termios t{};
			return ::tcgetattr(fd, &t) == 0;
		};
		sh.term_bits = int(utki::is_terminal_cin()) | int(utki::is_terminal_cout()) << 1 | int(utki::is_terminal_cerr()) << 2 | int(tty(0)) << 4 |
			int(tty(1)) << 5 | int(tty(2)) << 6;
	});
	std::string what = std::string("stdin ") + kind_names[k[0]] + ", stdout " + kind_names[k[1]] + ", stderr " + kind_names[k[2]];
	CHECK("terminal-survives", o.exited(exit_ok), what);
	static const char* const names[] = {"is_terminal_cin", "is_terminal_cout", "is_terminal_cerr"};
	int num = 0;
	for (int i = 0; i != 3; ++i) {
		bool got = o.sh.term_bits >> i & 1;
		bool exp = o.sh.term_bits >> (i + 4) & 1;
		CHECK("terminal", got == exp, std::string(names[i]), " says ", got, ": ", what);
		num += exp;
	}
	CHECK("terminal-silent", o.out.empty() && o.err.empty(), what);
	c.nt(num == 1 || num == 2);
	SAMPLE(what);
	COUNT("terminal queries");
	COUNT_N("terminals", num);
}

// no processes needed for these
SUITE(run_debug, 60, nofuzz, "a function is given")
{
	int calls = 0;
	size_t n = c.r.below(4);
	for (size_t i = 0; i != n; ++i) {
		utki::run_debug([&]() { ++calls; });
	}
	utki::run_debug(nullptr);
	CHECK_EQ("run-debug", calls, debug ? int(n) : 0);
	// true conditions, many, in this process
	int prints = 0;
	auto print = [&](std::ostream&) { ++prints; };
	utki::assert_always(true, print, SL);
	utki::assert_always(true, SL);
	utki::assert(true, print, SL);
	utki::assert([&]() { return true; }, print, SL);
	utki::assert(&calls, print, SL);
	ASSERT(calls >= 0, print)
	CHECK_EQ("message-calls", prints, 0);
	c.nt(n != 0);
	c.distinct(n);
	COUNT_N("run_debug calls", n);
}

SUITE(source_locations, 200, 0, "line and column differ")
{
	auto line = c.r.chance(1, 8) ? 0xffffffffu : u32(c.r.below(100000)), column = c.r.chance(1, 8) ? 0xffffffffu : u32(c.r.below(300));
	std::string f = "dir/file" + std::to_string(c.r.below(10)) + ".cpp";
	utki::source_location sl(line, column, f.c_str());
	auto copy = sl;
	utki::source_location other(line + 1, column + 1, "other");
	other = copy;
	for (auto* p : {&sl, &copy, &other}) {
		CHECK_EQ("source-location-line", u32(p->line()), line);
		CHECK_EQ("source-location-column", u32(p->column()), column);
		CHECK("source-location-file", p->file_name() == f.c_str(), "");
	}
#if CFG_CPP >= 20
	auto here = utki::std_source_location::current();
	utki::source_location conv(here);
	CHECK_EQ("source-location-std-line", u32(conv.line()), u32(here.line()));
	CHECK_EQ("source-location-std-column", u32(conv.column()), u32(here.column()));
	CHECK("source-location-std-file", std::string(conv.file_name()) == here.file_name(), "");
#endif
	c.nt(line != column);
	COUNT("source locations");
}
