// Run control: every simulated run is a forked child whose verdict, choices and
// counters live in shared memory (so they survive a crash of the child).
#include "sim.h"
#include "internal.h"
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

namespace
{
const size_t MAXCH = 1 << 20;
const int MAXCNT = 192;
struct Counter
{
	char name[48];
	uint64_t n;
	int kind; // 0 fault 1 probe
};
struct Shared
{
	int status;        // 0 running 1 ok 2 violation
	int nontriv;
	char cls[96];
	char msg[1200];
	char ctx[64];
	uint64_t loghash, sig, nev;
	double steps;
	uint64_t nch;
	int ncnt;
	Counter cnt[MAXCNT];
	uint64_t ch[MAXCH];
	uint64_t bound[MAXCH];
};
Shared* S;
bool replaying = false, verbose = false, thorough = false;
std::vector<uint64_t> script;
uint64_t prng[2];
int out_fd = 1;
char scratch_dir_[PATH_MAX];

uint64_t splitmix(uint64_t& x)
{
	uint64_t z = (x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
uint64_t next64()
{
	uint64_t s1 = prng[0];
	const uint64_t s0 = prng[1];
	const uint64_t r = s0 + s1;
	prng[0] = s0;
	s1 ^= s1 << 23;
	prng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
	return r;
}
std::map<std::string, void (*)()>& table()
{
	static std::map<std::string, void (*)()> t;
	return t;
}
Counter* counter(const char* name, int kind)
{
	for(int i = 0; i < S->ncnt; i++)
		if(S->cnt[i].kind == kind && !strncmp(S->cnt[i].name, name, 47))
			return &S->cnt[i];
	if(S->ncnt >= MAXCNT)
		return &S->cnt[MAXCNT - 1];
	Counter* c = &S->cnt[S->ncnt++];
	snprintf(c->name, sizeof c->name, "%s", name);
	c->kind = kind;
	c->n = 0;
	return c;
}
void hashlog(const void* p, size_t n)
{
	S->loghash = sim::hash_bytes(p, n, S->loghash);
	S->nev++;
}
void rawout(const char* p, size_t n)
{
	while(n)
	{
		ssize_t r = syscall(SYS_write, out_fd, p, n);
		if(r <= 0)
			return;
		p += r;
		n -= r;
	}
}
}

namespace sim
{
uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
	const unsigned char* b = (const unsigned char *) p;
	for(size_t i = 0; i < n; i++)
	{
		h ^= b[i];
		h *= 1099511628211ull;
	}
	return h;
}
uint64_t draw(uint64_t n)
{
	if(n == 0)
		n = 1;
	uint64_t v;
	if(replaying)
		v = S->nch < script.size() ? script[S->nch] % n : 0;
	else
		v = n == 1 ? 0 : (uint64_t) (((unsigned __int128) next64() * n) >> 64);
	if(S->nch >= MAXCH)
	{
		snprintf(S->cls, sizeof S->cls, "harness:too-many-choices");
		S->status = 3;
		_exit(0);
	}
	S->bound[S->nch] = n;
	S->ch[S->nch++] = v;
	return v;
}
bool chance(uint32_t num, uint32_t den)
{
	return draw(den) >= den - num;
}
int64_t range(int64_t lo, int64_t hi)
{
	return lo + (int64_t) draw((uint64_t) (hi - lo + 1));
}
double real(double lo, double hi)
{
	return lo + (hi - lo) * ((double) draw(1 << 20) / (double) (1 << 20));
}
double sreal(double amp)
{
	uint64_t v = draw(1 << 21);
	double m = (double) (v >> 1) / (double) (1 << 20);
	return (v & 1) ? -amp * m : amp * m;
}
double normal()
{
	double s = 0;
	for(int i = 0; i < 3; i++)
		s += sreal(1.0);
	return s;
}
void ev(const char* f, ...)
{
	char b[2048];
	va_list ap;
	va_start(ap, f);
	int n = vsnprintf(b, sizeof b - 1, f, ap);
	va_end(ap);
	if(n < 0)
		return;
	if(n > (int) sizeof b - 2)
		n = sizeof b - 2;
	b[n++] = '\n';
	hashlog(b, n);
	if(verbose)
	{
		rawout("E ", 2);
		rawout(b, n);
	}
}
void evbits(const char* what, const double* v, size_t n)
{
	hashlog(what, strlen(what));
	hashlog(v, n * sizeof(double));
	if(verbose)
	{
		char b[64];
		rawout("E ", 2);
		rawout(what, strlen(what));
		for(size_t i = 0; i < n && i < 12; i++)
			rawout(b, snprintf(b, sizeof b, " %.17g", v[i]));
		rawout("\n", 1);
	}
}
void mix(uint64_t h)
{
	S->sig = hash_bytes(&h, sizeof h, S->sig);
}
void fault(const char* k, uint64_t n)
{
	counter(k, 0)->n += n;
	S->nontriv = 1;
}
void probe(const char* k)
{
	counter(k, 1)->n++;
}
void steps(double u)
{
	S->steps += u;
}
void nontrivial()
{
	S->nontriv = 1;
}
bool tier_thorough()
{
	return thorough;
}
void context(const char* w)
{
	snprintf(S->ctx, sizeof S->ctx, "%s", w);
}
void fail(const char* cls, const char* f, ...)
{
	snprintf(S->cls, sizeof S->cls, "%s", cls);
	va_list ap;
	va_start(ap, f);
	vsnprintf(S->msg, sizeof S->msg, f, ap);
	va_end(ap);
	for(char* p = S->msg; *p; p++)
		if(*p == '\n')
			*p = ' ';
	S->status = 2;
	_exit(0);
}
void done()
{
	S->status = 1;
	_exit(0);
}
std::string fmt(const char* f, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}
void register_scenario(const char* n, void (*r)())
{
	table()[n] = r;
}
namespace internal
{
void fatal(const char* what)
{
	snprintf(S->cls, sizeof S->cls, "memory:%s@%s", what, S->ctx);
	snprintf(S->msg, sizeof S->msg, "the run corrupted the heap (%s)", what);
	S->status = 2;
	_exit(0);
}
const char* scratch_base()
{
	return scratch_dir_;
}
}
}

extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:exitcode=99:symbolize=0:abort_on_error=0:detect_stack_use_after_return=0:"
		   "alloc_dealloc_mismatch=0:handle_abort=0:detect_odr_violation=0:print_summary=1:allow_user_poisoning=1";
}

namespace
{
class NullBuf: public std::streambuf
{
	int overflow(int c) override
	{
		return c == EOF ? 0 : c;
	}
	std::streamsize xsputn(const char*, std::streamsize n) override
	{
		return n;
	}
};

void clean_scratch()
{
	DIR* d = opendir(scratch_dir_);
	if(!d)
		return;
	while(struct dirent* e = readdir(d))
	{
		if(strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
			unlinkat(dirfd(d), e->d_name, 0);
	}
	closedir(d);
}

void child(void (*fn)(), int errfd)
{
	int nul = open("/dev/null", O_RDWR);
	if(verbose)
	{
		out_fd = fcntl(1, F_DUPFD, 50);
	}
	dup2(nul, 0);
	dup2(nul, 1);
	dup2(errfd, 2);
	close(nul);
	signal(SIGXFSZ, SIG_IGN);
	signal(SIGPIPE, SIG_IGN);
	static NullBuf nb;
	std::cout.rdbuf(&nb);
	std::cerr.rdbuf(&nb);
	std::clog.rdbuf(&nb);
	sim::heap_config(sim::HeapCfg{0, 0, 0});
	sim::clock_manual(1700000000ll * 1000000000ll);
	sim::entropy(0x5eed);
	try
	{
		fn();
	}
	catch(std::exception& e)
	{
		int st;
		char* nm = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
		std::string cls = std::string("exception:") + (nm ? nm : "?") + "@" + S->ctx;
		sim::fail(cls.c_str(), "uncaught exception: %s", e.what());
	}
	catch(...)
	{
		std::string cls = std::string("exception:unknown@") + S->ctx;
		sim::fail(cls.c_str(), "uncaught exception of unknown type");
	}
	sim::done();
}

void reset_shared()
{
	S->status = 0;
	S->nontriv = 0;
	S->cls[0] = S->msg[0] = 0;
	strcpy(S->ctx, "run");
	S->loghash = 1469598103934665603ull;
	S->sig = 1469598103934665603ull;
	S->nev = 0;
	S->steps = 0;
	S->nch = 0;
	S->ncnt = 0;
}

// runs one child and leaves the verdict in S; false: harness error
bool one(void (*fn)(), int errfd, int cpu)
{
	reset_shared();
	(void) !ftruncate(errfd, 0);
	lseek(errfd, 0, SEEK_SET);
	fflush(stdout);
	pid_t pid = fork();
	if(pid == 0)
	{
		struct rlimit rl = {(rlim_t) cpu, (rlim_t) cpu + 2};
		setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 0;
		setrlimit(RLIMIT_CORE, &rl);
		child(fn, errfd);
	}
	if(pid < 0)
		return false;
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	clean_scratch();
	if(S->status == 3)
		return false;
	if(S->status == 0)
	{
		// died without a verdict
		char buf[6000];
		ssize_t n = pread(errfd, buf, sizeof buf - 1, 0);
		buf[n > 0 ? n : 0] = 0;
		if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
		{
			snprintf(S->cls, sizeof S->cls, "hang@%s", S->ctx);
			snprintf(S->msg, sizeof S->msg, "no progress: used %d s of processor time", cpu);
		}
		else if(WIFEXITED(st) && WEXITSTATUS(st) == 97)
			return false;
		else
		{
			const char* a = strstr(buf, "AddressSanitizer: ");
			char kind[48] = "";
			if(a)
			{
				a += 18;
				int i = 0;
				while(a[i] && a[i] != ' ' && a[i] != '\n' && i < 47)
				{
					kind[i] = a[i];
					i++;
				}
				kind[i] = 0;
			}
			if(kind[0])
				snprintf(S->cls, sizeof S->cls, "memory:%s@%s", kind, S->ctx);
			else if(WIFSIGNALED(st))
				snprintf(S->cls, sizeof S->cls, "crash:signal-%d@%s", WTERMSIG(st), S->ctx);
			else
				snprintf(S->cls, sizeof S->cls, "exit:%d@%s", WEXITSTATUS(st), S->ctx);
			for(char* p = buf; *p; p++)
				if(*p == '\n')
					*p = ' ';
			snprintf(S->msg, sizeof S->msg, "the process died: %.900s", buf);
		}
		S->status = 2;
	}
	return true;
}
void print_result(long idx)
{
	printf("R %ld %d %016llx %016llx %llu %.6g %d %s | %s\n", idx, S->status, (unsigned long long) S->loghash,
		(unsigned long long) S->sig, (unsigned long long) S->nch, S->steps, S->nontriv, S->cls[0] ? S->cls : "-",
		S->msg);
}
}

int main(int argc, char** argv)
{
	std::map<std::string, std::string> o;
	std::string mode = argc > 1 ? argv[1] : "";
	for(int i = 2; i < argc; i++)
	{
		std::string a = argv[i];
		if(a.compare(0, 2, "--") == 0)
		{
			if(i + 1 < argc && strncmp(argv[i + 1], "--", 2))
			{
				o[a.substr(2)] = argv[i + 1];
				i++;
			}
			else
				o[a.substr(2)] = "1";
		}
	}
	if(mode == "list")
	{
		for(auto& t : table())
			printf("%s\n", t.first.c_str());
		return 0;
	}
	S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(S == MAP_FAILED || !table().count(o["scen"]))
	{
		fprintf(stderr, "bad invocation\n");
		return 2;
	}
	const char* t = getenv("VSIM_TMP");
	snprintf(scratch_dir_, sizeof scratch_dir_, "%s/vsimXXXXXX", t ? t : "/tmp");
	if(!mkdtemp(scratch_dir_))
	{
		perror("mkdtemp");
		return 2;
	}
	void (*fn)() = table()[o["scen"]];
	thorough = o.count("thorough");
	int cpu = o.count("cpu") ? atoi(o["cpu"].c_str()) : 20;
	int errfd = memfd_create("err", 0);
	int rc = 0;
	if(mode == "run")
	{
		uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 10);
		long from = atol(o["from"].c_str()), to = atol(o["to"].c_str());
		long stride = o.count("stride") ? atol(o["stride"].c_str()) : 1;
		int maxv = o.count("maxviol") ? atoi(o["maxviol"].c_str()) : 3;
		double until = o.count("secs") ? atof(o["secs"].c_str()) : 1e9;
		struct timespec a, b;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &a);
		std::map<std::string, std::pair<uint64_t, uint64_t>> tot;
		uint64_t scenh = sim::hash_str(o["scen"]);
		for(long i = from; i < to; i += stride)
		{
			uint64_t x = seed * 0x9E3779B97F4A7C15ull ^ scenh;
			x += (uint64_t) i * 0xD1B54A32D192ED03ull;
			prng[0] = splitmix(x);
			prng[1] = splitmix(x) | 1;
			if(!one(fn, errfd, cpu))
			{
				printf("X %ld harness error: %s\n", i, S->cls);
				rc = 2;
				break;
			}
			print_result(i);
			for(int c = 0; c < S->ncnt; c++)
			{
				auto& e = tot[std::string(S->cnt[c].kind ? "probe " : "fault ") + S->cnt[c].name];
				e.first += S->cnt[c].n;
				e.second++;
			}
			if(S->status == 2 || o.count("dump"))
			{
				if(o.count("outdir"))
				{
					std::string f = o["outdir"] + sim::fmt("/fail_%ld.choices", i);
					FILE* fp = fopen(f.c_str(), "w");
					for(uint64_t k = 0; fp && k < S->nch; k++)
						fprintf(fp, "%llu/%llu ", (unsigned long long) S->ch[k], (unsigned long long) S->bound[k]);
					if(fp)
						fclose(fp);
				}
				if(S->status == 2 && --maxv <= 0)
					break;
			}
			syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &b);
			if((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec) > until)
				break;
		}
		for(auto& e : tot)
			printf("S %s %llu %llu\n", e.first.c_str(), (unsigned long long) e.second.first,
				(unsigned long long) e.second.second);
	}
	else if(mode == "replay")
	{
		replaying = true;
		verbose = o.count("verbose");
		auto load = [&](const std::string& f)
		{
			script.clear();
			FILE* fp = fopen(f.c_str(), "r");
			if(!fp)
				return false;
			unsigned long long v;
			char sep;
			while(fscanf(fp, "%llu%c", &v, &sep) >= 1)
			{
				script.push_back(v);
				if(sep == '/')
					(void) !fscanf(fp, "%*u%c", &sep);
			}
			fclose(fp);
			return true;
		};
		if(o.count("batch"))
		{
			// minimisation server: one candidate file name per input line
			char line[PATH_MAX];
			while(fgets(line, sizeof line, stdin))
			{
				line[strcspn(line, "\n")] = 0;
				if(!load(line) || !one(fn, errfd, cpu))
					printf("X 0 harness error\n");
				else
				{
					print_result(0);
					printf("C");
					for(uint64_t k = 0; k < S->nch; k++)
						printf(" %llu", (unsigned long long) S->ch[k]);
					printf("\n");
				}
				fflush(stdout);
			}
		}
		else
		{
			if(!load(o["choices"]))
			{
				fprintf(stderr, "cannot read %s\n", o["choices"].c_str());
				rc = 2;
			}
			else if(!one(fn, errfd, cpu))
				rc = 2;
			else
			{
				print_result(0);
				for(int c = 0; c < S->ncnt; c++)
					printf("S %s %s %llu 1\n", S->cnt[c].kind ? "probe" : "fault", S->cnt[c].name,
						(unsigned long long) S->cnt[c].n);
			}
		}
	}
	else
	{
		fprintf(stderr, "bad mode\n");
		rc = 2;
	}
	fflush(stdout);
	clean_scratch();
	rmdir(scratch_dir_);
	return rc;
}
