// OS seams: clock, entropy, disk.
#include "sim.h"
#include "internal.h"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <random>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

namespace
{
bool manual = false;
int64_t now_ns = 0, per_read = 0;
uint64_t reads = 0;
uint64_t ent = 1, ent_reads = 0;
bool disk_on = false;
sim::DiskCfg dk;
uint64_t dk_faults = 0, dk_calls = 0;
char scratch_buf[PATH_MAX];

int64_t read_clock()
{
	reads++;
	int64_t t = now_ns;
	now_ns += per_read;
	return t;
}
bool ours(int fd)
{
	if(!disk_on || fd < 3 || !scratch_buf[0])
		return false;
	char link[64], tgt[PATH_MAX];
	snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
	ssize_t n = readlink(link, tgt, sizeof tgt - 1);
	if(n <= 0)
		return false;
	tgt[n] = 0;
	return strncmp(tgt, scratch_buf, strlen(scratch_buf)) == 0;
}
}

extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	if(!manual)
		return (int) syscall(SYS_clock_gettime, id, ts);
	int64_t t = read_clock();
	ts->tv_sec = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	if(ts->tv_nsec < 0)
	{
		ts->tv_nsec += 1000000000;
		ts->tv_sec--;
	}
	return 0;
}
extern "C" time_t time(time_t* out)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if(out)
		*out = ts.tv_sec;
	return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
extern "C" clock_t clock(void) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
	return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}

unsigned int std::random_device::_M_getval()
{
	ent_reads++;
	ent += 0x9E3779B97F4A7C15ull;
	uint64_t z = ent;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return (unsigned int) (z ^ (z >> 31));
}

extern "C" ssize_t write(int fd, const void* b, size_t n)
{
	if(!ours(fd))
		return syscall(SYS_write, fd, b, n);
	dk_calls++;
	if(dk.eintr_every > 0 && dk_calls % (uint64_t) dk.eintr_every == 0)
	{
		dk_faults++;
		sim::fault("disk.eintr");
		errno = EINTR;
		return -1;
	}
	size_t m = n;
	if(dk.short_io > 0 && m > (size_t) dk.short_io)
	{
		m = dk.short_io;
		dk_faults++;
		sim::fault("disk.short_write");
	}
	if(dk.write_budget >= 0)
	{
		if(dk.write_budget == 0 && m)
		{
			dk_faults++;
			sim::fault(dk.write_err == ENOSPC ? "disk.full" : "disk.write_error");
			errno = dk.write_err;
			return -1;
		}
		if((int64_t) m > dk.write_budget)
		{
			m = (size_t) dk.write_budget;
			dk_faults++;
			sim::fault("disk.torn_write");
		}
	}
	ssize_t r = syscall(SYS_write, fd, b, m);
	if(r > 0 && dk.write_budget >= 0)
		dk.write_budget -= r;
	return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
	if(!ours(fd))
		return syscall(SYS_writev, fd, v, c);
	for(int i = 0; i < c; i++)
		if(v[i].iov_len)
			return write(fd, v[i].iov_base, v[i].iov_len);
	return 0;
}
extern "C" ssize_t read(int fd, void* b, size_t n)
{
	if(!ours(fd))
		return syscall(SYS_read, fd, b, n);
	dk_calls++;
	size_t m = n;
	if(dk.short_io > 0 && m > (size_t) dk.short_io)
	{
		m = dk.short_io;
		dk_faults++;
		sim::fault("disk.short_read");
	}
	if(dk.read_budget >= 0)
	{
		if(dk.read_budget == 0)
		{
			dk_faults++;
			sim::fault(dk.read_err ? "disk.read_error" : "disk.early_eof");
			if(!dk.read_err)
				return 0;
			errno = dk.read_err;
			return -1;
		}
		if((int64_t) m > dk.read_budget)
			m = (size_t) dk.read_budget;
	}
	ssize_t r = syscall(SYS_read, fd, b, m);
	if(r > 0 && dk.read_budget >= 0)
		dk.read_budget -= r;
	return r;
}
static FILE* sim_fopen(const char* name, const char* mode)
{
	if(disk_on && name[0] != '/' && dk.open_fails > 0 && dk.open_skip-- <= 0)
	{
		dk.open_fails--;
		dk_faults++;
		sim::fault("disk.open_error");
		errno = dk.open_err;
		return nullptr;
	}
	int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
	if(mode[0] == 'w')
		fl |= O_CREAT | O_TRUNC;
	if(mode[0] == 'a')
		fl |= O_CREAT | O_APPEND;
	const int fd = open(name, fl, 0666);
	if(fd < 0)
		return nullptr;
	FILE* f = fdopen(fd, mode);
	if(!f)
		close(fd);
	return f;
}
extern "C" FILE* fopen64(const char* name, const char* mode)
{
	return sim_fopen(name, mode);
}
extern "C" FILE* fopen(const char* name, const char* mode)
{
	return sim_fopen(name, mode);
}

namespace sim
{
void clock_manual(int64_t ns)
{
	manual = true;
	now_ns = ns;
	per_read = 0;
	reads = 0;
}
void clock_advance(int64_t ns)
{
	now_ns += ns;
}
void clock_per_read(int64_t ns)
{
	per_read = ns;
}
int64_t clock_now()
{
	return now_ns;
}
uint64_t clock_reads()
{
	return reads;
}
void entropy(uint64_t seed)
{
	ent = seed;
	ent_reads = 0;
}
uint64_t entropy_reads()
{
	return ent_reads;
}
const std::string& scratch()
{
	// relative names only: the run sits inside its scratch directory, so that no
	// string of the run depends on where that directory happens to be
	static const std::string dot(".");
	if(!scratch_buf[0])
	{
		snprintf(scratch_buf, sizeof scratch_buf, "%s", internal::scratch_base());
		if(chdir(scratch_buf) != 0)
			_exit(97);
	}
	return dot;
}
std::string path(const std::string& name)
{
	scratch();
	return name;
}
void put_file(const std::string& p, const std::string& c)
{
	bool k = disk_on;
	disk_on = false;
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	size_t at = 0;
	while(fd >= 0 && at < c.size())
	{
		ssize_t r = syscall(SYS_write, fd, c.data() + at, c.size() - at);
		if(r <= 0)
			break;
		at += r;
	}
	if(fd >= 0)
		close(fd);
	disk_on = k;
}
std::string get_file(const std::string& p)
{
	std::string out;
	int fd = open(p.c_str(), O_RDONLY);
	if(fd < 0)
		return out;
	char b[4096];
	ssize_t r;
	while((r = syscall(SYS_read, fd, b, sizeof b)) > 0)
		out.append(b, r);
	close(fd);
	return out;
}
bool has_file(const std::string& p)
{
	return access(p.c_str(), F_OK) == 0;
}
void disk(const DiskCfg& c)
{
	scratch();
	dk = c;
	dk_calls = 0;
	disk_on = true;
}
uint64_t disk_faults()
{
	return dk_faults;
}
}
