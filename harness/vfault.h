#pragma once
// Interposed system calls (linked with --wrap): crash points, failing and
// short writes, and a hook that runs at a chosen step.
#include <errno.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>

typedef struct
{
	bool      armed;
	pthread_t self;          // only calls of this thread count, unless any
	bool      any;
	int       changes;       // calls that change files
	int       crash_at;      // die before this changing call (1..), 0: never
	int       crash_cut;     // .. if it is a write, after this share (percent)
	int64_t   budget;        // bytes that can be written, -1: unlimited
	bool      budget_crash;  // die (instead of ENOSPC) when exhausted
	int       short_max;     // a write call writes at most so many bytes
	int       fail_kind;     // VF_*: this kind of call fails ..
	int       fail_skip;     // .. after so many successful ones
	int       fail_errno;
	int       steps;         // calls of any kind
	int       hook_at;       // run the hook before this step (1..)
	void    (*hook)(void);
	bool      hooked;
	int       create_crash;  // 1: before, 2: after creating a file
} Vf;
static Vf vf;

enum { VF_NONE, VF_OPEN, VF_CREATE, VF_WRITE, VF_RENAME, VF_UNLINK, VF_TRUNCATE, VF_SYNC, VF_MKDIR, VF_READ };

static inline void
vf_arm(void)
{
	memset(&vf, 0, sizeof(vf));
	vf.budget = -1;
	vf.self   = pthread_self();
	vf.armed  = true;
}
static inline void vf_disarm(void) { vf.armed = false; }
static inline bool vf_mine(void)  { return vf.armed && (vf.any || pthread_equal(vf.self, pthread_self())); }

static inline void
vf_point(void)
{
	vf.steps++;
	if (vf.hook && !vf.hooked && vf.steps >= vf.hook_at)
	{
		vf.hooked = true;
		int e = errno;
		vf.armed = false;
		vf.hook();
		vf.armed = true;
		errno = e;
	}
}

// the hook can run before and after every call
static inline void
vf_after(void)
{
	if (vf_mine())
		vf_point();
}

static inline bool // true: fail
vf_step(int kind, bool change)
{
	if (! vf_mine())
		return false;
	vf_point();
	if (change)
	{
		vf.changes++;
		if (vf.crash_at && vf.changes == vf.crash_at && kind != VF_WRITE)
			_exit(42);
	}
	if (vf.fail_kind == kind && vf.fail_skip-- <= 0)
	{
		errno = vf.fail_errno ? vf.fail_errno : EIO;
		return true;
	}
	return false;
}

int     __real_open(const char*, int, ...);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_read(int, void*, size_t);
int     __real_rename(const char*, const char*);
int     __real_unlink(const char*);
int     __real_ftruncate(int, off_t);
int     __real_fsync(int);
int     __real_fdatasync(int);
int     __real_mkdir(const char*, mode_t);
int     __real_lstat(const char*, struct stat*);
int     __real_stat(const char*, struct stat*);
int     __real_fstat(int, struct stat*);
int     __real_close(int);
int     __real_rmdir(const char*);
int     __real_symlink(const char*, const char*);
int     __real_link(const char*, const char*);

int
__wrap_open(const char* path, int flags, ...)
{
	va_list args;
	va_start(args, flags);
	int mode = (flags & O_CREAT) ? va_arg(args, int) : 0;
	va_end(args);
	if (! vf_mine())
		return __real_open(path, flags, mode);
	bool create = flags & O_CREAT;
	if (create && vf.create_crash == 1)
		_exit(42);
	if (vf_step(create ? VF_CREATE : VF_OPEN, create))
		return -1;
	int rc = __real_open(path, flags, mode);
	if (create && vf.create_crash == 2)
		_exit(42);
	vf_after();
	return rc;
}

static inline ssize_t
vf_write(int fd, const void* data, size_t size, off_t off, bool at)
{
	if (vf_step(VF_WRITE, true))
		return -1;
	size_t n = size;
	bool die = false;
	if (vf.crash_at && vf.changes == vf.crash_at)
	{
		n = size * vf.crash_cut / 100;
		die = true;
	}
	if (vf.budget >= 0 && (int64_t)n > vf.budget)
	{
		n = vf.budget;
		if (vf.budget_crash)
			die = true;
		else
		if (n == 0) {
			errno = ENOSPC;
			return -1;
		}
	}
	if (vf.short_max && n > (size_t)vf.short_max)
		n = vf.short_max;
	ssize_t rc = 0;
	if (n > 0)
		rc = at ? __real_pwrite(fd, data, n, off) : __real_write(fd, data, n);
	if (die && (vf.short_max == 0 || n < (size_t)vf.short_max || n == 0))
		_exit(42);
	if (rc > 0 && vf.budget >= 0)
		vf.budget -= rc;
	vf_after();
	return rc;
}

ssize_t
__wrap_write(int fd, const void* data, size_t size)
{
	if (! vf_mine() || fd <= 2)
		return __real_write(fd, data, size);
	return vf_write(fd, data, size, 0, false);
}

ssize_t
__wrap_pwrite(int fd, const void* data, size_t size, off_t off)
{
	if (! vf_mine())
		return __real_pwrite(fd, data, size, off);
	return vf_write(fd, data, size, off, true);
}

ssize_t
__wrap_writev(int fd, const struct iovec* iov, int count)
{
	if (! vf_mine())
		return __real_writev(fd, iov, count);
	// gather, then as one write
	size_t size = 0;
	for (int i = 0; i < count; i++)
		size += iov[i].iov_len;
	char* data = malloc(size ? size : 1);
	size_t at = 0;
	for (int i = 0; i < count; i++) {
		memcpy(data + at, iov[i].iov_base, iov[i].iov_len);
		at += iov[i].iov_len;
	}
	ssize_t rc = vf_write(fd, data, size, 0, false);
	free(data);
	return rc;
}

ssize_t
__wrap_pread(int fd, void* data, size_t size, off_t off)
{
	if (vf_step(VF_READ, false))
		return -1;
	ssize_t rc = __real_pread(fd, data, size, off);
	vf_after();
	return rc;
}
ssize_t
__wrap_read(int fd, void* data, size_t size)
{
	if (vf_step(VF_READ, false))
		return -1;
	ssize_t rc = __real_read(fd, data, size);
	vf_after();
	return rc;
}
int
__wrap_rename(const char* a, const char* b)
{
	if (vf_step(VF_RENAME, true))
		return -1;
	int rc = __real_rename(a, b);
	vf_after();
	return rc;
}
int
__wrap_unlink(const char* a)
{
	if (vf_step(VF_UNLINK, true))
		return -1;
	int rc = __real_unlink(a);
	vf_after();
	return rc;
}
int
__wrap_ftruncate(int fd, off_t size)
{
	if (vf_step(VF_TRUNCATE, true))
		return -1;
	int rc = __real_ftruncate(fd, size);
	vf_after();
	return rc;
}
int
__wrap_fsync(int fd)
{
	if (vf_step(VF_SYNC, true))
		return -1;
	int rc = __real_fsync(fd);
	vf_after();
	return rc;
}
int
__wrap_fdatasync(int fd)
{
	if (vf_step(VF_SYNC, true))
		return -1;
	int rc = __real_fdatasync(fd);
	vf_after();
	return rc;
}
int
__wrap_mkdir(const char* path, mode_t mode)
{
	if (vf_step(VF_MKDIR, true))
		return -1;
	int rc = __real_mkdir(path, mode);
	vf_after();
	return rc;
}
int
__wrap_rmdir(const char* path)
{
	if (vf_step(VF_UNLINK, true))
		return -1;
	int rc = __real_rmdir(path);
	vf_after();
	return rc;
}
int
__wrap_symlink(const char* a, const char* b)
{
	if (vf_step(VF_MKDIR, true))
		return -1;
	int rc = __real_symlink(a, b);
	vf_after();
	return rc;
}
int
__wrap_link(const char* a, const char* b)
{
	if (vf_step(VF_CREATE, true))
		return -1;
	int rc = __real_link(a, b);
	vf_after();
	return rc;
}
int
__wrap_lstat(const char* path, struct stat* st)
{
	vf_step(VF_NONE, false);
	int rc = __real_lstat(path, st);
	vf_after();
	return rc;
}
int
__wrap_stat(const char* path, struct stat* st)
{
	vf_step(VF_NONE, false);
	int rc = __real_stat(path, st);
	vf_after();
	return rc;
}
int
__wrap_fstat(int fd, struct stat* st)
{
	vf_step(VF_NONE, false);
	int rc = __real_fstat(fd, st);
	vf_after();
	return rc;
}
int
__wrap_close(int fd)
{
	vf_step(VF_NONE, false);
	int rc = __real_close(fd);
	vf_after();
	return rc;
}

// run fn in a forked process; returns 42 if it died at the crash point,
// 0 on completion, 1 on an error reported by the code, else its status
static inline int
vf_child(void (*fn)(void))
{
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0)
	{
		vf.self = pthread_self();
		bool on_error = error_catch( fn() );
		_exit(on_error ? 1 : 0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) == -1 && errno == EINTR);
	if (WIFEXITED(status))
		return WEXITSTATUS(status);
	return 1000 + WTERMSIG(status);
}

// scratch directory of the driver
static inline const char*
vf_dir(void)
{
	static char path[256];
	if (! path[0])
	{
		const char* base = getenv("VSCRATCH");
		snprintf(path, sizeof(path), "%s/drv.%d", base ? base : "/tmp", getpid());
		__real_mkdir(path, 0755);
	}
	return path;
}
static inline void
vf_rmtree(const char* path)
{
	// only ever below the scratch directory
	if (strncmp(path, vf_dir(), strlen(vf_dir())))
		return;
	DIR* dir = opendir(path);
	if (! dir)
		return;
	struct dirent* e;
	while ((e = readdir(dir)))
	{
		if (! strcmp(e->d_name, ".") || ! strcmp(e->d_name, ".."))
			continue;
		char sub[1024];
		snprintf(sub, sizeof(sub), "%s/%s", path, e->d_name);
		struct stat st;
		if (__real_lstat(sub, &st) == 0 && S_ISDIR(st.st_mode))
			vf_rmtree(sub);
		else
			__real_unlink(sub);
	}
	closedir(dir);
	__real_rmdir(path);
}
