// Traces one child process, which has asked for it and stopped itself, and injects one fault into the system calls
// it makes between two calls of getsid(): the file system as the code under test sees it.
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

enum { NONE, ERR, KILL_BEFORE, KILL_AFTER, SHORT, ERR_AFTER, ERR_FROM };

// kinds of arguments: f descriptor, p path, a directory descriptor of the path which follows, . anything else
static const struct { long nr; const char* name; const char* args; } calls[] = {
	{SYS_open, "open", "p.."}, {SYS_openat, "openat", "ap.."}, {SYS_creat, "creat", "p."}, {SYS_write, "write", "f.n"}, {SYS_pwrite64, "pwrite", "f.n."},
	{SYS_writev, "writev", "f.."}, {SYS_sendfile, "sendfile", "ff.."}, {SYS_copy_file_range, "copy_file_range", "f.f..."}, {SYS_fsync, "fsync", "f"}, {SYS_fdatasync, "fdatasync", "f"},
	{SYS_sync, "sync", ""}, {SYS_syncfs, "syncfs", "f"}, {SYS_msync, "msync", "..."}, {SYS_fchmod, "fchmod", "f."}, {SYS_chmod, "chmod", "p."}, {SYS_fchmodat, "fchmodat", "ap."}, {SYS_close, "close", "f"},
	{SYS_rename, "rename", "pp"}, {SYS_renameat, "renameat", "apap"}, {SYS_renameat2, "renameat2", "apap."}, {SYS_link, "link", "pp"}, {SYS_linkat, "linkat", "apap."},
	{SYS_unlink, "unlink", "p"}, {SYS_unlinkat, "unlinkat", "ap."}, {SYS_ftruncate, "ftruncate", "f."}, {SYS_truncate, "truncate", "p."}, {SYS_fallocate, "fallocate", "f..."},
	{SYS_fstat, "fstat", "f."}, {SYS_newfstatat, "newfstatat", "ap.."}, {SYS_stat, "stat", "p."}, {SYS_lseek, "lseek", "f.."}, {SYS_dup, "dup", "f"}, {SYS_fcntl, "fcntl", "f.."},
	{SYS_symlink, "symlink", "pp"}, {SYS_mmap, "mmap", "......"}, {SYS_brk, "brk", "."}, {SYS_mremap, "mremap", "...."}, {SYS_read, "read", "f.."}, {SYS_access, "access", "p."},
	{0, 0, 0}
};

static void text(pid_t pid, unsigned long a, char* out, size_t n)
{
	struct iovec l = {out, n - 1}, r = {(void*)a, n - 1};
	ssize_t k = process_vm_readv(pid, &l, 1, &r, 1, 0);
	// up to the end of the page
	if (k < 0) {
		r.iov_len = l.iov_len = 4096 - (a & 4095) < n - 1 ? 4096 - (a & 4095) : n - 1;
		k = process_vm_readv(pid, &l, 1, &r, 1, 0);
	}
	out[k < 0 ? 0 : k] = 0;
	for (char* c = out; *c; c++)
		if (*c == '\t' || *c == '\n')
			*c = '?';
}

static void fdpath(pid_t pid, long fd, char* out, size_t n)
{
	char p[64];
	snprintf(p, sizeof p, "/proc/%d/fd/%ld", (int)pid, fd);
	ssize_t k = readlink(p, out, n - 1);
	out[k < 0 ? 0 : k] = 0;
}

// cb is called before each call is made, or before the call at; returns the status of waitpid(); log gets one line for each call: index, name, result, and its paths and sizes
int trace(pid_t pid, int at, int mode, long arg, int memory, char* log, size_t log_n, void (*cb)(int))
{
	int st, in_window = 0, index = -1, entry = 1, hit = 0;
	size_t n = 0;
	long shadow = 0;
	unsigned long rdi = 0, rdx = 0;
	char desc[9000] = "";
	const char* name = 0;
	log[0] = 0;

	if (waitpid(pid, &st, __WALL) < 0 || !WIFSTOPPED(st))
		return -1;
	if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL))
		return -2;

	int sig = 0;
	while (1) {
		if (ptrace(PTRACE_SYSCALL, pid, 0, (long)sig) && errno != ESRCH)
			return -3;
		sig = 0;
		if (waitpid(pid, &st, __WALL) < 0)
			return -4;
		if (WIFEXITED(st) || WIFSIGNALED(st))
			break;
		if (!(WIFSTOPPED(st) && WSTOPSIG(st) == (SIGTRAP | 0x80))) {
			sig = WSTOPSIG(st);
			continue;
		}
		struct user_regs_struct g;
		if (ptrace(PTRACE_GETREGS, pid, 0, &g))
			continue;
		if (entry) {
			entry = 0;
			shadow = 0;
			rdi = g.rdi;
			rdx = g.rdx;
			name = 0;
			long nr = (long)g.orig_rax;
			if (nr == SYS_getsid) {
				in_window = !in_window;
				continue;
			}
			if (!in_window)
				continue;
			unsigned long a[6] = {g.rdi, g.rsi, g.rdx, g.r10, g.r8, g.r9};
			int c;
			for (c = 0; calls[c].name && calls[c].nr != nr; c++)
				;
			if (calls[c].name == 0 || (!memory && (nr == SYS_mmap || nr == SYS_brk || nr == SYS_mremap)))
				continue;
			name = calls[c].name;
			index++;
			size_t d = 0;
			desc[0] = 0;
			for (int k = 0; calls[c].args[k]; k++) {
				char s[4200], dir[4200];
				if (calls[c].args[k] == 'f')
					fdpath(pid, (long)(int)a[k], s, sizeof s);
				else if (calls[c].args[k] == 'p') {
					text(pid, a[k], s, sizeof s);
					if (k > 0 && calls[c].args[k - 1] == 'a' && s[0] != '/' && (int)a[k - 1] >= 0) {
						fdpath(pid, (long)(int)a[k - 1], dir, sizeof dir);
						memmove(s + strlen(dir) + 1, s, strlen(s) + 1 < 4100 - strlen(dir) ? strlen(s) + 1 : 1);
						memcpy(s, dir, strlen(dir));
						s[strlen(dir)] = '/';
					}
				} else if (calls[c].args[k] == 'n')
					snprintf(s, sizeof s, "%lu", a[k]);
				else
					continue;
				if (d + strlen(s) + 2 < sizeof desc)
					d += sprintf(desc + d, "\t%s", s);
			}
			if (cb && (at < 0 || index == at))
				cb(index);
			int again = mode == ERR_FROM && hit && (nr == hit - 1 || (memory && (nr == SYS_mmap || nr == SYS_brk)));
			if (index == at || again) {
				if (mode == KILL_BEFORE) {
					kill(pid, SIGKILL);
					n += snprintf(log + n, log_n - n, "%d\t%s\tkilled before%s\n", index, name, desc);
				} else if (mode == ERR || mode == ERR_FROM) {
					hit = (int)nr + 1;
					// what brk() returns is where the break is, which has not moved when it fails
					if (nr == SYS_brk)
						g.rdi = 0;
					else {
						g.orig_rax = (unsigned long)-1;
						shadow = -arg;
					}
					ptrace(PTRACE_SETREGS, pid, 0, &g);
				} else if (mode == SHORT && (nr == SYS_write || nr == SYS_pwrite64) && (long)g.rdx > arg) {
					g.rdx = (unsigned long)arg;
					ptrace(PTRACE_SETREGS, pid, 0, &g);
				}
			}
		} else {
			entry = 1;
			if (name == 0)
				continue;
			if (index == at && mode == KILL_AFTER)
				kill(pid, SIGKILL);
			if (index == at && mode == ERR_AFTER)
				shadow = -arg;
			// a system call leaves the registers of its arguments as they were
			if (shadow || g.rdi != rdi || g.rdx != rdx) {
				if (shadow)
					g.rax = (unsigned long)shadow;
				g.rdi = rdi;
				g.rdx = rdx;
				ptrace(PTRACE_SETREGS, pid, 0, &g);
			}
			if (n + strlen(desc) + 200 < log_n)
				n += snprintf(log + n, log_n - n, "%d\t%s\t%ld%s%s\n", index, name, (long)g.rax, shadow && mode != ERR_AFTER ? " injected" : "", desc);
		}
	}
	return st;
}
