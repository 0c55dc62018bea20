/* directory access of the file node goes to the harness */
#ifndef ENV_FILE_H
#define ENV_FILE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
int h_stat(const char *path, struct stat *st);
int h_lstat(const char *path, struct stat *st);
int h_fstatat(int fd, const char *name, struct stat *st, int flags);
DIR *h_opendir(const char *path);
struct dirent *h_readdir(DIR *d);
int h_closedir(DIR *d);
int h_dirfd(DIR *d);
#define lstat h_lstat
#define fstatat h_fstatat
#define opendir h_opendir
#define readdir h_readdir
#define closedir h_closedir
#define dirfd h_dirfd
#define stat(p, b) h_stat(p, b)
#endif
