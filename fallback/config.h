#define HAVE_SYS_IOCTL_H 1
#define HAVE_SYS_STAT_H 1
#define BUP_MINCORE_BUF_TYPE unsigned char
#define HAVE_UNISTD_H 1
#define HAVE_LINUX_FS_H 1
#define HAVE_SYS_MMAN_H 1
#define HAVE_SYS_TYPES_H 1
#define BUP_HAVE_ACLS 1
#define BUP_HAVE_READLINE 1
#define HAVE_SYS_TIME_H 1
#define BUP_STAT_NS_FLAVOR_TIM 1
#define HAVE_MINCORE 1
#define BUP_READLINE_INCLUDES_IN_SUBDIR 1
