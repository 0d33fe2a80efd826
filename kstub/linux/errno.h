#include_next <linux/errno.h>
#ifndef ERESTARTSYS
#define ERESTARTSYS 512
#endif
