#include_next <linux/ioctl.h>
#include "kernel_all.h"
