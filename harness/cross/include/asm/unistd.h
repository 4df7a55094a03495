#define __NR_riscv_hwprobe 258
