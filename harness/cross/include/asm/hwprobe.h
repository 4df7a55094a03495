#pragma once
#define RISCV_HWPROBE_KEY_IMA_EXT_0 4
struct riscv_hwprobe { long long key; unsigned long long value; };
