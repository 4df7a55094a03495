#pragma once
typedef int uv_once_t;
#define UV_ONCE_INIT 0
static inline void uv_once(uv_once_t* o, void (*f)(void)) { if (!*o) { *o = 1; f(); } }
