// Just enough of V8's and Node's interfaces to run src/yencode.cc without them.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include "node_version.h"
namespace v8 {
enum Kind { K_UNDEF, K_NULL, K_BOOL, K_NUM, K_BUF, K_STR, K_OBJ, K_ERR };
struct Value;
struct Prop { const char* key; Value* val; };
typedef void (*FreeCb)(char*, void*);
struct Isolate; struct Context; template<class T> struct Local; template<class T> struct Maybe; template<class T> struct MaybeLocal; struct Integer; struct Boolean; struct Number;
const char* keep(const char*, int);
struct Value {
	Kind kind; double num; uint8_t* data; size_t len; FreeCb cb; void* hint; const char* str; Prop props[12]; int nprops; bool given; int alias;
	static Value* make(Kind);
	bool IsUndefined() const { return kind == K_UNDEF; } bool IsNull() const { return kind == K_NULL; } bool IsNullOrUndefined() const { return kind <= K_NULL; }
	bool IsNumber() const { return kind == K_NUM; } bool IsBoolean() const { return kind == K_BOOL; } bool IsObject() const { return kind == K_BUF || kind == K_OBJ; } bool IsTrue() const { return kind == K_BOOL && num != 0; }
	bool IsString() const { return kind == K_STR; } bool IsInt32() const { return kind == K_NUM && num == (double)(int32_t)toInt(); } bool IsUint32() const { return kind == K_NUM && num == (double)(uint32_t)toInt(); } bool IsUint8Array() const { return kind == K_BUF; } bool IsArrayBufferView() const { return kind == K_BUF; } bool IsFunction() const { return false; } bool IsFalse() const { return kind == K_BOOL && num == 0; }
	bool truth() const { return kind == K_BUF || kind == K_OBJ || (kind == K_STR && *str) || (kind != K_UNDEF && kind != K_NULL && kind != K_STR && num != 0); }
	bool BooleanValue(Isolate*) const { return truth(); }
	Maybe<int64_t> IntegerValue(Local<Context>) const; Maybe<double> NumberValue(Local<Context>) const; Maybe<int32_t> Int32Value(Local<Context>) const; Maybe<uint32_t> Uint32Value(Local<Context>) const;
	int64_t toInt() const { double d = num; if (!(d == d)) return 0; if (d >= 9223372036854775808.0) return 0x7fffffffffffffffLL; if (d < -9223372036854775808.0) return -0x7fffffffffffffffLL - 1; return (int64_t)d; }
};
template<class T> struct Local {
	Value* v; Local() : v(0) {} explicit Local(Value* x) : v(x) {} template<class U> Local(const Local<U>& o) : v(o.v) {}
	T* operator->() const { return (T*)v; } T* operator*() const { return (T*)v; } bool IsEmpty() const { return !v; }
	template<class U> Local<U> As() const { return Local<U>(v); } template<class U> static Local<T> Cast(Local<U> o) { return Local<T>(o.v); }
};
template<class T> struct MaybeLocal { Local<T> l; MaybeLocal(Local<T> x) : l(x) {} Local<T> ToLocalChecked() const { return l; } bool ToLocal(Local<T>* o) const { *o = l; return true; } bool IsEmpty() const { return l.IsEmpty(); } };
template<class T> struct Maybe { T t; Maybe(T x) : t(x) {} T FromJust() const { return t; } T ToChecked() const { return t; } T FromMaybe(T) const { return t; } void Check() const {} bool IsJust() const { return true; } bool To(T* o) const { *o = t; return true; } };
struct Context : Value {};
inline Maybe<int64_t> Value::IntegerValue(Local<Context>) const { return Maybe<int64_t>(toInt()); } inline Maybe<double> Value::NumberValue(Local<Context>) const { return Maybe<double>(num); } inline Maybe<int32_t> Value::Int32Value(Local<Context>) const { return Maybe<int32_t>((int32_t)toInt()); } inline Maybe<uint32_t> Value::Uint32Value(Local<Context>) const { return Maybe<uint32_t>((uint32_t)toInt()); }
struct Isolate { Value* thrown; static Isolate* GetCurrent(); Local<Context> GetCurrentContext() { return Local<Context>(Value::make(K_OBJ)); } Local<Value> ThrowException(Local<Value> e) { thrown = e.v; return e; } int64_t AdjustAmountOfExternalAllocatedMemory(int64_t) { return 0; } };
struct HandleScope { HandleScope(Isolate*) {} };
struct EscapableHandleScope { EscapableHandleScope(Isolate*) {} template<class T> Local<T> Escape(Local<T> x) { return x; } };
static inline Value* mkNum(double d) { Value* v = Value::make(K_NUM); v->num = d; return v; }
struct Name : Value {}; struct Primitive : Value {};
struct Number : Value { double Value_() const { return num; } static Local<Number> New(Isolate*, double d) { return Local<Number>(mkNum(d)); } double Value() const { return num; } };
struct Integer : Number { static Local<Integer> New(Isolate*, int32_t d) { return Local<Integer>(mkNum(d)); } static Local<Integer> NewFromUnsigned(Isolate*, uint32_t d) { return Local<Integer>(mkNum(d)); } int64_t Value() const { return toInt(); } };
struct Int32 : Integer { int32_t Value() const { return (int32_t)toInt(); } }; struct Uint32 : Integer { uint32_t Value() const { return (uint32_t)toInt(); } };
struct Boolean : Value { static Local<Boolean> New(Isolate*, bool b) { v8::Value* v = v8::Value::make(K_BOOL); v->num = b; return Local<Boolean>(v); } bool Value() const { return truth(); } };
struct NewStringType { static const int kNormal = 0, kInternalized = 1; };
struct String : Value {
	static MaybeLocal<String> NewFromOneByte(Isolate*, const uint8_t* s, int = 0, int n = -1) { v8::Value* v = v8::Value::make(K_STR); v->str = keep((const char*)s, n); return Local<String>(v); }
	static MaybeLocal<String> NewFromUtf8(Isolate* i, const char* s, int = 0, int n = -1) { return NewFromOneByte(i, (const uint8_t*)s, 0, n); }
	static Local<String> NewFromUtf8Literal(Isolate* i, const char* s, int = 0) { return NewFromUtf8(i, s).l; }
	static Local<String> Empty(Isolate* i) { return NewFromUtf8(i, "").l; }
};
struct Exception { static Local<Value> Error(Local<String> s) { v8::Value* v = v8::Value::make(K_ERR); v->str = s.v->str; return Local<Value>(v); } static Local<Value> TypeError(Local<String> s) { return Error(s); } static Local<Value> RangeError(Local<String> s) { return Error(s); } };
struct Object : Value {
	static Local<Object> New(Isolate*) { return Local<Object>(v8::Value::make(K_OBJ)); }
	Maybe<bool> Set(Local<Context>, Local<v8::Value> k, Local<v8::Value> x) { for (int i = 0; i < nprops; i++) { const char *a = props[i].key, *b = k.v->str; while (*a && *a == *b) a++, b++; if (*a == *b) { props[i].val = x.v; return true; } } props[nprops].key = k.v->str; props[nprops++].val = x.v; return true; }
};
static inline Local<Primitive> Undefined(Isolate*) { return Local<Primitive>(Value::make(K_UNDEF)); }
static inline Local<Primitive> Null(Isolate*) { return Local<Primitive>(Value::make(K_NULL)); }
static inline Local<Boolean> True(Isolate* i) { return Boolean::New(i, true); }
static inline Local<Boolean> False(Isolate* i) { return Boolean::New(i, false); }
template<class T> struct ReturnValue { Value** slot; template<class S> void Set(Local<S> x) { *slot = x.v; } void Set(bool b) { *slot = Boolean::New(0, b).v; } void Set(int32_t d) { *slot = mkNum(d); } void Set(uint32_t d) { *slot = mkNum(d); } void Set(double d) { *slot = mkNum(d); } void SetUndefined() { *slot = 0; } };
template<class T> struct FunctionCallbackInfo {
	Isolate* iso; Value** args; int n; Value** ret;
	Isolate* GetIsolate() const { return iso; } int Length() const { return n; } Local<T> operator[](int i) const { return Local<T>(i < n ? args[i] : Value::make(K_UNDEF)); } ReturnValue<T> GetReturnValue() const { ReturnValue<T> r = { ret }; return r; }
};
typedef void (*FunctionCallback)(const FunctionCallbackInfo<Value>&);
}
namespace node {
void SetMethod(v8::Local<v8::Object>, const char*, v8::FunctionCallback);
namespace Buffer {
	static inline bool HasInstance(v8::Local<v8::Value> v) { return v.v->kind == v8::K_BUF; }
	static inline size_t Length(v8::Local<v8::Value> v) { return v.v->len; }
	static inline char* Data(v8::Local<v8::Value> v) { return (char*)v.v->data; }
	v8::MaybeLocal<v8::Object> New(v8::Isolate*, size_t);
	v8::MaybeLocal<v8::Object> New(v8::Isolate*, char*, size_t, v8::FreeCb, void*);
	v8::MaybeLocal<v8::Object> New(v8::Isolate*, char*, size_t);
	v8::MaybeLocal<v8::Object> Copy(v8::Isolate*, const char*, size_t);
}
}
#define NODE_SET_METHOD(o, n, f) node::SetMethod(o, n, f)
#define NODE_MODULE_INIT() void node_init(v8::Local<v8::Object> exports, v8::Local<v8::Value> module, v8::Local<v8::Context> context)
#define NODE_MODULE(n, f)
