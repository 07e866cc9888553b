// What ctypes needs to call the C API of the library within the extension: sizes, results which are returned by value, variadic
// calls, and references to everything of Judy so that it is linked in.
#include <stddef.h>
#include <string.h>
#include <pointless/pointless.h>
#include <pointless/pointless_int_ops.h>
#include <pointless/pointless_eval.h>
#include <pointless/pointless_walk.h>
#include <pointless/pointless_reader_helpers.h>
#include <Judy.h>

size_t capi_sizeof(const char* n)
{
	if (!strcmp(n, "pointless_t")) return sizeof(pointless_t);
	if (!strcmp(n, "pointless_create_t")) return sizeof(pointless_create_t);
	if (!strcmp(n, "pointless_hash_iter_state_t")) return sizeof(pointless_hash_iter_state_t);
	if (!strcmp(n, "intop_eval_context_t")) return sizeof(intop_eval_context_t);
	return 0;
}

// item of a vector: its type, and its value as 64 bits
uint32_t capi_vector_item(pointless_t* p, pointless_value_t* v, uint32_t i, uint64_t* out)
{
	pointless_complete_value_t c = pointless_reader_vector_value_case(p, v, i);
	*out = 0;
	if (c.type == POINTLESS_I64 || c.type == POINTLESS_U64)
		*out = c.complete_data.data_u64;
	else
		*out = c.complete_data.data_u32;
	return c.type;
}

int capi_cmp(pointless_t* pa, pointless_value_t* a, pointless_t* pb, pointless_value_t* b, const char** error)
{
	pointless_complete_value_t ca = pointless_value_to_complete(a), cb = pointless_value_to_complete(b);
	return pointless_cmp_reader(pa, &ca, pb, &cb, error);
}

// op: 0 +, 1 *; width: 32, 64, 0 (size_t)
int capi_intop(int width, int op, uint64_t a, int oa, uint64_t b, int ob, uint64_t* r)
{
	int o;
	if (width == 32) {
		intop_u32_t x = intop_u32_init((uint32_t)a), y = intop_u32_init((uint32_t)b), z;
		x.is_overflow |= oa; y.is_overflow |= ob;
		z = op ? intop_u32_mult(x, y) : intop_u32_add(x, y);
		*r = z.value; o = z.is_overflow;
	} else if (width == 64) {
		intop_u64_t x = intop_u64_init(a), y = intop_u64_init(b), z;
		x.is_overflow |= oa; y.is_overflow |= ob;
		z = op ? intop_u64_mult(x, y) : intop_u64_add(x, y);
		*r = z.value; o = z.is_overflow;
	} else {
		intop_sizet_t x = intop_sizet_init(a), y = intop_sizet_init(b), z;
		x.is_overflow |= oa; y.is_overflow |= ob;
		z = op ? intop_sizet_mult(x, y) : intop_sizet_add(x, y);
		*r = z.value; o = z.is_overflow;
	}
	return o != 0;
}

int capi_intop_eval(intop_eval_context_t* c, uint64_t* r, const char** error)
{
	return intop_eval_eval(c, r, error);
}

// the library's allocations (linked with --wrap), counted, and refused on demand
long capi_live = 0, capi_seen = 0, capi_refused = 0, capi_fail_at = -1;
int capi_fail_later = 0;

static int refuse(void)
{
	long i = capi_seen++;
	if (capi_fail_at < 0 || (i != capi_fail_at && !(capi_fail_later && i > capi_fail_at)))
		return 0;
	capi_refused++;
	return 1;
}

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
void __real_free(void*);

static void* live(void* p) { capi_live += p != 0; return p; }
void* __wrap_malloc(size_t n) { return refuse() ? 0 : live(__real_malloc(n)); }
void* __wrap_calloc(size_t n, size_t m) { return refuse() ? 0 : live(__real_calloc(n, m)); }
char* __wrap_strdup(const char* s) { return refuse() ? 0 : live(__real_strdup(s)); }
void __wrap_free(void* p) { capi_live -= p != 0; __real_free(p); }
void* __wrap_realloc(void* p, size_t n)
{
	if (refuse())
		return 0;
	void* q = __real_realloc(p, n);
	if (p == 0 && q != 0)
		capi_live++;
	return q;
}

void capi_free(void* p) { free(p); }

void* capi_memdup(const void* p, size_t n)
{
	void* q = malloc(n ? n : 1);
	if (q)
		memcpy(q, p, n);
	return q;
}

void* const capi_judy[] = {
	JudyLGet, JudyLIns, JudyLInsArray, JudyLDel, JudyLCount, JudyLByCount, JudyLFreeArray, JudyLMemUsed, JudyLMemActive, JudyLFirst, JudyLNext, JudyLLast, JudyLPrev,
	JudyLFirstEmpty, JudyLNextEmpty, JudyLLastEmpty, JudyLPrevEmpty,
	Judy1Test, Judy1Set, Judy1SetArray, Judy1Unset, Judy1Count, Judy1ByCount, Judy1FreeArray, Judy1MemUsed, Judy1MemActive, Judy1First, Judy1Next, Judy1Last, Judy1Prev,
	Judy1FirstEmpty, Judy1NextEmpty, Judy1LastEmpty, Judy1PrevEmpty,
	JudySLGet, JudySLIns, JudySLDel, JudySLFreeArray, JudySLFirst, JudySLNext, JudySLLast, JudySLPrev,
	JudyHSGet, JudyHSIns, JudyHSDel, JudyHSFreeArray,
};
