// Threads which share one opened file, each reading it in full, and creating files, evaluating, recreating and opening on their own. Every task is run
// once alone and then by every thread, all at the same time, in an order of their own: results have to be the same. Compiled with ThreadSanitizer.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <pointless/pointless.h>
#include <pointless/pointless_int_ops.h>
#include <pointless/pointless_eval.h>
#include <pointless/pointless_walk.h>
#include <pointless/pointless_recreate.h>
#include <pointless/pointless_reader_helpers.h>
#include <pointless/pointless_cycle_marker_wrappers.h>
#include <pointless/pointless_unicode_utils.h>
#include <pointless/custom_sort.h>

typedef uint64_t u64;
typedef uint32_t u32;

static u64 mix(u64 h, u64 x)
{
	h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	return h ^ (h >> 33);
}

static u64 rnd(u64* s)
{
	*s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17;
	return *s;
}

#define R(n) ((u32)(rnd(s) % (n)))

static pointless_t P;
static const char* FNAME;
static const char* TMPDIR_;

static u64 bytes(u64 h, const void* v, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++) h = mix(h, ((const uint8_t*)v)[i]);
	return h;
}

// everything below a value, within a budget
static u64 walk(pointless_t* p, pointless_value_t* v, int depth, long* budget, u64 h)
{
	u32 i, n, it;
	pointless_value_t *k, *vv;

	h = mix(h, v->type);

	if (depth > 60 || (*budget)-- <= 0)
		return h;

	if (pointless_is_hashable_reader(p, v))
		h = mix(h, pointless_hash_reader_32(p, v));

	switch (v->type) {
		case POINTLESS_VECTOR_VALUE: case POINTLESS_VECTOR_VALUE_HASHABLE:
			n = pointless_reader_vector_n_items(p, v);
			for (i = 0; i < n && *budget > 0; i++) h = walk(p, pointless_reader_vector_value(p, v) + i, depth + 1, budget, h);
			return mix(h, n);
		case POINTLESS_VECTOR_I8: case POINTLESS_VECTOR_U8: case POINTLESS_VECTOR_I16: case POINTLESS_VECTOR_U16: case POINTLESS_VECTOR_I32:
		case POINTLESS_VECTOR_U32: case POINTLESS_VECTOR_I64: case POINTLESS_VECTOR_U64: case POINTLESS_VECTOR_FLOAT:
			n = pointless_reader_vector_n_items(p, v);
			for (i = 0; i < n; i++) {
				pointless_complete_value_t c = pointless_reader_vector_value_case(p, v, i);
				h = mix(mix(h, c.type), (c.type == POINTLESS_I64 || c.type == POINTLESS_U64) ? c.complete_data.data_u64 : c.complete_data.data_u32);
			}
			return h;
		case POINTLESS_UNICODE_:
			return bytes(h, pointless_reader_unicode_value_ucs4(p, v), 4 * pointless_reader_unicode_len(p, v));
		case POINTLESS_STRING_:
			return bytes(h, pointless_reader_string_value_ascii(p, v), pointless_reader_string_len(p, v));
		case POINTLESS_BITVECTOR: case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1: case POINTLESS_BITVECTOR_01: case POINTLESS_BITVECTOR_10: case POINTLESS_BITVECTOR_PACKED:
			n = pointless_reader_bitvector_n_bits(p, v);
			for (i = 0; i < n && i < 4096; i++) h = mix(h, !!pointless_reader_bitvector_is_set(p, v, i));
			return mix(h, n);
		case POINTLESS_SET_VALUE:
			for (it = 0; *budget > 0 && pointless_reader_set_iter(p, v, &k, &it); ) {
				const char* e = 0;
				pointless_value_t* kk = 0;
				h = walk(p, k, depth + 1, budget, h);
				pointless_reader_set_lookup(p, v, k, &kk, &e);
				h = mix(h, kk == k);
			}
			return mix(h, pointless_reader_set_n_items(p, v));
		case POINTLESS_MAP_VALUE_VALUE:
			for (it = 0; *budget > 0 && pointless_reader_map_iter(p, v, &k, &vv, &it); ) {
				const char* e = 0;
				pointless_value_t *kk = 0, *ww = 0;
				h = walk(p, k, depth + 1, budget, h);
				h = walk(p, vv, depth + 1, budget, h);
				pointless_reader_map_lookup(p, v, k, &kk, &ww, &e);
				h = mix(h, kk == k && ww == vv);
			}
			return mix(h, pointless_reader_map_n_items(p, v));
		default:
			return mix(h, v->data.data_u32);
	}
}

// a random value below a value
static pointless_value_t* descend(pointless_t* p, pointless_value_t* v, u64* s)
{
	int d;
	for (d = 0; d < 12; d++) {
		u32 n = 0, it = 0, i;
		pointless_value_t *k = 0, *vv = 0, *next = 0;
		switch (v->type) {
			case POINTLESS_VECTOR_VALUE: case POINTLESS_VECTOR_VALUE_HASHABLE:
				n = pointless_reader_vector_n_items(p, v);
				if (n) next = pointless_reader_vector_value(p, v) + R(n);
				break;
			case POINTLESS_SET_VALUE:
				n = R(pointless_reader_set_n_items(p, v) + 1);
				for (i = 0; i <= n && pointless_reader_set_iter(p, v, &k, &it); i++) next = k;
				break;
			case POINTLESS_MAP_VALUE_VALUE:
				n = R(pointless_reader_map_n_items(p, v) + 1);
				for (i = 0; i <= n && pointless_reader_map_iter(p, v, &k, &vv, &it); i++) next = (rnd(s) & 1) ? vv : k;
				break;
		}
		if (next == 0 || R(8) == 0) break;
		v = next;
	}
	return v;
}

static u32 cb(pointless_t* p, pointless_value_t* v, u32 depth, void* user)
{
	u64* h = (u64*)user;
	*h = mix(*h, ((u64)v->type << 32) ^ depth);
	return depth < 20;
}

static u64 lookups(u64* s)
{
	u64 h = 1;
	int i;
	for (i = 0; i < 30; i++) {
		pointless_value_t* c = descend(&P, pointless_root(&P), s);
		pointless_value_t* x = descend(&P, pointless_root(&P), s);
		pointless_value_t *k = 0, *v = 0, o;
		const char* e = 0;
		char key[32];
		u32 u = 0;
		pointless_complete_value_t cc = pointless_value_to_complete(c), cx = pointless_value_to_complete(x);
		int32_t cmp = pointless_cmp_reader(&P, &cc, &P, &cx, &e);
		h = mix(h, e ? 77 : (u64)(cmp > 0) * 2 + (cmp < 0));
		e = 0;
		if (c->type == POINTLESS_MAP_VALUE_VALUE) {
			if (pointless_is_hashable_reader(&P, x)) {
				pointless_reader_map_lookup(&P, c, x, &k, &v, &e);
				h = mix(h, e ? 3 : k != 0);
			}
			snprintf(key, sizeof(key), "%u", R(100));
			h = mix(h, pointless_get_mapping_string_to_value(&P, c, key, &o) ? o.type : 1000);
			h = mix(h, pointless_get_mapping_string_to_u32(&P, c, key, &u) ? u : 1000);
			h = mix(h, pointless_get_mapping_int_to_value(&P, c, R(100), &o) ? o.type : 1000);
			h = mix(h, pointless_is_int_in_map(&P, c, R(100)));
			h = mix(h, pointless_has_same_keys_map_map(&P, c, c));
		}
		if (c->type == POINTLESS_SET_VALUE) {
			if (pointless_is_hashable_reader(&P, x)) {
				pointless_reader_set_lookup(&P, c, x, &k, &e);
				h = mix(h, e ? 3 : k != 0);
			}
			h = mix(h, pointless_is_int_in_set(&P, c, R(100)));
		}
	}
	return h;
}

static u64 evals(u64* s)
{
	u64 h = 2, r = 0;
	int i;
	for (i = 0; i < 25; i++) {
		char buf[200];
		pointless_value_t v;
		u32 u = 0, n = 0;
		const char* e = 0;
		intop_eval_context_t c;
		pointless_value_t* x = descend(&P, pointless_root(&P), s);
		snprintf(buf, sizeof(buf), "[%u]['%u'][%u]", R(5), R(50), R(4));
		h = mix(h, pointless_eval_get(&P, x, &v, buf) ? v.type : 500);
		h = mix(h, pointless_eval_get(&P, x, &v, "[%u32]", (u32)R(6)) ? v.type : 500);
		h = mix(h, pointless_eval_get_as_u32(&P, x, &u, "[%s]", "1") ? u : 500);
		h = mix(h, pointless_eval_get_as_bitvector(&P, x, &v, &n, "[0]") ? n : 500);
		snprintf(buf, sizeof(buf), "(%u+%u)*%u-%u/(%u%s+1)", R(1000), R(1000), R(100000), R(1000), R(10), R(9) ? "" : ")");
		if (intop_eval_compile(buf, &c, &e) && intop_eval_eval(&c, &r, &e))
			h = mix(h, r);
		else
			h = bytes(h, e, strlen(e));
	}
	return h;
}

static u32 build(pointless_create_t* c, u64* s, int depth)
{
	u32 i, n, x, y, k;
	const char* e = 0;
	char buf[40];
	u32 w[20];
	uint8_t bits[40];
	k = R(depth > 4 ? 9 : 15);
	switch (k) {
		case 0: return pointless_create_i32(c, (int32_t)rnd(s));
		case 1: return pointless_create_u32(c, R(50));
		case 2: return pointless_create_float(c, (float)R(64) / 4);
		case 3: return R(2) ? pointless_create_null(c) : pointless_create_boolean(c, R(2));
		case 4: case 5:
			snprintf(buf, sizeof(buf), "s%u", R(60));
			return R(2) ? pointless_create_string_ascii(c, (uint8_t*)buf) : pointless_create_unicode_ascii(c, buf, &e);
		case 6:
			n = R(10);
			for (i = 0; i < n; i++) w[i] = 1 + R(70000);
			w[n] = 0;
			return pointless_create_unicode_ucs4(c, w);
		case 7:
			for (i = 0; i < sizeof(bits); i++) bits[i] = R(3) ? 0 : (uint8_t)rnd(s);
			return R(2) ? pointless_create_bitvector(c, bits, 1 + R(300)) : pointless_create_bitvector_no_normalize(c, bits, 1 + R(300));
		case 8:
			x = pointless_create_vector_u16(c);
			for (n = R(30); n; n--) pointless_create_vector_u16_append(c, x, (uint16_t)rnd(s));
			return x;
		case 9: case 10: case 11:
			x = pointless_create_vector_value(c);
			for (n = R(12); n; n--) pointless_create_vector_value_append(c, x, build(c, s, depth + 1));
			return x;
		case 12:
			x = pointless_create_set(c);
			y = R(200);
			for (n = R(20); n; n--) pointless_create_set_add(c, x, pointless_create_i32(c, (int32_t)(y += 1 + R(9))));
			return x;
		default:
			x = pointless_create_map(c);
			y = R(200);
			for (n = R(20); n; n--) {
				snprintf(buf, sizeof(buf), "%u", y += 1 + R(9));
				pointless_create_map_add(c, x, R(2) ? pointless_create_i32(c, (int32_t)y) : pointless_create_string_ascii(c, (uint8_t*)buf), build(c, s, depth + 1));
			}
			return x;
	}
}

static u64 finish(pointless_create_t* c, u64* s)
{
	void* buf = 0;
	size_t n = 0;
	const char* e = 0;
	pointless_t p;
	u64 h = 3;
	long budget = 3000;

	if (!pointless_create_output_and_end_b(c, &buf, &n, &e))
		return bytes(9, e, strlen(e));

	h = bytes(h, buf, n);

	if (pointless_open_b(&p, buf, n, &e)) {
		h = walk(&p, pointless_root(&p), 0, &budget, h);
		pointless_close(&p);
	} else {
		h = bytes(11, e, strlen(e));
	}
	pointless_free(buf);
	return h;
}

static u64 create(u64* s)
{
	pointless_create_t c;
	u32 i, root;
	pointless_create_begin_64(&c);
	root = pointless_create_vector_value(&c);
	for (i = 0; i < 6; i++) pointless_create_vector_value_append(&c, root, build(&c, s, 0));
	if (R(10)) pointless_create_set_root(&c, root);
	if (R(10) == 0) {
		pointless_create_end(&c);
		return 5;
	}
	return finish(&c, s);
}

static u64 recreate(u64* s)
{
	pointless_create_t c;
	const char* e = 0;
	u32 r;
	pointless_value_t* v = descend(&P, pointless_root(&P), s);
	pointless_create_begin_64(&c);
	r = pointless_recreate_value(&P, R(3) ? pointless_root(&P) : v, &c, &e);
	if (r == POINTLESS_CREATE_VALUE_FAIL) {
		pointless_create_end(&c);
		return bytes(8, e, strlen(e));
	}
	pointless_create_set_root(&c, r);
	return finish(&c, s);
}

static u64 reopen(u64* s, int id)
{
	pointless_t p;
	const char* e = 0;
	long budget = 4000;
	u64 h = 6;
	char name[500];
	pointless_create_t c;
	if (!(R(4) ? pointless_open_f(&p, FNAME, &e) : pointless_open_f_skip_validate(&p, FNAME, &e)))
		return bytes(12, e, strlen(e));
	h = walk(&p, pointless_root(&p), 0, &budget, h);
	pointless_close(&p);
	// a file of this thread's own
	snprintf(name, sizeof(name), "%s/own.%d", TMPDIR_, id);
	pointless_create_begin_64(&c);
	pointless_create_set_root(&c, build(&c, s, 0));
	if (!pointless_create_output_and_end_f(&c, name, &e))
		return bytes(13, e, strlen(e));
	if (!pointless_open_f(&p, name, &e))
		return bytes(14, e, strlen(e));
	budget = 4000;
	h = walk(&p, pointless_root(&p), 0, &budget, h);
	pointless_close(&p);
	unlink(name);
	// and one which can not be opened, nor written
	snprintf(name, sizeof(name), "%s/missing/%d", TMPDIR_, id);
	if (!pointless_open_f(&p, name, &e)) h = bytes(h, e, strlen(e)); else h = 1;
	pointless_create_begin_64(&c);
	pointless_create_set_root(&c, pointless_create_null(&c));
	if (!pointless_create_output_and_end_f(&c, name, &e)) h = bytes(h, e, strlen(e)); else h = 1;
	return h;
}

static u64 cycles(u64* s)
{
	const char* e = 0;
	u64 h = 7;
	u32 n = pointless_n_containers(&P);
	void* b = pointless_cycle_marker_read(&P, &e);
	if (b == 0 && e) return bytes(15, e, strlen(e));
	if (b) {
		h = bytes(h, b, (n + 7) / 8);
		pointless_free(b);
	}
	pointless_walk(&P, cb, &h);
	return h;
}

static int sort_cmp(int a, int b, int* c, void* user)
{
	u32* v = (u32*)user;
	*c = (v[a] > v[b]) - (v[a] < v[b]);
	return 1;
}

static void sort_swap(int a, int b, void* user)
{
	u32* v = (u32*)user;
	u32 t = v[a];
	v[a] = v[b]; v[b] = t;
}

static u64 sorts(u64* s)
{
	u32 v[700];
	u32 i, n = R(700);
	u64 h = 16;
	uint16_t a[40];
	u32* b;
	for (i = 0; i < n; i++) v[i] = R(500);
	bentley_sort_((int)n, sort_cmp, sort_swap, v);
	h = bytes(h, v, n * sizeof(u32));
	for (i = 0; i < 39; i++) a[i] = (uint16_t)(1 + R(50000));
	a[39] = 0;
	b = pointless_ucs2_to_ucs4(a);
	if (b) {
		h = bytes(h, b, sizeof(u32) * 40);
		h = mix(h, pointless_hash_unicode_ucs4_v1_32(b));
		h = mix(h, (u64)pointless_cmp_string_16_32(a, b));
		pointless_free(b);
	}
	return h;
}

#define KINDS 8
#define NTASKS 40
#define MAXT 16

static u64 expected[NTASKS];
static u64 seeds[NTASKS];
static int kinds[NTASKS];
static int nthreads;
static int rounds;
static u64 seed0;
static pthread_barrier_t bar;
static int running[KINDS]; // relaxed: does not order anything
static long overlap[KINDS][KINDS];
static long ran[KINDS];
static int wrong;

static u64 task(int i, int id)
{
	u64 s_ = seeds[i], *s = &s_;
	long budget = 6000;
	switch (kinds[i]) {
		case 0: return walk(&P, R(2) ? pointless_root(&P) : descend(&P, pointless_root(&P), s), 0, &budget, 0);
		case 1: return lookups(s);
		case 2: return evals(s);
		case 3: return create(s);
		case 4: return recreate(s);
		case 5: return reopen(s, id);
		case 6: return cycles(s);
		default: return sorts(s);
	}
}

static void* thread(void* arg)
{
	int id = (int)(size_t)arg, r, i, j;
	u64 s_ = seed0 * 1000003 + id * 7919 + 17, *s = &s_;
	for (i = 0; i < 10; i++) rnd(s);
	for (r = 0; r < rounds; r++) {
		pthread_barrier_wait(&bar);
		for (i = 0; i < NTASKS; i++) {
			int t = R(NTASKS);
			u64 h;
			for (j = 0; j < KINDS; j++)
				if (__atomic_load_n(&running[j], __ATOMIC_RELAXED) > 0) __atomic_fetch_add(&overlap[kinds[t]][j], 1, __ATOMIC_RELAXED);
			__atomic_fetch_add(&running[kinds[t]], 1, __ATOMIC_RELAXED);
			h = task(t, id);
			__atomic_fetch_sub(&running[kinds[t]], 1, __ATOMIC_RELAXED);
			__atomic_fetch_add(&ran[kinds[t]], 1, __ATOMIC_RELAXED);
			if (h != expected[t]) {
				__atomic_fetch_add(&wrong, 1, __ATOMIC_RELAXED);
				printf("wrong: task kind %d seed %llu in thread %d\n", kinds[t], (unsigned long long)seeds[t], id);
				fflush(stdout);
			}
		}
	}
	return 0;
}

int main(int argc, char** argv)
{
	pthread_t t[MAXT];
	const char* e = 0;
	int i, j;
	u64 s_, *s = &s_;
	long n = 0, o = 0, pairs = 0;

	if (argc != 6) return 2;
	FNAME = argv[1];
	TMPDIR_ = argv[2];
	seed0 = strtoull(argv[3], 0, 10);
	nthreads = atoi(argv[4]);
	rounds = atoi(argv[5]);
	s_ = seed0 * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
	if (nthreads > MAXT) return 2;

	if (!pointless_open_f(&P, FNAME, &e)) {
		printf("open: %s\n", e);
		return 2;
	}
	for (i = 0; i < NTASKS; i++) {
		seeds[i] = rnd(s) | 1;
		kinds[i] = i % KINDS;
	}
	for (i = 0; i < NTASKS; i++) {
		expected[i] = task(i, 99);
		if (expected[i] != task(i, 99)) {
			printf("wrong: task kind %d seed %llu differs when repeated alone\n", kinds[i], (unsigned long long)seeds[i]);
			wrong++;
		}
	}

	pthread_barrier_init(&bar, 0, nthreads);
	for (i = 0; i < nthreads; i++) pthread_create(&t[i], 0, thread, (void*)(size_t)i);
	for (i = 0; i < nthreads; i++) pthread_join(t[i], 0);
	for (i = 0; i < KINDS; i++) {
		n += ran[i];
		for (j = 0; j < KINDS; j++) {
			o += overlap[i][j];
			pairs += overlap[i][j] != 0;
		}
	}
	pointless_close(&P);
	printf("ran %ld overlaps %ld pairs %ld wrong %d\n", n, o, pairs, wrong);
	return wrong ? 1 : 0;
}
