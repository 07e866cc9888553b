From 20256e2a2920e15e9187875c5cebffcca9773d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 01/86] fix: strings with characters outside the BMP were
 stored truncated to 8 bits

---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 0ae2302..f21540c 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -311,9 +311,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 				break;
 			case PyUnicode_4BYTE_KIND:
 				if (state->unwiden_strings && pointless_is_ucs4_ascii((uint32_t*)python_buffer))
-					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
-				else
 					handle = pointless_create_string_ucs4(&state->c, (uint32_t*)python_buffer);
+				else
+					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
 				break;
 			// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 			default:
-- 
2.43.0


From be48e7c1549f0796aa0a4ef32ced8335371eddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 02/86] fix: release the create state when an object can not be
 serialized

---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index f21540c..6e1dbd7 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -509,7 +509,7 @@ PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 	PyObject* retval = 0;
 	PyObject* normalize_bitvector = Py_True;
 	PyObject* unwiden_strings = Py_False;
-	int create_end = 0;
+	int create_end = 1;
 
 	const char* error = 0;
 
@@ -571,7 +571,7 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 	PyObject* retval = 0;
 	PyObject* normalize_bitvector = Py_True;
 	PyObject* unwiden_strings = Py_False;
-	int create_end = 0;
+	int create_end = 1;
 
 	void* buf = 0;
 	size_t buflen = 0;
-- 
2.43.0


From 0b3836b78efc23cfaa73dc2178cb70765bc7faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 03/86] fix: serialize_to_bytearray() leaked its output buffer

---
 python/pointless_create.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 6e1dbd7..da87289 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -607,10 +607,12 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 		goto cleanup;
 	}
 
-	if (buffer_type == 0)
+	if (buffer_type == 0) {
 		retval = (PyObject*)PyPointlessPrimVector_from_buffer(buf, buflen);
-	else
+	} else {
 		retval = (PyObject*)PyByteArray_FromStringAndSize(buf, buflen);
+		pointless_free(buf);
+	}
 
 cleanup:
 
-- 
2.43.0


From 6897144976a58760e445757bc8c59920627a94e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 04/86] fix: serializing a set leaked a reference to each of
 its items

---
 python/pointless_create.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index da87289..a88e8d7 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -384,6 +384,7 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		// iterate over it
 		while ((item = PyIter_Next(iterator)) != 0) {
 			uint32_t item_handle = pointless_export_py_rec(state, item, depth + 1);
+			Py_DECREF(item);
 
 			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
-- 
2.43.0


From 7c4bdbb0115dea73cfb65b82a3c706d82dc4632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 05/86] fix: serializing a set leaked its iterator when out of
 memory

---
 python/pointless_create.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index a88e8d7..6f4da15 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -363,15 +363,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 	// set object
 	} else if (PySet_Check(py_object) || PyFrozenSet_Check(py_object)) {
-		PyObject* iterator = PyObject_GetIter(py_object);
+		PyObject* iterator = 0;
 		PyObject* item = 0;
 
-		if (iterator == 0) {
-			state->is_error = 1;
-			state->error_line = __LINE__;
-			return POINTLESS_CREATE_VALUE_FAIL;
-		}
-
 		// get a handle
 		handle = pointless_create_set(&state->c);
 		RETURN_OOM_IF_FAIL(handle, state);
@@ -382,6 +376,14 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		}
 
 		// iterate over it
+		iterator = PyObject_GetIter(py_object);
+
+		if (iterator == 0) {
+			state->is_error = 1;
+			state->error_line = __LINE__;
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+
 		while ((item = PyIter_Next(iterator)) != 0) {
 			uint32_t item_handle = pointless_export_py_rec(state, item, depth + 1);
 			Py_DECREF(item);
-- 
2.43.0


From 5539170f37e26ea89290bca0dcb3376f951df2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 06/86] fix: serializing a slice of a value vector stored the
 whole vector

---
 python/pointless_create.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 6f4da15..9f9ee0b 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -147,6 +147,32 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		switch(v->v.type) {
 			case POINTLESS_VECTOR_VALUE:
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
+				// a slice only has some of the items of the underlying vector
+				if (v->slice_i != 0 || v->slice_n != pointless_reader_vector_n_items(&v->pp->p, &v->v)) {
+					handle = pointless_create_vector_value(&state->c);
+					RETURN_OOM_IF_FAIL(handle, state);
+
+					uint32_t i;
+
+					for (i = 0; i < v->slice_n; i++) {
+						pointless_value_t* item = pointless_reader_vector_value(&v->pp->p, &v->v) + v->slice_i + i;
+						uint32_t item_handle = pointless_recreate_value(&v->pp->p, item, &state->c, &error);
+
+						if (item_handle == POINTLESS_CREATE_VALUE_FAIL) {
+							state->is_error = 1;
+							state->error_line = __LINE__;
+							PyErr_Format(PyExc_ValueError, "pointless_recreate_value(): %s", error);
+							return POINTLESS_CREATE_VALUE_FAIL;
+						}
+
+						if (pointless_create_vector_value_append(&state->c, handle, item_handle) == POINTLESS_CREATE_VALUE_FAIL) {
+							RETURN_OOM(state);
+						}
+					}
+
+					break;
+				}
+
 				handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
 
 				if (handle == POINTLESS_CREATE_VALUE_FAIL) {
-- 
2.43.0


From 08c323436ebd8cffa686554bca9dd787658c4159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 07/86] fix: the temporary file was left behind when writing
 the output failed (its name was freed before the unlink)

---
 src/pointless_create.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4096504..a0af3eb 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1321,9 +1321,6 @@ int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname,
 
 cleanup:
 
-	pointless_free(temp_fname);
-	temp_fname = 0;
-
 	pointless_create_end(c);
 
 	if (f) {
-- 
2.43.0


From e2eba6148f05922cfaf20ec666282f05e8641967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 08/86] fix: set/map keys of different types with the same hash
 were compared as if they had the same type

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8c39b66..8284c32 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -523,7 +523,7 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 
 	// find the comparison func for these two
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
-	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_a->header.type_29);
+	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-- 
2.43.0


From f2faa343ff429cca28ccc611254ca9ffe9f0f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 09/86] fix: comparing 64-bit vectors used as set/map keys
 called a null function

---
 src/pointless_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8284c32..eccc731 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -456,6 +456,8 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 			return pointless_cmp_create_string_unicode;
 		case POINTLESS_I32:
 		case POINTLESS_U32:
+		case POINTLESS_I64:
+		case POINTLESS_U64:
 		case POINTLESS_BOOLEAN:
 		case POINTLESS_FLOAT:
 			return pointless_cmp_create_int_float;
-- 
2.43.0


From a356f86ecaf16792fee48875d789cdec6e617308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 10/86] fix: unsigned integers were ordered before negative
 ones

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index eccc731..41d350f 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -201,7 +201,7 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 			int64_t _b = pointless_int_value_signed(t_b, v_b);
 
 			if (_b < 0)
-				return -1;
+				return 1;
 
 			return SIMPLE_CMP(_a, (uint64_t)_b);
 		}
-- 
2.43.0


From fb847ffdab2c30f9954eec0d7155ea9f3f341967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 11/86] fix: integers and floats were compared after rounding
 the integer to 24 bits

---
 src/pointless_cmp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 41d350f..594a092 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -165,15 +165,15 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 	// float, int
 	} else if (t_a == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_b))
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_signed(t_b, v_b));
+			return SIMPLE_CMP((double)v_a->data_f, (double)pointless_int_value_signed(t_b, v_b));
 		else
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_unsigned(t_b, v_b));
+			return SIMPLE_CMP((double)v_a->data_f, (double)pointless_int_value_unsigned(t_b, v_b));
 	// int, float
 	} else if (t_b == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_a))
-			return SIMPLE_CMP((float)pointless_int_value_signed(t_a, v_a), v_b->data_f);
+			return SIMPLE_CMP((double)pointless_int_value_signed(t_a, v_a), (double)v_b->data_f);
 		else
-			return SIMPLE_CMP((float)pointless_int_value_unsigned(t_a, v_a), v_b->data_f);
+			return SIMPLE_CMP((double)pointless_int_value_unsigned(t_a, v_a), (double)v_b->data_f);
 	// int, int
 	} else {
 		// ss
-- 
2.43.0


From 2aa01e84cca7d0d764235e102951a672a434a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 12/86] fix: pointless_cmp_reader_acyclic() dereferenced a null
 pointer for vectors

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 594a092..55fc752 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -361,7 +361,7 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 
 		cc = pointless_cmp_reader_rec(p_a, &c_a, p_b, &c_b, depth + 1, error);
 
-		if (cc != 0 || *error != 0)
+		if (cc != 0 || (error && *error != 0))
 			return cc;
 	}
 
-- 
2.43.0


From b6e8c78e7d1528562e872564518822e0e02e6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 13/86] fix: empty vectors used as set/map keys were hashed and
 compared as if they were the first vector

---
 src/pointless_cmp.c  | 16 ++++++++++++++--
 src/pointless_hash.c |  6 +++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 55fc752..9398320 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -368,13 +368,25 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 	return SIMPLE_CMP(n_items_a, n_items_b);
 }
 
+static uint32_t pointless_cmp_create_vector_n_items(pointless_create_t* c, pointless_create_value_t* v)
+{
+	// empty vectors do not own a private vector
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY)
+		return 0;
+
+	if (v->header.is_outside_vector)
+		return cv_get_outside_vector(v)->n_items;
+
+	return pointless_dynarray_n_items(&cv_get_priv_vector(v)->vector);
+}
+
 static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
 {
 	pointless_create_value_t _a = pointless_create_value_from_complete(a);
 	pointless_create_value_t _b = pointless_create_value_from_complete(b);
 
-	uint32_t n_items_a = a->header.is_outside_vector ? cv_get_outside_vector(&_a)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_a)->vector);
-	uint32_t n_items_b = b->header.is_outside_vector ? cv_get_outside_vector(&_b)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_b)->vector);
+	uint32_t n_items_a = pointless_cmp_create_vector_n_items(c, &_a);
+	uint32_t n_items_b = pointless_cmp_create_vector_n_items(c, &_b);
 	uint32_t i, n_items = (n_items_a < n_items_b ? n_items_a : n_items_b);
 	int32_t cc;
 
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 6ae3caf..85e4cd0 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -282,7 +282,11 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 	void* items;
 	pointless_create_value_t* vv;
 
-	if (v->header.is_outside_vector) {
+	// empty vectors do not own a private vector
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY) {
+		items = 0;
+		n_items = 0;
+	} else if (v->header.is_outside_vector) {
 		items = cv_get_outside_vector(v)->items;
 		n_items = cv_get_outside_vector(v)->n_items;
 	} else {
-- 
2.43.0


From 762aa7623150269857bdbfbdeafa4a6e5c2243eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 14/86] fix: pyobject_hash() of 64-bit PrimVectors differed
 from the hash of the equal stored vector

---
 src/pointless_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 85e4cd0..b225915 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -84,12 +84,12 @@ uint32_t pointless_hash_i64_32(int64_t v)
 	} h;
 
 	h.i = v;
-	return (uint32_t)(h.u % UINT32_MAX);
+	return (uint32_t)h.u;
 }
 
 uint32_t pointless_hash_u64_32(uint64_t v)
 {
-	return (uint32_t)(v % UINT32_MAX);
+	return (uint32_t)v;
 }
 
 uint32_t pointless_hash_bool_true_32()
-- 
2.43.0


From 7bd6f94b52137b28f12f65ae74598062269fa443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 15/86] fix: comparing int subclasses called back into Python
 while holding borrowed references

---
 python/pointless_pyobject_cmp.c | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 37ae63f..476c364 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -79,30 +79,11 @@ static void pypointless_cmp_value_init_python(pypointless_cmp_value_t* v, PyObje
 
 static int32_t pypointless_is_pylong_negative(PyObject* py_object, pypointless_cmp_state_t* state)
 {
-	PyObject* i = PyLong_FromLong(0);
+	// we must not run arbitrary code here, since we hold borrowed references to list items
+	int overflow = 0;
+	PY_LONG_LONG v = PyLong_AsLongLongAndOverflow(py_object, &overflow);
 
-	int32_t retval = 0;
-
-	if (i == 0) {
-		PyErr_Clear();
-		state->error = "out of memory";
-		return retval;
-	}
-
-	int c = PyObject_RichCompareBool(py_object, i, Py_LT);
-
-	if (c == -1) {
-		PyErr_Clear();
-		state->error = "integer rich-compare error";
-		return retval;
-	}
-
-	if (c == 1)
-		retval = 1;
-
-	Py_DECREF(i);
-
-	return retval;
+	return (overflow < 0 || v < 0);
 }
 
 // most basic cmp function
-- 
2.43.0


From 47d23e1e220438a1caca0c7fc3147b0e1f0169af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 16/86] fix: items of 64-bit vectors could not be compared to
 Python integers

---
 python/pointless_pyobject_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 476c364..697cb26 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -107,6 +107,8 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 		switch (*type) {
 			case POINTLESS_I32:
 			case POINTLESS_U32:
+			case POINTLESS_I64:
+			case POINTLESS_U64:
 			case POINTLESS_FLOAT:
 			case POINTLESS_BOOLEAN:
 				return pypointless_cmp_int_float_bool;
-- 
2.43.0


From c23f5e610bd90e99b6f0292a1553e5446bfe6d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 17/86] fix: comparing vectors carried on after an error,
 taking exponential time for cyclic vectors

---
 python/pointless_pyobject_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 697cb26..10d7191 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -465,7 +465,7 @@ static int32_t pypointless_cmp_vector(pypointless_cmp_value_t* a, pypointless_cm
 		v_b = pypointless_cmp_vector_item_at(b, i);
 		c = pypointless_cmp_rec(&v_a, &v_b, state);
 
-		if (c != 0)
+		if (c != 0 || state->error != 0)
 			return c;
 	}
 
-- 
2.43.0


From f92af4d93ac151c3bca3b93dfb1da7f45e01a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 18/86] fix: looking up a key raised ValueError when another
 key with the same hash had a different type

---
 python/pointless_pyobject_cmp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 10d7191..9fbe15a 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -21,6 +21,7 @@ typedef struct {
 	pointless_t* pointless;
 	const char* error;
 	uint32_t depth;
+	int32_t is_eq; // equality only, values of different types are not equal
 } pypointless_cmp_state_t;
 
 // number values
@@ -544,7 +545,10 @@ static int32_t pypointless_cmp_rec(pypointless_cmp_value_t* a, pypointless_cmp_v
 	// we're going one deep
 	state->depth += 1;
 
-	if (cmp_a == 0 || cmp_b == 0 || cmp_a != cmp_b) {
+	if (state->is_eq && state->error == 0 && cmp_a != cmp_b) {
+		// the types can not be ordered, but they are certainly not equal
+		c = 1;
+	} else if (cmp_a == 0 || cmp_b == 0 || cmp_a != cmp_b) {
 		state->error = "comparison not supported between these types";
 		state->depth -= 1;
 		return 0;
@@ -570,6 +574,7 @@ uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObj
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 1;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -606,6 +611,7 @@ PyObject* pointless_cmp(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -642,6 +648,7 @@ PyObject* pointless_is_eq(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
-- 
2.43.0


From 480e230e480280a106d8283649b3ec63a5801a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 19/86] fix: Python strings were compared only up to their
 first null character

---
 python/pointless_pyobject_cmp.c | 48 ++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 9fbe15a..a488013 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -206,9 +206,20 @@ typedef struct {
 		uint16_t* string_16;
 		uint8_t* string_8;
 	} string;
+	size_t n_chars;
 	uint8_t n_bits;
 } _var_string_t;
 
+static uint32_t _var_string_char_at(_var_string_t* s, size_t i)
+{
+	switch (s->n_bits) {
+		case 8:  return (uint32_t)s->string.string_8[i];
+		case 16: return (uint32_t)s->string.string_16[i];
+	}
+
+	return s->string.string_32[i];
+}
+
 static _var_string_t pypointless_cmp_extract_string(pypointless_cmp_value_t* v, pypointless_cmp_state_t* state)
 {
 	_var_string_t s;
@@ -219,13 +230,17 @@ static _var_string_t pypointless_cmp_extract_string(pypointless_cmp_value_t* v,
 		if (v_.type == POINTLESS_UNICODE_) {
 			s.n_bits = 32;
 			s.string.string_32 = pointless_reader_unicode_value_ucs4(v->value.pointless.p, &v_);
+			s.n_chars = pointless_ucs4_len(s.string.string_32);
 		} else {
 			s.n_bits = 8;
 			s.string.string_8 = pointless_reader_string_value_ascii(v->value.pointless.p, &v_);
+			s.n_chars = strlen((const char*)s.string.string_8);
 		}
 	} else {
 		assert(PyUnicode_Check(v->value.py_object));
 
+		s.n_chars = (size_t)PyUnicode_GET_LENGTH(v->value.py_object);
+
 		switch (PyUnicode_KIND(v->value.py_object)) {
 			case PyUnicode_1BYTE_KIND:
 				s.n_bits = 8;
@@ -264,27 +279,18 @@ static int32_t pypointless_cmp_string_unicode(pypointless_cmp_value_t* a, pypoin
 	assert(s_a.n_bits == 8 || s_a.n_bits == 16 || s_a.n_bits == 32);
 	assert(s_b.n_bits == 8 || s_b.n_bits == 16 || s_b.n_bits == 32);
 
-	if (s_a.n_bits == 8 && s_b.n_bits == 8)
-		return pointless_cmp_string_8_8(s_a.string.string_8, s_b.string.string_8);
-	if (s_a.n_bits == 8 && s_b.n_bits == 16)
-		return pointless_cmp_string_8_16(s_a.string.string_8, s_b.string.string_16);
-	if (s_a.n_bits == 8 && s_b.n_bits == 32)
-		return pointless_cmp_string_8_32(s_a.string.string_8, s_b.string.string_32);
-	if (s_a.n_bits == 16 && s_b.n_bits == 8)
-		return pointless_cmp_string_16_8(s_a.string.string_16, s_b.string.string_8);
-	if (s_a.n_bits == 16 && s_b.n_bits == 16)
-		return pointless_cmp_string_16_16(s_a.string.string_16, s_b.string.string_16);
-	if (s_a.n_bits == 16 && s_b.n_bits == 32)
-		return pointless_cmp_string_16_32(s_a.string.string_16, s_b.string.string_32);
-	if (s_a.n_bits == 32 && s_b.n_bits == 8)
-		return pointless_cmp_string_32_8(s_a.string.string_32, s_b.string.string_8);
-	if (s_a.n_bits == 32 && s_b.n_bits == 16)
-		return pointless_cmp_string_32_16(s_a.string.string_32, s_b.string.string_16);
-	if (s_a.n_bits == 32 && s_b.n_bits == 32)
-		return pointless_cmp_string_32_32(s_a.string.string_32, s_b.string.string_32);
-
-	assert(0);
-	return 0;
+	// Python strings can contain nulls, so we can't rely on null-termination
+	size_t i, n_chars = (s_a.n_chars < s_b.n_chars) ? s_a.n_chars : s_b.n_chars;
+
+	for (i = 0; i < n_chars; i++) {
+		uint32_t c_a = _var_string_char_at(&s_a, i);
+		uint32_t c_b = _var_string_char_at(&s_b, i);
+
+		if (c_a != c_b)
+			return SIMPLE_CMP(c_a, c_b);
+	}
+
+	return SIMPLE_CMP(s_a.n_chars, s_b.n_chars);
 }
 
 static pypointless_cmp_int_float_bool_t pypointless_cmp_int_float_bool_from_value(pypointless_cmp_value_t* v, pypointless_cmp_state_t* state)
-- 
2.43.0


From 07679a6855e39eae853dd7d00d1bf404a9e0429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 20/86] fix: hashing a vector which contains a set, a map or a
 deep chain of vectors crashed

---
 include/pointless/pointless_defs.h  |  5 +++
 python/pointless_pyobject_hash.c    |  2 +-
 src/pointless_create.c              |  2 +-
 src/pointless_hash.c                | 63 +++++++++++++++++++++++++++++
 src/pointless_reader.c              |  4 +-
 src/pointless_validate_hash_table.c |  2 +-
 6 files changed, 73 insertions(+), 5 deletions(-)

diff --git a/include/pointless/pointless_defs.h b/include/pointless/pointless_defs.h
index 8168f68..a7afcf4 100644
--- a/include/pointless/pointless_defs.h
+++ b/include/pointless/pointless_defs.h
@@ -380,6 +380,11 @@ uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* state);
 
 uint32_t pointless_is_hashable(uint32_t type);
 
+// same as above, but also takes into account what a vector contains
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v);
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n);
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v);
+
 uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s);
 uint32_t pointless_hash_unicode_ucs2_v1_32(uint16_t* s);
 uint32_t pointless_hash_string_v1_32(uint8_t* s);
diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index e5083d4..4fc95be 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -198,7 +198,7 @@ static uint32_t pyobject_hash_rec_32(PyObject* py_object, pyobject_hash_state_t*
 		p = &((PyPointlessVector*)py_object)->pp->p;
 		v = ((PyPointlessVector*)py_object)->v;
 
-		if (!pointless_is_hashable(v.type)) {
+		if (!pointless_is_hashable_reader_vector(p, &v, ((PyPointlessVector*)py_object)->slice_i, ((PyPointlessVector*)py_object)->slice_n)) {
 			*state->error = "pointless type is not hashable";
 			return 0;
 		}
diff --git a/src/pointless_create.c b/src/pointless_create.c
index a0af3eb..9fd61d2 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -114,7 +114,7 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 
 	// compute all the key hashes
 	for (i = 0; i < n_keys; i++) {
-		if (!pointless_is_hashable(cv_value_type(keys_vector_ptr[i]))) {
+		if (!pointless_is_hashable_create(c, cv_value_at(keys_vector_ptr[i]))) {
 			*error = "pointless_hash_table_create(): internal error: key not hashable";
 			goto cleanup;
 		}
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index b225915..32a5c1d 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -473,6 +473,69 @@ uint32_t pointless_is_hashable(uint32_t type)
 	return (pointless_hash_reader_func_32(type) != 0);
 }
 
+// vectors marked as hashable are only known to be acyclic: they might contain unhashable values,
+// and, by sharing, be nested deeper than we're willing to recurse
+static uint32_t pointless_is_hashable_reader_rec(pointless_t* p, pointless_value_t* v, uint32_t depth);
+
+static uint32_t pointless_is_hashable_reader_vector_priv(pointless_t* p, pointless_value_t* v, uint32_t offset, uint32_t n_items, uint32_t depth)
+{
+	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		pointless_value_t* items = pointless_reader_vector_value(p, v);
+		uint32_t i;
+
+		for (i = offset; i < n_items + offset; i++) {
+			if (!pointless_is_hashable_reader_rec(p, &items[i], depth + 1))
+				return 0;
+		}
+	}
+
+	return 1;
+}
+
+static uint32_t pointless_is_hashable_reader_rec(pointless_t* p, pointless_value_t* v, uint32_t depth)
+{
+	if (depth >= POINTLESS_MAX_DEPTH || !pointless_is_hashable(v->type))
+		return 0;
+
+	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE)
+		return pointless_is_hashable_reader_vector_priv(p, v, 0, pointless_reader_vector_n_items(p, v), depth);
+
+	return 1;
+}
+
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
+{
+	return pointless_is_hashable_reader_rec(p, v, 0);
+}
+
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
+{
+	return pointless_is_hashable(v->type) && pointless_is_hashable_reader_vector_priv(p, v, i, n, 0);
+}
+
+static uint32_t pointless_is_hashable_create_rec(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
+{
+	if (depth >= POINTLESS_MAX_DEPTH || !pointless_is_hashable(v->header.type_29))
+		return 0;
+
+	if (v->header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		pointless_dynarray_t* items = &cv_get_priv_vector(v)->vector;
+		size_t i, n_items = pointless_dynarray_n_items(items);
+
+		for (i = 0; i < n_items; i++) {
+			if (!pointless_is_hashable_create_rec(c, cv_value_at(pointless_dynarray_ITEM_AT(uint32_t, items, i)), depth + 1))
+				return 0;
+		}
+	}
+
+	return 1;
+}
+
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v)
+{
+	return pointless_is_hashable_create_rec(c, v, 0);
+}
+
 uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
 {
 	assert(pointless_is_hashable(v->type));
diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 1c0bec6..3960fe0 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -419,7 +419,7 @@ uint32_t pointless_reader_set_iter(pointless_t* p, pointless_value_t* s, pointle
 void pointless_reader_set_lookup(pointless_t* p, pointless_value_t* s, pointless_value_t* k, pointless_value_t** kk, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
@@ -607,7 +607,7 @@ uint32_t pointless_reader_set_iter_hash(pointless_t* p, pointless_value_t* s, ui
 void pointless_reader_map_lookup(pointless_t* p, pointless_value_t* m, pointless_value_t* k, pointless_value_t** kk, pointless_value_t** vv, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
diff --git a/src/pointless_validate_hash_table.c b/src/pointless_validate_hash_table.c
index 9b3c5b6..286ff81 100644
--- a/src/pointless_validate_hash_table.c
+++ b/src/pointless_validate_hash_table.c
@@ -36,7 +36,7 @@ int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t
 	// make sure hashes match the given object
 	for (i = 0; i < n_buckets; i++) {
 		// make sure it is hashable
-		if (!pointless_is_hashable(key_vector[i].type)) {
+		if (!pointless_is_hashable_reader(p, &key_vector[i])) {
 			*error = "key in set/map is not hashable";
 			return 0;
 		}
-- 
2.43.0


From e0156d3a3edcd8528927a9cc4d4a990fa76834f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 21/86] fix: re-serializing a deep chain of vectors overflowed
 the stack

---
 src/pointless_recreate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index 977d0b9..920a449 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -53,6 +53,11 @@ if (handle == POINTLESS_CREATE_VALUE_FAIL) {\
 
 static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state, pointless_value_t* v, uint32_t depth)
 {
+	if (depth >= POINTLESS_MAX_DEPTH) {
+		*state->error = "maximum recursion depth reached";
+		return POINTLESS_CREATE_VALUE_FAIL;
+	}
+
 	// in case of cycles, return the previously created create-time handle
 	uint32_t handle = UINT32_MAX, child_handle = UINT32_MAX, key_handle = UINT32_MAX, value_handle = UINT32_MAX;
 
-- 
2.43.0


From c53e85fea9b8138717d01fe53d82a1b5f3ff80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 22/86] fix: serializing a slice of a value vector did not
 preserve sharing between its items

---
 include/pointless/pointless_recreate.h |  1 +
 python/pointless_create.c              | 24 ++-----
 src/pointless_recreate.c               | 93 +++++++++++++++++++-------
 3 files changed, 77 insertions(+), 41 deletions(-)

diff --git a/include/pointless/pointless_recreate.h b/include/pointless/pointless_recreate.h
index 53a3c59..9a6e0d8 100644
--- a/include/pointless/pointless_recreate.h
+++ b/include/pointless/pointless_recreate.h
@@ -6,6 +6,7 @@
 #include <pointless/pointless_reader.h>
 #include <pointless/pointless_create.h>
 
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error);
 uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error);
 
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error);
diff --git a/python/pointless_create.c b/python/pointless_create.c
index 9f9ee0b..937cbcc 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -149,25 +149,13 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
 				// a slice only has some of the items of the underlying vector
 				if (v->slice_i != 0 || v->slice_n != pointless_reader_vector_n_items(&v->pp->p, &v->v)) {
-					handle = pointless_create_vector_value(&state->c);
-					RETURN_OOM_IF_FAIL(handle, state);
+					handle = pointless_recreate_vector_slice(&v->pp->p, &v->v, v->slice_i, v->slice_n, &state->c, &error);
 
-					uint32_t i;
-
-					for (i = 0; i < v->slice_n; i++) {
-						pointless_value_t* item = pointless_reader_vector_value(&v->pp->p, &v->v) + v->slice_i + i;
-						uint32_t item_handle = pointless_recreate_value(&v->pp->p, item, &state->c, &error);
-
-						if (item_handle == POINTLESS_CREATE_VALUE_FAIL) {
-							state->is_error = 1;
-							state->error_line = __LINE__;
-							PyErr_Format(PyExc_ValueError, "pointless_recreate_value(): %s", error);
-							return POINTLESS_CREATE_VALUE_FAIL;
-						}
-
-						if (pointless_create_vector_value_append(&state->c, handle, item_handle) == POINTLESS_CREATE_VALUE_FAIL) {
-							RETURN_OOM(state);
-						}
+					if (handle == POINTLESS_CREATE_VALUE_FAIL) {
+						state->is_error = 1;
+						state->error_line = __LINE__;
+						PyErr_Format(PyExc_ValueError, "pointless_recreate_vector_slice(): %s", error);
+						return POINTLESS_CREATE_VALUE_FAIL;
 					}
 
 					break;
diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index 920a449..4e3a746 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -294,42 +294,89 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 	return POINTLESS_CREATE_VALUE_FAIL;
 }
 
+static int pointless_recreate_state_init(pointless_recreate_state_t* state, pointless_t* p_in, pointless_create_t* c_out, const char** error)
+{
+	state->p = p_in;
+	state->c = c_out;
+
+	state->error = error;
+
+	state->string_unicode_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_string_unicode, UINT32_MAX);
+	state->vector_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_vector, UINT32_MAX);
+	state->bitvector_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_bitvector, UINT32_MAX);
+	state->set_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_set, UINT32_MAX);
+	state->map_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_map, UINT32_MAX);
+	state->normalize_bitvector = 1;
+
+	if (state->string_unicode_r_c_mapping == 0 || state->vector_r_c_mapping == 0 || state->bitvector_r_c_mapping == 0) {
+		*error = "out of memory";
+		return 0;
+	}
+
+	if (state->set_r_c_mapping == 0 || state->map_r_c_mapping == 0) {
+		*error = "out of memory";
+		return 0;
+	}
+
+	return 1;
+}
+
+static void pointless_recreate_state_destroy(pointless_recreate_state_t* state)
+{
+	pointless_free(state->string_unicode_r_c_mapping);
+	pointless_free(state->vector_r_c_mapping);
+	pointless_free(state->bitvector_r_c_mapping);
+	pointless_free(state->set_r_c_mapping);
+	pointless_free(state->map_r_c_mapping);
+}
+
 uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
 {
 	pointless_recreate_state_t state;
 	uint32_t handle = POINTLESS_CREATE_VALUE_FAIL;
 
-	state.p = p_in;
-	state.c = c_out;
+	if (pointless_recreate_state_init(&state, p_in, c_out, error))
+		handle = pointless_recreate_convert_rec(&state, v_in, 0);
 
-	state.error = error;
+	pointless_recreate_state_destroy(&state);
 
-	state.string_unicode_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_string_unicode, UINT32_MAX);
-	state.vector_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_vector, UINT32_MAX);
-	state.bitvector_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_bitvector, UINT32_MAX);
-	state.set_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_set, UINT32_MAX);
-	state.map_r_c_mapping = pointless_malloc_uint32_init(p_in->header->n_map, UINT32_MAX);
-	state.normalize_bitvector = 1;
+	return handle;
+}
 
-	if (state.string_unicode_r_c_mapping == 0 || state.vector_r_c_mapping == 0 || state.bitvector_r_c_mapping == 0) {
-		*error = "out of memory";
-		goto error;
-	}
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
+{
+	pointless_recreate_state_t state;
+	uint32_t handle = POINTLESS_CREATE_VALUE_FAIL, child_handle, i;
+	pointless_value_t* items = pointless_reader_vector_value(p_in, v_in);
 
-	if (state.set_r_c_mapping == 0 || state.map_r_c_mapping == 0) {
-		*error = "out of memory";
-		goto error;
+	if (!pointless_recreate_state_init(&state, p_in, c_out, error))
+		goto cleanup;
+
+	handle = pointless_create_vector_value(c_out);
+
+	if (handle == POINTLESS_CREATE_VALUE_FAIL) {
+		*error = "pointless_create_vector_value() failure";
+		goto cleanup;
 	}
 
-	handle = pointless_recreate_convert_rec(&state, v_in, 0);
+	for (i = slice_i; i < slice_i + slice_n; i++) {
+		child_handle = pointless_recreate_convert_rec(&state, &items[i], 1);
+
+		if (child_handle == POINTLESS_CREATE_VALUE_FAIL) {
+			handle = POINTLESS_CREATE_VALUE_FAIL;
+			goto cleanup;
+		}
+
+		if (pointless_create_vector_value_append(c_out, handle, child_handle) == POINTLESS_CREATE_VALUE_FAIL) {
+			*error = "pointless_create_vector_value_append() failure";
+			handle = POINTLESS_CREATE_VALUE_FAIL;
+			goto cleanup;
+		}
+	}
 
-error:
+cleanup:
 
-	pointless_free(state.string_unicode_r_c_mapping);
-	pointless_free(state.vector_r_c_mapping);
-	pointless_free(state.bitvector_r_c_mapping);
-	pointless_free(state.set_r_c_mapping);
-	pointless_free(state.map_r_c_mapping);
+	pointless_recreate_state_destroy(&state);
 
 	return handle;
 }
-- 
2.43.0


From c5f9faf0846480fa89b40a78cae2ddb7209de0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 23/86] fix: sets/maps with NaN, or too deeply nested, keys
 were written but could not be opened

---
 src/pointless_hash_table.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index ddad488..89df35c 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -148,6 +148,17 @@ int pointless_hash_table_populate(pointless_create_t* c, uint32_t* hash_vector,
 		perturb = value_hash;
 		i = value_hash;
 
+		// keys which are not equal to themselves (NaN), or too deep to be compared, can never be found again
+		cmp = pointless_cmp_create(c, keys_vector[j], keys_vector[j], error);
+
+		if (*error)
+			return 0;
+
+		if (cmp != 0) {
+			*error = "there is a key in the set/map which is not equal to itself";
+			return 0;
+		}
+
 		// find an empty slot
 		while (1) {
 			bucket = i & mask;
-- 
2.43.0


From dbe617f55b7637bc3330b1ee8c133376662745f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 24/86] fix: comparing two bitvectors of different storage
 types read the second one using the type of the first

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index ad263cb..607ce02 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -163,7 +163,7 @@ int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data
 
 	for (i = 0; i < n_bits; i++) {
 		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
-		bb = pointless_bitvector_is_set(t_a, v_b, buffer_b, i);
+		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
 
 		if (ba != bb)
 			return SIMPLE_CMP(ba, bb);
-- 
2.43.0


From 376482847dd81e703a3450b681ef4a3a803ca90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 25/86] fix: files of the unsupported 32-bit offset version
 were opened as if they had 64-bit offsets

---
 src/pointless_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 3960fe0..0f2c21d 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -17,7 +17,7 @@ static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_val
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "32-bit offset files no longer supported";
-			break;
+			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
-- 
2.43.0


From 8c0a069a717313c6ab25773cba625bbce9ab3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 26/86] fix: munmap() was called on a failed mapping

---
 src/pointless_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 0f2c21d..be9e727 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -114,6 +114,7 @@ static int _pointless_open_f(pointless_t* p, const char* fname, int do_validate,
 	p->fd_ptr = mmap(0, p->fd_len, PROT_READ, MAP_SHARED, fileno(p->fd), 0);
 
 	if (p->fd_ptr == MAP_FAILED) {
+		p->fd_ptr = 0;
 		*error = "mmap error";
 		pointless_close(p);
 		return 0;
-- 
2.43.0


From 95b413b5c9ee46ec389247b4fae7cfe8568e1253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 27/86] fix: opening a file with a huge set/map item count
 never terminated

---
 src/pointless_hash_table.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index 89df35c..5f2283e 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -1,13 +1,17 @@
 #include <pointless/pointless_hash_table.h>
 
-static uint32_t next_power_of_2(uint32_t n)
+static uint32_t next_power_of_2(uint64_t n)
 {
-	uint32_t p = 1;
+	uint64_t p = 1;
 
 	while (p < n)
 		p <<= 1;
 
-	return p;
+	// no legal hash table is this large
+	if (p > UINT32_MAX)
+		return 0;
+
+	return (uint32_t)p;
 }
 
 uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
@@ -17,7 +21,7 @@ uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
 	if (n_items == 1)
 		return 2;
 
-	return next_power_of_2(n_items + n_items / 2);
+	return next_power_of_2((uint64_t)n_items + n_items / 2);
 }
 
 static uint32_t pointless_hash_table_probe_priv(pointless_t* p, uint32_t value_hash, pointless_value_t* value, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_eq_cb cb, void* user, const char** error)
-- 
2.43.0


From c2f38e8251265cf473add13f29cd57da21db4900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 28/86] fix: offsets following a vector of 4 GiB or more were
 wrong

---
 src/pointless_create.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 9fd61d2..99201a7 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -934,8 +934,8 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		if (cv_value_type(i) == POINTLESS_VECTOR_EMPTY)
 			continue;
 
-		uint32_t vector_heap_size = 0;
-		uint32_t n_items = pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector);
+		uint64_t vector_heap_size = 0;
+		uint64_t n_items = pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector);
 
 		switch (cv_value_type(i)) {
 			case POINTLESS_VECTOR_VALUE:
@@ -995,8 +995,8 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		if (cv_value_type(i) == POINTLESS_VECTOR_EMPTY)
 			continue;
 
-		uint32_t vector_heap_size = 0;
-		uint32_t n_items = cv_outside_vector_at(i)->n_items;
+		uint64_t vector_heap_size = 0;
+		uint64_t n_items = cv_outside_vector_at(i)->n_items;
 
 		switch (cv_value_type(i)) {
 			case POINTLESS_VECTOR_I8:
-- 
2.43.0


From 7e898bf43043b69117a2025d495d87f8f2cf008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 29/86] fix: the create state was not released when the
 requested version is not supported

---
 src/pointless_create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 99201a7..c72c43b 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -690,11 +690,13 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		case POINTLESS_FF_VERSION_OFFSET_32_OLDHASH:
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "unsupported version";
+			pointless_create_end(c);
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
 			*error = "unsupported version";
+			pointless_create_end(c);
 			return 0;
 	}
 
-- 
2.43.0


From 69f9e73ce97e7ad153f3e40ed12396cd4e3856ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 30/86] fix: vectors in a cycle could be marked as hashable,
 since their pre-order numbers were not unique

---
 src/pointless_cycle_marker.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 1823c1a..ca41d69 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -54,10 +54,13 @@ typedef struct {
 	Pvoid_t component_judy;
 	Pvoid_t root_judy;
 
+	// pre-order number of the next container, these must be unique
+	Word_t count;
+
 	pointless_dynarray_t stack;
 } pointless_cycle_marker_state_t;
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth);
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth);
 
 //static void print_depth(uint32_t depth)
 //{
@@ -66,7 +69,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 //		printf("   ");
 //}
 
-static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, Word_t count, uint32_t depth)
+static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, uint32_t depth)
 {
 	if (!(*state->cb_info->fn_is_container)(state->cb_info->user, w))
 		return;
@@ -80,7 +83,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 	if (PValue == 0) {
 		//print_depth(depth); printf(" w is not in visited, so visit(w = %u, count = %llu)\n", (unsigned int)w_id, (unsigned long long)count);
 
-		pointless_cycle_marker_visit(state, w, count, depth + 1);
+		pointless_cycle_marker_visit(state, w, depth + 1);
 
 		if (state->error)
 			return;
@@ -137,7 +140,7 @@ static void _unpack_map_and_vector(uint64_t v, uint32_t* owner, uint32_t* value)
 //	return buffer;
 //}
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth)
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth)
 {
 	assert((*state->cb_info->fn_is_container)(state->cb_info->user, v));
 
@@ -146,6 +149,8 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		return;
 	}
 
+	Word_t count = state->count++;
+
 	if (count >= (Word_t)((*state->cb_info->fn_n_nodes)(state->cb_info->user))) {
 		//printf("B depth %u, count %u\n", depth, (unsigned int)count);
 		state->error = "internal error: pre-order count exceeds number of containers";
@@ -212,7 +217,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			}
 		}
 
-		process_child(state, v_id, child, count + 1, depth + 1);
+		process_child(state, v_id, child, depth + 1);
 
 		if (state->error)
 			return;
@@ -292,6 +297,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	state.visited_judy = 0;
 	state.component_judy = 0;
 	state.root_judy = 0;
+	state.count = 0;
 	pointless_dynarray_init(&state.stack, sizeof(uint32_t));
 
 	if (state.cycle_marker == 0) {
@@ -302,7 +308,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	root = (*info->fn_get_root)(state.cb_info->user);
 
 	if ((*info->fn_is_container)(state.cb_info->user, root))
-		pointless_cycle_marker_visit(&state, root, 0, 0);
+		pointless_cycle_marker_visit(&state, root, 0);
 
 	if (state.error)
 		goto error_cleanup;
-- 
2.43.0


From 4c9e3460ec1abf4f4d2d3cb766c4e0c74498f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 31/86] fix: a vector in a cycle was accepted as hashable if it
 was first reached through an unhashable reference

---
 src/pointless_validate.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pointless_validate.c b/src/pointless_validate.c
index 5ad869b..73898ec 100644
--- a/src/pointless_validate.c
+++ b/src/pointless_validate.c
@@ -73,6 +73,18 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 	if (state->pass == 1 && !pointless_validate_heap_ref(state->context, v, &state->error))
 		return POINTLESS_WALK_STOP;
 
+	// pass-2, cycle validation, the same vector can be referred to as both a hashable and an unhashable one,
+	// so this must be tested for each reference
+	if (state->pass == 2 && v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		// only hashable vector can not be in a cycle
+		uint32_t container_id = pointless_container_id(p, v);
+
+		if (bm_is_set_(state->cycle_marker, container_id)) {
+			state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
+			return POINTLESS_WALK_STOP;
+		}
+	}
+
 	// if we have validate this container already, stop iterating downwards, otherwise, mark it as visited
 	switch (v->type) {
 		case POINTLESS_VECTOR_VALUE:
@@ -106,17 +118,6 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 
 		if (!pointless_validate_heap_value(state->context, v, &state->error))
 			return POINTLESS_WALK_STOP;
-	// pass-2, cycle validation
-	} else if (state->pass == 2) {
-		// only hashable vector can not be in a cycle
-		if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
-			uint32_t container_id = pointless_container_id(p, v);
-
-			if (bm_is_set_(state->cycle_marker, container_id)) {
-				state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
-				return POINTLESS_WALK_STOP;
-			}
-		}
 	// pass-3, hash test
 	} else if (state->pass == 3) {
 		if (v->type == POINTLESS_MAP_VALUE_VALUE && !pointless_validate_map_complicated(state, v))
-- 
2.43.0


From 8233b43af1585d91a23a2ce1234f56ab233f480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 32/86] fix: the first vector of each cycle was marked as
 hashable

---
 src/pointless_cycle_marker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index ca41d69..4105b85 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -264,6 +264,9 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			//printf("B marking %u\n", w_id);
 			bm_set_(state->cycle_marker, w_id);
 
+			// ...which means that v is also in the cycle
+			bm_set_(state->cycle_marker, v_id);
+
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
 
-- 
2.43.0


From d69cef7feb4167b3bcbabb2256bda53c3c7e41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 33/86] fix: intop_u32_mult() was declared but not defined

---
 src/pointless_int_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 90a77bd..2d1ffec 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -32,7 +32,7 @@ intop_u64_t intop_u64_mult(intop_u64_t a, intop_u64_t b)
 	return c;
 }
 
-intop_u32_t uintop_32_mult(intop_u32_t a, intop_u32_t b)
+intop_u32_t intop_u32_mult(intop_u32_t a, intop_u32_t b)
 {
 	intop_u32_t c;
 
-- 
2.43.0


From 9fe0f8a38423bc6308bf2b1f9ffec37d342fdf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 34/86] fix: the expression parser read tokens past the end of
 the expression

---
 src/pointless_int_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 2d1ffec..3d978f8 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -200,7 +200,7 @@ static int intop_check_error(intop_eval_context_t* c)
 
 static int intop_eval_check_bounds(intop_eval_context_t* c)
 {
-	return (c->i < INTOP_EVAL_MAX_N);
+	return (c->i < c->n);
 }
 
 static void intop_eval_push(intop_eval_context_t* c, intop_eval_token_t* token)
-- 
2.43.0


From f2fe690de0cd3cd95e0f016d2427b7389cdf6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 35/86] fix: subtraction and division of expressions were
 evaluated with swapped operands, and from right to left

---
 src/pointless_int_ops.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 3d978f8..d3647d2 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -234,9 +234,9 @@ static void intop_eval_Em(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_T(c);
-		intop_eval_Em(c);
-
 		intop_eval_push(c, &c->tokens[i]);
+
+		intop_eval_Em(c);
 	}
 }
 
@@ -260,9 +260,9 @@ static void intop_eval_Tm(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_F(c);
-		intop_eval_Tm(c);
-
 		intop_eval_push(c, &c->tokens[i]);
+
+		intop_eval_Tm(c);
 	}
 }
 
@@ -476,8 +476,8 @@ int intop_eval_eval(intop_eval_context_t* c, uint64_t* r, const char** error, ..
 				assert(c->e_n >= 2);
 				assert(c->eval[c->e_n - 1].type == INTOP_EVAL_NUMBER);
 				assert(c->eval[c->e_n - 2].type == INTOP_EVAL_NUMBER);
-				a = c->eval[c->e_n - 1].number;
-				b = c->eval[c->e_n - 2].number;
+				a = c->eval[c->e_n - 2].number;
+				b = c->eval[c->e_n - 1].number;
 				c->eval[c->e_n - 2].type = INTOP_EVAL_NUMBER;
 
 				if (c->stack[i].type == INTOP_EVAL_SUB) {
-- 
2.43.0


From 22b2fa0b90624d21e644d9234f3e818190aae1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 36/86] fix: signed integers were not accepted in eval
 expressions

---
 src/pointless_eval.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index d3406a5..c45a614 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -61,13 +61,12 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		// integer
 		case '-':
-			is_neg = 1;
-			break;
 		case '+':
+			is_neg = (*e == '-');
 			e += 1;
 			if (!('0' <= *e && *e  <= '9'))
 				return 0;
-			break;
+			// fall through
 		case '0':
 		case '1':
 		case '2':
-- 
2.43.0


From 66f621a5d5c1c51b7de63a4ed1e759cb710926c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 37/86] fix: evaluating an item of a 64-bit vector returned a
 value of an illegal type

---
 src/pointless_eval.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index c45a614..2a3cec8 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -162,6 +162,11 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		if (pointless_is_vector_type(root->type)) {
 			pointless_complete_value_t v = pointless_reader_vector_value_case(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i);
+
+			// values have no space for 64-bit integers
+			if (v.type == POINTLESS_I64 || v.type == POINTLESS_U64)
+				return 0;
+
 			*root = pointless_value_from_complete(&v);
 		} else {
 			if (pointless_reader_bitvector_is_set(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i))
-- 
2.43.0


From 728863e9fea324087dc2ca2a0c20291dd41372a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 38/86] fix: looking up unicode keys in maps only worked for
 the empty string

---
 src/pointless_reader_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index f70553b..38651a4 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -290,13 +290,13 @@ int pointless_get_mapping_string_n_to_value(pointless_t* p, pointless_value_t* m
 
 int pointless_get_mapping_unicode_to_value(pointless_t* p, pointless_value_t* map, uint32_t* key, pointless_value_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, get_value, 0, (void*)value);
 }
 
 int pointless_get_mapping_unicode_to_u32(pointless_t* p, pointless_value_t* map, uint32_t* key, uint32_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, check_and_get_u32, 0, (void*)value);
 }
 
-- 
2.43.0


From e3b4db69979e0f9c7263b20f9ac0323dab8df4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 39/86] fix: the hash of an empty, not null-terminated, string
 depended on what followed it

---
 src/pointless_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 32a5c1d..9f38ce9 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -6,7 +6,7 @@
 #include <pointless/pointless_bitvector.h>
 
 #define PYTHON_STRING_HASH_32(s, T)     { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (*p)        {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
-#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
+#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (n) ? ((uint32_t)(*p) << 7) : 0; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
 
 uint32_t pointless_hash_string_v1_32(uint8_t* s)
 {
-- 
2.43.0


From 00de26454f5f277cc0a3a0e967d24b5e82287ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 40/86] fix: bentley_sort_() reported success when a comparison
 failed

---
 src/custom_sort.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index da54f81..ac41153 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -40,6 +40,9 @@ loop:
 
 				(*swap)(pl, pl - 1, user);
 			}
+
+			if (is_error)
+				return 0;
 		}
 
 		return 1;
@@ -57,6 +60,9 @@ loop:
 		}
 	}
 
+	if (is_error)
+		return 0;
+
 	if (presorted)
 		return 1;
 
@@ -112,6 +118,9 @@ loop:
 			pc -= 1;
 		}
 
+		if (is_error)
+			return 0;
+
 		if (pb > pc)
 			break;
 
-- 
2.43.0


From 931d72dd3d935af185962665438ad5e49f12c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 41/86] fix: assigning to a negative index of a PrimVector read
 past the end of the object

---
 python/pointless_prim_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0d5ccfc..9014386 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -613,7 +613,7 @@ static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyOb
 			return -1;
 
 		if (i < 0)
-			i += PyList_GET_SIZE(self);
+			i += PyPointlessPrimVector_length(self);
 
 		return PyPointlessPrimVector_ass_item(self, i, value);
 	} else {
-- 
2.43.0


From b70a05c7c80f2b7786c7ae7941d8cfa099d6e405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 42/86] fix: deleting an item of a PrimVector crashed

---
 python/pointless_prim_vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 9014386..de6bc55 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -595,6 +595,11 @@ static int PyPointlessPrimVector_ass_item(PyPointlessPrimVector* self, Py_ssize_
 		return -1;
 	}
 
+	if (v == 0) {
+		PyErr_SetString(PyExc_TypeError, "PrimVector items can not be deleted");
+		return -1;
+	}
+
 	pypointless_number_t number;
 
 	if (!pypointless_parse_number(v, &number, self->type))
-- 
2.43.0


From 169cc6660ca8db0b90b4d754db44913c01babfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 43/86] fix: appending a PrimVector to itself never ended, and
 read freed memory

---
 python/pointless_prim_vector.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index de6bc55..b28752c 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -769,9 +769,14 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		PyPointlessPrimVector* p_obj = (PyPointlessPrimVector*)obj;
 
 		if (p_obj->type == self->type) {
-			for (i = 0; i < pointless_dynarray_n_items(&p_obj->array); i++) {
-				void* v = pointless_dynarray_item_at(&p_obj->array, i);
-				if (!pointless_dynarray_push(&self->array, v)) {
+			// NOTE: p_obj might be self, so take a copy of each item, and don't iterate over the appended ones
+			size_t n_items = pointless_dynarray_n_items(&p_obj->array);
+
+			for (i = 0; i < n_items; i++) {
+				pypointless_number_t v;
+				memcpy(&v, pointless_dynarray_item_at(&p_obj->array, i), p_obj->array.item_size);
+
+				if (!pointless_dynarray_push(&self->array, &v)) {
 					for (j = 0; j < n_append; j++)
 						pointless_dynarray_pop(&self->array);
 
-- 
2.43.0


From 08de79de48d8d3a574e4bfca291b9df6a1461465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 44/86] fix: an item which could not be added to a PrimVector
 was leaked

---
 python/pointless_prim_vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index b28752c..031af7a 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -384,6 +384,7 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 				item = 0;
 			}
 
+			Py_XDECREF(item);
 			Py_DECREF(iterator);
 			iterator = 0;
 
@@ -880,6 +881,7 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		item = 0;
 	}
 
+	Py_XDECREF(item);
 	Py_DECREF(iterator);
 	iterator = 0;
 
-- 
2.43.0


From 3d634a8d8bc712e3dd22b5f102849bfe9da0c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 45/86] fix: pop_bulk() resized a PrimVector with exported
 buffers

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 031af7a..81e3c22 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -924,6 +924,9 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 	if (!PyArg_ParseTuple(args, "L", &n))
 		return 0;
 
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	if (n > 0 && (size_t)n > pointless_dynarray_n_items(&self->array)) {
 		PyErr_SetString(PyExc_ValueError, "vector is not big enough");
 		return 0;
-- 
2.43.0


From bf1816556d3138e1fd308dc28f81238630adf7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 46/86] fix: min(), max() and range() of a PrimVector returned
 its first item

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 81e3c22..5a32b20 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1930,6 +1930,9 @@ static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* mi
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 4c37ddd92950a77e04afbb9f13bc6887a908b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 47/86] fix: a failed append_bulk() of a PrimVector could
 remove more items than there were

---
 python/pointless_prim_vector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 5a32b20..8fb505a 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -872,6 +872,8 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 	if (iterator == 0)
 		return 0;
 
+	size_t n_items_before = pointless_dynarray_n_items(&self->array);
+
 	while ((item = PyIter_Next(iterator)) != 0) {
 		if (!PyPointlessPrimVector_append_item(self, item))
 			break;
@@ -886,7 +888,8 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 	iterator = 0;
 
 	if (PyErr_Occurred()) {
-		for (i = 0; i < n_append; i++)
+		// NOTE: the iterator might have removed some of the appended items
+		for (i = 0; i < n_append && pointless_dynarray_n_items(&self->array) > n_items_before; i++)
 			pointless_dynarray_pop(&self->array);
 
 		return 0;
-- 
2.43.0


From f2a85bb1dec9a46493131cd3654526cca5bc9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 48/86] fix: sort_proj() did not check the upper bound of
 signed projections

---
 python/pointless_prim_vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 8fb505a..bba29a0 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1605,6 +1605,10 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 				case POINTLESS_PRIM_VECTOR_TYPE_U64: v_b = ((uint64_t*)state.p_b)[i]; break;
 			}
 
+			// the upper limit applies to positive values of signed projections as well
+			if (v_a > 0)
+				v_b = (uint64_t)v_a;
+
 			if (i == 0 || v_a < p_min)
 				p_min = v_a;
 
-- 
2.43.0


From 2fac818df49e88964b6c7c52c9370907cbb6bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 49/86] fix: FromRemap() leaked its output when the index
 vector was illegal

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index bba29a0..19d9033 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1851,17 +1851,20 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 
 		if (PyPointlessPrimVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_prim((PyPointlessPrimVector*)v_, i, &index)) {
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
+			pointless_dynarray_destroy(&a_);
 			return 0;
 		}
 
 		if (PyPointlessVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_pointless((PyPointlessVector*)v_, i, &index)) {
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
+			pointless_dynarray_destroy(&a_);
 			return 0;
 		}
 
 		// check for bounds
 		if (index >= n_source) {
 			PyErr_SetString(PyExc_ValueError, "index vector out of bounds");
+			pointless_dynarray_destroy(&a_);
 			return 0;
 		}
 
-- 
2.43.0


From dcf591eb7cee529d13e4ca3f49a4ca96852ac1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 50/86] fix: PrimVectors not created by their constructor read
 an uninitialised allow_print

---
 python/pointless_prim_vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 19d9033..50594ad 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -2038,6 +2038,7 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 		return 0;
 
 	pv->ob_exports = 0;
+	pv->allow_print = self->allow_print;
 	pv->type = self->type;
 	pointless_dynarray_init(&pv->array, self->array.item_size);
 
@@ -2214,6 +2215,7 @@ PyPointlessPrimVector* PyPointlessPrimVector_from_T_vector(pointless_dynarray_t*
 	}
 
 	pv->ob_exports = 0;
+	pv->allow_print = 1;
 	pv->type = t;
 	pv->array = *v;
 
-- 
2.43.0


From 232e11c949fe6e3e070f0af2f40681f95f548f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 51/86] fix: a PrimVector which was not initialised had items
 of zero bytes

---
 python/pointless_prim_vector.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 50594ad..3050ec1 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -308,6 +308,20 @@ static int PyPointlessPrimVector_can_resize(PyPointlessPrimVector* self)
 	return 1;
 }
 
+static PyObject* PyPointlessPrimVector_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
+{
+	PyPointlessPrimVector* self = (PyPointlessPrimVector*)PyType_GenericNew(type, args, kwds);
+
+	// a valid, empty, vector, even if the constructor is never called
+	if (self) {
+		self->type = POINTLESS_PRIM_VECTOR_TYPE_I8;
+		self->allow_print = 1;
+		pointless_dynarray_init(&self->array, sizeof(int8_t));
+	}
+
+	return (PyObject*)self;
+}
+
 static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* args, PyObject* kwds)
 {
 	// if we have a buffer attached, we shouldn't be here
@@ -2111,7 +2125,7 @@ PyTypeObject PyPointlessPrimVectorType = {
 	0,                                              /*tp_dictoffset */
 	(initproc)PyPointlessPrimVector_init,           /*tp_init */
 	PyType_GenericAlloc,                            /*tp_alloc */
-	PyType_GenericNew,                              /*tp_new */
+	PyPointlessPrimVector_new,                      /*tp_new */
 	PyObject_Del,                                   /* tp_free */
 };
 
-- 
2.43.0


From c9e900d9fc8b01b84a8f27dff9f53965da56a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 52/86] fix: a failed PrimVector constructor freed exported
 buffers

---
 python/pointless_prim_vector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 3050ec1..4b5b42f 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -402,10 +402,8 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			Py_DECREF(iterator);
 			iterator = 0;
 
-			if (PyErr_Occurred()) {
-				pointless_dynarray_destroy(&self->array);
+			if (PyErr_Occurred())
 				goto cleanup;
-			}
 		}
 
 		retval = 0;
@@ -489,7 +487,8 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 
 cleanup:
 
-	if (retval == -1)
+	// NOTE: the sequence might have exported the buffer
+	if (retval == -1 && self->ob_exports == 0)
 		pointless_dynarray_clear(&self->array);
 
 	if (buffer.obj)
-- 
2.43.0


From 3d85d0be444ef70860bac927d9e4ac334d7e6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 53/86] fix: min(), max() and range() of a PointlessVector
 returned its first item

---
 python/pointless_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a81c4a7..cd5badd 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -573,6 +573,9 @@ static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out,
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 1cb9f086c0401a485fb998c5349723876a11085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 54/86] fix: the buffer of a PointlessVector was writable,
 although its memory is read-only

---
 python/pointless_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index cd5badd..8cc25ed 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -499,7 +499,7 @@ static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view,
 		return 0;
 
 	void* ptr = pointless_prim_vector_base_ptr(self);
-	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 0, flags);
+	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 1, flags);
 }
 
 static void PyPointlessVector_releasebuffer(PyPointlessVector* obj, Py_buffer *view)
-- 
2.43.0


From 8486e6ce5892b912ebf74f033e6f363a83340215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 55/86] fix: a PointlessVector without a primitive type
 exported an empty buffer

---
 python/pointless_vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index 8cc25ed..198c437 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -498,6 +498,12 @@ static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view,
 	if (view == 0)
 		return 0;
 
+	if (self->v.type == POINTLESS_VECTOR_VALUE || self->v.type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		view->obj = 0;
+		PyErr_SetString(PyExc_BufferError, "only primitive vectors support the buffer interface");
+		return -1;
+	}
+
 	void* ptr = pointless_prim_vector_base_ptr(self);
 	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 1, flags);
 }
-- 
2.43.0


From 212369ea63bd0c6ed6ff4c824caac5f718d770e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 56/86] fix: deleting an item of a Bitvector crashed

---
 python/pointless_bitvector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index c1bda51..7514a94 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -258,6 +258,11 @@ static int PyPointlessBitvector_ass_subscript(PyPointlessBitvector* self, PyObje
 		return -1;
 	}
 
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "BitVector items can not be deleted");
+		return -1;
+	}
+
 	// get the index
 	Py_ssize_t i;
 
-- 
2.43.0


From 63a5ee96f0c3df289a5ed8830f34ba99289ef454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 57/86] fix: appending a Bitvector to itself wrote past the end
 of its buffer

---
 python/pointless_bitvector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 7514a94..aa05308 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -648,12 +648,14 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 		return 0;
 	}
 
+	// NOTE: other might be self, so get its length before it is extended
 	size_t n_before = self->primitive_n_bits;
+	size_t n_other = PyPointlessBitvector_length(other);
 
-	if (!PyPointlessBitvector_extend_by(self, PyPointlessBitvector_length(other), 0))
+	if (!PyPointlessBitvector_extend_by(self, n_other, 0))
 		return 0;
 
-	for (size_t i = 0; i < PyPointlessBitvector_length(other); i++) {
+	for (size_t i = 0; i < n_other; i++) {
 		if (PyPointlessBitvector_is_set(other, i))
 			bm_set_(self->primitive_bits, n_before + i);
 	}
-- 
2.43.0


From f7cdf56e7c30658b3c4bd8bb625349392a5ffd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 58/86] fix: bits added to a Bitvector by append_bulk() were
 not counted

---
 python/pointless_bitvector.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index aa05308..2ade8dd 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -656,8 +656,10 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 		return 0;
 
 	for (size_t i = 0; i < n_other; i++) {
-		if (PyPointlessBitvector_is_set(other, i))
+		if (PyPointlessBitvector_is_set(other, i)) {
 			bm_set_(self->primitive_bits, n_before + i);
+			self->primitive_n_one += 1;
+		}
 	}
 
 	Py_INCREF(Py_None);
-- 
2.43.0


From 515da6a1729644877e05c365244ba2ae3d81386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 59/86] fix: bits removed from a Bitvector by pop() were still
 counted, and written to files

---
 python/pointless_bitvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 2ade8dd..a7445d4 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -704,6 +704,8 @@ static PyObject* PyPointlessBitvector_pop(PyPointlessBitvector* self)
 	self->primitive_n_bits -= 1;
 
 	if (is_set) {
+		bm_reset_(self->primitive_bits, self->primitive_n_bits);
+		self->primitive_n_one -= 1;
 		Py_RETURN_TRUE;
 	} else {
 		Py_RETURN_FALSE;
-- 
2.43.0


From c9065388153619d095df420065818ca1233e8e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 60/86] fix: the copy of a Bitvector read an uninitialised
 allow_print

---
 python/pointless_bitvector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index a7445d4..af60bd2 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -753,6 +753,7 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 	}
 
 	pv->is_pointless = 0;
+	pv->allow_print = self->is_pointless ? 1 : self->allow_print;
 	pv->pp = 0;
 	pv->primitive_n_bytes_alloc = n_bytes;
 	pv->primitive_n_bits = n_bits;
-- 
2.43.0


From c0ab0263fc19a78ee7002bec84662d0b7514f1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 61/86] fix: creating a Bitvector from a sequence leaked its
 items and ignored iterator errors

---
 python/pointless_bitvector.c | 67 ++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index af60bd2..33b2b29 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -140,55 +140,48 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 	}
 
 	// if we have a sequence
-	is_error = 0;
-
 	if (sequence_iterator != 0) {
 		// for each object
 		PyObject* obj = 0;
-		size_t i = 0;
 
 		while ((obj = PyIter_Next(sequence_iterator)) != 0) {
-			if (!PyPointlessBitvector_extend_by(self, 1, 0)) {
-				is_error = 1;
-			// 0) PyIter_Next() failure
-			} else if (obj == 0) {
-				is_error = 1;
+			int v = -1;
+
 			// 1) boolean
-			} else if (PyBool_Check(obj)) {
-				if (obj == Py_True) {
-					bm_set_(self->primitive_bits, i);
-					self->primitive_n_one += 1;
-				}
-			// 3) long (must be 0 or 1)
-			} else if (PyLong_Check(obj) || PyLong_CheckExact(obj)) {
-				PY_LONG_LONG v = PyLong_AsLongLong(obj);
-
-				if (PyErr_Occurred() || (v != 0 && v != 1)) {
+			if (PyBool_Check(obj)) {
+				v = (obj == Py_True);
+			// 2) long (must be 0 or 1)
+			} else if (PyLong_Check(obj)) {
+				PY_LONG_LONG vv = PyLong_AsLongLong(obj);
+
+				if (PyErr_Occurred())
 					PyErr_Clear();
-					is_error = 1;
-				} else if (v == 1) {
-					bm_set_(self->primitive_bits, i);
-					self->primitive_n_one += 1;
-				}
-			// 4) nothong else allowed
-			} else {
-				is_error = 1;
+				else if (vv == 0 || vv == 1)
+					v = (int)vv;
 			}
 
-			if (is_error) {
-				pointless_free(self->primitive_bits);
-				self->primitive_n_bits = 0;
-				self->primitive_bits = 0;
-				self->primitive_n_bytes_alloc = 0;
-				self->primitive_n_one = 0;
+			Py_DECREF(obj);
 
-				if (!PyErr_Occurred())
-					PyErr_SetString(PyExc_ValueError, "sequence must only contain True, False, 0 or 1");
-
-				return -1;
+			// 3) nothing else allowed
+			if (v == -1) {
+				PyErr_SetString(PyExc_ValueError, "sequence must only contain True, False, 0 or 1");
+				break;
 			}
 
-			i += 1;
+			if (!PyPointlessBitvector_extend_by(self, 1, v))
+				break;
+		}
+
+		Py_DECREF(sequence_iterator);
+
+		// the loop might also have ended because of a failed PyIter_Next()
+		if (PyErr_Occurred()) {
+			pointless_free(self->primitive_bits);
+			self->primitive_n_bits = 0;
+			self->primitive_bits = 0;
+			self->primitive_n_bytes_alloc = 0;
+			self->primitive_n_one = 0;
+			return -1;
 		}
 	}
 
-- 
2.43.0


From 07398d85e6672bdbdce6d3db6dbf44f1fcc4772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 62/86] fix: using a Pointless object which is not open crashed

---
 python/pointless_object.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 3e64719..e351ba5 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -53,11 +53,21 @@ static PyObject* PyPointless_new(PyTypeObject* type, PyObject* args, PyObject* k
 
 static PyObject* PyPointless_GetRoot(PyPointless* self)
 {
+	if (!self->is_open) {
+		PyErr_SetString(PyExc_ValueError, "pointless object is not open");
+		return 0;
+	}
+
 	return pypointless_value(self, &self->p.header->root);
 }
 
 static PyObject* PyPointless_GetINode(PyPointless* self)
 {
+	if (!self->is_open) {
+		PyErr_SetString(PyExc_ValueError, "pointless object is not open");
+		return 0;
+	}
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -79,6 +89,11 @@ static PyObject* PyPointless_GetINode(PyPointless* self)
 
 static PyObject* PyPointless_GetFileNo(PyPointless* self)
 {
+	if (!self->is_open) {
+		PyErr_SetString(PyExc_ValueError, "pointless object is not open");
+		return 0;
+	}
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
-- 
2.43.0


From a965bc2f996f93063c72996625a686cfb5595383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 63/86] fix: re-initialising a Pointless object released memory
 its values refer to

---
 python/pointless_object.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index e351ba5..9c91fc5 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -148,27 +148,25 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	const char* error = 0;
 	int i = 0;
 
+	// the memory can not be released while there are objects which refer to it
+	if (self->n_root_refs != 0 ||
+		self->n_vector_refs != 0 ||
+		self->n_bitvector_refs != 0 ||
+		self->n_map_refs != 0 ||
+		self->n_set_refs != 0) {
+		PyErr_SetString(PyExc_ValueError, "pointless object is still referred to by its values");
+		return -1;
+	}
+
 	if (self->is_open) {
+		self->is_open = 0;
 		Py_BEGIN_ALLOW_THREADS
 		pointless_close(&self->p);
 		Py_END_ALLOW_THREADS
-		self->is_open = 0;
 	}
 
 	self->allow_print = 1;
 
-	if (self->n_root_refs != 0 ||
-		self->n_vector_refs != 0 ||
-		self->n_bitvector_refs != 0 ||
-		self->n_map_refs != 0 ||
-		self->n_set_refs != 0) {
-		printf("_WTF A: %zu\n", self->n_root_refs);
-		printf("_WTF B: %zu\n", self->n_vector_refs);
-		printf("_WTF C: %zu\n", self->n_bitvector_refs);
-		printf("_WTF D: %zu\n", self->n_map_refs);
-		printf("_WTF E: %zu\n", self->n_set_refs);
-	}
-
 	self->n_root_refs = 0;
 	self->n_vector_refs = 0;
 	self->n_bitvector_refs = 0;
-- 
2.43.0


From 015deeb02f4068f81df8e30868c85732ca747781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 64/86] fix: vectors, sets and maps created without a Pointless
 object crashed when used

---
 python/pointless_map.c    | 10 ++--------
 python/pointless_set.c    | 10 ++--------
 python/pointless_vector.c | 13 ++-----------
 3 files changed, 6 insertions(+), 27 deletions(-)

diff --git a/python/pointless_map.c b/python/pointless_map.c
index 88b6e85..2ad6f47 100644
--- a/python/pointless_map.c
+++ b/python/pointless_map.c
@@ -38,14 +38,8 @@ static void PyPointlessMapItemIter_dealloc(PyPointlessMapItemIter* self)
 
 PyObject* PyPointlessMap_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
-	PyPointlessMap* self = (PyPointlessMap*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-	}
-
-	return (PyObject*)self;
+	PyErr_SetString(PyExc_TypeError, "unable to instantiate PyPointlessMap directly");
+	return 0;
 }
 
 PyObject* PyPointlessMapKeyIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
diff --git a/python/pointless_set.c b/python/pointless_set.c
index ed590db..96f9af2 100644
--- a/python/pointless_set.c
+++ b/python/pointless_set.c
@@ -22,14 +22,8 @@ static void PyPointlessSetIter_dealloc(PyPointlessSetIter* self)
 
 PyObject* PyPointlessSet_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
-	PyPointlessSet* self = (PyPointlessSet*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-	}
-
-	return (PyObject*)self;
+	PyErr_SetString(PyExc_TypeError, "unable to instantiate PyPointlessSet directly");
+	return 0;
 }
 
 PyObject* PyPointlessSetIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index 198c437..97c0e59 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -26,17 +26,8 @@ static void PyPointlessVectorRevIter_dealloc(PyPointlessVectorRevIter* self)
 
 static PyObject* PyPointlessVector_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
-	PyPointlessVector* self = (PyPointlessVector*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-		self->is_hashable = 0;
-		self->slice_i = 0;
-		self->slice_n = 0;
-	}
-
-	return (PyObject*)self;
+	PyErr_SetString(PyExc_TypeError, "unable to instantiate PyPointlessVector directly");
+	return 0;
 }
 
 
-- 
2.43.0


From 0738bfc3c5a5035848190fea17519ad6557d5d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 65/86] fix: a buffer could be freed by another thread while a
 Pointless object was created from it

---
 python/pointless_object.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 9c91fc5..804b0ab 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -142,6 +142,7 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	PyObject* fname_or_buffer = 0;
 	PyObject* string_of_unicode = 0;
 	PyPointlessPrimVector* vector = 0;
+	Py_buffer buffer;
 	void* buf = 0;
 	size_t buflen = 0;
 	const char* fname_ = 0;
@@ -201,16 +202,20 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 			return -1;
 		}
 
-		buf = pointless_dynarray_buffer(&vector->array);
-		buflen = pointless_dynarray_n_items(&vector->array);
-	} else if (PyByteArray_Check(fname_or_buffer)) {
-		buf = PyByteArray_AS_STRING(fname_or_buffer);
-		buflen = (size_t)PyByteArray_GET_SIZE(fname_or_buffer);
-	} else {
+	} else if (!PyByteArray_Check(fname_or_buffer)) {
 		PyErr_SetString(PyExc_ValueError, "filename_or_buffer must be string/unicode/bytearray/primvector-with-uint-8");
 		return -1;
 	}
 
+	// export the buffer, so other threads can't resize it while it is being copied
+	if (fname_ == 0) {
+		if (PyObject_GetBuffer(fname_or_buffer, &buffer, PyBUF_SIMPLE) == -1)
+			return -1;
+
+		buf = buffer.buf;
+		buflen = (size_t)buffer.len;
+	}
+
 	Py_BEGIN_ALLOW_THREADS
 
 	if (do_validate) {
@@ -227,6 +232,9 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	Py_END_ALLOW_THREADS
 
+	if (fname_ == 0)
+		PyBuffer_Release(&buffer);
+
 	if (!i) {
 		if (fname_)
 			PyErr_Format(PyExc_IOError, "error opening [%s]: %s", fname_, error);
-- 
2.43.0


From 2b39109b1ee8dd6ea40296da3ac983689e08942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 66/86] fix: the items of native vectors used as set/map keys
 were compared as if they were references

---
 src/pointless_cmp.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 9398320..84e066c 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -293,8 +293,17 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 	pointless_complete_create_value_t vi;
 	pointless_create_value_t _v = pointless_create_value_from_complete(v);
 
-	// outside vectors are the hardest
-	if (v->header.is_outside_vector) {
+	// native items are stored directly in outside vectors, and private vectors which are neither value based nor compressed
+	int is_value = (v->header.type_29 == POINTLESS_VECTOR_VALUE || v->header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE);
+
+	if (v->header.is_outside_vector || !(is_value || v->header.is_compressed_vector)) {
+		void* items = 0;
+
+		if (v->header.is_outside_vector)
+			items = cv_get_outside_vector(&_v)->items;
+		else
+			items = pointless_dynarray_buffer(&cv_get_priv_vector(&_v)->vector);
+
 		// reset the value
 		vi.header.type_29 = POINTLESS_NULL;
 		vi.header.is_outside_vector = v->header.is_outside_vector;
@@ -305,31 +314,31 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 
 		switch (v->header.type_29) {
 			case POINTLESS_VECTOR_I8:
-				vi = pointless_complete_value_create_i32(((int8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U8:
-				vi = pointless_complete_value_create_u32(((uint8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I16:
-				vi = pointless_complete_value_create_i32(((int16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U16:
-				vi = pointless_complete_value_create_u32(((uint16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I32:
-				vi = pointless_complete_value_create_i32(((int32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U32:
-				vi = pointless_complete_value_create_u32(((uint32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I64:
-				vi = pointless_complete_value_create_i64(((int64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i64(((int64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U64:
-				vi = pointless_complete_value_create_u64(((uint64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u64(((uint64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_FLOAT:
-				vi = pointless_complete_value_create_float(((float*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_float(((float*)items)[i]);
 				break;
 			default:
 				assert(0);
-- 
2.43.0


From 1a4cffba81a921e4cdca9de453ebd085075b17b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 67/86] fix: vectors with both negative integers and ones above
 INT32_MAX were not hashable

---
 src/pointless_create.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index c72c43b..c6b6fa1 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -676,9 +676,8 @@ static uint32_t pointless_create_vector_compression(pointless_create_t* c, uint3
 	else if (INT32_MIN <= min_int && max_int <= INT32_MAX)
 		return POINTLESS_VECTOR_I32;
 
-	// we must have hit something here already
-	assert(0);
-	return 0;
+	// both negative integers and ones which need 32 unsigned bits
+	return compression;
 }
 
 static int pointless_create_output_and_end_(pointless_create_t* c, pointless_create_cb_t* cb, const char** error)
-- 
2.43.0


From 476710e2e69627e89911e8878ec35d4f77c25c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 68/86] fix: IsAnySet() of a stored Bitvector tested its
 length, and not its last 32 bits

---
 include/pointless/pointless_bitvector.h | 2 +-
 src/pointless_bitvector.c               | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pointless/pointless_bitvector.h b/include/pointless/pointless_bitvector.h
index 12e1c1c..37fc255 100644
--- a/include/pointless/pointless_bitvector.h
+++ b/include/pointless/pointless_bitvector.h
@@ -4,7 +4,7 @@
 #include <pointless/bitutils.h>
 #include <pointless/pointless_defs.h>
 
-uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* bits);
+uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* buffer);
 
 uint32_t pointless_bitvector_n_bits(uint32_t t, pointless_value_data_t* v, void* buffer);
 uint32_t pointless_bitvector_is_set(uint32_t t, pointless_value_data_t* v, void* buffer, uint32_t bit);
diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index 607ce02..4348dd8 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -22,7 +22,7 @@ static uint32_t pointless_bitvector_is_set_bits(uint32_t t, pointless_value_data
 	return 0;
 }
 
-uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* bits)
+uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* buffer)
 {
 	// easy stuff
 	switch (t) {
@@ -38,10 +38,10 @@ uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, v
 
 	// otherwise, just do bitwise test
 	uint64_t i;
-	uint32_t n = pointless_bitvector_n_bits(t, v, bits);
+	uint32_t n = pointless_bitvector_n_bits(t, v, buffer);
 
 	for (i = 0; i < n; i++) {
-		if (pointless_bitvector_is_set_bits(t, v, bits, i))
+		if (pointless_bitvector_is_set(t, v, buffer, i))
 			return 1;
 	}
 
-- 
2.43.0


From 95a90d586f7081dbd61289fd2dd8b24d2ba13998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 69/86] fix: strings with illegal code points were accepted,
 and could not be read

---
 src/pointless_validate_heap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pointless_validate_heap.c b/src/pointless_validate_heap.c
index 4059f68..e4f06b7 100644
--- a/src/pointless_validate_heap.c
+++ b/src/pointless_validate_heap.c
@@ -118,6 +118,11 @@ static int32_t pointless_validate_unicode_heap(pointless_validate_context_t* con
 			*error = "premature end-of-unicode";
 			return 0;
 		}
+
+		if (s[i] > 0x10FFFF) {
+			*error = "unicode contains an illegal code point";
+			return 0;
+		}
 	}
 
 	if (s[i] != 0) {
-- 
2.43.0


From 60e046ddd78aff5506baa550d71ee45f3893f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 70/86] fix: serializing a sub-class of set ran its iterator,
 which could change or free what was being serialized

---
 python/pointless_create.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 937cbcc..4d87d51 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -389,8 +389,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 			RETURN_OOM(state);
 		}
 
-		// iterate over it
-		iterator = PyObject_GetIter(py_object);
+		// iterate over it, never with an iterator of a sub-class, it could modify the objects which we are
+		// exporting, and its items would not outlive it
+		iterator = PySet_Type.tp_iter(py_object);
 
 		if (iterator == 0) {
 			state->is_error = 1;
-- 
2.43.0


From 90f551b9bc61e45b0147b0349779cd45184c0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 71/86] fix: serializing a dict went on with the value of a key
 which could not be stored

---
 python/pointless_create.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 4d87d51..2abee3d 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -358,9 +358,13 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 		while (PyDict_Next(py_object, &pos, &key, &value)) {
 			uint32_t key_handle = pointless_export_py_rec(state, key, depth + 1);
+
+			if (key_handle == POINTLESS_CREATE_VALUE_FAIL)
+				break;
+
 			uint32_t value_handle = pointless_export_py_rec(state, value, depth + 1);
 
-			if (key_handle == POINTLESS_CREATE_VALUE_FAIL || value_handle == POINTLESS_CREATE_VALUE_FAIL)
+			if (value_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
 
 			if (pointless_create_map_add(&state->c, handle, key_handle, value_handle) == POINTLESS_CREATE_VALUE_FAIL) {
-- 
2.43.0


From 9ad88ca4c17ef5e23222b92470f059c5d92d64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 72/86] fix: file names with characters outside ASCII could be
 written to but not opened, and were cut off at null characters

---
 python/pointless_object.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 804b0ab..53bb6a9 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -187,9 +187,8 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	int do_validate = (validate == Py_True);
 
 	if (PyUnicode_Check(fname_or_buffer)) {
-		string_of_unicode = PyUnicode_AsLatin1String(fname_or_buffer);
-
-		if (string_of_unicode == 0)
+		// the same encoding as is used when serializing
+		if (!PyUnicode_FSConverter(fname_or_buffer, &string_of_unicode))
 			return -1;
 
 		fname_ = PyBytes_AS_STRING(string_of_unicode);
-- 
2.43.0


From f2d50e2b96f769d9793eee84f2bc59638669ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 73/86] fix: memory errors of Judy insertions are noticed

JudyLIns() and JudyHSIns() return PPJERR when memory runs out, which was taken for the value's address, and the JLI() macro exits the process.
---
 python/pointless_create.c    |  8 ++++----
 src/pointless_create.c       |  6 +++---
 src/pointless_cycle_marker.c | 10 +++++-----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 2abee3d..335b8aa 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -18,13 +18,13 @@ static uint32_t pointless_export_get_seen(pointless_export_state_t* state, PyObj
 
 static int pointless_export_set_seen(pointless_export_state_t* state, PyObject* py_object, uint32_t handle)
 {
-	PWord_t value = 0;
-	JLI(value, state->objects_used, (Word_t)py_object);
+	// unlike the JLI() macro, this does not exit the process on a memory error
+	PPvoid_t value = JudyLIns(&state->objects_used, (Word_t)py_object, PJE0);
 
-	if (value == 0)
+	if (value == 0 || value == PPJERR)
 		return 0;
 
-	*value = (Word_t)handle;
+	*(PWord_t)value = (Word_t)handle;
 	return 1;
 }
 
diff --git a/src/pointless_create.c b/src/pointless_create.c
index c6b6fa1..c7dbf7e 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1583,7 +1583,7 @@ uint32_t pointless_create_unicode_ucs4(pointless_create_t* c, uint32_t* v)
 	// add to mapping
 	PValue = (Pvoid_t)JudyHSIns(&c->string_unicode_map_judy, unicode_buffer, buffer_len, 0);
 
-	if (PValue == 0)
+	if (PValue == 0 || (PPvoid_t)PValue == PPJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1663,7 +1663,7 @@ uint32_t pointless_create_string_ascii(pointless_create_t* c, uint8_t* v)
 	// add to mapping
 	PValue = JudyHSIns(&c->string_unicode_map_judy, string_buffer, buffer_len, PJE0);
 
-	if (PValue == 0)
+	if (PValue == 0 || (PPvoid_t)PValue == PPJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1940,7 +1940,7 @@ static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint
 	if (normalize) {
 		Pvoid_t PValue = (Pvoid_t)JudyHSIns(&c->bitvector_map_judy, buffer, buffer_len, 0);
 
-		if (PValue == 0)
+		if (PValue == 0 || (PPvoid_t)PValue == PPJERR)
 			goto cleanup;
 
 		*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 4105b85..7753798 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -112,7 +112,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 			//print_depth(depth); printf("root[v] = min(%u, %u)\n", *(unsigned int*)root_v, *(unsigned int*)root_w);
 			PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || (PPvoid_t)PValue == PPJERR) {
 				state->error = "out of memory";
 				return;
 			}
@@ -164,7 +164,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// root[v] = count
 	Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || (PPvoid_t)PValue == PPJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -175,7 +175,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// visited[v] = count
 	PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->visited_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || (PPvoid_t)PValue == PPJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -238,7 +238,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		// component[v] = root[v]
 		Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)v_id, 0);
 
-		if (PValue == 0) {
+		if (PValue == 0 || (PPvoid_t)PValue == PPJERR) {
 			state->error = "out of memory";
 			return;
 		}
@@ -270,7 +270,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || (PPvoid_t)PValue == PPJERR) {
 				state->error = "out of memory";
 				return;
 			}
-- 
2.43.0


From b8853e01a5f81aa8421b73d95281f9da705f94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 74/86] fix: JudyLIns and Judy1Set leaked memory when memory
 ran out while an array was turned into a tree

---
 judy-1.0.5/src/JudyCommon/JudyIns.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/judy-1.0.5/src/JudyCommon/JudyIns.c b/judy-1.0.5/src/JudyCommon/JudyIns.c
index f96df41..d6ef7bd 100644
--- a/judy-1.0.5/src/JudyCommon/JudyIns.c
+++ b/judy-1.0.5/src/JudyCommon/JudyIns.c
@@ -1825,6 +1825,7 @@ FUNCTION PPvoid_t JudyLIns
             if (j__udyCascadeL(&(Pjpm->jpm_JP), Pjpm) == -1)
             {
                 JU_COPY_ERRNO(PJError, Pjpm);
+                j__udyFreeJPM(Pjpm, (Pjpm_t) NULL);
                 JUDY1CODE(return(JERRI );)
                 JUDYLCODE(return(PPJERR);)
             }
-- 
2.43.0


From 86cf7b3de4f88a1c4006621c74c4dbbaac091a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 75/86] fix: memory was leaked when it ran out while the
 vectors to be written were renumbered

---
 src/pointless_create.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index c7dbf7e..6f2d0c8 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -724,6 +724,17 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 	// NOTE: value vector will grow, but the first 'n_values' items are the ones we want to serialize
 	n_values = pointless_dynarray_n_items(&c->values);
 
+	// get all the memory needed by new_priv_vector_values up front, since running out of it once some of the
+	// references have been changed would leave the rest of them pointing at the wrong vectors
+	if (pointless_dynarray_n_items(&c->priv_vector_values) > 0) {
+		if (!pointless_dynarray_push_bulk(&new_priv_vector_values, pointless_dynarray_buffer(&c->priv_vector_values), pointless_dynarray_n_items(&c->priv_vector_values))) {
+			*error = "out of memory I";
+			goto error_cleanup;
+		}
+
+		new_priv_vector_values.n_items = 0;
+	}
+
 	// count number of non-empty vectors, sets and maps, and perform work for empty vectors
 	// we are not allowed to do this for vectors used to hold set/map keys and hashes, so we
 	// ignore those
-- 
2.43.0


From 26916366d8ecd60263671a9cf475ec64cd3603bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 76/86] fix: sets and maps under construction accepted keys and
 values which do not exist

---
 src/pointless_create.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 6f2d0c8..188d1e1 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -2322,6 +2322,9 @@ uint32_t pointless_create_set_add(pointless_create_t* c, uint32_t s, uint32_t k)
 {
 	assert(cv_value_type(s) == POINTLESS_SET_VALUE);
 
+	if (k >= pointless_dynarray_n_items(&c->values))
+		return POINTLESS_CREATE_VALUE_FAIL;
+
 	if (!pointless_dynarray_push(&cv_set_at(s)->keys, &k))
 		return POINTLESS_CREATE_VALUE_FAIL;
 
@@ -2392,6 +2395,9 @@ uint32_t pointless_create_map_add(pointless_create_t* c, uint32_t m, uint32_t k,
 //	printf("adding k/v: %u/%u to %u\n", k, v, m);
 //	printf("types %i/%i\n", (int)cv_value_type(k), (int)cv_value_type(v));
 
+	if (k >= pointless_dynarray_n_items(&c->values) || v >= pointless_dynarray_n_items(&c->values))
+		return POINTLESS_CREATE_VALUE_FAIL;
+
 	if (!pointless_dynarray_push(&cv_map_at(m)->keys, &k))
 		return POINTLESS_CREATE_VALUE_FAIL;
 
-- 
2.43.0


From e52e3ec01f67b53e6d3c94084b4e9a7983998db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 77/86] fix: the buffer handed over with no items to a vector
 leaked

---
 src/pointless_create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 188d1e1..2b10b6d 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -759,6 +759,8 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 				}
 				// set/map vectors can not be emptied
 				if (pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector) == 0 && cv_is_set_map_vector(i) == 0) {
+					// it may have a buffer, although it has no items
+					pointless_dynarray_destroy(&cv_priv_vector_at(i)->vector);
 					cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_EMPTY;
 					cv_value_at(i)->data.data_u32 = 0;
 				} else {
-- 
2.43.0


From 6e0fdfb92beea90ad2541fc30b4701bd84b8ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 78/86] fix: evaluating an expression which did not compile
 read outside the stack

---
 src/pointless_int_ops.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index d3647d2..4050be7 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -437,12 +437,15 @@ int intop_eval_compile(const char* s, intop_eval_context_t* c, const char** erro
 
 	intop_eval_E(c);
 
+	// there is nothing to evaluate if this fails, what has been compiled may lack operands
 	if (intop_check_error(c)) {
+		c->s_n = 0;
 		*error = c->s_error;
 		return 0;
 	}
 
 	if (c->i != c->n) {
+		c->s_n = 0;
 		*error = "some parsing error";
 		return 0;
 	}
-- 
2.43.0


From a9a901b6408fd054e9eb8de213bd0f9f3d19cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 79/86] fix: Judy1SetArray and JudyLInsArray overflowed the
 root leaf with 31 keys

---
 judy-1.0.5/src/JudyCommon/JudyInsArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/judy-1.0.5/src/JudyCommon/JudyInsArray.c b/judy-1.0.5/src/JudyCommon/JudyInsArray.c
index f8e361f..dc371fb 100644
--- a/judy-1.0.5/src/JudyCommon/JudyInsArray.c
+++ b/judy-1.0.5/src/JudyCommon/JudyInsArray.c
@@ -281,7 +281,7 @@ const   Word_t *  const PValue, // list of corresponding values.
         if (Count == 0) return(1);              // *PPArray remains null.
 
         {
-            Pjlw      = j__udyAllocJLW(Count + 1);
+            Pjlw      = j__udyAllocJLW(Count);
                         JU_CHECKALLOC(Pjlw_t, Pjlw, JERRI);
             *PPArray  = (Pvoid_t) Pjlw;
             Pjlw[0]   = Count - 1;              // set pop0.
-- 
2.43.0


From cfe8ed02be97c39a1741ea529438eec7e8a7b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 80/86] fix: memory was leaked when it ran out while the root
 leaf of a Judy array was split

---
 judy-1.0.5/src/JudyCommon/JudyCascade.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/judy-1.0.5/src/JudyCommon/JudyCascade.c b/judy-1.0.5/src/JudyCommon/JudyCascade.c
index 6b52ddf..142f76a 100644
--- a/judy-1.0.5/src/JudyCommon/JudyCascade.c
+++ b/judy-1.0.5/src/JudyCommon/JudyCascade.c
@@ -1793,7 +1793,7 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 #endif  // 32BIT
 //		Create a 1 element Linear branch
 		if (j__udyCreateBranchL(Pjp, StageJP, StageExp, 1, Pjpm) == -1)
-		    return(-1);
+		    FREEALLEXIT(1, StageJP, Pjpm);
 
 //		Change the type of callers JP
 		Pjp->jp_Type = cJU_JPBRANCH_L;
@@ -1880,7 +1880,8 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 		      JUDYLCODE(Pjv_t  Pjvnew;)	 // value area of new leaf.
 #ifdef JU_64BIT
 				PjllRaw = j__udyAllocJLL7(Pop1, Pjpm);
-				if (PjllRaw == (Pjll_t) NULL) return(-1);
+				if (PjllRaw == (Pjll_t) NULL)
+					FREEALLEXIT(ExpCnt, StageJP, Pjpm);
 				Pjll = P_JLL(PjllRaw);
 
 				j__udyCopyWto7((uint8_t *) Pjll, Pjlw + Start,
@@ -1892,7 +1893,8 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 				DBGCODE(JudyCheckSorted(Pjll, Pop1, 7);)
 #else // JU_64BIT - 32 Bit
 				PjllRaw = j__udyAllocJLL3(Pop1, Pjpm);
-				if (PjllRaw == (Pjll_t) NULL) return(-1);
+				if (PjllRaw == (Pjll_t) NULL)
+					FREEALLEXIT(ExpCnt, StageJP, Pjpm);
 				Pjll = P_JLL(PjllRaw);
 
 				j__udyCopyWto3((uint8_t *) Pjll, Pjlw + Start,
-- 
2.43.0


From f7cbc605369ad78bb41cf2d377849da80a119699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 81/86] fix: initialising a Pointless object from several
 threads at once mixed up their files

---
 python/pointless_object.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 53bb6a9..427d420 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -147,6 +147,7 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	size_t buflen = 0;
 	const char* fname_ = 0;
 	const char* error = 0;
+	pointless_t p;
 	int i = 0;
 
 	// the memory can not be released while there are objects which refer to it
@@ -160,20 +161,16 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	}
 
 	if (self->is_open) {
+		// other threads may open it again meanwhile
+		p = self->p;
 		self->is_open = 0;
 		Py_BEGIN_ALLOW_THREADS
-		pointless_close(&self->p);
+		pointless_close(&p);
 		Py_END_ALLOW_THREADS
 	}
 
 	self->allow_print = 1;
 
-	self->n_root_refs = 0;
-	self->n_vector_refs = 0;
-	self->n_bitvector_refs = 0;
-	self->n_map_refs = 0;
-	self->n_set_refs = 0;
-
 	PyObject* allow_print = Py_True;
 	PyObject* validate = Py_True;
 	static char* kwargs[] = {"filename_or_buffer", "allow_print", "validate", 0};
@@ -219,14 +216,14 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	if (do_validate) {
 		if (fname_)
-			i = pointless_open_f(&self->p, fname_, &error);
+			i = pointless_open_f(&p, fname_, &error);
 		else
-			i = pointless_open_b(&self->p, buf, buflen, &error);
+			i = pointless_open_b(&p, buf, buflen, &error);
 	} else {
 		if (fname_)
-			i = pointless_open_f_skip_validate(&self->p, fname_, &error);
+			i = pointless_open_f_skip_validate(&p, fname_, &error);
 		else
-			i = pointless_open_b_skip_validate(&self->p, buf, buflen, &error);
+			i = pointless_open_b_skip_validate(&p, buf, buflen, &error);
 	}
 
 	Py_END_ALLOW_THREADS
@@ -247,6 +244,16 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	Py_XDECREF(string_of_unicode);
 
+	// another thread was faster
+	if (self->is_open) {
+		Py_BEGIN_ALLOW_THREADS
+		pointless_close(&p);
+		Py_END_ALLOW_THREADS
+		PyErr_SetString(PyExc_ValueError, "pointless object was opened by another thread");
+		return -1;
+	}
+
+	self->p = p;
 	self->is_open = 1;
 	return 0;
 }
-- 
2.43.0


From fb5645bce130685ecdda38af234f22e2bcc71fb9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 82/86] fix: strings of 2**32-1 or more characters were stored
 with a truncated length

---
 python/pointless_create.c |  7 +++++++
 src/pointless_create.c    | 18 ++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 335b8aa..0233e59 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -311,6 +311,13 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 			return POINTLESS_CREATE_VALUE_FAIL;
 		}
 
+		if (s_len_python > UINT32_MAX) {
+			PyErr_SetString(PyExc_ValueError, "unicode string has too many characters");
+			state->error_line = __LINE__;
+			state->is_error = 1;
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+
 		void* python_buffer = (void*)PyUnicode_DATA(py_object);
 
 		switch (PyUnicode_KIND(py_object)) {
diff --git a/src/pointless_create.c b/src/pointless_create.c
index 2b10b6d..8028224 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -300,7 +300,7 @@ static int pointless_serialize_string(pointless_create_cb_t* cb, void* string_bu
 	if (!(*cb->write)(len, sizeof(*len), cb->user, error))
 		return 0;
 
-	if (!(*cb->write)(s, (*len + 1) * sizeof(uint8_t), cb->user, error))
+	if (!(*cb->write)(s, ((size_t)*len + 1) * sizeof(uint8_t), cb->user, error))
 		return 0;
 
 	if (!(*cb->align_4)(cb->user, error))
@@ -317,7 +317,7 @@ static int pointless_serialize_unicode(pointless_create_cb_t* cb, void* unicode_
 	if (!(*cb->write)(len, sizeof(*len), cb->user, error))
 		return 0;
 
-	if (!(*cb->write)(s, (*len + 1) * sizeof(pointless_unicode_char_t), cb->user, error))
+	if (!(*cb->write)(s, ((size_t)*len + 1) * sizeof(pointless_unicode_char_t), cb->user, error))
 		return 0;
 
 	if (!(*cb->align_4)(cb->user, error))
@@ -918,7 +918,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 			assert(cv_value_data_u32(i) == debug_n_string_unicode);
 
 			PC_WRITE_OFFSET();
-			PC_INCREMENT_OFFSET(sizeof(uint32_t) + (*((uint32_t*)cv_unicode_at(i)) + 1) * sizeof(pointless_unicode_char_t));
+			PC_INCREMENT_OFFSET(sizeof(uint32_t) + ((uint64_t)*((uint32_t*)cv_unicode_at(i)) + 1) * sizeof(pointless_unicode_char_t));
 			PC_ALIGN_OFFSET();
 			debug_n_string_unicode += 1;
 		}
@@ -927,7 +927,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 			assert(cv_value_data_u32(i) == debug_n_string_unicode);
 
 			PC_WRITE_OFFSET();
-			PC_INCREMENT_OFFSET(sizeof(uint32_t) + (*((uint32_t*)cv_string_at(i)) + 1) * sizeof(uint8_t));
+			PC_INCREMENT_OFFSET(sizeof(uint32_t) + ((uint64_t)*((uint32_t*)cv_string_at(i)) + 1) * sizeof(uint8_t));
 			PC_ALIGN_OFFSET();
 			debug_n_string_unicode += 1;
 		}
@@ -1555,6 +1555,11 @@ uint32_t pointless_create_unicode_ucs4(pointless_create_t* c, uint32_t* v)
 
 	// create buffer to hold [uint32 + v]
 	size_t unicode_len = pointless_ucs4_len(v);
+
+	// the length is stored in 32 bits
+	if (unicode_len > UINT32_MAX)
+		return POINTLESS_CREATE_VALUE_FAIL;
+
 	size_t buffer_len = sizeof(uint32_t) + sizeof(pointless_unicode_char_t) * (unicode_len + 1);
 	void* unicode_buffer = pointless_malloc(buffer_len);
 
@@ -1635,6 +1640,11 @@ uint32_t pointless_create_string_ascii(pointless_create_t* c, uint8_t* v)
 
 	// create buffer to hold [uint32 + v]
 	size_t string_len = pointless_ascii_len(v);
+
+	// the length is stored in 32 bits
+	if (string_len > UINT32_MAX)
+		return POINTLESS_CREATE_VALUE_FAIL;
+
 	size_t buffer_len = sizeof(uint32_t) + sizeof(uint8_t) * (string_len + 1);
 	void* string_buffer = pointless_malloc(buffer_len);
 
-- 
2.43.0


From 812b7178da0b92ff58dec32c2fb41858cd83805b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 83/86] fix: primitive vectors of 2**32 or more items were
 truncated

---
 pointless_ext.h                |  4 +--
 python/pointless_create.c      |  9 +++++-
 python/pointless_prim_vector.c | 53 ++++++++++++++++++++++------------
 3 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/pointless_ext.h b/pointless_ext.h
index 19b185e..0e9a218 100644
--- a/pointless_ext.h
+++ b/pointless_ext.h
@@ -134,13 +134,13 @@ typedef struct {
 typedef struct {
 	PyObject_HEAD
 	PyPointlessPrimVector* vector;
-	uint32_t iter_state;
+	size_t iter_state;
 } PyPointlessPrimVectorIter;
 
 typedef struct {
 	PyObject_HEAD
 	PyPointlessPrimVector* vector;
-	uint32_t iter_state;
+	size_t iter_state;
 } PyPointlessPrimVectorRevIter;
 
 PyPointlessVector* PyPointlessVector_New(PyPointless* pp, pointless_value_t* v, uint32_t slice_i, uint32_t slice_n);
diff --git a/python/pointless_create.c b/python/pointless_create.c
index 0233e59..7f36629 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -237,9 +237,16 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 	} else if (PyPointlessPrimVector_Check(py_object)) {
 		// we just hand over the memory
 		PyPointlessPrimVector* prim_vector = (PyPointlessPrimVector*)py_object;
-		uint32_t n_items = pointless_dynarray_n_items(&prim_vector->array);
+		size_t n_items = pointless_dynarray_n_items(&prim_vector->array);
 		void* data = prim_vector->array._data;
 
+		if (n_items > UINT32_MAX) {
+			PyErr_SetString(PyExc_ValueError, "primitive vector has more than 2**32-1 items");
+			state->error_line = __LINE__;
+			state->is_error = 1;
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+
 		switch (prim_vector->type) {
 			case POINTLESS_PRIM_VECTOR_TYPE_I8:
 				handle = pointless_create_vector_i8_owner(&state->c, (int8_t*)data, n_items);
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 4b5b42f..fbe9c30 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -194,7 +194,7 @@ PyObject* PyPointlessPrimVector_str(PyPointlessPrimVector* self)
 	uint8_t bracket_right = ']';
 	uint8_t terminating_zero = 0;
 
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	char buffer[1024];
 
 	if (!pointless_dynarray_push(&string, &bracket_left)) {
@@ -529,7 +529,7 @@ static int PyPointlessPrimVector_check_index(PyPointlessPrimVector* self, PyObje
 	return 1;
 }
 
-static PyObject* PyPointlessPrimVector_subscript_priv(PyPointlessPrimVector* self, uint32_t i)
+static PyObject* PyPointlessPrimVector_subscript_priv(PyPointlessPrimVector* self, size_t i)
 {
 	void* base_value = pointless_dynarray_item_at(&self->array, i);
 
@@ -583,7 +583,7 @@ static PyObject* PyPointlessPrimVector_subscript(PyPointlessPrimVector* self, Py
 	if (!PyPointlessPrimVector_check_index(self, item, &i))
 		return 0;
 
-	return PyPointlessPrimVector_subscript_priv(self, (uint32_t)i);
+	return PyPointlessPrimVector_subscript_priv(self, (size_t)i);
 }
 
 static PyObject* PyPointlessPrimVector_item(PyPointlessPrimVector* self, Py_ssize_t i)
@@ -598,7 +598,7 @@ static PyObject* PyPointlessPrimVector_item(PyPointlessPrimVector* self, Py_ssiz
 		return 0;
 	}
 
-	return PyPointlessPrimVector_subscript_priv(self, (uint32_t)i);
+	return PyPointlessPrimVector_subscript_priv(self, (size_t)i);
 }
 
 
@@ -688,7 +688,7 @@ static PyObject* PyPointlessPrimVectorIter_iternext(PyPointlessPrimVectorIter* i
 		return 0;
 
 	// see if we have any items left
-	uint32_t n_items = (uint32_t)PyPointlessPrimVector_length(iter->vector);
+	size_t n_items = (size_t)PyPointlessPrimVector_length(iter->vector);
 
 	if (iter->iter_state < n_items) {
 		PyObject* item = PyPointlessPrimVector_subscript_priv(iter->vector, iter->iter_state);
@@ -712,7 +712,7 @@ static PyObject* PyPointlessPrimVectorRevIter_iternext(PyPointlessPrimVectorRevI
 		return 0;
 
 	// see if we have any items left
-	uint32_t n_items = (uint32_t)PyPointlessPrimVector_length(iter->vector);
+	size_t n_items = (size_t)PyPointlessPrimVector_length(iter->vector);
 
 	if (iter->iter_state < n_items) {
 		PyObject* item = PyPointlessPrimVector_subscript_priv(iter->vector, n_items - iter->iter_state - 1);
@@ -957,7 +957,7 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 
 static size_t PyPointlessPrimVector_index_f(PyPointlessPrimVector* self, float v)
 {
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	float* a = (float*)(self->array._data);
 
 	for (i = 0; i < n; i++) {
@@ -971,7 +971,7 @@ static size_t PyPointlessPrimVector_index_f(PyPointlessPrimVector* self, float v
 
 static size_t PyPointlessPrimVector_index_i_i(PyPointlessPrimVector* self, int64_t v)
 {
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	void* a = self->array._data;
 
 	for (i = 0; i < n; i++) {
@@ -1000,7 +1000,7 @@ static size_t PyPointlessPrimVector_index_i_i(PyPointlessPrimVector* self, int64
 
 static size_t PyPointlessPrimVector_index_i_u(PyPointlessPrimVector* self, uint64_t v)
 {
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	void* a = (float*)(self->array._data);
 
 	for (i = 0; i < n; i++) {
@@ -1205,7 +1205,7 @@ static PyObject* PyPointlessPrimVector_serialize(PyPointlessPrimVector* self)
 
 	// create a buffer
 	size_t n_bytes = PyPointlessPrimVector_n_bytes(self);
-	uint32_t n_items = PyPointlessPrimVector_n_items(self);
+	size_t n_items = PyPointlessPrimVector_n_items(self);
 	uint64_t n_buffer = sizeof(uint32_t) + sizeof(uint32_t) + (uint64_t)n_bytes;
 
 	if (n_buffer > PY_SSIZE_T_MAX || n_buffer > SIZE_MAX) {
@@ -1213,6 +1213,11 @@ static PyObject* PyPointlessPrimVector_serialize(PyPointlessPrimVector* self)
 		return 0;
 	}
 
+	if (n_items > UINT32_MAX) {
+		PyErr_SetString(PyExc_ValueError, "vector too large for serialization");
+		return 0;
+	}
+
 	// allocate a buffer
 	void* buffer = pointless_malloc((size_t)n_buffer);
 
@@ -1221,7 +1226,7 @@ static PyObject* PyPointlessPrimVector_serialize(PyPointlessPrimVector* self)
 
 	// serialize it
 	((uint32_t*)buffer)[0] = self->type;
-	((uint32_t*)buffer)[1] = n_items;
+	((uint32_t*)buffer)[1] = (uint32_t)n_items;
 	memcpy((void*)((uint32_t*)buffer + 2), pointless_dynarray_buffer(&self->array), n_bytes);
 
 	n_bytes += sizeof(uint32_t);
@@ -1325,6 +1330,11 @@ static PyObject* PyPointlessPrimVector_sort(PyPointlessPrimVector* self)
 {
 	int bad = 0;
 
+	if (pointless_dynarray_n_items(&self->array) > INT_MAX) {
+		PyErr_SetString(PyExc_ValueError, "vector is too large to be sorted");
+		return 0;
+	}
+
 	{
 		int n = (int)pointless_dynarray_n_items(&self->array);
 
@@ -1359,7 +1369,7 @@ typedef int (*prim_sort_proj_cmp_cmp_t)(uint64_t a, uint64_t b, void* v_b);
 typedef struct {
 	// the projection
 	void* p_b;     // base pointer
-	uint32_t p_n;  // number of items
+	size_t p_n;    // number of items
 	uint32_t p_t;  // item type
 
 	// sort value vectors
@@ -1367,7 +1377,7 @@ typedef struct {
 
 	PyObject* v_p[16]; // Python objects
 	void* v_b[16];     // base pointers
-	uint32_t v_n[16];  // number of items
+	size_t v_n[16];    // number of items
 	uint32_t v_t[16];  // item types
 
 	// comparison info
@@ -1582,11 +1592,11 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 	}
 
 	// all value vectors must have the same number of items
-	uint32_t i;
+	size_t i;
 
 	for (i = 1; i < state.n; i++) {
 		if (state.v_n[0] != state.v_n[i]) {
-			PyErr_Format(PyExc_ValueError, "all value vectors must have the same number of items (%i, %i)", (int)state.v_n[0], (int)state.v_n[i]);
+			PyErr_Format(PyExc_ValueError, "all value vectors must have the same number of items (%zu, %zu)", state.v_n[0], state.v_n[i]);
 			goto cleanup;
 		}
 	}
@@ -1595,6 +1605,11 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 	if (state.p_n == 0)
 		goto cleanup;
 
+	if (state.p_n > INT_MAX) {
+		PyErr_SetString(PyExc_ValueError, "projection vector is too large to be sorted");
+		goto cleanup;
+	}
+
 	// true iff: we are inside bounds
 	int in_bounds = 1;
 
@@ -2030,7 +2045,7 @@ static PyMethodDef PyPointlessPrimVector_methods[] = {
 static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssize_t ilow, Py_ssize_t ihigh)
 {
 	// clamp the limits
-	uint32_t n_items = pointless_dynarray_n_items(&self->array), i;
+	size_t n_items = pointless_dynarray_n_items(&self->array), i;
 
 	if (ilow < 0)
 		ilow = 0;
@@ -2039,11 +2054,11 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 
 	if (ihigh < ilow)
 		ihigh = ilow;
-	else if (ihigh > n_items)
+	else if (ihigh > (Py_ssize_t)n_items)
 		ihigh = (Py_ssize_t)n_items;
 
-	uint32_t slice_i = (uint32_t)ilow;
-	uint32_t slice_n = (uint32_t)(ihigh - ilow);
+	size_t slice_i = (size_t)ilow;
+	size_t slice_n = (size_t)(ihigh - ilow);
 
 	PyPointlessPrimVector* pv = PyObject_New(PyPointlessPrimVector, &PyPointlessPrimVectorType);
 
-- 
2.43.0


From 9a5a2da91747604f5e241143084a665bc05327a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 84/86] fix: str() of a stored bitvector of 2**31 or more bits
 was empty

---
 python/pointless_print.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_print.c b/python/pointless_print.c
index 77aae7e..3aee299 100644
--- a/python/pointless_print.c
+++ b/python/pointless_print.c
@@ -373,8 +373,8 @@ static int _pypointless_map_str(pointless_t* p, pointless_value_t* v, _pypointle
 
 static int _pypointless_bitvector_str(pointless_t* p, pointless_value_t* v, _pypointless_print_state_t* state)
 {
-	int32_t n_bits = (int32_t)pointless_reader_bitvector_n_bits(p, v);
-	int32_t i;
+	uint32_t n_bits = pointless_reader_bitvector_n_bits(p, v);
+	uint32_t i;
 
 	for (i = 0; i < n_bits; i++) {
 		if (pointless_reader_bitvector_is_set(p, v, n_bits - i - 1)) {
-- 
2.43.0


From 168624fecfea2dd814be960ad0bcb47dc83ed1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 85/86] fix: remove() and fast_remove() resized a PrimVector
 which was exported by the conversion of their argument

---
 python/pointless_prim_vector.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index fbe9c30..e153c5c 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1143,6 +1143,10 @@ static PyObject* PyPointlessPrimVector_remove(PyPointlessPrimVector* self, PyObj
 	if (i == (SIZE_MAX-1))
 		return 0;
 
+	// NOTE: converting the argument to a number might have exported our buffer
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	// shift array (needlessly expensive because of swap)
 	for (; i < pointless_dynarray_n_items(&self->array) - 1; i++)
 		pointless_dynarray_swap(&self->array, i, i + 1);
@@ -1164,6 +1168,10 @@ static PyObject* PyPointlessPrimVector_fast_remove(PyPointlessPrimVector* self,
 	if (i == (SIZE_MAX-1))
 		return 0;
 
+	// NOTE: converting the argument to a number might have exported our buffer
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	// swap with last item and remove last item
 	pointless_dynarray_swap(&self->array, i, pointless_dynarray_n_items(&self->array) - 1);
 	pointless_dynarray_pop(&self->array);
-- 
2.43.0


From 19ffa09387406937c5d95cea5c18965d52f12221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 86/86] fix: comparison of values of different types was not
 transitive

---
 src/pointless_cmp.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 84e066c..3716b4a 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -516,6 +516,23 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 	return 0;
 }
 
+// the type IDs of a group are adjacent, except for these, without this the order between groups would not be transitive
+static uint32_t pointless_cmp_group_type(uint32_t t)
+{
+	switch (t) {
+		case POINTLESS_VECTOR_I64:
+		case POINTLESS_VECTOR_U64:
+			return POINTLESS_VECTOR_VALUE;
+		case POINTLESS_I64:
+		case POINTLESS_U64:
+			return POINTLESS_I32;
+		case POINTLESS_STRING_:
+			return POINTLESS_UNICODE_;
+	}
+
+	return t;
+}
+
 static int32_t pointless_cmp_reader_rec(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, uint32_t depth, const char** error)
 {
 	// check for maximum depth, but only if values could be cyclic
@@ -530,7 +547,7 @@ static int32_t pointless_cmp_reader_rec(pointless_t* p_a, pointless_complete_val
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-		return SIMPLE_CMP(a->type, b->type);
+		return SIMPLE_CMP(pointless_cmp_group_type(a->type), pointless_cmp_group_type(b->type));
 
 	// otherwise, run the cmp for next depth
 	return (*cmp_a)(p_a, a, p_b, b, depth + 1, error);
@@ -550,7 +567,7 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-		return SIMPLE_CMP(v_a->header.type_29, v_b->header.type_29);
+		return SIMPLE_CMP(pointless_cmp_group_type(v_a->header.type_29), pointless_cmp_group_type(v_b->header.type_29));
 
 	// otherwise, run the cmp for next depth
 	return (*cmp_a)(c, v_a, v_b, depth + 1, error);
-- 
2.43.0

