/* Helper PHP extension used by the harness only: observes reference counts. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include "php.h"
ZEND_BEGIN_ARG_INFO_EX(ai_rc, 0, 0, 1)
	ZEND_ARG_INFO(0, v)
ZEND_END_ARG_INFO()

/* Reference count of a refcounted value, minus the one held by the argument; -1 when not counted. */
PHP_FUNCTION(vprobe_refcount)
{
	zval *v;
	ZEND_PARSE_PARAMETERS_START(1, 1)
		Z_PARAM_ZVAL(v)
	ZEND_PARSE_PARAMETERS_END();
	if (!Z_REFCOUNTED_P(v)) {
		RETURN_LONG(-1);
	}
	RETURN_LONG((zend_long)Z_REFCOUNT_P(v) - 1);
}

/* A fresh, non-interned copy of a string (even for '' and single characters). */
PHP_FUNCTION(vprobe_fresh_string)
{
	zend_string *s;
	ZEND_PARSE_PARAMETERS_START(1, 1)
		Z_PARAM_STR(s)
	ZEND_PARSE_PARAMETERS_END();
	RETURN_STR(zend_string_init(ZSTR_VAL(s), ZSTR_LEN(s), 0));
}

/* Immutable arrays, as opcache makes of constant arrays: not reference counted, must never be written to or released. */
static struct frozen { HashTable *ht; HashTable copy; uint64_t sum; } *frozen;
static size_t nfrozen, cfrozen;

static uint64_t frozen_sum(const HashTable *ht)
{
	uint64_t h = 1469598103934665603ULL;
	const unsigned char *p;
	size_t n;
	if (HT_IS_PACKED(ht)) {
		p = (const unsigned char *)ht->arPacked;
		n = sizeof(zval) * ht->nNumUsed;
	} else {
		p = (const unsigned char *)ht->arData;
		n = sizeof(Bucket) * ht->nNumUsed;
	}
	for (size_t i = 0; i < n; i++) { h = (h ^ p[i]) * 1099511628211ULL; }
	return h;
}
static zend_string *freeze_string(zend_string *s)
{
	if (ZSTR_IS_INTERNED(s)) {
		return s;
	}
	zend_string *r = zend_string_init(ZSTR_VAL(s), ZSTR_LEN(s), 1);
	zend_string_hash_val(r);
	GC_SET_REFCOUNT(r, 2);
	GC_ADD_FLAGS(r, IS_STR_INTERNED | IS_STR_PERMANENT);
	return r;
}
static bool freeze(zval *out, zval *in)
{
	ZVAL_DEREF(in);
	switch (Z_TYPE_P(in)) {
		case IS_STRING:
			ZVAL_INTERNED_STR(out, freeze_string(Z_STR_P(in)));
			return true;
		case IS_ARRAY: {
			HashTable *src = Z_ARRVAL_P(in);
			if ((GC_FLAGS(src) & GC_IMMUTABLE)) {
				ZVAL_COPY_VALUE(out, in);
				return true;
			}
			HashTable *ht = pemalloc(sizeof(HashTable), 1);
			zend_hash_init(ht, zend_hash_num_elements(src), NULL, NULL, 1);
			zend_string *k;
			zend_ulong h;
			zval *v;
			if (HT_IS_PACKED(src)) { zend_hash_real_init_packed(ht); } else { zend_hash_real_init_mixed(ht); }
			ZEND_HASH_FOREACH_KEY_VAL(src, h, k, v) {
				zval t;
				if (!freeze(&t, v)) { return false; }
				if (k) { zend_hash_add_new(ht, freeze_string(k), &t); } else { zend_hash_index_add_new(ht, h, &t); }
			} ZEND_HASH_FOREACH_END();
			HT_FLAGS(ht) |= HASH_FLAG_STATIC_KEYS;
			GC_SET_REFCOUNT(ht, 2);
			GC_TYPE_INFO(ht) = GC_ARRAY | ((GC_IMMUTABLE | GC_NOT_COLLECTABLE) << GC_FLAGS_SHIFT);
			if (nfrozen == cfrozen) { frozen = realloc(frozen, sizeof(*frozen) * (cfrozen = cfrozen * 2 + 64)); }
			frozen[nfrozen].ht = ht;
			frozen[nfrozen].copy = *ht;
			frozen[nfrozen].sum = frozen_sum(ht);
			nfrozen++;
			ZVAL_ARR(out, ht);
			Z_TYPE_FLAGS_P(out) = 0;
			return true;
		}
		case IS_NULL: case IS_FALSE: case IS_TRUE: case IS_LONG: case IS_DOUBLE:
			ZVAL_COPY_VALUE(out, in);
			return true;
		default:
			return false;
	}
}
/* The array as an immutable one, or null when it holds something that cannot be constant. */
PHP_FUNCTION(vprobe_immutable)
{
	zval *a, r;
	ZEND_PARSE_PARAMETERS_START(1, 1)
		Z_PARAM_ARRAY(a)
	ZEND_PARSE_PARAMETERS_END();
	if (!freeze(&r, a)) { RETURN_NULL(); }
	ZVAL_COPY_VALUE(return_value, &r);
}
ZEND_BEGIN_ARG_INFO_EX(ai_none, 0, 0, 0)
ZEND_END_ARG_INFO()
/* Whether all immutable arrays are as they were made (checks at most the last 64). */
PHP_FUNCTION(vprobe_immutables_intact)
{
	for (size_t i = nfrozen > 64 ? nfrozen - 64 : 0; i < nfrozen; i++) {
		if (memcmp(frozen[i].ht, &frozen[i].copy, sizeof(HashTable)) != 0 || frozen_sum(frozen[i].ht) != frozen[i].sum) {
			RETURN_FALSE;
		}
	}
	RETURN_TRUE;
}
/* Work done so far by the extension, in the build that counts it (else -1). */
PHP_FUNCTION(vprobe_work)
{
	static uint64_t *c;
	ZEND_PARSE_PARAMETERS_NONE();
	if (!c) { c = dlsym(RTLD_DEFAULT, "vwork_units"); }
	RETURN_LONG(c ? (zend_long)*c : -1);
}
PHP_FUNCTION(vprobe_bytes)
{
	static uint64_t *c;
	ZEND_PARSE_PARAMETERS_NONE();
	if (!c) { c = dlsym(RTLD_DEFAULT, "vwork_bytes"); }
	RETURN_LONG(c ? (zend_long)*c : -1);
}
static const zend_function_entry fns[] = {
	PHP_FE(vprobe_immutable, ai_rc)
	PHP_FE(vprobe_immutables_intact, ai_none)
	PHP_FE(vprobe_work, ai_none)
	PHP_FE(vprobe_bytes, ai_none)
	PHP_FE(vprobe_refcount, ai_rc)
	PHP_FE(vprobe_fresh_string, ai_rc)
	PHP_FE_END
};
zend_module_entry vprobe_module_entry = {
	STANDARD_MODULE_HEADER, "vprobe", fns, NULL, NULL, NULL, NULL, NULL, "1", STANDARD_MODULE_PROPERTIES
};
ZEND_GET_MODULE(vprobe)
