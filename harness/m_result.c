// Driver of the Result specification (spec/Result.tla): the sets, unions,
// aggregates and predicates which queries are computed with.
#include "vdrv.h"
#include <amelie_value.h>
#include <amelie_set.h>
#include "set/set.c"
#include "set/union.c"
#include "set/agg.c"
#include "set/any.c"
#include "set/all.c"
#include "set/in.c"
#include "value/like.c"

#define MAX_KEYS 8
static SetCache vcache;

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

void
vmod_begin(void)
{
	set_cache_init(&vcache);
	v_out("{}");
}

void
vmod_end(void)
{
	set_cache_free(&vcache);
	v_out("{}");
}

static const char*
value_of(const char* s, Value* v)
{
	// reads a value, returns the position after it
	value_init(v);
	char* end;
	switch (*s++) {
	case 'N':
		return s;
	case 'i':
		value_set_int(v, strtoll(s, &end, 10));
		break;
	case 'B':
		value_set_int(v, strtoll(s, &end, 10) * (1ll << 33));
		break;
	case 'b':
		value_set_bool(v, strtol(s, &end, 10));
		break;
	case 'd':
		value_set_double(v, strtol(s, &end, 10) / 2.0);
		break;
	case 'z':
		value_set_double(v, -0.0);
		return s;
	case 'D':
		value_set_date(v, strtol(s, &end, 10));
		break;
	case 'T':
		value_set_timestamp(v, strtol(s, &end, 10));
		break;
	case 's':
	{
		auto buf = buf_create();
		buf_reserve(buf, strlen(s) / 2 + 1);
		unsigned c;
		while (isxdigit(s[0]) && sscanf(s, "%2x", &c) == 1)
		{
			buf_append_u8(buf, c);
			s += 2;
		}
		// nothing behind the text is its own
		if (buf_empty(buf))
			buf_reserve(buf, 1);
		Str str;
		int size = buf_size(buf);
		buf->start = realloc(buf->start, size ? size : 1);
		buf->position = buf->start + size;
		buf->end = buf->start + (size ? size : 1);
		buf_str(buf, &str);
		value_set_string(v, &str, buf);
		return s;
	}
	case 'I':
	{
		Interval iv;
		interval_init(&iv);
		iv.m = strtol(s, &end, 10);
		iv.d = strtol(end + 1, &end, 10);
		iv.us = strtol(end + 1, &end, 10);
		value_set_interval(v, &iv);
		break;
	}
	case 'u':
	{
		Uuid id;
		id.a = strtol(s, &end, 10);
		id.b = strtol(end + 1, &end, 10);
		value_set_uuid(v, &id);
		break;
	}
	case 'v':
	{
		auto buf = buf_create();
		Vector head;
		memset(&head, 0, sizeof(head));
		buf_write(buf, &head, sizeof(head));
		for (int n = 1;; n++)
		{
			float f = strtol(s, &end, 10);
			buf_write(buf, &f, sizeof(f));
			((Vector*)buf->start)->size = n;
			if (*end != '/')
				break;
			s = end + 1;
		}
		value_set_vector_buf(v, buf);
		break;
	}
	default:
		v_bad("unknown value %s", s - 1);
		return s;
	}
	return end;
}

static void
value_print(Value* v)
{
	switch (v->type) {
	case TYPE_NULL:
		v_out("\"N\"");
		break;
	case TYPE_INT:
		v_out("\"i%" PRIi64 "\"", v->integer);
		break;
	case TYPE_BOOL:
		v_out("\"b%" PRIi64 "\"", v->integer);
		break;
	case TYPE_DATE:
		v_out("\"D%" PRIi64 "\"", v->integer);
		break;
	case TYPE_TIMESTAMP:
		v_out("\"T%" PRIi64 "\"", v->integer);
		break;
	case TYPE_DOUBLE:
		v_out("\"f%.17g\"", v->dbl);
		break;
	case TYPE_STRING:
		v_out("\"s");
		for (char* p = v->string.pos; p < v->string.end; p++)
			v_out("%02x", (uint8_t)*p);
		v_out("\"");
		break;
	case TYPE_INTERVAL:
		v_out("\"I%d/%d/%" PRIi64 "\"", (int)v->interval.m, (int)v->interval.d, (int64_t)v->interval.us);
		break;
	case TYPE_UUID:
		v_out("\"u%" PRIu64 "/%" PRIu64 "\"", v->uuid.a, v->uuid.b);
		break;
	case TYPE_VECTOR:
		v_out("\"v");
		for (uint32_t i = 0; i < v->vector->size; i++)
			v_out("%s%g", i ? "/" : "", v->vector->value[i]);
		v_out("\"");
		break;
	case TYPE_AVG:
		v_out("\"avg\"");
		break;
	default:
		v_out("\"?%d\"", v->type);
		break;
	}
}

// "value,value,..." up to one of stop
static const char*
values_of(const char* s, Value* v, int* count)
{
	*count = 0;
	while (*s && *s != ';' && *s != ':')
	{
		if (*s == ',')
			s++;
		s = value_of(s, &v[(*count)++]);
	}
	return s;
}

static void
values_free(Value* v, int count)
{
	for (int i = 0; i < count; i++)
		value_free(&v[i]);
}

static Store*
merge_of(int first, int count, int nest, int* id, bool* order, int keys, int type, SetList* list)
{
	auto u = union_create(type);
	for (int i = 0; i < count; i++)
	{
		if (i == 1 && nest)
		{
			// partitions which were merged before
			union_add(u, merge_of(first + i, count - i, 0, id, order, keys, type, list));
			break;
		}
		auto set = set_cache_create(&vcache, list);
		list_unlink(&set->link);
		list_init(&set->link);
		list->list_count--;
		set_prepare(set, 1, keys, order);
		const char* s = v_str(first + i);
		while (*s && *s != '-')
		{
			static Value row[1 + MAX_KEYS];
			int n;
			value_init(&row[0]);
			value_set_int(&row[0], (*id)++);
			s = values_of(s, &row[1], &n);
			if (*s == ';')
				s++;
			if (!order)
				n = 0;
			set_add(set, row);
			values_free(row, 1 + MAX_KEYS);
			memset(row, 0, sizeof(row));
		}
		if (order)
			set_sort(set);
		union_add(u, &set->store);
	}
	return &u->store;
}

static void
merge(void)
{
	// merge ORDER DISTINCT LIMIT OFFSET NEST PART...
	// all LIMIT OFFSET NEST PART...
	bool all = v_is("all");
	static bool order[MAX_KEYS];
	int keys = 0;
	int at = 1;
	int type = UNION_ALL;
	if (! all)
	{
		for (const char* s = v_str(1); *s; s++)
			order[keys++] = *s == '1';
		type = v_int(2) ? UNION_ORDERED_DISTINCT : UNION_ORDERED;
		at = 3;
	}
	int64_t limit = v_int(at);
	int64_t offset = v_int(at + 1);
	int nest = v_int(at + 2);
	int id = 0;
	SetList list;
	set_list_init(&list);
	auto store = merge_of(at + 3, v_argc - (at + 3), nest, &id, all ? NULL : order, keys, type, &list);
	auto u = (Union*)store;
	if (limit >= 0)
		union_set_limit(u, limit);
	union_set_offset(u, offset);
	v_out("{\"ok\":true,\"rows\":[");
	auto it = store_iterator(store);
	Value* row;
	bool first = true;
	int guard = 0;
	while ((row = store_iterator_at(it)) && guard++ < 100000)
	{
		v_out("%s[%" PRIi64, first ? "" : ",", row[0].integer);
		first = false;
		for (int i = 0; i < keys; i++)
		{
			v_out(",");
			value_print(&row[1 + i]);
		}
		v_out("]");
		store_iterator_next(it);
	}
	// the end remains the end
	store_iterator_next(it);
	if (store_iterator_has(it) && guard < 100000)
		v_bad("rows after the end");
	store_iterator_close(it);
	store_free(store);
	v_out("],\"bad\":%s}", v_bad_json());
}

static void
group(void)
{
	// group AGGS KEYS PART...; an aggregate is FUNCTION:TYPE[*]
	static Agg aggs[MAX_KEYS];
	int cols = 0;
	bool distinct = false;
	const char* s = v_str(1);
	while (*s)
	{
		char name[16];
		int n = 0;
		while (*s != ':')
			name[n++] = *s++;
		name[n] = 0;
		bool dbl = s[1] == 'd';
		s += 2;
		auto a = &aggs[cols++];
		a->distinct = *s == '*';
		if (a->distinct)
		{
			distinct = true;
			s++;
		}
		if (*s == ',')
			s++;
		if (! strcmp(name, "count"))
			a->type = AGG_INT_COUNT;
		else
		if (! strcmp(name, "min"))
			a->type = dbl ? AGG_DOUBLE_MIN : AGG_INT_MIN;
		else
		if (! strcmp(name, "max"))
			a->type = dbl ? AGG_DOUBLE_MAX : AGG_INT_MAX;
		else
		if (! strcmp(name, "sum"))
			a->type = dbl ? AGG_DOUBLE_SUM : AGG_INT_SUM;
		else
			a->type = dbl ? AGG_DOUBLE_AVG : AGG_INT_AVG;
	}
	int keys = v_int(2);
	int count = v_argc - 3;
	static Value results[16];
	static Value* refs[16];
	memset(results, 0, sizeof(results));
	for (int i = 0; i < count; i++)
	{
		auto set = set_create();
		set_prepare(set, cols, keys, NULL);
		if (distinct)
		{
			auto d = set_create();
			set_prepare(d, 1, keys + 2, NULL);
			set_set_distinct_aggs(set, d);
		}
		s = v_str(3 + i);
		while (*s && *s != '-')
		{
			static Value key[MAX_KEYS];
			static Value vals[MAX_KEYS];
			memset(key, 0, sizeof(key));
			memset(vals, 0, sizeof(vals));
			int k, n;
			s = values_of(s, key, &k);
			s = values_of(s + 1, vals, &n);
			if (*s == ';')
				s++;
			auto row = set_upsert(set, key, 0, NULL);
			agg_write(aggs, vals, set, row);
			values_free(key, k);
			values_free(vals, n);
		}
		value_set_store(&results[i], &set->store);
		refs[i] = &results[i];
	}
	agg_merge_sets(aggs, refs, count);
	v_out("{\"ok\":true,\"groups\":[");
	auto it = store_iterator(results[0].store);
	Value* row;
	bool first = true;
	for (; (row = store_iterator_at(it)); store_iterator_next(it))
	{
		v_out("%s[[", first ? "" : ",");
		first = false;
		for (int i = 0; i < keys; i++)
		{
			if (i)
				v_out(",");
			value_print(&row[cols + i]);
		}
		v_out("],[");
		for (int i = 0; i < cols; i++)
		{
			if (i)
				v_out(",");
			// as the virtual machine reads them
			if (aggs[i].type == AGG_INT_COUNT && row[i].type != TYPE_INT)
				v_out("\"i0\"");
			else
			if (aggs[i].type == AGG_INT_AVG && row[i].type == TYPE_AVG)
				v_out("\"i%" PRIi64 "\"", (int64_t)avg_int(&row[i].avg));
			else
			if (aggs[i].type == AGG_DOUBLE_AVG && row[i].type == TYPE_AVG)
				v_out("\"f%.17g\"", avg_double(&row[i].avg));
			else
				value_print(&row[i]);
		}
		v_out("]]");
	}
	store_iterator_close(it);
	value_free(&results[0]);
	v_out("],\"bad\":%s}", v_bad_json());
}

static Set*
set_of_values(Value* v, int count)
{
	auto set = set_create();
	set_prepare(set, 1, 0, NULL);
	for (int i = 0; i < count; i++)
		set_add(set, &v[i]);
	return set;
}

static const char*
truth(Value* v)
{
	return v->type == TYPE_NULL ? "n" : v->type == TYPE_BOOL ? (v->integer ? "t" : "f") : "?";
}

static void
predicate(void)
{
	// in VALUE LIST SOURCE; any|every REL VALUE LIST SOURCE
	bool in = v_is("in");
	int at = in ? 1 : 2;
	static Value v;
	static Value list[64];
	static Value args[64];
	memset(list, 0, sizeof(list));
	memset(args, 0, sizeof(args));
	int count = 0;
	value_of(v_str(at), &v);
	if (*v_str(at + 1) != '-')
		values_of(v_str(at + 1), list, &count);
	const char* source = v_str(at + 2);
	int n = 0;
	if (! strcmp(source, "list"))
	{
		for (int i = 0; i < count; i++)
			value_copy(&args[n++], &list[i]);
	} else
	if (! strcmp(source, "json"))
	{
		auto buf = buf_create();
		encode_array(buf);
		for (int i = 0; i < count; i++)
		{
			auto e = &list[i];
			if (e->type == TYPE_NULL)
				encode_null(buf);
			else
			if (e->type == TYPE_INT)
				encode_integer(buf, e->integer);
			else
			if (e->type == TYPE_BOOL)
				encode_bool(buf, e->integer);
			else
			if (e->type == TYPE_DOUBLE)
				encode_real(buf, e->dbl);
			else
				encode_string(buf, &e->string);
		}
		encode_array_end(buf);
		value_set_json_buf(&args[n++], buf);
	} else
	if (! strcmp(source, "union"))
	{
		auto u = union_create(UNION_ALL);
		int half = count / 2;
		union_add(u, &set_of_values(list, half)->store);
		union_add(u, &set_of_values(list + half, count - half)->store);
		value_set_store(&args[n++], &u->store);
	} else
	{
		int half = ! strcmp(source, "mixed") ? count / 2 : 0;
		for (int i = 0; i < half; i++)
			value_copy(&args[n++], &list[i]);
		value_set_store(&args[n++], &set_of_values(list + half, count - half)->store);
	}
	static Value result;
	value_init(&result);
	if (in)
		value_in(&result, &v, args, n);
	else
	{
		static const char* names[] = { "eq", "ne", "le", "lt", "ge", "gt" };
		static int rels[] = { MATCH_EQU, MATCH_NEQU, MATCH_LTE, MATCH_LT, MATCH_GTE, MATCH_GT };
		int rel = 0;
		while (strcmp(names[rel], v_str(1)))
			rel++;
		if (v_is("any"))
			value_any(&result, &v, &args[0], rels[rel]);
		else
			value_all(&result, &v, &args[0], rels[rel]);
	}
	v_out("{\"ok\":true,\"is\":\"%s\",\"bad\":%s}", truth(&result), v_bad_json());
	values_free(args, n);
	values_free(list, count);
	value_free(&v);
}

void
vmod_op(void)
{
	static Value a, b, r;
	if (v_is("merge") || v_is("all"))
		merge();
	else
	if (v_is("group"))
		group();
	else
	if (v_is("cmp"))
	{
		value_of(v_str(1), &a);
		value_of(v_str(2), &b);
		int rc = value_compare(&a, &b);
		v_out("{\"ok\":true,\"sign\":%d,\"bad\":%s}", (rc > 0) - (rc < 0), v_bad_json());
		value_free(&a);
		value_free(&b);
	} else
	if (v_is("like"))
	{
		value_of(v_str(1), &a);
		value_of(v_str(2), &b);
		value_init(&r);
		value_like(&r, &a, &b);
		v_out("{\"ok\":true,\"is\":\"%s\",\"bad\":%s}", truth(&r), v_bad_json());
		value_free(&a);
		value_free(&b);
	} else
		predicate();
}
