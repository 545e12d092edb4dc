// Driver of the Row specification (spec/Row.tla): rows built, read, updated and
// ordered by the code which the executor uses.
#include "vdrv.h"
#include <amelie_value.h>
#include "value/row.c"
#include "vrow.h"

enum { T_BOOL, T_I8, T_I16, T_I32, T_I64, T_F32, T_F64, T_DATE, T_TS, T_IV, T_STR, T_JSON, T_VEC, T_UUID, T_ID4, T_ID8, T_MAX };
static const char* names[] = { "bool", "i8", "i16", "i32", "i64", "f32", "f64", "date", "ts", "iv", "str", "json", "vec", "uuid", "id4", "id8" };
static const int pool[] = { 2, 5, 5, 6, 7, 5, 5, 4, 6, 4, 11, 6, 5, 6, 0, 0 };

#define SLOTS 16
static Table        table;
static IndexConfig* primary;
static Heap*        heap;
static int          kinds[64], cols, nkeys, at, pads, refs_key[8];
static Row*         rows[SLOTS];
static char*        copies[SLOTS];
static Buf*         keep[1024];
static int          keep_count;
static bool         defined;

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

static void
random_text(char* to, int size, char c)
{
	memset(to, c, size);
	to[size] = 0;
}

// value k of a type, in ascending order
static void
value_of(Value* v, int type, int64_t k, int64_t hint)
{
	static const int64_t i8[] = { -128, -1, 0, 1, 127 }, i16[] = { -32768, -129, 0, 128, 32767 },
	    i32[] = { INT32_MIN, -65537, -1, 0, 256, INT32_MAX },
	    i64[] = { INT64_MIN, -4294967297ll, -4294967296ll, -1, 0, 4294967296ll, INT64_MAX },
	    date[] = { 0, 1, 2440588, 5373484 },
	    ts[] = { 0, 1, 2147483648ll, 4294967296ll, 4294967297ll, 253402300799999999ll };
	static const double f32[] = { -1e30, -1.5, 0, 0.25, 3e38 }, f64[] = { -1e300, -1.1, 0, 1e-300, 1e308 };
	static const Uuid id[] = { { 0, 0 }, { 0, 1 }, { 0, 1ull << 63 }, { 1, 0 }, { 1ull << 63, 5 }, { ~0ull, ~0ull } };
	static const int str_size_of[] = { 0, 1, 31, 32, 255, 256, 65535, 65536, 1, 1, 2 };
	static const char str_char[] = "AAAAAAAAB\x7f\xc3";
	static char text[1 << 17];
	value_reset(v);
	if (type < T_ID4 && k == 0)
		return;
	k--;
	switch (type) {
	case T_ID4: case T_ID8: value_set_int(v, k + 1); break;
	case T_BOOL: value_set_bool(v, k); break;
	case T_I8: value_set_int(v, i8[k]); break;
	case T_I16: value_set_int(v, i16[k]); break;
	case T_I32: value_set_int(v, i32[k]); break;
	case T_I64: value_set_int(v, i64[k]); break;
	case T_F32: value_set_double(v, (float)f32[k]); break;
	case T_F64: value_set_double(v, f64[k]); break;
	case T_DATE: value_set_date(v, date[k]); break;
	case T_TS: value_set_timestamp(v, ts[k]); break;
	case T_IV: {
		Interval iv = { k == 3 ? INT32_MAX : k, k == 2 ? -7 : k, k == 1 ? -3600000000ll : 5 };
		value_set_interval(v, &iv);
		break;
	}
	case T_UUID: value_set_uuid(v, (Uuid*)&id[k]); break;
	case T_STR: {
		auto buf = buf_create();
		keep[keep_count++] = buf;
		int n = str_size_of[k];
		random_text(text, n, str_char[k]);
		if (k == 10)
			text[1] = (char)0xa9;
		buf_write(buf, text, n);
		Str s;
		str_set(&s, buf->start, n);
		value_set_string(v, &s, NULL);
		break;
	}
	case T_JSON: {
		auto buf = buf_create();
		keep[keep_count++] = buf;
		switch (k) {
		case 0: encode_null(buf); break;
		case 1: encode_integer(buf, -70000); break;
		case 2: encode_cstr(buf, "abc"); break;
		case 3:
			random_text(text, 300, 'x');
			encode_array(buf);
			encode_integer(buf, 1);
			encode_cstr(buf, text);
			encode_real(buf, 0.5);
			encode_array_end(buf);
			break;
		case 4:
			encode_obj(buf);
			encode_cstr(buf, "a");
			encode_obj(buf);
			encode_cstr(buf, "b");
			encode_array(buf);
			encode_bool(buf, true);
			encode_array_end(buf);
			encode_obj_end(buf);
			encode_obj_end(buf);
			break;
		case 5:
			encode_array(buf);
			for (int i = 0; i < 14000; i++)
				encode_integer(buf, i * 100000ll);
			encode_array_end(buf);
			break;
		}
		value_set_json(v, buf->start, buf_size(buf), NULL);
		break;
	}
	case T_VEC: {
		static const int sizes[] = { 0, 3, 60, 70, 17000 };
		auto buf = buf_create();
		keep[keep_count++] = buf;
		buf_write_i32(buf, sizes[k]);
		for (int i = 0; i < sizes[k]; i++)
			buf_write_float(buf, i * 0.5f - k);
		value_set_vector(v, (Vector*)buf->start, NULL);
		break;
	}
	}
	unused(hint);
}

static void
drop_kept(int from)
{
	while (keep_count > from)
		buf_free(keep[--keep_count]);
}

static int type_of_kind[] = { TYPE_BOOL, TYPE_INT, TYPE_INT, TYPE_INT, TYPE_INT, TYPE_DOUBLE, TYPE_DOUBLE, TYPE_DATE, TYPE_TIMESTAMP, TYPE_INTERVAL, TYPE_STRING, TYPE_JSON, TYPE_VECTOR, TYPE_UUID, TYPE_INT, TYPE_INT };

static bool
value_same(Value* a, Value* b)
{
	if (a->type != b->type)
		return false;
	switch ((int)a->type) {
	case TYPE_NULL: return true;
	case TYPE_DOUBLE: return a->dbl == b->dbl;
	case TYPE_STRING: return str_compare(&a->string, &b->string);
	case TYPE_JSON: return a->json_size == b->json_size && !memcmp(a->json, b->json, a->json_size);
	case TYPE_INTERVAL: return !memcmp(&a->interval, &b->interval, sizeof(Interval));
	case TYPE_VECTOR: return vector_size(a->vector) == vector_size(b->vector) && !memcmp(a->vector, b->vector, vector_size(a->vector));
	case TYPE_UUID: return uuid_is(&a->uuid, &b->uuid);
	default: return a->integer == b->integer;
	}
}

// number of the value read from a column, -9 if there is none like it
static int64_t
number_of(Value* v, int type)
{
	if (v->type == TYPE_NULL)
		return 0;
	if ((int)v->type != type_of_kind[type])
		return -8;
	if (type >= T_ID4)
		return v->integer;
	int from = keep_count;
	int64_t found = -9;
	for (int k = 1; k <= pool[type]; k++)
	{
		Value at;
		value_of(&at, type, k, 0);
		if (value_same(v, &at))
			found = k;
		drop_kept(from);
	}
	return found;
}

static int map(int col) { return col < at ? col : col + pads; }
static Column* column_at(int order) { return columns_find_by(&table.config->columns, order); }

static int64_t
read_column(Row* row, int order, int type)
{
	auto column = column_at(order);
	uint8_t* pos = row_column(row, column);
	if (! pos)
		return 0;
	if (pos < (uint8_t*)row_data(row, table.config->columns.count) || pos >= (uint8_t*)row + row_size(row))
	{
		v_bad("column %d lies outside of its row", order);
		return -7;
	}
	Value v;
	value_init(&v);
	value_data_decode(&v, column, pos, 1);
	return number_of(&v, type);
}

void
vmod_begin(void)
{
	v_out("{}");
	defined = false;
	heap = heap_allocate(v_cfgi("lru", 0));
	memset(rows, 0, sizeof(rows));
	memset(copies, 0, sizeof(copies));
	table.config = table_config_allocate();
	sequence_init(&table.seq);
	keep_count = 0;
}

void
vmod_end(void)
{
	v_out("{}");
	if (defined)
		index_config_free(primary);
	table_config_free(table.config);
	heap_free(heap);
	drop_kept(0);
	for (int i = 0; i < SLOTS; i++)
		free(copies[i]);
}

static int
kind_of(const char* name)
{
	for (int i = 0; i < T_MAX; i++)
		if (! strcmp(names[i], name))
			return i;
	abort();
}

static Column*
add(int order, int kind)
{
	static const int sizes[] = { 1, 1, 2, 4, 8, 4, 8, 4, 8, sizeof(Interval), 0, 0, 0, sizeof(Uuid), 4, 8 };
	char name[16];
	snprintf(name, sizeof(name), "c%d", order);
	return vcolumn_add(&table.config->columns, name, type_of_kind[kind], sizes[kind]);
}

static void
op_schema(void)
{
	at   = v_int(1);
	pads = v_int(2);
	cols = v_int(3);
	int arg = 4;
	auto config = table.config;
	for (int i = 0; i <= cols; i++)
	{
		if (i == at)
			for (int p = 0; p < pads; p++)
				add(config->columns.count, T_I8);
		if (i == cols)
			break;
		kinds[i] = kind_of(v_str(arg));
		auto column = add(config->columns.count, kinds[i]);
		auto cons = &column->constraints;
		constraints_set_not_null(cons, !v_int(arg + 1));
		int64_t def = v_int(arg + 2);
		if (kinds[i] >= T_ID4)
			constraints_set_as_identity(cons, IDENTITY_SERIAL);
		else
		if (def) {
			// as the parser stores a default
			Value v;
			value_of(&v, kinds[i], def, 0);
			auto buf = buf_create();
			buf_reserve(buf, value_data_size(&v, column, NULL));
			value_data_encode(&v, column, NULL, NULL, &buf->position);
			constraints_set_default(cons, buf);
			buf_free(buf);
		}
		arg += 3;
	}
	columns_sync(&config->columns);
	nkeys = 0;
	int order[8];
	for (; arg < v_argc; arg++) {
		refs_key[nkeys] = v_int(arg) - 1;
		order[nkeys] = map(refs_key[nkeys]);
		nkeys++;
	}
	primary = vindex_config(&config->columns, "primary", INDEX_TREE, true, true, nkeys, order);
	defined = true;
	v_out("{}");
}

static void
fill(Value* values, int64_t* list, int64_t pad, Value* refs, bool use_refs, int* refs_count)
{
	for (int p = 0; p < pads; p++)
		value_of(&values[at + p], T_I8, pad, 0);
	for (int i = 0; i < cols; i++)
	{
		auto value  = &values[map(i)];
		auto column = column_at(map(i));
		value_reset(value);
		if (list[i] == -1 || (kinds[i] >= T_ID4 && list[i] == 0))
		{
			// as the parser takes a default
			auto cons = &column->constraints;
			if (! cons->as_identity)
				value_data_decode(value, column, cons->value.start, buf_size(&cons->value));
		} else
			value_of(value, kinds[i], list[i], 0);
		if (value->type != TYPE_NULL && (int)value->type != type_of_kind[kinds[i]])
			v_bad("column %d: a value of type %s", i, type_of(value->type));
		if (use_refs && refs) {
			refs[*refs_count] = *value;
			value_reset(value);
			value_set_ref(value, (*refs_count)++);
		}
	}
}

static void
check_all(bool ok)
{
	auto columns = &table.config->columns;
	v_out("{\"ok\":%s,\"rows\":[", ok ? "true" : "false");
	bool first = true;
	int live = 0;
	for (int s = 0; s < SLOTS; s++)
	{
		if (! rows[s])
			continue;
		live++;
		if (memcmp(rows[s], copies[s], row_size(rows[s])))
			v_bad("the row of slot %d was changed", s);
		v_out("%s[%d", first ? "" : ",", s);
		first = false;
		for (int i = 0; i < cols; i++)
			v_out(",%" PRIi64, read_column(rows[s], map(i), kinds[i]));
		int64_t pad = 0;
		for (int p = 0; p < pads; p++) {
			auto v = read_column(rows[s], at + p, T_I8);
			if (p && v != pad)
				v_bad("row of slot %d: column %d reads %d", s, at + p, (int)v);
			pad = v;
		}
		v_out(",%" PRIi64 "]", pads ? pad : -1);
		// rows with the same key belong to the same partition
		for (int o = 0; o < SLOTS; o++)
			if (rows[o] && !compare(&primary->keys, rows[s], rows[o]) && row_hash(rows[s], &primary->keys) != row_hash(rows[o], &primary->keys))
				v_bad("rows of slots %d and %d have the same key and different hashes", s, o);
	}
	v_out("],\"signs\":[");
	first = true;
	for (int s = 0; s < SLOTS; s++)
	{
		if (! rows[s])
			continue;
		v_out("%s[", first ? "" : ",");
		first = false;
		bool one = true;
		for (int o = 0; o < SLOTS; o++)
		{
			if (! rows[o])
				continue;
			int rc = compare(&primary->keys, rows[s], rows[o]);
			v_out("%s%d", one ? "" : ",", (rc > 0) - (rc < 0));
			one = false;
		}
		v_out("]");
	}
	if ((int)heap->header->count_used != live)
		v_bad("the heap has %d rows, %d are known", (int)heap->header->count_used, live);
	v_out("],\"bad\":%s}", v_bad_json());
	unused(columns);
}

static void
put(int slot, Row* row)
{
	free(copies[slot]);
	rows[slot] = row;
	copies[slot] = NULL;
	if (! row)
		return;
	copies[slot] = malloc(row_size(row));
	memcpy(copies[slot], row, row_size(row));
}

static Value values[1024], refs[64];

static void
op_create(void)
{
	int slot = v_int(1);
	int64_t pad = v_int(2), list[64];
	bool use_refs = v_int(3);
	for (int i = 0; i < cols; i++)
		list[i] = v_int(4 + i);
	memset(values, 0, sizeof(values));
	int refs_count = 0, from = keep_count;
	fill(values, list, pad, refs, use_refs, &refs_count);
	Value identity;
	value_init(&identity);
	row_get_identity(&table, refs, values, &identity);
	Row* row = NULL;
	bool error = error_catch( row = row_create(heap, &table.config->columns, values, refs, &identity) );
	if (! error)
	{
		put(slot, row);
		auto hash = value_hash_row(&primary->keys, refs, values, &identity);
		if (hash != row_hash(row, &primary->keys))
			v_bad("the row is sent to another partition than it belongs to");
		// by its key values
		Value key[8];
		for (int i = 0; i < nkeys; i++)
		{
			auto v = &values[map(refs_key[i])];
			if (v->type == TYPE_REF)
				v = &refs[v->integer];
			key[i] = v->type == TYPE_NULL ? identity : *v;
		}
		if (value_hash_keys(&primary->keys, NULL, key, NULL) != hash)
			v_bad("the key is searched in another partition than its row belongs to");
	}
	drop_kept(from);
	check_all(! error);
}

static void
op_update(void)
{
	int slot = v_int(1), to = v_int(2);
	int count = 0, from = keep_count;
	memset(values, 0, sizeof(values));
	for (int arg = 3; arg < v_argc; arg += 2)
	{
		int c = v_int(arg) - 1;
		int64_t k = v_int(arg + 1);
		value_set_int(&values[count * 2], map(c));
		auto value = &values[count * 2 + 1];
		auto column = column_at(map(c));
		if (k == -1) {
			auto cons = &column->constraints;
			value_data_decode(value, column, cons->value.start, buf_size(&cons->value));
		} else
			value_of(value, kinds[c], k, 0);
		count++;
	}
	Row* row = NULL;
	bool error = error_catch( row = row_update(heap, rows[slot], &table.config->columns, values, count) );
	if (! error)
	{
		if (slot == to)
			row_free(heap, rows[slot]);
		put(to, row);
	}
	drop_kept(from);
	check_all(! error);
}

static void
op_key(void)
{
	int count = v_argc - 1, from = keep_count;
	Value key[8];
	for (int i = 0; i < count; i++)
		value_of(&key[i], kinds[refs_key[i]], v_int(1 + i), 0);
	auto buf = buf_create();
	auto row = row_create_key(buf, &primary->keys, key, count);
	v_out("{\"ok\":true,\"key\":[");
	bool first = true;
	for (int s = 0; s < SLOTS; s++)
	{
		if (! rows[s])
			continue;
		int rc = compare(&primary->keys, rows[s], row);
		int cr = compare(&primary->keys, row, rows[s]);
		if ((rc > 0) - (rc < 0) != (cr < 0) - (cr > 0))
			v_bad("comparing a key with a row depends on which is first");
		v_out("%s%d", first ? "" : ",", (rc > 0) - (rc < 0));
		first = false;
	}
	if (count == nkeys && row_hash(row, &primary->keys) != value_hash_keys(&primary->keys, NULL, key, NULL))
		v_bad("the hash of a key row differs");
	if ((uint32_t)buf_size(buf) != row_size(row))
		v_bad("a key row of %d bytes says it has %d", (int)buf_size(buf), (int)row_size(row));
	v_out("],\"bad\":%s}", v_bad_json());
	buf_free(buf);
	drop_kept(from);
}

void
vmod_op(void)
{
	if (v_is("schema"))
		op_schema();
	else
	if (v_is("create"))
		op_create();
	else
	if (v_is("update"))
		op_update();
	else
	if (v_is("copy"))
	{
		put(v_int(2), row_copy(heap, rows[v_int(1)]));
		check_all(true);
	} else
	if (v_is("free"))
	{
		row_free(heap, rows[v_int(1)]);
		put(v_int(1), NULL);
		check_all(true);
	} else
	if (v_is("key"))
		op_key();
	else
		abort();
}
