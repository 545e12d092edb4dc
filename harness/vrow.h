#pragma once
// Row building shared by the drivers (only public row/column functions).

static inline Column*
vcolumn_add(Columns* columns, const char* name, int type, int type_size)
{
	auto column = column_allocate();
	Str s;
	str_set_cstr(&s, (char*)name);
	column_set_name(column, &s);
	column_set_type(column, type, type_size);
	columns_add(columns, column);
	return column;
}

static inline void
vkey_add(Keys* keys, int ref)
{
	auto key = key_allocate();
	key_set_ref(key, ref);
	keys_add(keys, key);
}

static inline IndexConfig*
vindex_config(Columns* columns, const char* name, int type, bool unique, bool primary,
              int count, int* refs)
{
	auto config = index_config_allocate(columns);
	Str s;
	str_set_cstr(&s, (char*)name);
	index_config_set_name(config, &s);
	index_config_set_type(config, type);
	index_config_set_unique(config, unique);
	index_config_set_primary(config, primary);
	if (primary)
		keys_set_primary(&config->keys, true);
	for (int i = 0; i < count; i++)
		vkey_add(&config->keys, refs[i]);
	return config;
}

// key kinds
enum { VK_I32, VK_I64, VK_UUID, VK_STR };

static inline int
vkey_kind(const char* name)
{
	if (! strcmp(name, "i32"))  return VK_I32;
	if (! strcmp(name, "uuid")) return VK_UUID;
	if (! strcmp(name, "str"))  return VK_STR;
	return VK_I64;
}

static inline void
vkey_column(Columns* columns, const char* name, int kind)
{
	switch (kind) {
	case VK_I32:  vcolumn_add(columns, name, TYPE_INT, 4); break;
	case VK_UUID: vcolumn_add(columns, name, TYPE_UUID, sizeof(Uuid)); break;
	case VK_STR:  vcolumn_add(columns, name, TYPE_STRING, 0); break;
	default:      vcolumn_add(columns, name, TYPE_INT, 8); break;
	}
}

// key values: an order preserving image of an integer, negative values included
static inline void
vkey_write(Buf* buf, int kind, int64_t value)
{
	switch (kind) {
	case VK_I32: {
		int32_t v = (int32_t)value;
		buf_write(buf, &v, sizeof(v));
		break;
	}
	case VK_UUID: {
		// order decided by either half
		Uuid u;
		uint64_t k = (uint64_t)(value + 1000000);
		u.a = (k / 3) << 33;
		u.b = (k % 3) << 62 | (k % 3);
		buf_write(buf, &u, sizeof(u));
		break;
	}
	case VK_STR: {
		char text[64];
		int  len = snprintf(text, sizeof(text), "%08d", (int)(value + 1000000));
		if (value % 3 == 0)
			len += snprintf(text + len, sizeof(text) - len, "_a_rather_long_key_suffix_%d", (int)(value & 7));
		Str s;
		str_set(&s, text, len);
		encode_string(buf, &s);
		break;
	}
	default:
		buf_write(buf, &value, sizeof(value));
		break;
	}
}

static inline int64_t
vkey_read(uint8_t* pos, int kind)
{
	switch (kind) {
	case VK_I32:
		return *(int32_t*)pos;
	case VK_UUID: {
		auto u = (Uuid*)pos;
		return (int64_t)((u->a >> 33) * 3 + (u->b & 3)) - 1000000;
	}
	case VK_STR: {
		Str s;
		json_read_string(&pos, &s);
		char text[16] = {0};
		memcpy(text, str_of(&s), str_size(&s) < 8 ? str_size(&s) : 8);
		return strtol(text, NULL, 10) - 1000000;
	}
	}
	return *(int64_t*)pos;
}

// finish: values[i] = offset into data of column i, or -1
static inline Row*
vrow_build(Heap* heap, Buf* target, int columns, Buf* data, int* offsets)
{
	Row* row;
	if (heap)
		row = row_allocate(heap, columns, buf_size(data));
	else
		row = row_allocate_buf(target, columns, buf_size(data));
	auto at = (uint8_t*)row_data(row, columns);
	memcpy(at, data->start, buf_size(data));
	for (int i = 0; i < columns; i++)
	{
		if (offsets[i] < 0)
			row_set_null(row, i);
		else
			row_set(row, i, at - (uint8_t*)row + offsets[i]);
	}
	return row;
}
