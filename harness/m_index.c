// Driver of the Index specification (spec/Index.tla).
#include "vdrv.h"
#include "vrow.h"

#define BLOCKS 8
#define PARTS  16

static Columns      columns;
static IndexConfig* config_;
static Index*       index_[PARTS];
static int          parts, B, mid, kind, place, tree, composite;
static const char*  order;
static Row**        rows;
static int          rows_count, rows_size;
static uint64_t     rnd;
static uint32_t rnd_next(void) { rnd = rnd * 6364136223846793005ull + 1442695040888963407ull; return rnd >> 33; }

// row keys: blocks are separated by gaps, all keys are even
static inline int64_t key_of(int b, int off) { return ((int64_t)b * (B + 4) + off) * 2 - 3 * B; }

// composite keys: (first, second) with an order that agrees with the number
static Row*
make(int64_t key, int64_t v)
{
	auto data = buf_create();
	defer_buf(data);
	int off[3];
	if (composite) {
		// split so that both columns decide comparisons
		int64_t q = key >= 0 ? key / 8 : -((-key + 7) / 8);
		int64_t r = key - q * 8;
		off[0] = buf_size(data); vkey_write(data, kind, q);
		off[1] = buf_size(data); vkey_write(data, VK_I32, r - 4);
	} else {
		off[0] = buf_size(data); vkey_write(data, kind, key);
		off[1] = -1;
	}
	off[2] = buf_size(data); buf_write(data, &v, 8);
	auto tmp = buf_create();
	defer_buf(tmp);
	auto row = vrow_build(NULL, tmp, 3, data, off);
	auto copy = (Row*)malloc(row_size(row));
	memcpy(copy, row, row_size(row));
	if (rows_count == rows_size)
	{
		rows_size = rows_size ? rows_size * 2 : 4096;
		rows = realloc(rows, rows_size * sizeof(Row*));
	}
	rows[rows_count++] = copy;
	return copy;
}
static int64_t
vrowkey(Row* row)
{
	int64_t q = vkey_read(row_at(row, 0), kind);
	if (composite)
		return q * 8 + *(int32_t*)row_at(row, 1) + 4;
	return q;
}
static int64_t ver_read(Row* row) { return *(int64_t*)row_at(row, 2); }
static bool
decode(Row* row, int* b, int* off)
{
	int64_t k = vrowkey(row) + 3 * B;
	if (k & 1)
		return false;
	k /= 2;
	*b   = k / (B + 4);
	*off = k % (B + 4);
	return *b >= 1 && *b < BLOCKS && *off >= 0 && *off < B;
}

static Index*
route(int b, int off)
{
	switch (place) {
	case 0:  return index_[b % parts];
	case 1:  return index_[(b * B + off) % parts];
	case 2:  return index_[(uint32_t)((b * 7919 + off) * 2654435761u >> 16) % parts];
	default: return index_[off * parts / B]; // contiguous ranges
	}
}

// order of row changes inside a block
static int perm[1 << 16];
static void
make_perm(void)
{
	for (int i = 0; i < B; i++)
		perm[i] = !strcmp(order, "desc") ? B - 1 - i : i;
	if (! strcmp(order, "rand"))
		for (int i = B - 1; i > 0; i--)
		{
			int j = rnd_next() % (i + 1);
			int x = perm[i]; perm[i] = perm[j]; perm[j] = x;
		}
	if (! strcmp(order, "inout"))
		for (int i = 0; i < B; i++)
			perm[i] = i & 1 ? B - 1 - i / 2 : i / 2;
}

static int  hist[2][16]; // parity, version -> count
static void hist_reset(void) { memset(hist, 0, sizeof(hist)); }
static void
hist_add(Row* row, int b, int off)
{
	int rb, roff;
	if (! decode(row, &rb, &roff) || rb != b || roff != off)
		v_bad("row of another key returned (block %d row %d)", b, off);
	int64_t v = ver_read(row);
	if (v < 1 || v > 15)
		v_bad("damaged row");
	else
		hist[off & 1][v]++;
}
static void
hist_out(void)
{
	v_out("{\"prev\":[");
	for (int p = 0; p < 2; p++)
	{
		v_out("%s{", p ? "," : "");
		int n = 0;
		for (int v = 1; v < 16; v++)
			if (hist[p][v])
				v_out("%s\"%d\":%d", n++ ? "," : "", v, hist[p][v]);
		v_out("}");
	}
	v_out("],\"bad\":%s}", v_bad_json());
}

void vmod_main(int argc, char** argv) { unused(argc); unused(argv); }

void
vmod_begin(void)
{
	tree      = strcmp(v_cfg("type", "tree"), "hash") != 0;
	kind      = vkey_kind(v_cfg("kt", "i64"));
	B         = v_cfgi("b", 300) & ~1;
	parts     = v_cfgi("parts", 1);
	place     = v_cfgi("place", 0);
	composite = v_cfgi("comp", 0);
	order     = v_cfg("order", "asc");
	mid       = v_cfgi("mid", B / 2) | 1;
	rnd       = v_cfgi("seed", 1);
	columns_init(&columns);
	vkey_column(&columns, "k", kind);
	vcolumn_add(&columns, "k2", TYPE_INT, 4);
	vcolumn_add(&columns, "v", TYPE_INT, 8);
	config_ = vindex_config(&columns, "pk", tree ? INDEX_TREE : INDEX_HASH, true, true,
	                        composite ? 2 : 1, (int[]){0, 1});
	for (int i = 0; i < parts; i++)
		index_[i] = tree ? index_tree_allocate(config_, NULL) : index_hash_allocate(config_, NULL);
	rows_count = 0;
	v_out("{}");
}

void
vmod_end(void)
{
	for (int i = 0; i < parts; i++)
		index_free(index_[i]);
	for (int i = 0; i < rows_count; i++)
		free(rows[i]);
	rows_count = 0;
	index_config_free(config_);
	columns_free(&columns);
	v_out("{}");
}

static void
scan(int b, const char* where)
{
	Row* key = NULL;
	if (b && tree)
	{
		int off = 0;
		if (! strcmp(where, "mid"))  off = mid;
		if (! strcmp(where, "last")) off = B - 1;
		int64_t k = key_of(b, off);
		if (! strcmp(where, "before")) k = key_of(b, 0) - 3;
		if (! strcmp(where, "after"))  k = key_of(b, B - 1) + 1;
		key = make(k, 0);
	}
	Iterator* it = NULL;
	if (parts == 1 && !v_cfgi("merge", 0))
		it = index_iterator(index_[0]);
	else
		for (int i = 0; i < parts; i++)
			it = index_iterator_merge(index_[i], it);
	defer(iterator_close, it);
	bool match = iterator_open(it, key);
	if (b && !tree)
		match = false;

	// run lengths per block: [block, first offset, evens{}, odds{}]
	int64_t last = INT64_MIN;
	int     first_off = -1;
	int     count_b[BLOCKS][2][4] = {{{0}}};
	int     start_off[BLOCKS];
	int     guard = 0;
	for (int i = 0; i < BLOCKS; i++)
		start_off[i] = -1;
	static uint8_t* seen;
	seen = realloc(seen, BLOCKS * (B + 4));
	memset(seen, 0, BLOCKS * (B + 4));
	for (; iterator_has(it); iterator_next(it))
	{
		auto row = iterator_at(it);
		if (++guard > BLOCKS * (B + 4)) {
			v_bad("endless scan");
			break;
		}
		int rb, off;
		if (! decode(row, &rb, &off)) {
			v_bad("row with a foreign key in scan");
			continue;
		}
		if (seen[rb * (B + 4) + off]++)
			v_bad("block %d row %d returned twice", rb, off);
		int64_t k = vrowkey(row);
		if (tree && k <= last)
			v_bad("not in key order at block %d row %d", rb, off);
		last = k;
		if (start_off[rb] == -1 || off < start_off[rb])
			start_off[rb] = off;
		int64_t v = ver_read(row);
		if (v < 1 || v > 3)
			v_bad("damaged row");
		else
			count_b[rb][off & 1][v]++;
		unused(first_off);
	}
	v_out("{\"match\":%s,\"rows\":[", match ? "true" : "false");
	int n = 0;
	for (int i = 1; i < BLOCKS; i++)
	{
		if (start_off[i] == -1)
			continue;
		v_out("%s[%d,%d,[%d,%d,%d],[%d,%d,%d]]", n++ ? "," : "", i, start_off[i],
		      count_b[i][0][1], count_b[i][0][2], count_b[i][0][3],
		      count_b[i][1][1], count_b[i][1][2], count_b[i][1][3]);
	}
	v_out("],\"bad\":%s}", v_bad_json());
}

void
vmod_op(void)
{
	hist_reset();
	if (v_is("scan")) {
		scan(v_int(1), v_str(2));
		return;
	}
	if (v_is("scan_all")) {
		scan(0, "");
		return;
	}
	if (v_is("truncate")) {
		for (int i = 0; i < parts; i++)
			index_truncate(index_[i]);
		v_out("{\"bad\":%s}", v_bad_json());
		return;
	}
	int b = v_int(1);
	make_perm();
	bool half = v_is("put_half") || v_is("delete_half");
	int  keep = half ? (v_is("put_half") ? v_int(3) : v_int(2)) - 1 : -1;
	if (v_is("iter_delete") || v_is("iter_replace"))
	{
		bool del = v_is("iter_delete");
		if (tree)
		{
			// one range scan per partition
			for (int i = 0; i < parts; i++)
			{
				auto it = index_iterator(index_[i]);
				defer(iterator_close, it);
				iterator_open(it, make(key_of(b, 0) - 1, 0));
				while (iterator_has(it))
				{
					auto row = iterator_at(it);
					int rb, off;
					if (! decode(row, &rb, &off) || rb != b)
						break;
					auto prev = del ? index_delete(index_[i], it)
					                : index_replace(index_[i], make(key_of(b, off), v_int(2)), it);
					if (prev != row)
						v_bad("iterator change returned another row");
					hist_add(row, b, off);
					iterator_next(it);
				}
			}
		} else
		{
			// full scan with a filter
			for (int i = 0; i < parts; i++)
			{
				auto it = index_iterator(index_[i]);
				defer(iterator_close, it);
				iterator_open(it, NULL);
				for (; iterator_has(it); iterator_next(it))
				{
					auto row = iterator_at(it);
					int rb, off;
					if (! decode(row, &rb, &off) || rb != b)
						continue;
					auto prev = del ? index_delete(index_[i], it)
					                : index_replace(index_[i], make(key_of(b, off), v_int(2)), it);
					if (prev != row)
						v_bad("iterator change returned another row");
					hist_add(row, b, off);
				}
			}
		}
		hist_out();
		return;
	}
	for (int i = 0; i < B; i++)
	{
		int off = perm[i];
		if (keep != -1 && (off & 1) != keep)
			continue;
		auto index = route(b, off);
		Row* prev = NULL;
		if (v_is("put") || v_is("put_half"))
			prev = index_replace_by(index, make(key_of(b, off), v_int(2)));
		else
		if (v_is("delete") || v_is("delete_half"))
			prev = index_delete_by(index, make(key_of(b, off), 0));
		else
		if (v_is("get") || v_is("upsert"))
		{
			auto it = index_iterator(index);
			auto key = make(key_of(b, off), v_is("get") ? 9 : v_int(2));
			bool match = v_is("get") ? iterator_open(it, key) : index_upsert(index, key, it);
			if (match || v_is("upsert"))
			{
				auto at = iterator_at(it);
				if (! at)
					v_bad("no row at the position of a key that was found or stored");
				else
				if (! match && at != key)
					v_bad("not positioned on the stored row");
				else
				if (match)
					prev = at;
			}
			iterator_close(it);
		} else {
			fprintf(stderr, "driver: unknown operation %s\n", v_argv[0]);
			_exit(3);
		}
		if (prev)
			hist_add(prev, b, off);
	}
	hist_out();
}
