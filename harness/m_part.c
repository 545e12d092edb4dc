// Driver of the Part specification (spec/Part.tla): a table partition with a
// primary index, a unique and a non-unique secondary index, and an optional
// late index, run inside transactions.
#include "vdrv.h"
#include "vrow.h"

enum { C_ID, C_A, C_C, C_V, C_PAD, C_MAX };

static Columns      columns;
static IndexConfig* cfg_pk;
static IndexConfig* cfg_a;
static IndexConfig* cfg_c;
static IndexConfig* cfg_late;
static Part*        part;
static PartArg      arg;
static Sequence     seq;
static Uuid         id_table;
static Tr           tr;
static Tr*          cur;      // transaction of the next statement
static bool         pipe_mode;
static bool         active;
static int          kind_pk, kind_a;
static int64_t      at_key[64];     // spec key -> stored key
static int          keys_max;
static int64_t*     filler;
static int          filler_count, filler_size;
static int64_t      filler_next;
static int          churn;
static bool         late;

static inline int64_t k_of(int k) { return at_key[k]; }
static int
k_back(int64_t v)
{
	for (int i = 0; i <= keys_max; i++)
		if (at_key[i] == v)
			return i;
	return -1;
}
static inline int64_t a_of(int a) { return 100000 + a * 7; }
static inline int a_back(int64_t v) { return (v < 100000 || (v - 100000) % 7) ? -1 : (v - 100000) / 7; }

static Row*
make(Heap* heap, Buf* target, int64_t id, int64_t a, int64_t c, int64_t v, int pad)
{
	auto data = buf_create();
	defer_buf(data);
	int off[C_MAX];
	off[C_ID] = buf_size(data);  vkey_write(data, kind_pk, id);
	off[C_A]  = buf_size(data);  vkey_write(data, kind_a, a);
	off[C_C]  = buf_size(data);  int32_t c32 = c; buf_write(data, &c32, 4);
	off[C_V]  = buf_size(data);  buf_write(data, &v, 8);
	if (pad >= 0) {
		off[C_PAD] = buf_size(data);
		for (int i = 0; i < pad; i++) {
			uint8_t b = (uint8_t)(v * 31 + i);
			buf_write(data, &b, 1);
		}
	} else
		off[C_PAD] = -1;
	return vrow_build(heap, target, C_MAX, data, off);
}

static int pad_of(int v) { return (v % 3 == 0) ? -1 : (v % 3) * (int)v_cfgi("pad", 40); }

static Row* make_spec(Heap* heap, Buf* target, int k, int a, int v)
{
	return make(heap, target, k_of(k), a_of(a), (k + a) % 2, v, pad_of(v));
}
static Row* make_filler(int64_t key)
{
	return make(part->heap, NULL, key, 10000000 + key, 5, key, 8);
}

static bool
row_check(Row* row)
{
	// the whole row image must be intact
	int64_t v = *(int64_t*)row_at(row, C_V);
	auto pad = (uint8_t*)row_at(row, C_PAD);
	int  n   = *(int32_t*)row_at(row, C_C) == 5 ? 8 : pad_of(v);
	if (n < 0)
		return pad == NULL;
	for (int i = 0; i < n; i++)
		if (pad[i] != (uint8_t)(v * 31 + i))
			return false;
	return true;
}

typedef struct { int k, a, v; } Spec;
static Spec spec[256];
static int  spec_count;
static int64_t fill_sum;
static int     fill_seen;

static void
collect_begin(void) { spec_count = 0; fill_sum = 0; fill_seen = 0; }
static void
collect(Row* row, const char* name)
{
	int64_t id = vkey_read(row_at(row, C_ID), kind_pk);
	if (! row_check(row))
		v_bad("%s: row %lld damaged", name, (long long)id);
	if (row->is_delete)
		v_bad("%s: delete mark on row %lld", name, (long long)id);
	int k = k_back(id);
	if (k < 0) {
		fill_seen++;
		fill_sum += id * 2654435761 ^ id;
		return;
	}
	int64_t a = vkey_read(row_at(row, C_A), kind_a);
	if (spec_count < 256)
		spec[spec_count++] = (Spec){ k, a_back(a), (int)*(int64_t*)row_at(row, C_V) };
}
static int by_k(const void* a, const void* b) { return ((Spec*)a)->k - ((Spec*)b)->k; }
static void
collect_end(const char* name, bool sort)
{
	int64_t sum = 0;
	for (int i = 0; i < filler_count; i++)
		sum += filler[i] * 2654435761 ^ filler[i];
	if (fill_seen != filler_count || sum != fill_sum)
		v_bad("%s: %d untouched rows seen instead of %d", name, fill_seen, filler_count);
	if (sort)
		qsort(spec, spec_count, sizeof(Spec), by_k);
	v_out("\"%s\":[", name);
	for (int i = 0; i < spec_count; i++)
		v_out("%s[%d,%d,%d]", i ? "," : "", spec[i].k, spec[i].a, spec[i].v);
	v_out("],");
}

static void
dump_index(Index* index, const char* name)
{
	collect_begin();
	auto it = index_iterator(index);
	defer(iterator_close, it);
	iterator_open(it, NULL);
	Row* prev = NULL;
	int  guard = 0;
	while (iterator_has(it))
	{
		auto row = iterator_at(it);
		if (prev && index->config->type == INDEX_TREE &&
		    compare(index_keys(index), prev, row) >= 0)
			v_bad("%s: scan not in order", name);
		prev = row;
		collect(row, name);
		iterator_next(it);
		if (++guard > filler_count + 1000) {
			v_bad("%s: endless scan", name);
			break;
		}
	}
	// unordered indexes, and orders not by the primary key, are sorted here
	collect_end(name, true);
}

static void
dump_lookup(Index* index, const char* name)
{
	// point lookups of every key
	v_out("\"%s\":[", name);
	auto buf = buf_create();
	defer_buf(buf);
	int count = 0;
	for (int k = 1; k <= keys_max; k++)
	{
		buf_reset(buf);
		auto key = make_spec(NULL, buf, k, 1, 0);
		auto it = index_iterator(index);
		bool match = iterator_open(it, key);
		if (match)
		{
			auto row = iterator_at(it);
			v_out("%s[%d,%d,%d]", count++ ? "," : "",
			      k_back(vkey_read(row_at(row, C_ID), kind_pk)),
			      a_back(vkey_read(row_at(row, C_A), kind_a)),
			      (int)*(int64_t*)row_at(row, C_V));
		}
		iterator_close(it);
	}
	v_out("],");
}

static void
dump_lookup_a(Index* index, const char* name)
{
	auto buf = buf_create();
	defer_buf(buf);
	spec_count = 0;
	for (int a = 1; a <= keys_max; a++)
	{
		buf_reset(buf);
		auto key = make_spec(NULL, buf, 1, a, 0);
		auto it = index_iterator(index);
		if (iterator_open(it, key))
		{
			auto row = iterator_at(it);
			if (vkey_read(row_at(row, C_A), kind_a) != a_of(a))
				v_bad("%s: lookup returned another key", name);
			spec[spec_count++] = (Spec){
			      k_back(vkey_read(row_at(row, C_ID), kind_pk)), a,
			      (int)*(int64_t*)row_at(row, C_V) };
		}
		iterator_close(it);
	}
	qsort(spec, spec_count, sizeof(Spec), by_k);
	v_out("\"%s\":[", name);
	for (int i = 0; i < spec_count; i++)
		v_out("%s[%d,%d,%d]", i ? "," : "", spec[i].k, spec[i].a, spec[i].v);
	v_out("],");
}

static void
dump_heap(void)
{
	collect_begin();
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, part->heap, NULL);
	while (heap_iterator_has(&it))
	{
		collect(heap_iterator_at(&it), "heap");
		heap_iterator_next(&it);
	}
	collect_end("heap", true);
}

static void
dump_redo(void)
{
	// decode what the transaction contributes to the log
	auto wl = &cur->log.write_log;
	v_out("\"redo\":[");
	auto meta = (RecordCmd*)wl->meta.start;
	int  cmds = buf_size(&wl->meta) / sizeof(RecordCmd);
	auto vec  = iov_pointer(&wl->iov);
	int  at = 0, n = 0;
	size_t total = 0;
	for (int i = 0; i < cmds; i++)
	{
		auto cmd = &meta[i];
		if (! uuid_is(&cmd->id, &id_table))
			v_bad("redo: wrong table");
		size_t left = cmd->size;
		uint32_t crc = 0;
		while (left > 0)
		{
			if (at >= wl->iov.iov_count || vec[at].iov_len > left) {
				v_bad("redo: command size does not match its rows");
				break;
			}
			auto row = (Row*)vec[at].iov_base;
			if (vec[at].iov_len != row_size(row))
				v_bad("redo: size of row");
			crc = runtime()->crc(crc, row, row_size(row));
			v_out("%s[\"%s\",%d,%d,%d]", n++ ? "," : "",
			      cmd->cmd == CMD_REPLACE ? "put" : cmd->cmd == CMD_DELETE ? "del" : "?",
			      k_back(vkey_read(row_at(row, C_ID), kind_pk)),
			      a_back(vkey_read(row_at(row, C_A), kind_a)),
			      (int)*(int64_t*)row_at(row, C_V));
			left -= vec[at].iov_len;
			total += vec[at].iov_len;
			at++;
		}
		if (opt_int_of(&config()->wal_crc) && crc != cmd->crc)
			v_bad("redo: checksum");
	}
	if (at != wl->iov.iov_count)
		v_bad("redo: rows outside of any command");
	if (total != wl->iov.size)
		v_bad("redo: total size");
	v_out("],");
}

static void
observe(const char* res, bool failed)
{
	v_out("{\"res\":\"%s\",", res);
	if (! failed)
	{
		dump_index(part_primary(part), "pk");
		dump_lookup(part_primary(part), "pk_get");
		auto index = part_primary(part)->next;
		dump_index(index, "a");
		dump_lookup_a(index, "a_get");
		dump_index(index->next, "c");
		if (late) {
			dump_index(index->next->next, "late");
			dump_lookup_a(index->next->next, "late_get");
		}
		if (pipe_mode) {
			if (! part->track.prepared.list_count)
				dump_heap();
		} else
		if (active)
			dump_redo();
		else
			dump_heap();
	}
	v_out("\"bad\":%s}", v_bad_json());
}

static void
fill(int64_t key)
{
	Tr t;
	tr_init(&t);
	tr_begin(&t);
	part_insert(part, &t, false, make_filler(key));
	tr_commit(&t);
	tr_free(&t);
	if (filler_count == filler_size)
	{
		filler_size = filler_size ? filler_size * 2 : 1024;
		filler = realloc(filler, filler_size * sizeof(int64_t));
	}
	filler[filler_count++] = key;
}

static void
unfill(int pos)
{
	auto buf = buf_create();
	defer_buf(buf);
	auto key = make(NULL, buf, filler[pos], 0, 5, filler[pos], 8);
	auto it = index_iterator(part_primary(part));
	defer(iterator_close, it);
	if (! iterator_open(it, key)) {
		v_bad("lookup of untouched row %lld failed", (long long)filler[pos]);
		return;
	}
	Tr t;
	tr_init(&t);
	tr_begin(&t);
	part_delete(part, &t, it);
	tr_commit(&t);
	tr_free(&t);
	filler[pos] = filler[--filler_count];
}

static uint64_t rnd;
static uint32_t rnd_next(void) { rnd = rnd * 6364136223846793005ull + 1442695040888963407ull; return rnd >> 33; }

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

static int itype(const char* s) { return strcmp(s, "hash") ? INDEX_TREE : INDEX_HASH; }

void
vmod_begin(void)
{
	kind_pk = vkey_kind(v_cfg("kt", "i64"));
	kind_a  = vkey_kind(v_cfg("kta", "i64"));
	keys_max = v_cfgi("keys", 2);
	opt_int_set(&config()->wal_crc, v_cfgi("crc", 1));
	columns_init(&columns);
	vkey_column(&columns, "id", kind_pk);
	vkey_column(&columns, "a", kind_a);
	vcolumn_add(&columns, "c", TYPE_INT, 4);
	vcolumn_add(&columns, "v", TYPE_INT, 8);
	vcolumn_add(&columns, "pad", TYPE_STRING, 0);
	cfg_pk   = vindex_config(&columns, "pk", itype(v_cfg("pk", "tree")), true, true, 1, (int[]){C_ID});
	cfg_a    = vindex_config(&columns, "idx_a", itype(v_cfg("sa", "tree")), true, false, 1, (int[]){C_A});
	cfg_c    = vindex_config(&columns, "idx_c", itype(v_cfg("sc", "tree")), false, false, 2, (int[]){C_C, C_ID});
	cfg_late = vindex_config(&columns, "idx_late", itype(v_cfg("sl", "hash")), true, false, 1, (int[]){C_A});
	sequence_init(&seq);
	id_table = (Uuid){ 77, 88 };
	arg.seq      = &seq;
	arg.unlogged = v_cfgi("unlogged", 0);
	arg.id_table = &id_table;
	Id id;
	memset(&id, 0, sizeof(id));
	part = part_allocate(&id, &arg);
	part_index_create(part, cfg_pk);
	part_index_create(part, cfg_a);
	part_index_create(part, cfg_c);
	tr_init(&tr);
	cur = &tr;
	pipe_mode = v_cfgi("pipe", 0);
	active = false;
	late   = false;
	filler_count = 0;
	churn = v_cfgi("churn", 0);
	rnd = v_cfgi("seed", 1) * 7919 + 13;

	// spec keys are odd, untouched rows are even; at=.. gives the places
	// of the spec keys among the untouched rows
	int fillers = v_cfgi("fill", 0);
	at_key[0] = -1000001;
	for (int k = 1; k <= keys_max; k++)
		at_key[k] = 2 * ((int64_t)k * (fillers + 1) / (keys_max + 1) + k) + 1;
	char at[256];
	snprintf(at, sizeof(at), "%s", v_cfg("at", ""));
	char* save = NULL;
	int k = 1;
	for (char* t = strtok_r(at, ",", &save); t && k <= keys_max; t = strtok_r(NULL, ",", &save), k++)
		at_key[k] = 2 * strtol(t, NULL, 10) + 1;

	auto order = v_cfg("order", "asc");
	filler_next = fillers;
	if (! strcmp(order, "rand"))
	{
		int* p = malloc(sizeof(int) * (fillers + 1));
		for (int i = 0; i < fillers; i++)
			p[i] = i;
		for (int i = fillers - 1; i > 0; i--) {
			int j = rnd_next() % (i + 1);
			int x = p[i]; p[i] = p[j]; p[j] = x;
		}
		for (int i = 0; i < fillers; i++)
			fill(2 * p[i]);
		free(p);
	} else
		for (int i = 0; i < fillers; i++)
			fill(2 * (! strcmp(order, "desc") ? fillers - 1 - i : i));
	int drop = v_cfgi("drop", 0);
	for (int i = 0; i < drop && filler_count; i++)
		unfill(rnd_next() % filler_count);
	observe("ok", false);
}

void
vmod_end(void)
{
	if (pipe_mode)
		tr_abort_list(&part->track.prepared, &part->track.cache, UINT64_MAX);
	if (active)
		tr_abort(&tr);
	active = false;
	tr_free(&tr);
	part_free(part);
	index_config_free(cfg_pk);
	index_config_free(cfg_a);
	index_config_free(cfg_c);
	index_config_free(cfg_late);
	columns_free(&columns);
	sequence_free(&seq);
	v_out("{\"bad\":%s}", v_bad_json());
}

static const char* result;

static void
do_churn(void)
{
	for (int i = 0; i < churn; i++)
	{
		if (rnd_next() % 3 == 0 && filler_count)
			unfill(rnd_next() % filler_count);
		else
			fill(2 * filler_next++);
	}
}

static void
do_op(void)
{
	result = "ok";
	auto primary = part_primary(part);
	if (v_is("begin_tr")) {
		tr_begin(&tr);
		active = true;
	} else
	if (v_is("p_begin")) {
		// as the partition's worker prepares a transaction
		auto track = &part->track;
		cur = tr_create(&track->cache);
		if (tr_active(cur) || !tr_read_only(cur) || tr_persists(cur))
			v_bad("a reused transaction is not empty");
		tr_begin(cur);
		tr_set_id(cur, track->seq++);
		tr_list_add(&track->prepared, cur);
	} else
	if (v_is("p_sync")) {
		Consensus consensus;
		consensus_init(&consensus);
		consensus.commit = v_int(1);
		consensus.abort  = v_int(2);
		track_sync(&part->track, &consensus);
		do_churn();
	} else
	if (v_is("insert"))
		part_insert(part, cur, false, make_spec(part->heap, NULL, v_int(1), v_int(2), v_int(3)));
	else
	if (v_is("replace"))
		part_insert(part, cur, true, make_spec(part->heap, NULL, v_int(1), v_int(2), v_int(3)));
	else
	if (v_is("upsert")) {
		auto it = index_iterator(primary);
		defer(iterator_close, it);
		auto row = make_spec(part->heap, NULL, v_int(1), v_int(2), v_int(3));
		if (part_upsert(part, cur, it, row)) {
			result = "exists";
			auto at = iterator_at(it);
			if (k_back(vkey_read(row_at(at, C_ID), kind_pk)) != v_int(1))
				v_bad("upsert: positioned on another row");
			if (v_int(4))
				part_update(part, cur, it, make_spec(part->heap, NULL, v_int(1),
				            a_back(vkey_read(row_at(at, C_A), kind_a)), v_int(3)));
		} else {
			result = "inserted";
			if (iterator_at(it) != row)
				v_bad("upsert: not positioned on the new row");
		}
	} else
	if (v_is("update") || v_is("delete")) {
		auto buf = buf_create();
		defer_buf(buf);
		auto key = make_spec(NULL, buf, v_int(1), 1, 0);
		auto it = index_iterator(primary);
		defer(iterator_close, it);
		if (! iterator_open(it, key))
			result = "none";
		else
		if (v_is("delete"))
			part_delete(part, cur, it);
		else
			part_update(part, cur, it, make_spec(part->heap, NULL, v_int(1),
			            a_back(vkey_read(row_at(iterator_at(it), C_A), kind_a)), v_int(2)));
	} else
	if (v_is("delete_by")) {
		auto buf = buf_create();
		defer_buf(buf);
		part_delete_by(part, cur, make_spec(NULL, buf, v_int(1), v_int(2), v_int(3)));
	} else
	if (v_is("delete_from") || v_is("update_from")) {
		// a scan from a key (ordered) or of everything (hash)
		auto buf = buf_create();
		defer_buf(buf);
		auto tree = primary->config->type == INDEX_TREE;
		auto key = make_spec(NULL, buf, v_int(1), 1, 0);
		auto it = index_iterator(primary);
		defer(iterator_close, it);
		iterator_open(it, tree ? key : NULL);
		for (; iterator_has(it); iterator_next(it)) {
			auto row = iterator_at(it);
			int  k = k_back(vkey_read(row_at(row, C_ID), kind_pk));
			if (k < v_int(1))
				continue;
			if (v_is("delete_from"))
				part_delete(part, cur, it);
			else
				part_update(part, cur, it, make_spec(part->heap, NULL, k,
				            a_back(vkey_read(row_at(row, C_A), kind_a)), v_int(2)));
		}
	} else
	if (v_is("commit"))
		tr_commit(&tr);
	else
	if (v_is("abort"))
		tr_abort(&tr);
	else
	if (v_is("index_create")) {
		part_index_create(part, cfg_late);
		late = true;
		auto index = part_index_find(part, &cfg_late->name, true);
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, part->heap, NULL);
		for (; heap_iterator_has(&it); heap_iterator_next(&it))
			if (index_replace_by(index, heap_iterator_at(&it)))
				v_bad("index_create: duplicate");
	} else
	if (v_is("index_drop")) {
		part_index_drop(part, &cfg_late->name);
		late = false;
	} else {
		fprintf(stderr, "driver: unknown operation %s\n", v_argv[0]);
		_exit(3);
	}
}

void
vmod_op(void)
{
	if (v_is("commit"))
	{
		// what is about to be logged
		v_out("{\"at_commit\":{");
		dump_redo();
		v_out("\"x\":0},\"state\":");
		tr_commit(&tr);
		active = false;
		do_churn();
		observe("ok", false);
		v_out("}");
		return;
	}
	if (error_catch( do_op() ))
	{
		observe("error", true);
		return;
	}
	if (v_is("abort")) {
		active = false;
		do_churn();
	}
	observe(result, false);
}
