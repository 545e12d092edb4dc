// Driver of the Seq specification (spec/Seq.tla): a table of two partitions with
// an identity column, kept in files and a log, and its sequence shared by threads.
#include "vdrv.h"
#include <amelie_value.h>
#include "value/row.c"
#include "vfault.h"
#include "vrow.h"
#include "vsched.h"

#define PARTS 2
#define THREADS 4
static Table        table;
static IndexConfig* primary;
static Volume*      volume;
static Storage      storage;
static Part*        parts[PARTS];
static PartArg      arg;
static Uuid         id_table;
static PartMapping  mapping;
static char         dir[300];
static bool         first_column;
static char         events[1 << 18];
static int          events_at;

// committed commands after the last checkpoint
typedef struct { bool del; Row* row; } Logged;
static Logged* cmds;
static int  cmds_count, cmds_max;

static void
note(const char* fmt, ...)
{
	if (events_at > (int)sizeof(events) - 512)
		return;
	va_list args;
	va_start(args, fmt);
	if (events_at)
		events[events_at++] = ',';
	events_at += vsnprintf(events + events_at, 500, fmt, args);
	va_end(args);
}

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

static Part*
make_part(int i)
{
	Id id;
	memset(&id, 0, sizeof(id));
	id.id     = i + 1;
	id.volume = volume;
	auto part = part_allocate(&id, &arg);
	part_index_create(part, primary);
	part->heap->header->hash_min = i ? PART_MAPPING_MAX / 2 : 0;
	part->heap->header->hash_max = i ? PART_MAPPING_MAX : PART_MAPPING_MAX / 2;
	return part;
}

static void
map_parts(void)
{
	part_mapping_init(&mapping, &primary->keys);
	for (int i = 0; i < PARTS; i++)
		part_mapping_add(&mapping, parts[i]);
}

static void
save(Part* part)
{
	File file;
	file_init(&file);
	defer(file_close, &file);
	heap_create(part->heap, &file, &part->id, STATE_INCOMPLETE);
	id_rename(&part->id, STATE_INCOMPLETE, STATE_COMPLETE);
}

void
vmod_begin(void)
{
	static int n;
	snprintf(dir, sizeof(dir), "%s/%d", vf_dir(), n++);
	__real_mkdir(dir, 0755);
	opt_string_set_raw(&state()->directory, dir, strlen(dir));
	opt_int_set(&config()->storage_crc, 1);
	opt_int_set(&config()->storage_sync, 0);
	memset(&table, 0, sizeof(table));
	memset(&storage, 0, sizeof(storage));
	table.config = table_config_allocate();
	sequence_init(&table.seq);
	auto columns = &table.config->columns;
	first_column = v_cfgi("first", 1);
	int size = v_cfgi("size", 8);
	if (! first_column)
		vcolumn_add(columns, "v", TYPE_STRING, 0);
	auto column = vcolumn_add(columns, "id", TYPE_INT, size);
	constraints_set_as_identity(&column->constraints, IDENTITY_SERIAL);
	if (first_column)
		vcolumn_add(columns, "v", TYPE_STRING, 0);
	columns_sync(columns);
	int refs[1] = { column->order };
	primary = vindex_config(columns, "pk", v_cfgi("hash", 0) ? INDEX_HASH : INDEX_TREE, true, true, 1, refs);

	storage.config = storage_config_allocate();
	volume = volume_allocate();
	volume->storage = &storage;
	volume->id = (Uuid){ 5, 9 };
	char path[PATH_MAX], uuid[UUID_SZ];
	uuid_get(&volume->id, uuid, sizeof(uuid));
	snprintf(path, sizeof(path), "%s/storage", dir);
	__real_mkdir(path, 0755);
	snprintf(path, sizeof(path), "%s/storage/%s", dir, uuid);
	__real_mkdir(path, 0755);
	memset(&arg, 0, sizeof(arg));
	arg.seq      = &table.seq;
	arg.id_table = &id_table;
	for (int i = 0; i < PARTS; i++) {
		parts[i] = make_part(i);
		save(parts[i]);
	}
	map_parts();
	events_at  = 0;
	cmds_count = 0;
	v_out("{}");
}

static void
close_all(void)
{
	for (int i = 0; i < PARTS; i++)
		part_free(parts[i]);
	part_mapping_free(&mapping);
	sequence_free(&table.seq);
}

static void
forget_log(void)
{
	while (cmds_count > 0)
		free(cmds[--cmds_count].row);
}

void
vmod_end(void)
{
	close_all();
	forget_log();
	storage_config_free(storage.config);
	volume_free(volume);
	index_config_free(primary);
	table_config_free(table.config);
	vf_rmtree(dir);
	v_out("{\"bad\":%s}", v_bad_json());
}

static void
logged(bool del, Row* row)
{
	if (cmds_count == cmds_max) {
		cmds_max = cmds_max * 2 + 64;
		cmds = realloc(cmds, cmds_max * sizeof(Logged));
	}
	auto copy = malloc(row_size(row));
	memcpy(copy, row, row_size(row));
	cmds[cmds_count++] = (Logged){ del, (Row*)copy };
}

static Value values[2];
static void
make_values(bool generate, int64_t id, int text)
{
	static char pad[2000];
	memset(pad, 'x', sizeof(pad));
	memset(values, 0, sizeof(values));
	Str s;
	str_set(&s, pad, text);
	if (! generate)
		value_set_int(&values[!first_column], id);
	value_set_string(&values[first_column], &s, NULL);
}

static int
insert(bool generate, int64_t* id, bool commit)
{
	static int sizes;
	make_values(generate, *id, (sizes++ * 37) % 400);
	Value identity;
	value_init(&identity);
	row_get_identity(&table, NULL, values, &identity);
	*id = identity.integer;
	auto hash = value_hash_row(&primary->keys, NULL, values, &identity) % PART_MAPPING_MAX;
	auto part = mapping.map[hash];
	auto row  = row_create(part->heap, &table.config->columns, values, NULL, &identity);
	Tr tr;
	tr_init(&tr);
	tr_begin(&tr);
	bool error = error_catch( part_insert(part, &tr, false, row) );
	if (error || !commit)
		tr_abort(&tr);
	else {
		logged(false, row);
		tr_commit(&tr);
	}
	tr_free(&tr);
	return error;
}

static bool
change(bool del, int64_t id, bool commit)
{
	auto buf = buf_create();
	defer_buf(buf);
	Value key;
	value_init(&key);
	value_set_int(&key, id);
	auto row  = row_create_key(buf, &primary->keys, &key, 1);
	auto part = part_mapping_map(&mapping, row);
	auto it = index_iterator(part_primary(part));
	defer(iterator_close, it);
	if (! iterator_open(it, row))
		return false;
	Tr tr;
	tr_init(&tr);
	tr_begin(&tr);
	if (del) {
		if (commit)
			logged(true, iterator_at(it));
		part_delete(part, &tr, it);
	} else
	{
		static int n;
		char text[64];
		snprintf(text, sizeof(text), "updated %d", n++);
		Value set[2];
		memset(set, 0, sizeof(set));
		value_set_int(&set[0], first_column);
		Str s;
		str_set_cstr(&s, text);
		value_set_string(&set[1], &s, NULL);
		auto to = row_update(part->heap, iterator_at(it), &table.config->columns, set, 1);
		part_update(part, &tr, it, to);
		if (commit)
			logged(false, to);
	}
	if (commit)
		tr_commit(&tr);
	else
		tr_abort(&tr);
	tr_free(&tr);
	return true;
}

static int
count_rows(void)
{
	int n = 0;
	for (int i = 0; i < PARTS; i++) {
		auto it = index_iterator(part_primary(parts[i]));
		iterator_open(it, NULL);
		for (; iterator_has(it); iterator_next(it))
			n++;
		iterator_close(it);
	}
	return n;
}

static void
restart(void)
{
	close_all();
	sequence_init(&table.seq);
	for (int i = 0; i < PARTS; i++) {
		parts[i] = make_part(i);
		part_open(parts[i]);
	}
	map_parts();
	// as the recovery replays the log
	Tr tr;
	tr_init(&tr);
	for (int i = 0; i < cmds_count; i++) {
		tr_reset(&tr);
		tr_begin(&tr);
		auto part = part_mapping_map(&mapping, cmds[i].row);
		if (cmds[i].del)
			part_delete_by(part, &tr, cmds[i].row);
		else
			part_insert(part, &tr, true, row_copy(part->heap, cmds[i].row));
		tr_commit(&tr);
	}
	tr_free(&tr);
}

// a partition is read again
static void
reload(int i)
{
	save(parts[i]);
	auto part = make_part(i);
	part_open(part);
	part_free(parts[i]);
	parts[i] = part;
	part_mapping_free(&mapping);
	map_parts();
}

// ---------------------------------------------------------------- threads
typedef struct { char kind; int64_t v; bool near; } Do;
typedef struct { Do list[64]; int count, id; Task task; } Worker;
static Worker workers[THREADS];
typedef struct { bool ret; int t; char kind; int64_t v; int call; } Happened;
static Happened hap[2048];
static int      hap_count;

__attribute__((disable_sanitizer_instrumentation, noinline)) static int
happened(bool ret, int t, char kind, int64_t v, int call)
{
	hap[hap_count] = (Happened){ ret, t, kind, v, call };
	if (ret)
		hap[call].v = v;
	return hap_count++;
}

static void
worker_main(void* arg)
{
	Worker* self = arg;
	for (int i = 0; i < self->count; i++)
	{
		auto at = &self->list[i];
		if (at->near)
			at->v += sequence_get(&table.seq);
		int  call = happened(false, self->id, at->kind, at->v, 0);
		int64_t v = at->v;
		if (at->kind == 'g')
		{
			Value row[2], identity;
			memset(row, 0, sizeof(row));
			value_init(&identity);
			row_get_identity(&table, NULL, row, &identity);
			v = identity.integer;
		} else
			sequence_sync(&table.seq, v);
		happened(true, self->id, at->kind, v, call);
	}
}

// threads <seed> <atomic> <plain> <g|v|+distance>.. / <g|v>.. / ..
static void
run_threads(void)
{
	int n = 0;
	memset(workers, 0, sizeof(workers));
	for (int a = 4; a < v_argc; a++)
	{
		auto s = v_str(a);
		if (*s == '/') {
			n++;
			continue;
		}
		auto at = &workers[n].list[workers[n].count++];
		at->kind = *s == 'g' ? 'g' : 's';
		at->v    = *s == 'g' ? 0 : atoll(s);
		at->near = *s == '+';
	}
	n++;
	hap_count = 0;
	vs_begin(v_int(1), v_int(2), v_int(3));
	for (int i = 0; i < n; i++) {
		workers[i].id = i + 1;
		task_init(&workers[i].task);
		task_create(&workers[i].task, "w", worker_main, &workers[i]);
	}
	for (int i = 0; i < n; i++)
		task_wait(&workers[i].task);
	vs_end();
	for (int i = 0; i < n; i++)
		task_free(&workers[i].task);
	for (int i = 0; i < hap_count; i++) {
		auto h = &hap[i];
		note("{\"e\":\"%s\",\"t\":%d,\"k\":\"%s\",\"v\":%" PRIi64 "}", h->ret ? "ret" : "call", h->t, h->kind == 'g' ? "take" : "observe", h->v);
	}
}

void
vmod_op(void)
{
	if (v_is("auto"))
	{
		int64_t id = 0;
		int error = insert(true, &id, v_int(1));
		note("{\"e\":\"auto\",\"v\":%" PRIi64 ",\"c\":%d,\"err\":%d}", id, (int)v_int(1), error);
	} else
	if (v_is("ins"))
	{
		int64_t id = v_int(1);
		int error = insert(false, &id, v_int(2));
		note("{\"e\":\"ins\",\"v\":%" PRIi64 ",\"c\":%d,\"err\":%d}", id, (int)v_int(2), error);
	} else
	if (v_is("upd") || v_is("del"))
	{
		if (change(v_is("del"), v_int(1), v_int(2)))
			note("{\"e\":\"%s\",\"v\":%" PRIi64 ",\"c\":%d}", v_argv[0], v_int(1), (int)v_int(2));
	} else
	if (v_is("ck"))
	{
		for (int i = 0; i < PARTS; i++)
			save(parts[i]);
		forget_log();
		note("{\"e\":\"ck\"}");
	} else
	if (v_is("restart"))
	{
		restart();
		note("{\"e\":\"restart\",\"rows\":%d}", count_rows());
	} else
	if (v_is("reload"))
	{
		// (both, so that the log begins anew)
		for (int i = 0; i < PARTS; i++)
			reload(i);
		forget_log();
		note("{\"e\":\"ck\"},{\"e\":\"reload\"}");
	} else
	if (v_is("observe"))
	{
		sequence_sync(&table.seq, v_int(1));
		note("{\"e\":\"call\",\"t\":1,\"k\":\"observe\",\"v\":%" PRIi64 "},{\"e\":\"ret\",\"t\":1}", v_int(1));
	} else
	if (v_is("threads"))
		run_threads();
	else
		abort();
	v_out("{\"events\":[%.*s],\"bad\":%s}", events_at, events, v_bad_json());
	events_at = 0;
}
