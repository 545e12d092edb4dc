// Driver of the Parts specification (spec/Parts.tla): the partition map and the
// files of the partitions, with crashes while they are created and removed.
#include "vdrv.h"
#include <amelie_value.h>
#include "value/row.c"
#include "vfault.h"
#include "vrow.h"

#define VOLS 4
static char          dir[300];
static StorageConfig* storages[VOLS];
static StorageMgr    storage_mgr;
static TierMgr       tier_mgr;
static PartMgrConfig part_config;
static PartArg       part_arg;
static Uuid          table_id;
static Sequence      seq;
static Columns       columns;
static IndexConfig*  pk;
static List          index_list;
static PartMgr       mgr;
static bool          is_open;
static int           vols, parts_count, crash_cut;
static int64_t       keys_count;
static int           kind;

enum { KIND_I32, KIND_I64, KIND_TS, KIND_UUID, KIND_STR, KIND_MIX, KIND_MAX };

static void
attach(PartMgr* self)
{
	list_foreach(&self->list)
		part_open(list_at(Part, link));
}
static void detach(PartMgr* self) { unused(self); }
static PartMgrIf iface = { attach, detach };

static void
volume_uuid(int v, Uuid* id)
{
	uuid_init(id);
	id->a = 0x1122334455660000ull + v;
	id->b = 0x9988776655440000ull + v * 3;
}

static void
volume_path(int v, char* path)
{
	Uuid id;
	volume_uuid(v, &id);
	char text[UUID_SZ];
	uuid_get(&id, text, sizeof(text));
	snprintf(path, PATH_MAX, "%s/storage/%s", dir, text);
}

// everything a start of the server has in memory before the table is opened
static void
prepare(void)
{
	storage_mgr_init(&storage_mgr);
	volume_mgr_init(&part_config.volumes);
	part_mgr_config_set_partitions(&part_config, parts_count);
	for (int v = 0; v < vols; v++)
	{
		char name[8];
		snprintf(name, sizeof(name), "s%d", v);
		auto config = storage_config_allocate();
		Str s;
		str_set_cstr(&s, name);
		storage_config_set_name(config, &s);
		if (v == 1) {
			char path[PATH_MAX];
			snprintf(path, sizeof(path), "%s/ext", dir);
			str_set_cstr(&s, path);
			storage_config_set_path(config, &s);
		}
		if (v != 2) {
			str_set_cstr(&s, "zstd");
			storage_config_set_compression(config, &s);
		}
		Tr tr;
		tr_init(&tr);
		tr_begin(&tr);
		storage_mgr_create(&storage_mgr, &tr, config, false);
		tr_commit(&tr);
		tr_free(&tr);
		storage_config_free(config);

		auto volume = volume_allocate();
		str_set_cstr(&s, name);
		volume_set_name(volume, &s);
		Uuid id;
		volume_uuid(v, &id);
		volume_set_id(volume, &id);
		volume_mgr_add(&part_config.volumes, volume);
	}
	columns_init(&columns);
	int refs[2] = {0, 1};
	int keys = 1;
	switch (kind) {
	case KIND_I32:  vcolumn_add(&columns, "k", TYPE_INT, 4); break;
	case KIND_I64:  vcolumn_add(&columns, "k", TYPE_INT, 8); break;
	case KIND_TS:   vcolumn_add(&columns, "k", TYPE_TIMESTAMP, 8); break;
	case KIND_UUID: vcolumn_add(&columns, "k", TYPE_UUID, sizeof(Uuid)); break;
	case KIND_STR:  vcolumn_add(&columns, "k", TYPE_STRING, 0); break;
	case KIND_MIX:
		// key order is not the column order
		vcolumn_add(&columns, "b", TYPE_STRING, 0);
		vcolumn_add(&columns, "a", TYPE_INT, 4);
		refs[0] = 1;
		refs[1] = 0;
		keys = 2;
		break;
	}
	vcolumn_add(&columns, "v", TYPE_STRING, 0);
	columns_sync(&columns);
	pk = vindex_config(&columns, "pk", INDEX_TREE, true, true, keys, refs);
	list_init(&index_list);
	list_append(&index_list, &pk->link);
	sequence_init(&seq);
	part_arg.seq = &seq;
	part_arg.unlogged = false;
	part_arg.id_table = &table_id;
	tier_mgr_init(&tier_mgr, &storage_mgr, &pk->keys);
	part_mgr_init(&mgr, &iface, NULL, &part_config, &part_arg, &tier_mgr, &pk->keys);
	opt_int_set(&state()->psn, 0);
	is_open = true;
}

static void
forget(void)
{
	if (! is_open)
		return;
	is_open = false;
	part_mgr_close(&mgr);
	part_mgr_free(&mgr);
	tier_mgr_free(&tier_mgr);
	volume_mgr_unref(&part_config.volumes);
	volume_mgr_free(&part_config.volumes);
	index_config_free(pk);
	columns_free(&columns);
	sequence_free(&seq);
	storage_mgr_free(&storage_mgr);
}

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

void
vmod_begin(void)
{
	static int n;
	snprintf(dir, sizeof(dir), "%s/%d", vf_dir(), n++);
	__real_mkdir(dir, 0755);
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/storage", dir);
	__real_mkdir(path, 0755);
	opt_string_set_raw(&state()->directory, dir, strlen(dir));
	opt_int_set(&config()->storage_sync, v_cfgi("sync", 0));
	vols = v_cfgi("vols", 1);
	parts_count = v_cfgi("parts", 2);
	crash_cut = v_cfgi("cut", 0);
	kind = v_cfgi("kind", 0);
	keys_count = 0;
	uuid_init(&table_id);
	is_open = false;
	v_out("{\"bad\":%s}", v_bad_json());
}

void
vmod_end(void)
{
	forget();
	vf_rmtree(dir);
	v_out("{\"bad\":%s}", v_bad_json());
}

// ---------------------------------------------------------------- keys
typedef struct { Value values[3]; char text[64], pad[600]; } VRow;

static void
make_row(VRow* self, int64_t k, int pad)
{
	memset(self, 0, sizeof(*self));
	int at = 0;
	Str s;
	snprintf(self->text, sizeof(self->text), k % 5 == 0 ? "" : k % 3 ? "k%lld" : "a_longer_key_of_the_row_%lld", (long long)k);
	if (k % 5 == 0)
		snprintf(self->text, sizeof(self->text), "%.*s", (int)(k % 31), "abcdefghijklmnopqrstuvwxyzabcdefghijkl");
	str_set_cstr(&s, self->text);
	uint64_t mix = (uint64_t)k * 0x9e3779b97f4a7c15ull;
	switch (kind) {
	case KIND_I32:  value_set_int(&self->values[at++], k % 2 ? (int32_t)mix : -k); break;
	case KIND_I64:  value_set_int(&self->values[at++], k % 2 ? (int64_t)mix : -k); break;
	case KIND_TS:   value_set_timestamp(&self->values[at++], (int64_t)(mix >> 8)); break;
	case KIND_UUID: {
		Uuid id;
		id.a = mix;
		id.b = k % 2 ? mix * 31 : k;
		value_set_uuid(&self->values[at++], &id);
		break;
	}
	case KIND_STR:  value_set_string(&self->values[at++], &s, NULL); break;
	case KIND_MIX:
		value_set_string(&self->values[at++], &s, NULL);
		value_set_int(&self->values[at++], (int32_t)mix);
		break;
	}
	memset(self->pad, 'p', sizeof(self->pad));
	Str p;
	str_set(&p, self->pad, pad);
	value_set_string(&self->values[at], &p, NULL);
}

static Part*
route(VRow* row)
{
	// the key as a row, as a row of another size, as values of the row, as values of the key
	Buf buf;
	buf_init(&buf);
	Value key[2];
	if (kind == KIND_MIX) {
		key[0] = row->values[1];
		key[1] = row->values[0];
	} else
		key[0] = row->values[0];
	auto key_row = row_create_key(&buf, &pk->keys, key, pk->keys.list_count);
	auto part = part_mapping_map(&mgr.mapping, key_row);
	auto h = row_hash(key_row, &pk->keys);
	if (value_hash_row(&pk->keys, NULL, row->values, NULL) != h || value_hash_keys(&pk->keys, NULL, key, NULL) != h)
		v_bad("a key has one hash as values and another as a row");
	buf_free(&buf);
	return part;
}

static int
count_rows(Part* part)
{
	int rows = 0;
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, part->heap, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it)) {
		rows++;
		if (part_mapping_map(&mgr.mapping, heap_iterator_at(&it)) != part)
			v_bad("a row of partition %d belongs to another one", (int)part->id.id);
	}
	int n = 0;
	auto i = index_iterator(part_primary(part));
	iterator_open(i, NULL);
	for (; iterator_has(i); iterator_next(i))
		n++;
	iterator_close(i);
	if (n != rows)
		v_bad("the index of partition %d has %d rows of %d", (int)part->id.id, n, rows);
	return rows;
}

static void
fill(int count)
{
	for (int i = 0; i < count; i++)
	{
		int64_t k = ++keys_count;
		VRow row;
		make_row(&row, k, k % 3 ? 4 : 500);
		auto part = route(&row);
		if (! part) {
			v_bad("a key belongs to no partition");
			continue;
		}
		auto r = row_create(part->heap, &columns, row.values, NULL, NULL);
		if (part_mapping_map(&mgr.mapping, r) != part)
			v_bad("a row and its key belong to different partitions");
		Tr tr;
		tr_init(&tr);
		tr_begin(&tr);
		part_insert(part, &tr, false, r);
		tr_commit(&tr);
		tr_free(&tr);
	}
	// the same keys again: where they are
	for (int64_t k = keys_count - count + 1; k <= keys_count; k++)
	{
		VRow row;
		make_row(&row, k, 4);
		auto part = route(&row);
		if (! part)
			continue;
		Buf buf;
		buf_init(&buf);
		Value key[2];
		key[0] = row.values[kind == KIND_MIX];
		key[1] = row.values[0];
		auto it = index_iterator(part_primary(part));
		if (! iterator_open(it, row_create_key(&buf, &pk->keys, key, pk->keys.list_count)))
			v_bad("a key is not found in its partition");
		iterator_close(it);
		buf_free(&buf);
	}
}

// ---------------------------------------------------------------- files
static const char* others[] = { "notes.txt", "7.bak", "00001.incomplete.1", "x1", "1.2.3", "99999999999999999999.incomplete", "3." };

static int
cmp_name(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }

static void
list_files(void)
{
	v_out("\"files\":[");
	int n = 0;
	for (int v = 0; v < vols; v++)
	{
		char path[PATH_MAX];
		volume_path(v, path);
		auto d = opendir(path);
		if (! d)
			continue;
		static char* names[20000];
		int   count = 0;
		struct dirent* e;
		while ((e = readdir(d)))
			if (e->d_name[0] != '.')
				names[count++] = strdup(e->d_name);
		closedir(d);
		qsort(names, count, sizeof(char*), cmp_name);
		for (int i = 0; i < count; i++)
		{
			auto name = names[i];
			int other = -1;
			for (int j = 0; j < (int)(sizeof(others) / sizeof(*others)); j++)
				if (! strcmp(name, others[j]))
					other = j;
			int len = 0;
			while (isdigit(name[len]))
				len++;
			auto rest = name + len;
			auto k = other >= 0 ? "x" : ! *rest ? "c" : ! strcmp(rest, ".incomplete") ? "i" : ! strcmp(rest, ".snapshot") ? "s" : "?";
			long id = other >= 0 ? other : strtol(name, NULL, 10);
			int  lo = 0, hi = 0, rows = 0;
			if (*k == '?')
				v_bad("a file named %s", name);
			if (*k == 'c')
			{
				Volume volume;
				memset(&volume, 0, sizeof(volume));
				volume_uuid(v, &volume.id);
				Storage storage;
				StorageConfig config;
				memset(&config, 0, sizeof(config));
				memset(&storage, 0, sizeof(storage));
				storage.config = &config;
				if (v != 2)
					str_set_cstr(&config.compression, "zstd");
				volume.storage = &storage;
				Id at = { .id = id, .version = 0, .volume = &volume };
				auto heap = heap_allocate(false);
				if (error_catch( heap_open(heap, &at, STATE_COMPLETE) ))
					v_bad("file %s is damaged: %s", name, v_error_text());
				else {
					lo = heap->header->hash_min;
					hi = heap->header->hash_max;
					HeapIterator it;
					heap_iterator_init(&it);
					heap_iterator_open(&it, heap, NULL);
					for (; heap_iterator_has(&it); heap_iterator_next(&it))
						rows++;
				}
				heap_free(heap);
			}
			v_out("%s{\"v\":%d,\"k\":\"%s\",\"id\":%ld,\"lo\":%d,\"hi\":%d,\"g\":%d}", n++ ? "," : "", v, k, id, lo, hi, rows);
			free(name);
		}
	}
	v_out("],");
	// what is left of the directories
	int dirs = 0;
	for (int v = 0; v < vols; v++) {
		char path[PATH_MAX];
		volume_path(v, path);
		struct stat st;
		if (! __real_lstat(path, &st))
			dirs++;
	}
	v_out("\"dirs\":%d,", dirs);
}

static int
cmp_part(const void* a, const void* b)
{
	auto x = *(Part**)a;
	auto y = *(Part**)b;
	return (int)x->heap->header->hash_min - (int)y->heap->header->hash_min;
}

static void
list_parts(bool with_map)
{
	static Part* list[10000];
	int   count = 0;
	list_foreach(&mgr.list)
		if (count < 10000)
			list[count++] = list_at(Part, link);
	if (count != mgr.list_count)
		v_bad("partitions count");
	qsort(list, count, sizeof(Part*), cmp_part);
	v_out("\"parts\":[");
	for (int i = 0; i < count; i++)
	{
		auto p = list[i];
		if (part_mgr_find(&mgr, p->id.id) != p)
			v_bad("partition %d is not found by its id", (int)p->id.id);
		int v = str_of(&p->id.volume->name)[1] - '0';
		v_out("%s{\"v\":%d,\"k\":\"c\",\"id\":%d,\"lo\":%d,\"hi\":%d,\"g\":%d}", i ? "," : "", v, (int)p->id.id,
		      p->heap->header->hash_min, p->heap->header->hash_max, count_rows(p));
	}
	v_out("],");
	if (! with_map)
		return;
	v_out("\"map\":[");
	int at = 0, n = 0;
	while (at < PART_MAPPING_MAX)
	{
		auto p = mgr.mapping.map ? mgr.mapping.map[at] : NULL;
		int lo = at;
		while (at < PART_MAPPING_MAX && (mgr.mapping.map ? mgr.mapping.map[at] : NULL) == p)
			at++;
		v_out("%s[%d,%d,%d]", n++ ? "," : "", lo, at, p ? (int)p->id.id : -1);
	}
	v_out("],");
}

// ---------------------------------------------------------------- operations
static void
do_open(void)
{
	prepare();
	part_mgr_open(&mgr, &index_list);
}

static void
do_save(void)
{
	list_foreach(&mgr.list)
	{
		auto part = list_at(Part, link);
		File file;
		file_init(&file);
		defer(file_close, &file);
		heap_create(part->heap, &file, &part->id, STATE_INCOMPLETE);
		if (opt_int_of(&config()->storage_sync))
			file_sync(&file);
		id_rename(&part->id, STATE_INCOMPLETE, STATE_COMPLETE);
	}
}

static void
do_drop(void)
{
	part_mgr_close(&mgr);
	part_mgr_drop(&mgr);
}

static const char*
perform(void (*fn)(void), int crash_at)
{
	if (crash_at == 0)
		return error_catch( fn() ) ? "error" : "done";
	vf_arm();
	vf.crash_at = crash_at;
	vf.crash_cut = crash_cut;
	int rc = vf_child(fn);
	vf_disarm();
	return rc == 42 || rc == 0 ? "crash" : rc == 1 ? "error" : "died";
}

void
vmod_op(void)
{
	v_out("{");
	if (v_is("open"))
	{
		auto res = perform(do_open, v_int(1));
		if (! strcmp(res, "done"))
			list_parts(true);
		else
			forget();
		if (! strcmp(res, "died") || ! strcmp(res, "error"))
			v_bad("opening: %s %s", res, strcmp(res, "died") ? v_error_text() : "");
		list_files();
		v_out("\"res\":\"%s\"", res);
	} else
	if (v_is("invalid"))
	{
		auto res = perform(do_open, 0);
		if (strcmp(res, "error"))
			v_bad("%d partitions are accepted", parts_count);
		forget();
		v_out("\"res\":\"%s\"", res);
	} else
	if (v_is("fill"))
	{
		fill(v_int(1));
		list_parts(false);
		v_out("\"n\":%d", (int)v_int(1));
	} else
	if (v_is("save") || v_is("drop"))
	{
		auto res = perform(v_is("save") ? do_save : do_drop, v_int(1));
		if (strcmp(res, "done"))
			forget();
		if (! strcmp(res, "died") || ! strcmp(res, "error"))
			v_bad("%s: %s", v_argv[0], res);
		if (! strcmp(res, "done") && v_is("drop"))
			forget();
		list_files();
		v_out("\"res\":\"%s\"", res);
	} else
	if (v_is("close"))
	{
		forget();
		v_out("\"res\":\"done\"");
	} else
	if (v_is("leave"))
	{
		// leave <volume> <kind> <id>
		char path[PATH_MAX + 64], from[PATH_MAX + 64];
		int v = v_int(1);
		volume_path(v, path);
		snprintf(from, sizeof(from), "%s/%05d", path, (int)v_int(3));
		auto k = v_str(2);
		bool done = ! __real_lstat(path, &(struct stat){0});
		if (done)
		{
			if (*k == 'x')
				snprintf(path + strlen(path), 64, "/%s", others[v_int(3) % (sizeof(others) / sizeof(*others))]);
			else
				snprintf(path + strlen(path), 64, "/%05d.%s", (int)v_int(3), *k == 'i' ? "incomplete" : "snapshot");
			if (*k != 's' || __real_link(from, path) == -1) {
				int fd = __real_open(path, O_CREAT|O_RDWR|O_TRUNC, 0644);
				__real_write(fd, "left", 4);
				__real_close(fd);
			}
		}
		list_files();
		v_out("\"res\":\"%s\"", done ? "done" : "no");
	} else {
		fprintf(stderr, "driver: unknown operation %s\n", v_argv[0]);
		_exit(3);
	}
	v_out(",\"bad\":%s}", v_bad_json());
}
