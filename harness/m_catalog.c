// Driver of the Catalog specification (spec/Catalog.tla).
#include "vdrv.h"
#include "vfault.h"
#include "vrow.h"

static Catalog cat;
static Tr      tr;
static bool    open_tr;
static bool    wrote;
static char    dir[300];
static uint64_t uuids;

static Str
S(const char* text)
{
	Str s;
	str_set_cstr(&s, (char*)text);
	return s;
}

// functions: text "x<depends on>:<version>"
static void
udf_compile_stub(Catalog* self, Udf* udf)
{
	unused(self);
	udf->data = malloc(1);
}
static void
udf_free_stub(Udf* udf)
{
	if (udf->data)
		free(udf->data);
	udf->data = NULL;
}
static bool
udf_depends_stub(Udf* udf, Str* name)
{
	auto t = &udf->config->text;
	int at = 1;
	while (at < (int)str_size(t) && str_of(t)[at] != ':')
		at++;
	Str dep;
	str_set(&dep, str_of(t) + 1, at - 1);
	return !str_empty(&dep) && str_compare_case(&dep, name);
}
static CatalogIf iface = { udf_compile_stub, udf_free_stub, udf_depends_stub };

static int attached;
static void
attach(PartMgr* self)
{
	list_foreach(&self->list)
		part_open(list_at(Part, link));
	attached++;
}
static void detach(PartMgr* self) { unused(self); attached--; }
static PartMgrIf part_iface = { attach, detach };

static void
set_dir(const char* path)
{
	opt_string_set_raw(&state()->directory, (char*)path, strlen(path));
}

static void
cat_open(Catalog* c, bool bootstrap)
{
	catalog_init(c, &iface, NULL, &part_iface, NULL);
	catalog_open(c, bootstrap);
}

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

void
vmod_begin(void)
{
	static int n;
	snprintf(dir, sizeof(dir), "%s/%d", vf_dir(), n++);
	__real_mkdir(dir, 0755);
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/storage", dir);
	__real_mkdir(path, 0755);
	set_dir(dir);
	opt_int_set(&config()->storage_sync, 0);
	opt_int_set(&config()->catalog_sync, v_cfgi("sync", 0));
	open_tr = false;
	cat_open(&cat, true);

	// the instances that begin with one table
	if (v_cfgi("one", 0)) {
		extern void setup_one(void);
		setup_one();
	}
	v_out("{\"bad\":%s}", v_bad_json());
}

void
vmod_end(void)
{
	vf_disarm();
	if (open_tr) {
		tr_abort(&tr);
		tr_free(&tr);
	}
	catalog_close(&cat);
	vf_rmtree(dir);
	v_out("{\"bad\":%s}", v_bad_json());
}

// ---------------------------------------------------------------- dump
static void
dump_buf(const char* name, Buf* buf)
{
	Buf text;
	buf_init(&text);
	auto pos = buf->start;
	json_export(&text, NULL, &pos);
	v_out("\"%s\":%.*s,", name, (int)buf_size(&text), (char*)text.start);
	buf_free(&text);
	buf_free(buf);
}

static int
count_rows(Table* table)
{
	int rows = 0;
	list_foreach(&table->part_mgr.list) {
		auto part = list_at(Part, link);
		int n = 0;
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, part->heap, NULL);
		for (; heap_iterator_has(&it); heap_iterator_next(&it))
			n++;
		for (auto index = part->indexes; index; index = index->next) {
			int k = 0;
			auto i = index_iterator(index);
			iterator_open(i, NULL);
			for (; iterator_has(i); iterator_next(i))
				k++;
			iterator_close(i);
			if (k != n)
				v_bad("an index has %d rows, the heap %d", k, n);
		}
		rows += n;
	}
	return rows;
}

static void
check_columns(Columns* c)
{
	int n = 0, stored = 0, resolved = 0;
	Column* identity = NULL;
	list_foreach(&c->list) {
		auto col = list_at(Column, link);
		if (col->order != n)
			v_bad("column order");
		n++;
		if (! str_empty(&col->constraints.as_stored))
			stored++;
		if (! str_empty(&col->constraints.as_resolved))
			resolved++;
		if (col->constraints.as_identity && !identity)
			identity = col;
	}
	if (n != c->count || stored != c->count_stored || resolved != c->count_resolved || identity != c->identity)
		v_bad("columns: counters or identity differ from the columns");
}

static void
check_table(Table* table)
{
	auto config = table->config;
	check_columns(&config->columns);
	// references of columns
	int refs[64] = {0}, n = 0;
	list_foreach(&config->indexes) {
		auto index = list_at(IndexConfig, link);
		int order = 0;
		if (index->keys.columns != &config->columns)
			v_bad("index keys belong to other columns");
		list_foreach(&index->keys.list) {
			auto key = list_at(Key, link);
			if (key->order != order++)
				v_bad("key order");
			if (key->column != columns_find_by(&config->columns, key->ref))
				v_bad("key column");
			refs[key->ref]++;
		}
		if (order != index->keys.list_count)
			v_bad("keys count");
		if (index->keys.primary != (n == 0))
			v_bad("keys: primary flag of index %d", n);
		n++;
	}
	if (n != config->indexes_count)
		v_bad("indexes count");
	list_foreach(&config->columns.list) {
		auto col = list_at(Column, link);
		if (col->refs != refs[col->order])
			v_bad("column refs %d, used by %d keys", col->refs, refs[col->order]);
	}
	// partitions
	int parts = 0;
	list_foreach(&table->part_mgr.list) {
		auto part = list_at(Part, link);
		parts++;
		auto at = part->indexes;
		int k = 0;
		list_foreach(&config->indexes) {
			auto index = list_at(IndexConfig, link);
			if (! at || at->config != index) {
				v_bad("partition indexes differ from the table's");
				break;
			}
			at = at->next;
			k++;
		}
		if (at || k != part->indexes_count)
			v_bad("partition has an index more or less");
		if (part->arg->unlogged != config->unlogged)
			v_bad("unlogged flag of the partition");
	}
	if (parts != table->part_mgr.list_count)
		v_bad("partitions count");
	// tiers
	int tiers = 0;
	list_foreach(&config->tiers) {
		auto t = list_at(TierConfig, link);
		tiers++;
		auto tier = tier_mgr_find(&table->tier_mgr, &t->name);
		if (! tier || tier->config != t)
			v_bad("tier cannot be found");
	}
	if (tiers != config->tiers_count || tiers != table->tier_mgr.list_count)
		v_bad("tiers count");
}

static void
count_refs(VolumeMgr* volumes, Storage* storage, int* refs)
{
	list_foreach(&volumes->list) {
		auto volume = list_at(Volume, link);
		if (volume->storage == storage)
			(*refs)++;
		if (! volume->storage || (volume->storage == storage && ! str_compare(&volume->name, &storage->config->name)))
			v_bad("volume does not refer to its storage");
	}
}

static void
check(Catalog* c)
{
	int n = 0;
	list_foreach(&c->storage_mgr.mgr.list) {
		auto storage = storage_of(list_at(Relation, link));
		n++;
		if (storage_mgr_find(&c->storage_mgr, &storage->config->name, false) != storage)
			v_bad("storage cannot be found");
		if (open_tr && c == &cat)
			continue;
		int refs = 0;
		list_foreach(&c->table_mgr.mgr.list) {
			auto table = table_of(list_at(Relation, link));
			count_refs(&table->config->part_mgr_config.volumes, storage, &refs);
			list_foreach(&table->config->tiers)
				count_refs(&list_at(TierConfig, link)->volumes, storage, &refs);
		}
		if (refs != storage->refs)
			v_bad("storage is used %d times, counted %d", refs, storage->refs);
	}
	if (n != c->storage_mgr.mgr.list_count)
		v_bad("storages count");
	n = 0;
	list_foreach(&c->db_mgr.mgr.list) {
		auto db = database_of(list_at(Relation, link));
		n++;
		if (database_mgr_find(&c->db_mgr, &db->config->name, false) != db)
			v_bad("database cannot be found");
	}
	if (n != c->db_mgr.mgr.list_count)
		v_bad("databases count");
	n = 0;
	list_foreach(&c->table_mgr.mgr.list) {
		auto table = table_of(list_at(Relation, link));
		n++;
		if (table_mgr_find(&c->table_mgr, &table->config->db, &table->config->name, false) != table)
			v_bad("table cannot be found");
		if (table_mgr_find_by(&c->table_mgr, &table->config->id, false) != table)
			v_bad("table cannot be found by id");
		check_table(table);
	}
	if (n != c->table_mgr.mgr.list_count)
		v_bad("tables count");
	n = 0;
	list_foreach(&c->udf_mgr.mgr.list) {
		auto udf = udf_of(list_at(Relation, link));
		n++;
		if (udf_mgr_find(&c->udf_mgr, &udf->config->db, &udf->config->name, false) != udf)
			v_bad("function cannot be found");
		if (! udf->data)
			v_bad("function is not compiled");
		check_columns(&udf->config->args);
	}
	if (n != c->udf_mgr.mgr.list_count)
		v_bad("functions count");
}

static void
dump(Catalog* c)
{
	check(c);
	v_out("{");
	dump_buf("storages", storage_mgr_list(&c->storage_mgr, NULL, 0));
	dump_buf("dbs", database_mgr_list(&c->db_mgr, NULL, 0));
	dump_buf("tables", table_mgr_list(&c->table_mgr, NULL, NULL, 0));
	dump_buf("fns", udf_mgr_list(&c->udf_mgr, NULL, NULL, 0));
	v_out("\"state\":[");
	int n = 0;
	list_foreach(&c->table_mgr.mgr.list) {
		auto table = table_of(list_at(Relation, link));
		v_out("%s{\"seq\":%lld,\"rows\":%d,\"parts\":%d,\"objs\":[", n++ ? "," : "",
		      (long long)sequence_get(&table->seq), count_rows(table), table->part_mgr.list_count);
		int k = 0;
		list_foreach(&table->config->tiers) {
			auto tier = tier_mgr_find(&table->tier_mgr, &list_at(TierConfig, link)->name);
			auto object = tier && tier->list_count ? container_of(tier->list.next, Object, link) : NULL;
			if (tier && tier->list_count > 1)
				v_bad("tier has %d initial objects", tier->list_count);
			v_out("%s\"%.*s\"", k++ ? "," : "", object ? (int)str_size(&object->id.volume->name) : 0,
			      object ? str_of(&object->id.volume->name) : "");
		}
		v_out("]}");
	}
	v_out("]}");
}

// ---------------------------------------------------------------- saving
typedef struct { Buf a, b; bool has_a, has_b; } Files;
static Files files[128];
static int   files_count;

static bool
slurp(const char* name, Buf* buf)
{
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/%s", dir, name);
	buf_init(buf);
	int fd = __real_open(path, O_RDONLY, 0);
	if (fd == -1)
		return false;
	char tmp[65536];
	ssize_t rc;
	while ((rc = __real_read(fd, tmp, sizeof(tmp))) > 0)
		buf_write(buf, tmp, rc);
	__real_close(fd);
	return true;
}

static void
collect(void)
{
	vf.hooked = false;
	if (files_count == 128)
		return;
	auto f = &files[files_count];
	f->has_a = slurp("catalog.json", &f->a);
	f->has_b = slurp("catalog.json.incomplete", &f->b);
	for (int i = 0; i < files_count; i++) {
		auto g = &files[i];
		if (g->has_a == f->has_a && g->has_b == f->has_b &&
		    buf_size(&g->a) == buf_size(&f->a) && buf_size(&g->b) == buf_size(&f->b) &&
		    !memcmp(g->a.start, f->a.start, buf_size(&f->a)) &&
		    !memcmp(g->b.start, f->b.start, buf_size(&f->b))) {
			buf_free(&f->a);
			buf_free(&f->b);
			return;
		}
	}
	files_count++;
}

static void
spill(const char* where, const char* name, Buf* buf)
{
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/%s", where, name);
	int fd = __real_open(path, O_CREAT|O_RDWR|O_TRUNC, 0644);
	if (__real_write(fd, buf->start, buf_size(buf)) != buf_size(buf))
		_exit(3);
	__real_close(fd);
}

// what a restart reads from every collected state of the files
static void
load_all(void)
{
	static int n;
	auto lsn = opt_int_of(&state()->catalog);
	auto pending = opt_int_of(&state()->catalog_pending);
	v_out("\"disk\":[");
	// the external storage has an absolute path
	char ext[PATH_MAX], keep[PATH_MAX];
	snprintf(ext, sizeof(ext), "%s/ext_s2", dir);
	snprintf(keep, sizeof(keep), "%s/ext_keep", dir);
	bool has_ext = ! __real_rename(ext, keep);
	for (int i = 0; i < files_count; i++) {
		auto f = &files[i];
		char where[PATH_MAX], path[PATH_MAX + 32];
		snprintf(where, sizeof(where), "%s/restart%d", vf_dir(), n++);
		__real_mkdir(where, 0755);
		snprintf(path, sizeof(path), "%s/storage", where);
		__real_mkdir(path, 0755);
		if (f->has_a)
			spill(where, "catalog.json", &f->a);
		if (f->has_b)
			spill(where, "catalog.json.incomplete", &f->b);
		set_dir(where);
		Catalog c;
		if (error_catch( cat_open(&c, false) ))
			v_bad("a restart after a crash at this point fails: %s", v_error_text());
		else {
			v_out("%s", i ? "," : "");
			dump(&c);
		}
		catalog_close(&c);
		set_dir(dir);
		vf_rmtree(where);
		vf_rmtree(ext);
		buf_free(&f->a);
		buf_free(&f->b);
	}
	files_count = 0;
	if (has_ext)
		__real_rename(keep, ext);
	opt_int_set(&state()->catalog, lsn);
	opt_int_set(&state()->catalog_pending, pending);
	v_out("],");
}

static void
checkpoint(void)
{
	list_foreach(&cat.table_mgr.mgr.list) {
		auto table = table_of(list_at(Relation, link));
		list_foreach(&table->part_mgr.list) {
			auto part = list_at(Part, link);
			File file;
			file_init(&file);
			defer(file_close, &file);
			heap_create(part->heap, &file, &part->id, STATE_INCOMPLETE);
			id_rename(&part->id, STATE_INCOMPLETE, STATE_COMPLETE);
		}
	}
}

// ---------------------------------------------------------------- operations
static Volume*
make_volume(const char* name)
{
	auto volume = volume_allocate();
	Str s = S(name);
	volume_set_name(volume, &s);
	Uuid id;
	uuid_init(&id);
	id.a = 0x1000 + ++uuids;
	id.b = uuids * 7919;
	volume_set_id(volume, &id);
	return volume;
}

static void
make_table(Buf* op, const char* db, const char* name, bool unlogged, bool ident, int parts, int vols, int arg)
{
	auto config = table_config_allocate();
	defer(table_config_free, config);
	Str s = S(db);
	table_config_set_db(config, &s);
	s = S(name);
	table_config_set_name(config, &s);
	Uuid id;
	uuid_init(&id);
	id.a = ++uuids;
	id.b = uuids;
	table_config_set_id(config, &id);
	table_config_set_unlogged(config, unlogged);
	auto k = vcolumn_add(&config->columns, "k", TYPE_INT, 8);
	constraints_set_not_null(&k->constraints, true);
	if (ident)
		constraints_set_as_identity(&k->constraints, IDENTITY_SERIAL);
	vcolumn_add(&config->columns, "v", TYPE_INT, 8);
	columns_sync(&config->columns);
	int ref = 0;
	table_config_index_add(config, vindex_config(&config->columns, "pk", (uuids & 1) ? INDEX_TREE : INDEX_HASH, true, true, 1, &ref));
	part_mgr_config_set_partitions(&config->part_mgr_config, parts);
	for (int i = 0; i < vols; i++)
		volume_mgr_add(&config->part_mgr_config.volumes, make_volume(arg ? v_str(arg + i) : "main"));
	table_op_create(op, config);
}

static TierConfig*
make_tier(const char* name, int vols, int arg, int rs, int os)
{
	auto config = tier_config_allocate();
	Str s = S(name);
	tier_config_set_name(config, &s);
	tier_config_set_region_size(config, rs);
	tier_config_set_object_size(config, os);
	for (int i = 0; i < vols; i++)
		volume_mgr_add(&config->volumes, make_volume(v_str(arg + i)));
	return config;
}

static UdfConfig*
make_udf(const char* db, const char* name, int version, const char* dep, bool other)
{
	auto config = udf_config_allocate();
	Str s = S(db);
	udf_config_set_db(config, &s);
	s = S(name);
	udf_config_set_name(config, &s);
	char text[128];
	snprintf(text, sizeof(text), "%s:%d", dep, version);
	s = S(text);
	udf_config_set_text(config, &s);
	udf_config_set_type(config, other && version % 3 == 0 ? TYPE_STRING : TYPE_INT);
	vcolumn_add(&config->args, "a", other && version % 3 == 1 ? TYPE_DOUBLE : TYPE_INT, 8);
	if (other && version % 3 == 2)
		vcolumn_add(&config->args, "b", TYPE_INT, 8);
	return config;
}

static int
ife(int i) { return v_int(i) ? DDL_IF_EXISTS : 0; }
static int
ifne(int i) { return v_int(i) ? DDL_IF_NOT_EXISTS : 0; }

static bool // db/service/op.c, which does not compile at this commit
create_index(uint8_t* op, int flags)
{
	Str  name_db, name;
	auto pos = table_op_index_create_read(op, &name_db, &name);
	auto table = table_mgr_find(&cat.table_mgr, &name_db, &name, true);
	auto config = index_config_read(table_columns(table), &pos);
	errdefer(index_config_free, config);
	keys_set_primary(&config->keys, false);
	auto index = table_index_find(table, &config->name, false);
	if (index) {
		if (! ddl_if_not_exists(flags))
			error("index already exists");
		index_config_free(config);
		return false;
	}
	list_foreach(&table->part_mgr.list) {
		auto part = list_at(Part, link);
		part_index_create(part, config);
		auto ix = part_index_find(part, &config->name, true);
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, part->heap, NULL);
		for (; heap_iterator_has(&it); heap_iterator_next(&it))
			if (index_replace_by(ix, heap_iterator_at(&it)))
				v_bad("index_create: duplicate");
	}
	table_index_add(table, &tr, config);
	log_persist_relation(&tr.log, op);
	return true;
}

static bool
ddl(void)
{
	Buf op;
	buf_init(&op);
	defer_buf(&op);
	int  flags = 0;
	Str  a = {0}, b = {0}, c = {0}, d = {0};
	if (v_argc > 1) a = S(v_str(1));
	if (v_argc > 2) b = S(v_str(2));
	if (v_argc > 3) c = S(v_str(3));
	if (v_argc > 4) d = S(v_str(4));

	if (v_is("storage_create")) {
		auto config = storage_config_allocate();
		defer(storage_config_free, config);
		storage_config_set_name(config, &a);
		if (! strcmp(v_str(1), "s2")) {
			char path[PATH_MAX];
			snprintf(path, sizeof(path), "%s/ext_s2", dir);
			Str s = S(path);
			storage_config_set_path(config, &s);
		}
		if (! strcmp(v_str(1), "s3")) {
			Str s = S("zstd");
			storage_config_set_compression(config, &s);
			storage_config_set_compression_level(config, 3);
		}
		storage_op_create(&op, config);
		flags = ifne(2);
	} else if (v_is("storage_drop")) {
		storage_op_drop(&op, &a);
		flags = ife(2);
	} else if (v_is("storage_rename")) {
		storage_op_rename(&op, &a, &b);
		flags = ife(3);
	} else if (v_is("db_create")) {
		auto config = database_config_allocate();
		defer(database_config_free, config);
		database_config_set_name(config, &a);
		database_op_create(&op, config);
		flags = ifne(2);
	} else if (v_is("db_drop")) {
		database_op_drop(&op, &a, v_int(2));
		flags = ife(3);
	} else if (v_is("db_rename")) {
		database_op_rename(&op, &a, &b);
		flags = ife(3);
	} else if (v_is("table_create")) {
		int vols = v_int(6);
		make_table(&op, v_str(1), v_str(2), v_int(3), v_int(4), v_int(5), vols, 7);
		flags = ifne(7 + vols);
	} else if (v_is("table_drop")) {
		table_op_drop(&op, &a, &b);
		flags = ife(3);
	} else if (v_is("table_rename")) {
		table_op_rename(&op, &a, &b, &c, &d);
		flags = ife(5);
	} else if (v_is("table_truncate")) {
		table_op_truncate(&op, &a, &b);
		flags = ife(3);
	} else if (v_is("table_seq")) {
		table_op_set_identity(&op, &a, &b, v_int(3));
		flags = ife(4);
	} else if (v_is("table_unlogged")) {
		table_op_set_unlogged(&op, &a, &b, v_int(3));
		flags = ife(4);
	} else if (v_is("col_add")) {
		auto column = column_allocate();
		defer(column_free, column);
		column_set_name(column, &c);
		column_set_type(column, TYPE_INT, 8);
		if (v_int(4))
			constraints_set_as_identity(&column->constraints, IDENTITY_SERIAL);
		table_op_column_add(&op, &a, &b, column);
		flags = ife(5) | (v_int(6) ? DDL_IF_COLUMN_NOT_EXISTS : 0);
	} else if (v_is("col_drop")) {
		table_op_column_drop(&op, &a, &b, &c);
		flags = ife(4) | (v_int(5) ? DDL_IF_COLUMN_EXISTS : 0);
	} else if (v_is("col_rename")) {
		table_op_column_rename(&op, &a, &b, &c, &d);
		flags = ife(5) | (v_int(6) ? DDL_IF_COLUMN_EXISTS : 0);
	} else if (v_is("col_set")) {
		int cmd = ! strcmp(v_str(4), "def") ? DDL_TABLE_COLUMN_SET_DEFAULT :
		          ! strcmp(v_str(4), "sto") ? DDL_TABLE_COLUMN_SET_STORED : DDL_TABLE_COLUMN_SET_RESOLVED;
		// '-' is the empty value
		Str value = S(! strcmp(v_str(5), "-") ? "" : v_str(5));
		table_op_column_set(&op, cmd, &a, &b, &c, &value);
		flags = ife(6) | (v_int(7) ? DDL_IF_COLUMN_EXISTS : 0);
	} else if (v_is("idx_create")) {
		Str db = a, name = b;
		auto table = table_mgr_find(&cat.table_mgr, &db, &name, false);
		Columns none;
		columns_init(&none);
		int refs[8], n = v_int(6);
		for (int i = 0; i < n; i++)
			refs[i] = v_int(7 + i) - 1;
		if (! table) {
			for (int i = 0; i < 8; i++)
				vcolumn_add(&none, "x", TYPE_INT, 8);
		}
		auto config = vindex_config(table ? table_columns(table) : &none, v_str(3), v_int(4) ? INDEX_TREE : INDEX_HASH, v_int(5), false, n, refs);
		table_op_index_create(&op, &a, &b, config);
		index_config_free(config);
		columns_free(&none);
		return create_index(op.start, ifne(7 + n));
	} else if (v_is("idx_drop")) {
		table_op_index_drop(&op, &a, &b, &c);
		flags = ife(4);
	} else if (v_is("idx_rename")) {
		table_op_index_rename(&op, &a, &b, &c, &d);
		flags = ife(5);
	} else if (v_is("tier_create")) {
		auto config = make_tier(v_str(3), v_int(4), 5, 0, 0);
		defer(tier_config_free, config);
		table_op_tier_create(&op, &a, &b, config);
		flags = ifne(5 + v_int(4));
	} else if (v_is("tier_drop")) {
		table_op_tier_drop(&op, &a, &b, &c);
		flags = ife(4);
	} else if (v_is("tier_rename")) {
		table_op_tier_rename(&op, &a, &b, &c, &d);
		flags = ife(5);
	} else if (v_is("tier_set")) {
		auto config = make_tier(v_str(3), 0, 0, v_int(5), v_int(5));
		defer(tier_config_free, config);
		int mask = 0;
		if (v_int(4) & 1)
			mask |= TIER_REGION_SIZE;
		if (v_int(4) & 2)
			mask |= TIER_OBJECT_SIZE;
		table_op_tier_set(&op, &a, &b, config, mask);
		flags = ife(6);
	} else if (v_is("vol_add")) {
		auto volume = make_volume(v_str(4));
		defer(volume_free, volume);
		table_op_tier_storage_add(&op, &a, &b, &c, volume);
		flags = ife(5) | (v_int(6) ? DDL_IF_STORAGE_NOT_EXISTS : 0);
	} else if (v_is("vol_drop")) {
		table_op_tier_storage_drop(&op, &a, &b, &c, &d);
		flags = ife(5) | (v_int(6) ? DDL_IF_STORAGE_EXISTS : 0);
	} else if (v_is("vol_pause")) {
		table_op_tier_storage_pause(&op, &a, &b, &c, &d, v_int(5));
		flags = ife(6) | (v_int(7) ? DDL_IF_STORAGE_EXISTS : 0);
	} else if (v_is("fn_create")) {
		auto config = make_udf(v_str(1), v_str(2), v_int(3), v_str(4), false);
		defer(udf_config_free, config);
		udf_op_create(&op, config);
	} else if (v_is("fn_replace")) {
		auto config = make_udf(v_str(1), v_str(2), v_int(3), v_str(4), v_int(5));
		defer(udf_config_free, config);
		udf_op_replace(&op, config);
	} else if (v_is("fn_drop")) {
		udf_op_drop(&op, &a, &b);
		flags = ife(3);
	} else if (v_is("fn_rename")) {
		udf_op_rename(&op, &a, &b, &c, &d);
		flags = ife(5);
	} else {
		fprintf(stderr, "driver: unknown operation %s\n", v_argv[0]);
		_exit(3);
	}
	return catalog_execute(&cat, &tr, op.start, flags);
}

void
setup_one(void)
{
	tr_init(&tr);
	tr_begin(&tr);
	Buf op;
	buf_init(&op);
	auto config = storage_config_allocate();
	Str s = S("s1");
	storage_config_set_name(config, &s);
	storage_op_create(&op, config);
	storage_config_free(config);
	catalog_execute(&cat, &tr, op.start, 0);
	buf_reset(&op);
	make_table(&op, "main", "t1", false, false, 2, 1, 0);
	catalog_execute(&cat, &tr, op.start, 0);
	buf_free(&op);
	tr_commit(&tr);
	tr_free(&tr);
	catalog_write(&cat);
}

static void
fill(void)
{
	Str db = S(v_str(1)), name = S(v_str(2));
	auto table = table_mgr_find(&cat.table_mgr, &db, &name, true);
	Tr t;
	tr_init(&t);
	tr_begin(&t);
	int64_t key = 1;
	list_foreach(&table->part_mgr.list) {
		auto part = list_at(Part, link);
		Buf data;
		buf_init(&data);
		int offsets[64];
		list_foreach(&table->config->columns.list) {
			auto column = list_at(Column, link);
			if (column->dropped) {
				offsets[column->order] = -1;
				continue;
			}
			offsets[column->order] = buf_size(&data);
			int64_t v = key * 10 + column->order;
			buf_write(&data, &v, sizeof(v));
		}
		auto row = vrow_build(part->heap, NULL, table->config->columns.count, &data, offsets);
		buf_free(&data);
		part_insert(part, &t, false, row);
		key++;
	}
	tr_commit(&t);
	tr_free(&t);
}

void
vmod_op(void)
{
	const char* result = "ok";
	bool shown = true;
	v_out("{");
	if (v_is("begin_tr")) {
		tr_init(&tr);
		tr_begin(&tr);
		open_tr = true;
		wrote = false;
	} else
	if (v_is("commit")) {
		if (wrote != tr_persists(&tr))
			v_bad("the log of the transaction does not have its changes");
		tr_commit(&tr);
		tr_free(&tr);
		open_tr = false;
	} else
	if (v_is("abort")) {
		tr_abort(&tr);
		tr_free(&tr);
		open_tr = false;
	} else
	if (v_is("fill"))
		fill();
	else
	if (v_is("reopen")) {
		checkpoint();
		catalog_write(&cat);
		catalog_close(&cat);
		memset(&cat, 0xa5, sizeof(cat));
		cat_open(&cat, false);
	} else
	if (v_is("save") || v_is("save_fail")) {
		opt_int_set(&state()->catalog_pending, opt_int_of(&state()->catalog_pending) + 1);
		files_count = 0;
		vf_arm();
		vf.hook = collect;
		vf.hook_at = 1;
		if (v_is("save_fail")) {
			auto kind = v_str(1);
			vf.fail_skip  = v_int(2);
			vf.fail_errno = ENOSPC;
			vf.fail_kind  = ! strcmp(kind, "open") ? VF_CREATE : ! strcmp(kind, "write") ? VF_WRITE :
			                ! strcmp(kind, "rename") ? VF_RENAME : ! strcmp(kind, "unlink") ? VF_UNLINK :
			                ! strcmp(kind, "sync") ? VF_SYNC : VF_NONE;
			if (! strcmp(kind, "cut"))
				vf.budget = 60 + v_int(2) * 100;
		}
		bool on_error = error_catch( catalog_write(&cat) );
		vf_disarm();
		collect();
		if (on_error && v_is("save"))
			v_bad("saving failed: %s", v_error_text());
		load_all();
	} else {
		bool write = false;
		if (error_catch( write = ddl() )) {
			result = "error";
			shown = false;
		} else
			result = write ? "write" : "noop";
		if (write)
			wrote = true;
	}
	v_out("\"res\":\"%s\",\"cat\":", result);
	if (shown)
		dump(&cat);
	else
		v_out("null");
	v_out(",\"bad\":%s}", v_bad_json());
}
