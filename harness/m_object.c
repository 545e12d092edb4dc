// Driver of the Object specification (spec/Object.tla): the branches of an
// object file, the iterators over them, and the cursor of a table with a tier.
#include "vdrv.h"
#include "vrow.h"
#include "vfault.h"

static Columns      columns;
static IndexConfig* cfg_pk;
static int          kind, pad;
static bool         two, crc, one_part;
static char         dir[300];
static Storage      storage;
static Volume*      volume;
static Id           id;
static Object*      object;
static TierConfig*  tier_cfg;
static Tier*        tier;
static TierMgr      tiers;
static Part*        parts[2];
static PartArg      arg;
static Sequence     seq;
static Uuid         id_table;
static PartMgr      mgr;
static Writer*      writer;
static bool         failed;

static int64_t scale;

// the list of rows, closed also when an error was raised in between
static bool rows_any, rows_open;
static void rows_begin(void) { v_out("\"rows\":["); rows_any = rows_open = true; }
static void
rows_end(void)
{
	if (! rows_any)
		rows_begin();
	if (rows_open)
		v_out("],");
	rows_open = false;
}
static int column_pay(void) { return two ? 2 : 1; }

// key k, written by source (0: heap)
static int
pay_size(int k, int source)
{
	if (! pad)
		return 0;
	int n = (k * 7 + source * 13) % 11;
	return n * pad / (n % 3 + 1);
}

static Row*
make(Heap* heap, Buf* target, int k, int source)
{
	auto data = buf_create();
	defer_buf(data);
	int off[3], n = 0;
	off[n++] = 0;
	if (two) {
		vkey_write(data, kind, (k / 4 - 2) * scale);
		off[n++] = buf_size(data);
		vkey_write(data, VK_I32, k % 4 - 1);
	} else
		vkey_write(data, kind, (k - 9) * scale);
	off[n++] = buf_size(data);
	static char text[1 << 18];
	int size = snprintf(text, sizeof(text), "%03d%03d", k, source);
	int more = pay_size(k, source);
	uint32_t x = k * 1000 + source;
	for (int i = 0; i < more; i++) {
		x = x * 1664525 + 1013904223;
		text[size++] = (i % 32 < 16) ? 'a' + (x >> 24) % 26 : 'z';
	}
	Str s;
	str_set(&s, text, size);
	encode_string(data, &s);
	return vrow_build(heap, target, n, data, off);
}

static bool
show(Row* row, bool first)
{
	uint8_t* pos = row_at(row, column_pay());
	Str s;
	json_read_string(&pos, &s);
	int k = 0, source = 0;
	char head[8] = {0};
	memcpy(head, str_of(&s), str_size(&s) < 6 ? str_size(&s) : 6);
	sscanf(head, "%3d%3d", &k, &source);
	auto buf = buf_create();
	defer_buf(buf);
	auto same = make(NULL, buf, k, source);
	if (row_size(same) != row_size(row) || memcmp(same, row, row_size(row)))
		v_bad("row of key %d of source %d is damaged", k, source);
	v_out("%s[%d,%d]", first ? "" : ",", k, source);
	return true;
}

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

static void
open_object(void)
{
	object = object_allocate(&id);
	object_open(object, STATE_COMPLETE);
	tier_add(tier, object);
}

static void
close_object(void)
{
	if (! object)
		return;
	tier_remove(tier, object);
	object_free(object);
	object = NULL;
}

static void
path_of(char* path, uint64_t version)
{
	Id it = id;
	it.version = version;
	id_path(&it, path, STATE_COMPLETE, false);
}

void
vmod_begin(void)
{
	static int n;
	snprintf(dir, sizeof(dir), "%s/%d", vf_dir(), n++);
	__real_mkdir(dir, 0755);
	opt_string_set_raw(&state()->directory, dir, strlen(dir));
	crc = v_cfgi("crc", 1);
	opt_int_set(&config()->storage_crc, crc);
	opt_int_set(&config()->storage_sync, v_cfgi("sync", 0));
	kind  = vkey_kind(v_cfg("kt", "i64"));
	two   = v_cfgi("two", 0);
	pad   = v_cfgi("pad", 0);
	one_part = v_cfgi("parts", 1) == 1;
	scale = v_cfgi("scale", 1);
	columns_init(&columns);
	vkey_column(&columns, "id", kind);
	int refs[2] = {0, 1};
	if (two)
		vcolumn_add(&columns, "id2", TYPE_INT, 4);
	vcolumn_add(&columns, "v", TYPE_STRING, 0);
	cfg_pk = vindex_config(&columns, "pk", strcmp(v_cfg("pk", "tree"), "hash") ? INDEX_TREE : INDEX_HASH,
	                       true, true, two ? 2 : 1, refs);

	storage.config = storage_config_allocate();
	if (v_cfgi("zstd", 0)) {
		Str z;
		str_set_cstr(&z, "zstd");
		storage_config_set_compression(storage.config, &z);
	}
	volume = volume_allocate();
	volume->storage = &storage;
	volume->id = (Uuid){ 5, 9 };
	char path[PATH_MAX], uuid[UUID_SZ];
	uuid_get(&volume->id, uuid, sizeof(uuid));
	snprintf(path, sizeof(path), "%s/storage", dir);
	__real_mkdir(path, 0755);
	snprintf(path, sizeof(path), "%s/storage/%s", dir, uuid);
	__real_mkdir(path, 0755);
	memset(&id, 0, sizeof(id));
	id.id = 3;
	id.version = 0;
	id.volume = volume;
	object = NULL;
	writer = writer_allocate();

	tier_cfg = tier_config_allocate();
	tier_mgr_init(&tiers, NULL, &cfg_pk->keys);
	tier = NULL;

	sequence_init(&seq);
	id_table = (Uuid){ 77, 88 };
	memset(&arg, 0, sizeof(arg));
	arg.seq      = &seq;
	arg.id_table = &id_table;
	part_mgr_init(&mgr, NULL, NULL, NULL, &arg, &tiers, &cfg_pk->keys);
	for (int i = 0; i < 2; i++) {
		Id pid;
		memset(&pid, 0, sizeof(pid));
		pid.id = i + 1;
		parts[i] = part_allocate(&pid, &arg);
		part_index_create(parts[i], cfg_pk);
		parts[i]->heap->header->hash_min = i && ! one_part ? PART_MAPPING_MAX / 2 : 0;
		parts[i]->heap->header->hash_max = i || one_part ? PART_MAPPING_MAX : PART_MAPPING_MAX / 2;
		if (i && one_part)
			break;
		part_mapping_add(&mgr.mapping, parts[i]);
		list_append(&mgr.list, &parts[i]->link);
		mgr.list_count++;
	}
	v_out("{}");
}

void
vmod_end(void)
{
	close_object();
	if (tier)
		tier_free(tier);
	tier_config_free(tier_cfg);
	writer_free(writer);
	for (int i = 0; i < 2; i++)
		part_free(parts[i]);
	part_mapping_free(&mgr.mapping);
	sequence_free(&seq);
	storage_config_free(storage.config);
	volume_free(volume);
	index_config_free(cfg_pk);
	columns_free(&columns);
	vf_rmtree(dir);
	v_out("{\"bad\":%s}", v_bad_json());
}

// region size that makes regions of about so many rows
static int
region_size(int mask, int source, int per)
{
	int sum = 0, rows = 0;
	auto buf = buf_create();
	defer_buf(buf);
	for (int k = 1; k <= 30; k++)
		if (mask & (1 << (k - 1))) {
			buf_reset(buf);
			sum += 4 + row_size(make(NULL, buf, k, source));
			rows++;
		}
	return sizeof(Region) + (rows ? sum * per / rows : 0);
}

static void
write_branch(File* file, int mask, int source, int per)
{
	writer_reset(writer);
	writer_start(writer, file, &storage, region_size(mask, source, per));
	auto buf = buf_create();
	defer_buf(buf);
	for (int k = 1; k <= 30; k++)
		if (mask & (1 << (k - 1))) {
			buf_reset(buf);
			writer_add(writer, make(NULL, buf, k, source));
		}
	writer_stop(writer);
	writer_reset(writer);
}

static void
rows_of(void)
{
	// oldest first
	Branch* list[64];
	int     n = 0;
	for (auto b = object->branches; b; b = b->next)
		list[n++] = b;
	rows_begin();
	for (int i = n - 1; i >= 0; i--)
		v_out("%s%d", i == n - 1 ? "" : ",", (int)list[i]->meta.rows);
	rows_end();
	if (n != object->branches_count)
		v_bad("%d branches, counted %d", n, object->branches_count);
}

static Branch*
branch_of(int i)
{
	auto b = object->branches;
	for (int at = object->branches_count; at > i; at--)
		b = b->next;
	return b;
}

static void
run_iterator(Iterator* it)
{
	rows_begin();
	int count = 0;
	bool first = true;
	while (iterator_has(it)) {
		auto row = iterator_at(it);
		if (! row) {
			v_bad("no row at the position of an iterator");
			break;
		}
		show(row, first);
		first = false;
		iterator_next(it);
		if (++count > 200) {
			v_bad("endless scan");
			break;
		}
	}
	if (count <= 200 && iterator_at(it))
		v_bad("a row behind the end");
	rows_end();
}

static Row*
key_of(Buf* buf, int k)
{
	return k ? make(NULL, buf, k, 777) : NULL;
}

static void
look(int i, int k)
{
	auto buf = buf_create();
	defer_buf(buf);
	auto it = branch_iterator_allocate();
	defer(iterator_close, &it->it);
	if (error_catch(
		bool match = branch_iterator_open(it, &cfg_pk->keys, branch_of(i), key_of(buf, k));
		v_out("\"match\":%s,", match ? "true" : "false");
		rows_begin();
		int count = 0;
		while (branch_iterator_has(it)) {
			show(branch_iterator_at(it), count == 0);
			branch_iterator_next(it);
			if (++count > 200) {
				v_bad("endless scan");
				break;
			}
		}
	))
		failed = true;
	rows_end();
}

static void
do_op(void)
{
	char path[PATH_MAX];
	if (v_is("write")) {
		int mask = v_int(1);
		if (! tier) {
			// the table gets a tier
			tier = tier_allocate(tier_cfg, &cfg_pk->keys);
			list_append(&tiers.list, &tier->link);
			tiers.list_count++;
		}
		close_object();
		path_of(path, id.version + 1);
		File file;
		file_init(&file);
		if (! id.version) {
			id.version = 1;
			auto o = object_allocate(&id);
			object_create(o, STATE_INCOMPLETE);
			write_branch(&o->file, mask, 1, v_int(2));
			object_rename(o, STATE_INCOMPLETE, STATE_COMPLETE);
			object_free(o);
		} else {
			char from[PATH_MAX];
			path_of(from, id.version);
			file_open(&file, from);
			file_seek_to_end(&file);
			write_branch(&file, mask, id.version + 1, v_int(2));
			file_close(&file);
			rename(from, path);
			id.version++;
		}
		open_object();
		rows_of();
	} else
	if (v_is("crash")) {
		close_object();
		path_of(path, id.version);
		File file;
		file_init(&file);
		file_open(&file, path);
		file_seek_to_end(&file);
		int64_t before = file.size;
		write_branch(&file, v_int(1), id.version + 1, v_int(2));
		int64_t more = file.size - before, cut;
		switch (v_int(3)) {
		case 1: cut = 1; break;                       // a byte of it
		case 2: cut = sizeof(Meta); break;            // the reserved header
		case 3: cut = sizeof(Meta) + 1; break;
		case 4: cut = more - 1; break;
		default: cut = more; break;                   // all of it
		}
		if (cut > more)
			cut = more;
		file_close(&file);
		if (truncate(path, before + cut))
			v_bad("truncate");
		open_object();
		struct stat st;
		stat(path, &st);
		if (st.st_size != before)
			v_bad("%lld bytes of an unfinished branch are kept", (long long)(st.st_size - before));
		rows_of();
	} else
	if (v_is("look")) {
		look(v_int(1), v_int(2));
	} else
	if (v_is("merge")) {
		auto buf = buf_create();
		defer_buf(buf);
		auto it = merge_iterator_allocate(true);
		defer(iterator_close, &it->it);
		for (auto b = object->branches; b; b = b->next) {
			auto bit = branch_iterator_allocate();
			merge_iterator_add(it, &bit->it);
			branch_iterator_open(bit, &cfg_pk->keys, b, key_of(buf, v_int(1)));
		}
		merge_iterator_open(it, &cfg_pk->keys);
		run_iterator(&it->it);
	} else
	if (v_is("fill")) {
		for (int i = 0; i < 2; i++)
			part_truncate(parts[i]);
		Tr tr;
		tr_init(&tr);
		tr_begin(&tr);
		for (int k = 1; k <= 30; k++)
			if (v_int(1) & (1 << (k - 1))) {
				auto buf = buf_create();
				defer_buf(buf);
				auto part = part_mapping_map(&mgr.mapping, make(NULL, buf, k, 0));
				part_insert(part, &tr, false, make(part->heap, NULL, k, 0));
			}
		tr_commit(&tr);
		tr_free(&tr);
		rows_begin(), rows_end();
	} else
	if (v_is("lookup")) {
		auto buf = buf_create();
		defer_buf(buf);
		auto key = key_of(buf, v_int(1));
		auto it = cursor_open(&mgr, NULL, cfg_pk, true, key);
		defer(iterator_close, it);
		rows_begin();
		if (iterator_has(it))
			show(iterator_at(it), true);
		rows_end();
	} else
	if (v_is("cursor")) {
		auto buf = buf_create();
		defer_buf(buf);
		auto key = key_of(buf, v_int(1));
		// of the only partition, or over all partitions
		auto part = one_part && ! v_int(2) ? parts[0] : NULL;
		auto it = cursor_open(&mgr, part, cfg_pk, false, key);
		defer(iterator_close, it);
		run_iterator(it);
	} else
	if (v_is("damage")) {
		auto where = v_str(1);
		int i = v_int(2);
		int k = v_int(3);
		int s = v_int(4);
		int pos = v_int(5);
		uint64_t start = 0, size = 0;
		auto b = branch_of(i);
		uint64_t begin = 0;
		for (int j = 1; j < i; j++)
			begin += branch_of(j)->meta.size_total;
		bool end = false, region = false;
		if (! strcmp(where, "header")) {
			start = begin;
			size = sizeof(Meta);
		} else
		if (! strcmp(where, "index")) {
			start = begin + b->meta.size_total - b->meta.size;
			size = b->meta.size;
		} else
		if (! strcmp(where, "end")) {
			end = true;
		} else {
			region = true;
			auto buf = buf_create();
			defer_buf(buf);
			auto key = key_of(buf, k);
			for (int r = 0; r < (int)b->meta.regions; r++) {
				auto at = meta_region(&b->meta, &b->meta_data, r);
				if (compare(&cfg_pk->keys, meta_region_max(at), key) >= 0) {
					start = at->offset;
					size = at->size;
					break;
				}
			}
		}
		if (region && !crc) {
			// not covered by a checksum
			v_out("\"skip\":true,\"rows\":[],");
			return;
		}
		path_of(path, id.version);
		int fd = __real_open(path, O_RDWR);
		uint8_t  byte = 0;
		uint8_t* saved = NULL;
		struct stat st;
		fstat(fd, &st);
		if (end) {
			saved = malloc(st.st_size);
			if (pread(fd, saved, st.st_size, 0) != st.st_size)
				v_bad("pread");
			if (ftruncate(fd, st.st_size - 1 - pos % st.st_size))
				v_bad("ftruncate");
		} else {
			start += pos % size;
			if (pread(fd, &byte, 1, start) != 1)
				v_bad("pread");
			uint8_t other = byte ^ (1 << (pos % 8));
			if (pwrite(fd, &other, 1, start) != 1)
				v_bad("pwrite");
		}
		if (region)
			look(i, s);
		else {
			rows_begin(), rows_end();
			auto o = object_allocate(&id);
			if (error_catch( object_open(o, STATE_COMPLETE); ))
				failed = true;
			object_free(o);
		}
		if (end) {
			if (pwrite(fd, saved, st.st_size, 0) != st.st_size)
				v_bad("pwrite");
			free(saved);
		} else
		if (pwrite(fd, &byte, 1, start) != 1)
			v_bad("pwrite");
		close(fd);
	} else
		v_bad("unknown operation");
}

void
vmod_op(void)
{
	failed = rows_any = rows_open = false;
	v_out("{");
	if (error_catch( do_op(); ))
		failed = true;
	rows_end();
	v_out("\"error\":%s,\"bad\":%s}", failed ? "true" : "false", v_bad_json());
}
