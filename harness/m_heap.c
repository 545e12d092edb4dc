// Driver of the Heap specification (spec/Heap.tla).
#include "vdrv.h"
#include "vfault.h"

#define IDS 64
typedef struct { uint8_t* ptr; int size; int cls; bool shadow; } Ref;

static Heap*    heap;
static Heap*    shadow;
static Ref      refs[IDS];
static bool     lru;
static int      sizes[16], sizes_count, buckets[16];
static bool     any;
static Storage  storage;
static Volume*  volume;
static Id       id;
static char     dir[300];
static uint8_t* pattern;
static uint64_t lsn;
static int      any_seq;

static void
fill(uint8_t* p, int rid, int size)
{
	uint64_t head = ((uint64_t)rid << 32) | (uint32_t)size;
	memcpy(p, &head, 8);
	memcpy(p + 8, pattern + (rid * 131) % 4096, size - 8);
}
static bool
intact(uint8_t* p, int rid, int size)
{
	uint64_t head = ((uint64_t)rid << 32) | (uint32_t)size;
	return !memcmp(p, &head, 8) && !memcmp(p + 8, pattern + (rid * 131) % 4096, size - 8);
}

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
	pattern = malloc((1 << 20) + 8192);
	uint32_t x = 12345;
	for (int i = 0; i < (1 << 20) + 8192; i++) {
		x = x * 1664525 + 1013904223;
		pattern[i] = (x >> 24) & (i % 64 < 32 ? 0xff : 0x03);
	}
}

static int
size_of(int rid, int cls)
{
	if (! any)
		return sizes[cls - 1];
	// any size up to the largest
	int n = any_seq++ * 7919 + rid * 104729 + cls;
	int shift = n % 17;
	int size = 12 + (n % 61) + (n * 31) % (16 << shift);
	if (n % 5 == 0)
		size = (16 << shift) - 24 + (n % 3) - 1;
	if (n % 97 == 0)
		size = (1 << 20) - 24;
	if (size < 12)
		size = 12;
	if (size > (1 << 20) - 24)
		size = (1 << 20) - 24;
	return size;
}

void
vmod_begin(void)
{
	static int n;
	snprintf(dir, sizeof(dir), "%s/%d", vf_dir(), n++);
	__real_mkdir(dir, 0755);
	opt_string_set_raw(&state()->directory, dir, strlen(dir));
	opt_int_set(&config()->storage_crc, v_cfgi("crc", 1));

	storage.config = storage_config_allocate();
	if (v_cfgi("zstd", 0)) {
		Str z;
		str_set_cstr(&z, "zstd");
		storage_config_set_compression(storage.config, &z);
	}
	volume = volume_allocate();
	volume->storage = &storage;
	uuid_init(&volume->id);
	volume->id.a = 5;
	volume->id.b = 9;
	id.id = 7;
	id.version = v_cfgi("version", 1);
	id.volume = volume;
	char path[PATH_MAX], uuid[UUID_SZ];
	uuid_get(&volume->id, uuid, sizeof(uuid));
	snprintf(path, sizeof(path), "%s/storage", dir);
	__real_mkdir(path, 0755);
	snprintf(path, sizeof(path), "%s/storage/%s", dir, uuid);
	__real_mkdir(path, 0755);

	lru = v_cfgi("lru", 0);
	any = false;
	sizes_count = 0;
	const char* s = v_cfg("sizes", "20,200");
	if (! strcmp(s, "any"))
		any = true;
	else
		while (*s) {
			sizes[sizes_count++] = strtol(s, (char**)&s, 10);
			if (*s == ',')
				s++;
		}
	for (int i = 0; i < sizes_count; i++) {
		Heap* scratch = heap_allocate(false);
		buckets[i] = heap_chunk_of(heap_add(scratch, sizes[i]))->bucket;
		heap_free(scratch);
	}
	memset(refs, 0, sizeof(refs));
	heap = heap_allocate(lru);
	heap->header->hash_min = 17;
	heap->header->hash_max = 170;
	shadow = NULL;
	lsn = 1;
	any_seq = v_cfgi("seq", 0);
	v_out("{\"bad\":%s}", v_bad_json());
}

void
vmod_end(void)
{
	vf_disarm();
	if (shadow)
		heap_free(shadow);
	shadow = NULL;
	heap_free(heap);
	storage_config_free(storage.config);
	volume_free(volume);
	vf_rmtree(dir);
	v_out("{\"bad\":%s}", v_bad_json());
}

static void
add(int rid, int cls)
{
	auto r = &refs[rid];
	r->cls  = cls;
	r->size = size_of(rid, cls);
	r->shadow = shadow != NULL;
	r->ptr  = heap_add(heap, r->size);
	fill(r->ptr, rid, r->size);
}
static void
del(int rid)
{
	auto r = &refs[rid];
	if (! intact(r->ptr, rid, r->size))
		v_bad("row %d is damaged", rid);
	heap_remove(heap, r->ptr);
	r->ptr = NULL;
}

typedef struct { int id; int size; uint8_t* ptr; } Found;

static int // rows of a heap; deferred removals of it are dropped if other is set
collect(Heap* h, Found* out)
{
	int n = 0;
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, h, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it))
	{
		auto chunk = heap_iterator_at_chunk(&it);
		auto ptr   = (uint8_t*)heap_iterator_at(&it);
		if (chunk->is_shadow_free)
			continue;
		uint64_t head;
		memcpy(&head, ptr, 8);
		int rid = head >> 32, size = (uint32_t)head;
		if (rid <= 0 || rid >= IDS || size < 12 || size > (1 << 20) || !intact(ptr, rid, size)) {
			v_bad("a row with damaged contents");
			continue;
		}
		if (heap_chunk_at(h, heap_page_of(chunk)->order, chunk->offset) != chunk)
			v_bad("location of row %d is another place", rid);
		if (n == 200) {
			v_bad("too many rows");
			break;
		}
		out[n++] = (Found){ rid, size, ptr };
	}
	return n;
}

static int cmp_found(const void* a, const void* b) { return ((Found*)a)->id - ((Found*)b)->id; }

static void
out_rows(Found* f, int n)
{
	qsort(f, n, sizeof(Found), cmp_found);
	v_out("[");
	for (int i = 0; i < n; i++) {
		int cls = 0;
		for (int c = 0; c < sizes_count; c++)
			if (sizes[c] == f[i].size)
				cls = c + 1;
		v_out("%s[%d,%d]", i ? "," : "", f[i].id, cls);
	}
	v_out("]");
}

static void
out_state(void)
{
	Found f[512];
	int n = collect(heap, f);
	if (shadow)
	{
		// removals that wait for the end of the snapshot
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, shadow, NULL);
		for (; heap_iterator_has(&it); heap_iterator_next(&it)) {
			auto chunk = heap_iterator_at_chunk(&it);
			if (! chunk->is_shadow_free)
				continue;
			auto ptr = *(uint8_t**)chunk->data;
			int k = 0;
			for (int i = 0; i < n; i++)
				if (f[i].ptr != ptr)
					f[k++] = f[i];
			if (k != n - 1)
				v_bad("a removed row was reused before the snapshot ended");
			n = k;
		}
		n += collect(shadow, f + n);
	}
	for (int i = 0; i < n; i++) {
		auto r = &refs[f[i].id];
		if (r->ptr != f[i].ptr || r->size != f[i].size)
			v_bad("row %d was found at another place or with another size", f[i].id);
	}
	v_out("\"rows\":");
	out_rows(f, n);
	if (! shadow)
	{
		v_out(",\"used\":%u,\"carved\":[", heap->header->count_used);
		int carved[16] = {0};
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, heap, NULL);
		if (heap->last) {
			it.current    = heap_chunk_at(heap, 0, sizeof(PageHeader));
			it.page_order = 0;
		}
		uint64_t bytes = 0;
		for (; it.current; heap_iterator_next_chunk(&it)) {
			for (int c = 0; c < sizes_count; c++)
				if (it.current->bucket == buckets[c])
					carved[c]++;
			if (! it.current->is_free)
				bytes += heap->buckets[it.current->bucket].size;
		}
		for (int c = 0; c < sizes_count; c++)
			v_out("%s%d", c ? "," : "", carved[c]);
		v_out("],\"buckets\":[");
		for (int c = 0; c < sizes_count; c++)
			v_out("%s%d", c ? "," : "", buckets[c]);
		v_out("]");
		if (bytes != heap->header->size_used)
			v_bad("%llu bytes are in use, accounted %llu", (unsigned long long)bytes, (unsigned long long)heap->header->size_used);
	}
	if (lru)
	{
		v_out(",\"lru\":[");
		auto h = heap->header;
		int k = 0;
		uint32_t page = h->lru, offset = h->lru_offset, last_page = 0, last_offset = 0;
		while (offset && k < 300) {
			auto chunk = heap_chunk_at(heap, page, offset);
			if (chunk->prev_offset != last_offset || (last_offset && chunk->prev != last_page))
				v_bad("lru: broken back link");
			uint64_t head;
			memcpy(&head, chunk->data, 8);
			v_out("%s%d", k++ ? "," : "", (int)(head >> 32));
			last_page = page;
			last_offset = offset;
			page = chunk->next;
			offset = chunk->next_offset;
		}
		if (h->lru_tail_offset != last_offset || (last_offset && h->lru_tail != last_page))
			v_bad("lru: broken tail");
		v_out("]");
	}
	v_out(",\"bad\":%s}", v_bad_json());
}

static void
write_file(Heap* h)
{
	File file;
	file_init(&file);
	defer(file_close, &file);
	h->header->lsn = lsn;
	heap_create(h, &file, &id, STATE_INCOMPLETE);
	id_rename(&id, STATE_INCOMPLETE, STATE_COMPLETE);
}
static Heap*
read_file(void)
{
	auto h = heap_allocate(lru);
	bool on_error = error_catch( heap_open(h, &id, STATE_COMPLETE) );
	if (on_error) {
		heap_free(h);
		rethrow();
	}
	if (h->header->lsn != lsn || h->header->hash_min != 17 || h->header->hash_max != 170)
		v_bad("position or hash range of the file differ");
	return h;
}

static int hook_remove, hook_add, hook_cls;
static void
hook(void)
{
	if (hook_remove)
		del(hook_remove);
	if (hook_add)
		add(hook_add, hook_cls);
}

void
vmod_op(void)
{
	char path[PATH_MAX];
	id_path(&id, path, STATE_COMPLETE, false);
	if (v_is("add"))
	{
		add(v_int(1), v_int(2));
		v_out("{");
	} else
	if (v_is("remove"))
	{
		del(v_int(1));
		v_out("{");
	} else
	if (v_is("up"))
	{
		heap_up(heap, refs[v_int(1)].ptr);
		v_out("{");
	} else
	if (v_is("snap_begin"))
	{
		shadow = heap_allocate(false);
		heap_snapshot(heap, shadow, true);
		v_out("{");
	} else
	if (v_is("snap_write"))
	{
		hook_remove = v_int(2);
		hook_add = v_int(3);
		hook_cls = v_int(4);
		lsn++;
		vf_arm();
		vf.hook = hook;
		vf.hook_at = v_int(1);
		write_file(heap);
		vf_disarm();
		if (! vf.hooked)
			hook();
		auto h = read_file();
		Found f[512];
		int n = collect(h, f);
		v_out("{\"res\":");
		out_rows(f, n);
		v_out(",");
		if ((int)h->header->count_used != n)
			v_bad("file accounts %u rows", h->header->count_used);
		heap_free(h);
		__real_unlink(path);
	} else
	if (v_is("snap_end"))
	{
		// as a checkpoint does
		heap_snapshot(heap, NULL, false);
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, shadow, NULL);
		for (; heap_iterator_has(&it); heap_iterator_next(&it))
		{
			auto chunk = heap_iterator_at_chunk(&it);
			if (chunk->is_shadow_free) {
				heap_remove(heap, *(void**)chunk->data);
				continue;
			}
			auto from = (uint8_t*)heap_iterator_at(&it);
			uint64_t head;
			memcpy(&head, from, 8);
			auto r = &refs[head >> 32];
			if (r->ptr != from || !intact(from, head >> 32, r->size))
				v_bad("a row added during the snapshot is damaged");
			auto ptr = (uint8_t*)heap_add(heap, r->size);
			memcpy(ptr, from, r->size);
			r->ptr = ptr;
			r->shadow = false;
		}
		heap_free(shadow);
		shadow = NULL;
		v_out("{");
	} else
	if (v_is("reopen"))
	{
		lsn++;
		write_file(heap);
		auto h = read_file();
		__real_unlink(path);
		heap_free(heap);
		heap = h;
		Found f[512];
		int n = collect(heap, f);
		for (int i = 0; i < n; i++)
			refs[f[i].id].ptr = f[i].ptr;
		v_out("{");
	} else
	if (v_is("write_fail"))
	{
		vf_arm();
		vf.fail_kind = VF_WRITE;
		vf.fail_skip = v_int(1) % (1 + 2 * heap->page_mgr.list_count);
		vf.fail_errno = ENOSPC;
		bool on_error = error_catch( write_file(heap) );
		vf_disarm();
		id_delete(&id, STATE_INCOMPLETE);
		v_out("{\"error\":%s,", on_error ? "true" : "false");
	} else
	if (v_is("damage"))
	{
		lsn++;
		write_file(heap);
		int  k = v_int(2);
		auto f = v_str(1);
		int  head = sizeof(HeapHeader) + sizeof(HeapBucket) * 385;
		int  fd = __real_open(path, O_RDWR);
		off_t size = lseek(fd, 0, SEEK_END);
		off_t at = -1;
		if (! strcmp(f, "header"))
			at = (k * 3571 + (any_seq = any_seq * 3 + 1) % 5003) % head;
		if (heap->header->count && !strcmp(f, "data"))
			at = head + sizeof(PageHeader) + (k * 13) % (size - head - (off_t)sizeof(PageHeader));
		if (heap->header->count && !strcmp(f, "size"))
			at = head + offsetof(PageHeader, size) + k;
		if (! strcmp(f, "cut")) {
			if (ftruncate(fd, k == 1 ? size - 1 : size * 2 / 3) == -1)
				v_bad("cut");
		} else
		if (at >= 0) {
			uint8_t b;
			__real_pread(fd, &b, 1, at);
			b ^= 1 << (k * 3 % 8);
			__real_pwrite(fd, &b, 1, at);
		}
		close(fd);
		bool on_error = true;
		if (at >= 0 || !strcmp(f, "cut"))
		{
			Heap* h = NULL;
			on_error = error_catch( h = read_file() );
			if (h)
				heap_free(h);
		}
		__real_unlink(path);
		v_out("{\"error\":%s,", on_error ? "true" : "false");
	} else {
		fprintf(stderr, "driver: unknown operation %s\n", v_argv[0]);
		_exit(3);
	}
	out_state();
}
