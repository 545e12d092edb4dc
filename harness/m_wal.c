// Driver of the Wal specification (spec/Wal.tla).
#include "vdrv.h"
#include "vrow.h"
#include "vfault.h"

#define SHAPES 5
typedef struct { Write write; WriteLog log[2]; int shape; } Entry;
typedef struct { Entry* list; int count; WriteList wl; uint64_t size; } Group;

static WalMgr    mgr;
static bool      opened;
static char      dir[300];
static bool      crc, worker;
static Uuid      ids[2] = { {11, 12}, {21, 22} };
static Buf       rows[SHAPES + 1];   // storage of the rows of every shape
static int       offs[SHAPES + 1][1600];
static int       offs_count[SHAPES + 1];
static Buf       ddl;
static Buf       body[SHAPES + 1];   // independent image of the data
static int       body_cmds[SHAPES + 1];
static WalSlot   slots[8];
static WalCursor cur;
static bool      cur_open;
static uint64_t  ckpt;
static uint64_t  payload_of[64];
static int       short_max;

static void
add_row(int shape, int64_t id, int pad)
{
	auto data = buf_create();
	defer_buf(data);
	int off[3];
	off[0] = buf_size(data); buf_write(data, &id, 8);
	off[1] = buf_size(data); int32_t s = shape; buf_write(data, &s, 4);
	off[2] = buf_size(data);
	for (int i = 0; i < pad; i++) {
		uint8_t b = id * 7 + i * 13 + (i >> 8);
		buf_write(data, &b, 1);
	}
	offs[shape][offs_count[shape]++] = buf_size(&rows[shape]);
	vrow_build(NULL, &rows[shape], 3, data, off);
}
static Row* row_of(int shape, int i) { return (Row*)(rows[shape].start + offs[shape][i]); }

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
	for (int i = 0; i <= SHAPES; i++) {
		buf_init(&rows[i]);
		buf_init(&body[i]);
	}
	buf_init(&ddl);
	add_row(1, 1, 5);
	for (int i = 0; i < 3; i++)
		add_row(2, 20 + i, 30 * i);
	add_row(3, 3, 200000);
	for (int i = 0; i < 1500; i++)
		add_row(4, 4000 + i, i % 9);
	add_row(5, 5, 100);
	encode_array(&ddl);
	encode_integer(&ddl, 777);
	encode_raw(&ddl, "create something", 16);
	encode_array_end(&ddl);
	for (int s = 1; s <= SHAPES; s++) {
		if (s == 5)
			buf_write_buf(&body[s], &ddl);
		for (int i = 0; i < offs_count[s]; i++)
			buf_write(&body[s], row_of(s, i), row_size(row_of(s, i)));
	}
	body_cmds[1] = 1; body_cmds[2] = 2; body_cmds[3] = 1; body_cmds[4] = 3; body_cmds[5] = 2;
}

static void
group_make(Group* g, int at)
{
	g->count = v_int(at);
	g->list  = calloc(g->count, sizeof(Entry));
	g->size  = 0;
	write_list_init(&g->wl);
	for (int i = 0; i < g->count; i++)
	{
		auto e = &g->list[i];
		int  s = e->shape = payload_of[v_int(at + 1 + i)];
		write_init(&e->write);
		write_log_init(&e->log[0]);
		write_log_init(&e->log[1]);
		write_reset(&e->write);
		write_begin(&e->write);
		switch (s) {
		case 1: case 3:
			write_log_add(&e->log[0], CMD_REPLACE, &ids[0], row_of(s, 0));
			break;
		case 2:
			// two partitions
			write_log_add(&e->log[0], CMD_REPLACE, &ids[0], row_of(s, 0));
			write_log_add(&e->log[0], CMD_REPLACE, &ids[0], row_of(s, 1));
			write_log_add(&e->log[1], CMD_DELETE, &ids[0], row_of(s, 2));
			break;
		case 4:
			for (int j = 0; j < 1500; j++)
				write_log_add(&e->log[0], j < 700 || j >= 900 ? CMD_REPLACE : CMD_DELETE,
				              &ids[j >= 900], row_of(s, j));
			break;
		case 5:
			write_log_add_op(&e->log[0], CMD_DDL, ddl.start);
			write_log_add(&e->log[0], CMD_REPLACE, &ids[1], row_of(s, 0));
			break;
		}
		for (int j = 0; j < 2; j++)
			if (! write_log_empty(&e->log[j]))
				write_add(&e->write, &e->log[j]);
		g->size += e->write.header.size;
		write_list_add(&g->wl, &e->write);
	}
}
static void
group_free(Group* g)
{
	for (int i = 0; i < g->count; i++) {
		write_free(&g->list[i].write);
		write_log_free(&g->list[i].log[0]);
		write_log_free(&g->list[i].log[1]);
	}
	free(g->list);
}

// shape of a record, validated in full
static int
record_shape(Record* r)
{
	if (r->size < sizeof(Record))
		return -1;
	if (crc && !record_validate(r))
		return -2;
	uint64_t head = sizeof(Record) + r->count * sizeof(RecordCmd);
	if (head > r->size)
		return -3;
	auto data = (uint8_t*)r + head;
	auto size = r->size - head;
	for (int s = 1; s <= SHAPES; s++)
	{
		if (buf_size(&body[s]) != size || memcmp(body[s].start, data, size))
			continue;
		if ((int)r->count != body_cmds[s])
			return -4;
		uint64_t total = 0;
		auto cmd = record_cmd(r);
		for (uint32_t i = 0; i < r->count; i++, cmd++)
		{
			if (crc && !record_validate_cmd(cmd, data + total))
				return -5;
			total += cmd->size;
		}
		if (total != size)
			return -6;
		if ((int)r->ops != offs_count[s] + (s == 5))
			return -7;
		for (int p = 1; p < 64; p++)
			if (payload_of[p] == (uint64_t)s)
				return p;
		return -8;
	}
	return -9;
}

// what recovery does with a record before its rows are used
static void
record_consume(Record* r)
{
	auto cmd = record_cmd(r);
	auto pos = record_data(r);
	for (uint32_t i = 0; i < r->count; i++, cmd++)
	{
		if (crc && !record_validate_cmd(cmd, pos))
			error("record command mismatch");
		auto next = pos;
		record_cmd_skip(cmd, &next);
		if (next != pos + cmd->size)
			v_bad("skipping a command of %d bytes moved by %d", (int)cmd->size, (int)(next - pos));
		pos += cmd->size;
	}
}

static int out_count;
static void
out_record(Record* r)
{
	v_out("%s[%llu,%d]", out_count++ ? "," : "", (unsigned long long)r->lsn, record_shape(r));
}

static bool // as recovery reads the log, file by file; false on error
read_recover(bool follow)
{
	auto wal = &mgr.wal;
	out_count = 0;
	v_out("[");
	bool on_error = error_catch
	(
		uint64_t id = 0;
		for (;;)
		{
			WalCursor c;
			wal_cursor_init(&c);
			defer(wal_cursor_close, &c);
			wal_cursor_open(&c, wal, id, false, crc);
			while (wal_cursor_next(&c)) {
				record_consume(wal_cursor_at(&c));
				out_record(wal_cursor_at(&c));
				if (follow)
					state_lsn_follow(wal_cursor_at(&c)->lsn);
			}
			if (! wal_cursor_active(&c))
				break;
			id = id_mgr_next(&wal->list, c.file->id);
			if (id == UINT64_MAX)
				break;
		}
	);
	v_out("]");
	return !on_error;
}

static bool
read_from(uint64_t lsn)
{
	out_count = 0;
	v_out("[");
	bool on_error = error_catch
	(
		WalCursor c;
		wal_cursor_init(&c);
		defer(wal_cursor_close, &c);
		wal_cursor_open(&c, &mgr.wal, lsn, true, crc);
		while (wal_cursor_next(&c)) {
			record_consume(wal_cursor_at(&c));
			out_record(wal_cursor_at(&c));
		}
	);
	v_out("]");
	return !on_error;
}

static int cmp64(const void* a, const void* b) { return *(uint64_t*)a < *(uint64_t*)b ? -1 : 1; }
static void
out_files(void)
{
	char path[400];
	snprintf(path, sizeof(path), "%s/wal", dir);
	uint64_t list[256];
	int n = 0;
	DIR* d = opendir(path);
	struct dirent* e;
	while (d && (e = readdir(d)))
		if (e->d_name[0] != '.' && n < 256)
			list[n++] = strtoull(e->d_name, NULL, 10);
	if (d)
		closedir(d);
	qsort(list, n, sizeof(uint64_t), cmp64);
	v_out("[");
	for (int i = 0; i < n; i++)
		v_out("%s%llu", i ? "," : "", (unsigned long long)list[i]);
	v_out("]");
}

static void
opt_defaults(void)
{
	opt_int_set(&config()->wal_size, 1 << 30);
	opt_int_set(&config()->wal_sync_on_write, v_cfgi("sync", 0));
}

static void
log_open(void)
{
	wal_mgr_init(&mgr);
	wal_mgr_start(&mgr);
	opened = true;
	state_lsn_set(ckpt);
}
static void
log_close(void)
{
	if (! opened)
		return;
	if (cur_open)
		wal_cursor_close(&cur);
	cur_open = false;
	for (int i = 0; i < 8; i++)
		wal_del(&mgr.wal, &slots[i]);
	// a request to rotate that is not needed anymore, together with the shutdown
	if (worker && v_cfgi("merge", 0)) {
		mutex_lock(&mgr.wal_worker.lock);
		mgr.wal_worker.pending |= WAL_CREATE|WAL_SYNC_CREATE;
		mutex_unlock(&mgr.wal_worker.lock);
	}
	wal_mgr_stop(&mgr);
	wal_mgr_free(&mgr);
	opened = false;
}

void
vmod_begin(void)
{
	static int n;
	snprintf(dir, sizeof(dir), "%s/%d", vf_dir(), n++);
	__real_mkdir(dir, 0755);
	opt_string_set_raw(&state()->directory, dir, strlen(dir));
	crc    = v_cfgi("crc", 1);
	worker = v_cfgi("worker", 0);
	short_max = v_cfgi("short", 0);
	opt_int_set(&config()->wal_crc, crc);
	opt_int_set(&config()->wal_worker, worker);
	opt_int_set(&config()->wal_truncate, 0);
	opt_defaults();
	memset(payload_of, 0, sizeof(payload_of));
	auto map = v_cfg("shapes", "12345");
	for (int i = 0; map[i]; i++)
		payload_of[i + 1] = map[i] - '0';
	for (int i = 0; i < 8; i++)
		wal_slot_init(&slots[i]);
	wal_cursor_init(&cur);
	cur_open = false;
	ckpt = 0;
	log_open();
	v_out("{\"bad\":%s}", v_bad_json());
}

void
vmod_end(void)
{
	vf_disarm();
	log_close();
	vf_rmtree(dir);
	v_out("{\"bad\":%s}", v_bad_json());
}

static void
wait_rotate(uint64_t from)
{
	// wait until the worker switched to the next file
	for (int i = 0; i < 4000; i++)
	{
		mutex_lock(&mgr.wal.lock);
		bool done = mgr.wal.current->id > from && !mgr.wal_worker.pending;
		mutex_unlock(&mgr.wal.lock);
		if (done)
			break;
		usleep(500);
	}
	if (worker)
		usleep(200);
}

static void
write_group(Group* g, bool rotate)
{
	auto from = mgr.wal.current->id;
	opt_int_set(&config()->wal_size, rotate ? 1 : 1 << 30);
	wal_mgr_write(&mgr, &g->wl);
	if (rotate && worker)
		wait_rotate(from);
	opt_defaults();
}

static Group group;
static void child_write(void) { wal_mgr_write(&mgr, &group.wl); }

static int  follow_when;
static void
follow_hook(void)
{
	if (follow_when == 2)
	{
		auto from = mgr.wal.current->id;
		opt_int_set(&config()->wal_size, 1);
		wal_mgr_create(&mgr);
		if (worker)
			wait_rotate(from);
		opt_defaults();
	}
	write_group(&group, follow_when == 1);
}

static volatile int race_reached, race_done;
static void
race_hook(void)
{
	race_reached = 1;
	for (int i = 0; i < 60 && !race_done; i++)
		usleep(500);
}

static void
damage(uint64_t lsn, const char* field, bool restore)
{
	static uint8_t saved;
	static char    path[512];
	static off_t   at;
	int fd;
	if (! restore)
	{
		// find the record
		auto id = id_mgr_find(&mgr.wal.list, lsn);
		snprintf(path, sizeof(path), "%s/wal/%llu", dir, (unsigned long long)id);
		fd = __real_open(path, O_RDWR);
		off_t off = 0;
		Record r;
		for (;;) {
			if (__real_pread(fd, &r, sizeof(r), off) != sizeof(r) || r.size < sizeof(r)) {
				v_bad("damage: record %llu is not in its file", (unsigned long long)lsn);
				close(fd);
				at = -1;
				return;
			}
			if (r.lsn == lsn)
				break;
			off += r.size;
		}
		at = off;
		if (! strcmp(field, "crc"))   at += 1;
		if (! strcmp(field, "lsn"))   at += offsetof(Record, lsn);
		if (! strcmp(field, "size"))  at += offsetof(Record, size);
		if (! strcmp(field, "count")) at += offsetof(Record, count) + 2;
		if (! strcmp(field, "ops"))   at += offsetof(Record, ops);
		if (! strcmp(field, "cmd"))   at += sizeof(Record) + 6;
		if (! strcmp(field, "data"))  at += r.size - 3;
		if (__real_pread(fd, &saved, 1, at) != 1)
			v_bad("damage: read");
		uint8_t x = saved ^ 0x40;
		__real_pwrite(fd, &x, 1, at);
		close(fd);
		return;
	}
	if (at == -1)
		return;
	fd = __real_open(path, O_RDWR);
	__real_pwrite(fd, &saved, 1, at);
	close(fd);
}

static void
out_state(void)
{
	v_out("{\"all\":");
	if (! read_recover(true))
		v_bad("reading the log failed: %s", v_error_text());
	v_out(",\"lsn\":%llu,\"files\":", (unsigned long long)state_lsn());
	out_files();
	v_out(",\"bad\":%s}", v_bad_json());
}

void
vmod_op(void)
{
	auto wal = &mgr.wal;
	if (v_is("write"))
	{
		group_make(&group, 2);
		if (short_max) {
			vf_arm();
			vf.short_max = short_max;
		}
		write_group(&group, v_int(1));
		vf_disarm();
		v_out("{\"lsn\":%llu,\"list\":%llu,\"files\":", (unsigned long long)state_lsn(), (unsigned long long)group.wl.lsn);
		out_files();
		v_out("}");
		group_free(&group);
	} else
	if (v_is("write_fail") || v_is("rotate_fail"))
	{
		bool rotate = v_is("rotate_fail");
		if (rotate && worker) {
			// the worker creates the file: writers never see that error
			vf_arm();
			vf.any = true;
		} else
			vf_arm();
		group_make(&group, rotate ? 1 : 2);
		vf.short_max = short_max;
		if (rotate) {
			opt_int_set(&config()->wal_size, 1);
			vf.fail_kind = VF_CREATE;
			vf.fail_errno = ENOSPC;
		} else
		if (! strcmp(v_str(1), "first"))
			vf.budget = 0;
		else
		if (! strcmp(v_str(1), "mid"))
			vf.budget = group.size / 2;
		else
		if (! strcmp(v_str(1), "last"))
			vf.budget = group.size - 1;
		else
		{
			opt_int_set(&config()->wal_sync_on_write, 1);
			vf.fail_kind = VF_SYNC;
		}
		bool on_error = error_catch( wal_mgr_write(&mgr, &group.wl) );
		if (rotate && worker)
			for (int i = 0; i < 200 && (vf.fail_skip >= 0 || mgr.wal_worker.pending); i++)
				usleep(500);
		vf_disarm();
		opt_defaults();
		if (rotate && worker)
			usleep(300);
		v_out("{\"error\":%s,\"lsn\":%llu,\"files\":", on_error ? "true" : "false", (unsigned long long)state_lsn());
		out_files();
		v_out("}");
		group_free(&group);
	} else
	if (v_is("crash_write") || v_is("crash_rotate"))
	{
		bool rotate = v_is("crash_rotate");
		group_make(&group, rotate ? 2 : 3);
		char path[400];
		snprintf(path, sizeof(path), "%s/wal/%llu", dir, (unsigned long long)wal->current->id);
		vf_arm();
		if (rotate) {
			opt_int_set(&config()->wal_size, 1);
			vf.create_crash = v_int(1) ? 2 : 1;
		} else
		{
			int64_t budget = 0;
			for (int i = 0; i < v_int(1); i++)
				budget += group.list[i].write.header.size;
			if (v_int(1) < group.count) {
				auto next = group.list[v_int(1)].write.header.size;
				switch (v_int(2)) {
				case 1: budget += 10; break;
				case 2: budget += sizeof(Record); break;
				case 3: budget += sizeof(Record) + (next - sizeof(Record)) / 2; break;
				}
			}
			vf.budget = budget;
			vf.budget_crash = true;
			vf.short_max = short_max;
		}
		int rc = vf_child(child_write);
		vf_disarm();
		if (rc != 42 && rc != 0)
			v_bad("crash: unexpected status %d", rc);
		if (!rotate && v_int(2) == 4) {
			// the file was extended but its last blocks never reached the disk
			static char zero[4096];
			int fd = __real_open(path, O_WRONLY|O_APPEND);
			if (__real_write(fd, zero, v_int(1) % 2 ? 4096 : 20) < 0)
				v_bad("crash: zero tail");
			close(fd);
		}
		group_free(&group);
		opt_defaults();
		log_close();
		log_open();
		out_state();
	} else
	if (v_is("reopen"))
	{
		log_close();
		log_open();
		out_state();
	} else
	if (v_is("truncate"))
	{
		opt_int_set(&config()->wal_truncate, v_int(1));
		log_close();
		log_open();
		if (opt_int_of(&config()->wal_truncate) != 0)
			v_bad("wal_truncate is still set");
		out_state();
	} else
	if (v_is("read"))
	{
		v_out("{\"list\":");
		bool ok = read_from(v_int(1));
		v_out(",\"error\":%s}", ok ? "false" : "true");
	} else
	if (v_is("read_damaged"))
	{
		if (crc)
			damage(v_int(1), v_str(2), false);
		v_out("{\"list\":");
		bool ok = read_from(0);
		v_out(",\"error\":%s", ok ? "false" : "true");
		if (crc)
			damage(v_int(1), v_str(2), true);
		v_out(",\"bad\":%s}", v_bad_json());
	} else
	if (v_is("read_far"))
	{
		// a sparse file of its own
		char path[400];
		snprintf(path, sizeof(path), "%s/far", dir);
		uint64_t at = (uint64_t)v_int(1) * 1024 * 1024 * 1024 + 12345;
		v_argv[0] = "1";
		v_argv[1] = v_argv[2];
		group_make(&group, 0);
		auto write = &group.list[0].write;
		write_end(write, 7);
		int fd = __real_open(path, O_CREAT|O_RDWR|O_TRUNC, 0644);
		uint64_t off = at;
		for (int i = 0; i < write->iov.iov_count; i++)
			off += __real_pwrite(fd, iov_pointer(&write->iov)[i].iov_base, iov_pointer(&write->iov)[i].iov_len, off);
		list_foreach(&write->list)
		{
			auto log = list_at(WriteLog, link);
			for (int i = 0; i < log->iov.iov_count; i++)
				off += __real_pwrite(fd, iov_pointer(&log->iov)[i].iov_base, iov_pointer(&log->iov)[i].iov_len, off);
		}
		close(fd);
		auto file = wal_file_allocate(1);
		file_open(&file->file, path);
		Buf buf;
		buf_init(&buf);
		v_out("{\"list\":[");
		out_count = 0;
		if (wal_file_pread(file, at, &buf))
			out_record((Record*)buf.start);
		buf_reset(&buf);
		// end of the file, and an incomplete record there
		if (wal_file_pread(file, off, &buf) || wal_file_pread(file, off - 10, &buf))
			v_out(",[\"beyond the end\"]");
		v_out("]}");
		wal_file_close(file);
		wal_file_free(file);
		buf_free(&buf);
		__real_unlink(path);
		group_free(&group);
	} else
	if (v_is("in_range"))
		v_out("{\"res\":%d}", wal_in_range(wal, v_int(1)) ? 1 : 0);
	else
	if (v_is("c_open"))
	{
		wal_cursor_init(&cur);
		wal_cursor_open(&cur, wal, v_int(1), true, crc);
		cur_open = true;
		v_out("{\"list\":[]}");
	} else
	if (v_is("c_next"))
	{
		v_out("{\"list\":[");
		out_count = 0;
		if (wal_cursor_next(&cur))
			out_record(wal_cursor_at(&cur));
		v_out("]}");
	} else
	if (v_is("c_ahead"))
	{
		v_out("{\"list\":[");
		out_count = 0;
		uint64_t lsn = 0;
		int got = wal_cursor_readahead(&cur, 1 << 30, &lsn, v_int(1));
		if (got != buf_size(&cur.buf))
			v_bad("readahead: %d bytes collected, %d returned", got, (int)buf_size(&cur.buf));
		auto pos = cur.buf.start;
		while (pos < cur.buf.position) {
			out_record((Record*)pos);
			pos += ((Record*)pos)->size;
		}
		if (lsn != (uint64_t)v_int(1))
			v_bad("readahead: position %llu", (unsigned long long)lsn);
		v_out("],\"bad\":%s}", v_bad_json());
	} else
	if (v_is("c_close"))
	{
		wal_cursor_close(&cur);
		cur_open = false;
		v_out("{\"list\":[]}");
	} else
	if (v_is("follow"))
	{
		group_make(&group, 4);
		follow_when = v_int(3);
		WalCursor c;
		wal_cursor_init(&c);
		defer(wal_cursor_close, &c);
		v_out("{\"list\":[");
		out_count = 0;
		vf_arm();
		vf.hook    = follow_hook;
		vf.hook_at = v_int(2);
		wal_cursor_open(&c, wal, v_int(1), true, crc);
		while (wal_cursor_next(&c))
			out_record(wal_cursor_at(&c));
		if (! vf.hooked) {
			vf.hooked = true;
			vf_disarm();
			follow_hook();
		}
		vf_disarm();
		while (wal_cursor_next(&c))
			out_record(wal_cursor_at(&c));
		v_out("],\"files\":");
		out_files();
		v_out("}");
		group_free(&group);
	} else
	if (v_is("rotate_race"))
	{
		group_make(&group, 2);
		auto from = wal->current->id;
		race_reached = race_done = 0;
		opt_int_set(&config()->wal_size, 1);
		vf_arm();
		vf.any     = true;
		vf.hook    = race_hook;
		vf.hook_at = v_int(1);
		wal_mgr_create(&mgr);
		for (int i = 0; i < 400 && !race_reached; i++) {
			usleep(100);
			if (vf.steps && wal->current->id > from)
				break;
		}
		opt_int_set(&config()->wal_size, 1 << 30);
		vf.hooked = true;
		wal_mgr_write(&mgr, &group.wl);
		race_done = 1;
		vf_disarm();
		wait_rotate(from);
		group_free(&group);
		// whatever position it is opened at, a reader gets the rest of the log
		v_out("{\"reads\":[");
		auto first = id_mgr_min(&wal->list);
		for (uint64_t l = first; l <= state_lsn(); l++) {
			if (l > first)
				v_out(",");
			read_from(l);
		}
		v_out("],\"lsn\":%llu}", (unsigned long long)state_lsn());
	} else
	if (v_is("slot_set"))
	{
		auto slot = &slots[v_int(1)];
		if (! slot->added)
			wal_add(wal, slot);
		wal_slot_set(slot, v_int(2));
		v_out("{}");
	} else
	if (v_is("slot_snapshot"))
	{
		Buf data;
		buf_init(&data);
		wal_snapshot(wal, &slots[v_int(1)], &data);
		v_out("{\"files\":[");
		uint8_t* pos = data.start;
		int n = 0;
		json_read_array(&pos);
		while (! json_read_array_end(&pos)) {
			json_read_array(&pos);
			Str path;
			json_read_string(&pos, &path);
			char text[256];
			snprintf(text, sizeof(text), "%.*s", (int)str_size(&path), str_of(&path));
			v_out("%s%s", n++ ? "," : "", strncmp(text, "wal/", 4) ? "0" : text + 4);
			while (! json_read_array_end(&pos))
				json_skip(&pos);
		}
		v_out("]}");
		buf_free(&data);
	} else
	if (v_is("slot_del"))
	{
		wal_del(wal, &slots[v_int(1)]);
		v_out("{}");
	} else
	if (v_is("gc"))
	{
		wal_gc(wal, v_int(1));
		if ((uint64_t)v_int(1) > ckpt)
			ckpt = v_int(1);
		v_out("{\"files\":");
		out_files();
		v_out("}");
	} else {
		fprintf(stderr, "driver: unknown operation %s\n", v_argv[0]);
		_exit(3);
	}
}
