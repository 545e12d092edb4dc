// Driver of the Lock specification (spec/Lock.tla, spec/LockTrace.tla).
#include "vdrv.h"
#include "vsched.h"

#define COROS 8
#define RELS  4
#define NAMES 4
#define CMDS  32

enum { IDLE, BUSY, DEAD };
static const char modes[] = "-SWRXC";

typedef struct
{
	char kind[12];
	int  c, r, m, n, list_count;
	int  list[8][2];
} LkCmd;

typedef struct
{
	Task*  task;
	int    id;
	int    state;
	bool   dead, started;
	uint64_t coro;
	Event  ev;
	LkCmd    cmds[CMDS];
	int    count, at;
	Lock*  held[RELS][LOCK_MAX];
	int    refs[RELS][LOCK_MAX];
	int    entries;
} LkCoro;

typedef struct { Msg msg; int kill; int c; } Order;

static Task     tasks[4];
static int      tasks_count, coros_count, rels_count;
static LkCoro   workers[COROS];
static Relation rels[RELS];
static Str      rel_names[RELS];
static char     rel_text[RELS][8];
static Lock*    named[NAMES];
static bool     named_busy[NAMES];
static char     named_rel[NAMES];
static char     events[1 << 18];
static int      events_at;
static bool     logging;
static Order    orders[256];
static int      orders_at;
static int      base_count;

// (not a scheduling point)
__attribute__((disable_sanitizer_instrumentation, noinline)) static void
note(const char* fmt, ...)
{
	if (! logging || events_at > (int)sizeof(events) - 512)
		return;
	va_list args;
	va_start(args, fmt);
	if (events_at)
		events[events_at++] = ',';
	events_at += vsnprintf(events + events_at, 500, fmt, args);
	va_end(args);
}

static LockId
mode_of(const char* s)
{
	return strchr(modes, *s) - modes;
}

static void
forget(LkCoro* w)
{
	memset(w->held, 0, sizeof(w->held));
	memset(w->refs, 0, sizeof(w->refs));
	w->entries = 0;
}

static void
take(LkCoro* w, Lock* lk, int r, int m)
{
	w->held[r][m] = lk;
	if (w->refs[r][m]++ == 0)
		w->entries++;
}

static void
put(LkCoro* w, int r, int m)
{
	auto lk = w->held[r][m];
	if (--w->refs[r][m] == 0)
	{
		w->held[r][m] = NULL;
		w->entries--;
	}
	unlock(lk);
}

// a command of the coroutine
static void
execute(LkCoro* w, LkCmd* cmd)
{
	auto mgr = &runtime()->lock_mgr;
	int r = cmd->r, m = cmd->m;
	if (! strcmp(cmd->kind, "lock"))
	{
		note("{\"e\":\"call\",\"c\":\"c%d\",\"k\":\"lock\",\"l\":[[%d,\"%c\"]],\"n\":\"\"}", w->id, r + 1, modes[m]);
		auto lk = lock_mgr_lock(mgr, &rels[r], m, NULL, source_function);
		take(w, lk, r, m);
		note("{\"e\":\"ret\",\"c\":\"c%d\"}", w->id);
	} else
	if (! strcmp(cmd->kind, "access"))
	{
		char text[200];
		int at = 0;
		Access from, access;
		access_init(&from);
		access_init(&access);
		defer(access_free, &from);
		defer(access_free, &access);
		for (int i = 0; i < cmd->list_count; i++)
		{
			access_add(&from, &rels[cmd->list[i][0]], cmd->list[i][1]);
			at += sprintf(text + at, "%s[%d,\"%c\"]", i ? "," : "", cmd->list[i][0] + 1, modes[cmd->list[i][1]]);
		}
		access_merge(&access, &from);
		note("{\"e\":\"call\",\"c\":\"c%d\",\"k\":\"access\",\"l\":[%s],\"n\":\"\"}", w->id, text);
		lock_access(&access);
		note("{\"e\":\"ret\",\"c\":\"c%d\"}", w->id);
		// (handles are found in the list of the coroutine)
		list_foreach(&am_self()->locks)
		{
			auto lk = list_at(Lock, link);
			int rr = lk->rel - rels;
			w->held[rr][lk->rel_lock] = lk;
			w->refs[rr][lk->rel_lock] = lk->refs;
		}
		w->entries = 0;
		for (int i = 0; i < RELS; i++)
			for (int j = 0; j < LOCK_MAX; j++)
				w->entries += w->refs[i][j] > 0;
	} else
	if (! strcmp(cmd->kind, "unlock"))
	{
		note("{\"e\":\"call\",\"c\":\"c%d\",\"k\":\"unlock\",\"l\":[[%d,\"%c\"]],\"n\":\"\"}", w->id, r + 1, modes[m]);
		put(w, r, m);
		note("{\"e\":\"ret\",\"c\":\"c%d\"}", w->id);
	} else
	if (! strcmp(cmd->kind, "unlock_all"))
	{
		note("{\"e\":\"call\",\"c\":\"c%d\",\"k\":\"unlock_all\",\"l\":[],\"n\":\"\"}", w->id);
		forget(w);
		unlock_all();
		note("{\"e\":\"ret\",\"c\":\"c%d\"}", w->id);
	} else
	if (! strcmp(cmd->kind, "named"))
	{
		char text[8];
		sprintf(text, "n%d", cmd->n + 1);
		Str name;
		str_set_cstr(&name, text);
		note("{\"e\":\"call\",\"c\":\"c%d\",\"k\":\"named\",\"l\":[[%d,\"%c\"]],\"n\":\"%s\"}", w->id, r + 1, modes[m], text);
		named_busy[cmd->n] = true;
		if (error_catch( named[cmd->n] = lock_mgr_lock(mgr, &rels[r], m, &name, source_function) ))
		{
			named_busy[cmd->n] = false;
			rethrow();
		}
		if (lock_mgr_find(mgr, &name) != named[cmd->n])
			v_bad("a detached lock is not found by its name");
		note("{\"e\":\"ret\",\"c\":\"c%d\"}", w->id);
	} else
	if (! strcmp(cmd->kind, "unname"))
	{
		note("{\"e\":\"call\",\"c\":\"c%d\",\"k\":\"unname\",\"l\":[],\"n\":\"n%d\"}", w->id, cmd->n + 1);
		unlock(named[cmd->n]);
		named[cmd->n] = NULL;
		named_busy[cmd->n] = false;
		note("{\"e\":\"ret\",\"c\":\"c%d\"}", w->id);
	} else
	if (! strcmp(cmd->kind, "unlock_kill"))
	{
		put(w, r, m);
		coroutine_kill_nowait(workers[cmd->c].coro);
	} else
	if (! strcmp(cmd->kind, "kill_unlock"))
	{
		coroutine_kill_nowait(workers[cmd->c].coro);
		put(w, r, m);
	}
}

// whether it applies now (scripts)
static bool
applies(LkCoro* w, LkCmd* cmd)
{
	if (! strcmp(cmd->kind, "lock"))
		return w->refs[cmd->r][cmd->m] > 0 ? w->refs[cmd->r][cmd->m] < 3 : w->entries < 4;
	if (! strcmp(cmd->kind, "unlock"))
		return w->refs[cmd->r][cmd->m] > 0;
	if (! strcmp(cmd->kind, "named"))
		return ! named_busy[cmd->n] && ! w->refs[cmd->r][cmd->m];
	if (! strcmp(cmd->kind, "unname"))
		return named[cmd->n] != NULL;
	return true;
}

static void
worker_main(void* arg)
{
	LkCoro* w = arg;
	w->started = true;
	event_attach(&w->ev);
	bool on_error = error_catch
	(
		for (;;)
		{
			while (w->at < w->count)
			{
				auto cmd = &w->cmds[w->at++];
				w->state = BUSY;
				if (! logging || applies(w, cmd))
					execute(w, cmd);
			}
			w->state = IDLE;
			event_wait(&w->ev, -1);
		}
	);
	unused(on_error);
	note("{\"e\":\"dying\",\"c\":\"c%d\"}", w->id);
	unlock_all();
	forget(w);
	w->count = w->at = 0;
	w->state = DEAD;
	w->dead  = true;
	note("{\"e\":\"dead\",\"c\":\"c%d\"}", w->id);
}

static void
task_main_lock(void* arg)
{
	unused(arg);
	for (;;)
	{
		auto msg = task_recv();
		if (msg->id == MSG_STOP)
			break;
		auto order = (Order*)msg;
		auto w = &workers[order->c];
		if (order->kill)
		{
			if (coroutine_mgr_find(&am_task->coroutine_mgr, w->coro))
			{
				if (w->started || ! w->dead)
				note("{\"e\":\"kill\",\"c\":\"c%d\"}", w->id);
				coroutine_kill_nowait(w->coro);
				if (! w->started && ! w->dead)
				{
					// it ends before its first step
					note("{\"e\":\"dying\",\"c\":\"c%d\"}", w->id);
					note("{\"e\":\"dead\",\"c\":\"c%d\"}", w->id);
					w->dead = true;
				}
			}
		} else {
			if (w->dead)
				note("{\"e\":\"spawn\",\"c\":\"c%d\"}", w->id);
			w->dead = w->started = false;
			event_init(&w->ev);
			w->coro = coroutine_create(worker_main, w);
		}
	}
}

static void
order(int c, int kill)
{
	auto o = &orders[orders_at++ % 256];
	o->kill = kill;
	o->c    = c;
	msg_init(&o->msg, MSG_CLIENT);
	task_send(workers[c].task, &o->msg);
}

static void
quiesce(void)
{
	if (! vs_quiesce(0))
		v_bad("the threads do not come to rest");
}

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

void
vmod_begin(void)
{
	tasks_count = v_cfgi("tasks", 1);
	coros_count = v_cfgi("coros", 3);
	rels_count  = v_cfgi("rels", 2);
	logging     = v_cfgi("script", 0);
	events_at   = 0;
	orders_at   = 0;
	memset(workers, 0, sizeof(workers));
	memset(named, 0, sizeof(named));
	memset(named_busy, 0, sizeof(named_busy));
	base_count = runtime()->lock_mgr.list_count;
	for (int i = 0; i < RELS; i++)
	{
		sprintf(rel_text[i], "r%d", i + 1);
		str_set_cstr(&rel_names[i], rel_text[i]);
		relation_init(&rels[i]);
		relation_set_name(&rels[i], &rel_names[i]);
		relation_set_rsn(&rels[i], 1000 + i);
	}
	vs_begin(v_cfgi("seed", 1), v_cfgi("pa", 3), v_cfgi("pp", 40));
	for (int i = 0; i < tasks_count; i++)
	{
		task_init(&tasks[i]);
		task_create(&tasks[i], "w", task_main_lock, NULL);
	}
	for (int i = 0; i < coros_count; i++)
	{
		auto w = &workers[i];
		w->id    = i + 1;
		w->task  = &tasks[i % tasks_count];
		w->state = DEAD;
		order(i, 0);
	}
	quiesce();
	v_out("{\"bad\":%s}", v_bad_json());
}

static void
observe(void)
{
	static const char* state[] = { "idle", "wait", "dead" };
	int total = 0;
	v_out("{\"pc\":{");
	for (int i = 0; i < coros_count; i++)
		v_out("%s\"c%d\":\"%s\"", i ? "," : "", i + 1, state[workers[i].state]);
	v_out("},\"set\":[");
	for (int i = 0; i < rels_count; i++)
	{
		v_out("%s{", i ? "," : "");
		for (int m = LOCK_SHARED; m < LOCK_MAX; m++)
		{
			v_out("%s\"%c\":%d", m > 1 ? "," : "", modes[m], rels[i].lock_set[m]);
			total += rels[i].lock_set[m];
		}
		v_out("}");
	}
	v_out("],\"wait\":[");
	for (int i = 0; i < rels_count; i++)
	{
		v_out("%s%d", i ? "," : "", rels[i].lock_wait_count);
		total += rels[i].lock_wait_count;
	}
	if (total != runtime()->lock_mgr.list_count - base_count)
		v_bad("%d locks are held or waited for, %d are registered", total, runtime()->lock_mgr.list_count - base_count);
	v_out("]");
	int waiting = 0, busy = 0;
	for (int i = 0; i < rels_count; i++)
		waiting += rels[i].lock_wait_count;
	for (int i = 0; i < coros_count; i++)
		busy += workers[i].state == BUSY;
	if (waiting != busy)
		v_bad("%d coroutines wait, %d requests are waiting", busy, waiting);
}

static int
parse(int at, LkCmd* cmd)
{
	snprintf(cmd->kind, sizeof(cmd->kind), "%s", v_str(at++));
	if (! strcmp(cmd->kind, "access"))
	{
		cmd->list_count = v_int(at++);
		for (int i = 0; i < cmd->list_count; i++)
		{
			cmd->list[i][0] = v_int(at++) - 1;
			cmd->list[i][1] = mode_of(v_str(at++));
		}
		return at;
	}
	if (! strcmp(cmd->kind, "unlock_all"))
		return at;
	if (! strcmp(cmd->kind, "named") || ! strcmp(cmd->kind, "unname"))
		cmd->n = v_str(at++)[1] - '1';
	if (strcmp(cmd->kind, "unname"))
	{
		cmd->r = v_int(at++) - 1;
		cmd->m = mode_of(v_str(at++));
	}
	if (! strcmp(cmd->kind, "unlock_kill") || ! strcmp(cmd->kind, "kill_unlock"))
		cmd->c = v_str(at++)[1] - '1';
	return at;
}

void
vmod_op(void)
{
	int c = v_argc > 1 ? v_str(1)[1] - '1' : 0;
	if (v_is("kill") || v_is("spawn"))
	{
		// scripts: at any time
		if (v_is("kill") || workers[c].state == DEAD)
			order(c, v_is("kill"));
		if (logging)
		{
			v_out("{}");
			return;
		}
		quiesce();
	} else
	if (v_is("script"))
	{
		// script <c> <command>...: runs with the others from the next "go"
		auto w = &workers[c];
		w->count = w->at = 0;
		int at = 2;
		if (w->state != IDLE)
		{
			v_out("{}");
			return;
		}
		while (at < v_argc && w->count < CMDS)
			at = parse(at, &w->cmds[w->count++]);
		v_out("{}");
		return;
	} else
	if (v_is("go"))
	{
		// go <c to kill>...
		for (int i = 0; i < coros_count; i++)
			if (workers[i].state == IDLE && workers[i].count)
				event_signal(&workers[i].ev);
		for (int i = 1; i < v_argc; i++)
			order(v_str(i)[1] - '1', 1);
		quiesce();
	} else
	{
		// "<kind> <c> <args>": as the arguments of a command
		static char swap[16];
		auto w = &workers[c];
		snprintf(swap, sizeof(swap), "%s", v_argv[0]);
		v_argv[1] = swap;
		w->count = w->at = 0;
		parse(1, &w->cmds[0]);
		w->count = 1;
		event_signal(&w->ev);
		quiesce();
	}
	observe();
	if (logging)
		v_out(",\"events\":[%.*s]", events_at, events);
	events_at = 0;
	v_out(",\"bad\":%s}", v_bad_json());
}

void
vmod_end(void)
{
	logging = false;
	// detached locks outlive the coroutines
	Msg stop[4];
	for (int i = 0; i < tasks_count; i++)
	{
		msg_init(&stop[i], MSG_STOP);
		task_send(&tasks[i], &stop[i]);
	}
	for (int i = 0; i < tasks_count; i++)
		task_wait(&tasks[i]);
	vs_end();
	for (int i = 0; i < tasks_count; i++)
		task_free(&tasks[i]);
	for (int i = 0; i < NAMES; i++)
		if (named[i])
			unlock(named[i]);
	int total = 0;
	for (int i = 0; i < rels_count; i++)
	{
		total += rels[i].lock_wait_count;
		for (int m = LOCK_SHARED; m < LOCK_MAX; m++)
			total += rels[i].lock_set[m];
	}
	if (total || runtime()->lock_mgr.list_count != base_count)
		v_bad("%d locks are left", total);
	v_out("{\"bad\":%s}", v_bad_json());
}
