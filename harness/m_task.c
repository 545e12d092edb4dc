// Driver of the Task specification (spec/Task.tla, spec/TaskTrace.tla).
#include "vdrv.h"
#include "vsched.h"

#define COROS  24
#define EVENTS 6
#define CMDS   80
#define CALLS  1024
#define LOG    (1 << 22)

enum { IDLE, BUSY, DEAD };

typedef struct { char kind[12]; char a[8], b[8]; int n, list[8][3]; } Cm;

typedef struct
{
	int      id, thread, state, gen;
	bool     started;
	uint64_t coro;
	Event    ev;             // the next commands
	Cm       cmds[CMDS];
	int      count, at, n_script;
	int      pause;
	int      wait;           // event
	int      join;           // joined by others
	int      joins;          // the coroutine it waits for, plus 1
	char     last[32];
} Tw;

typedef struct { Event ev; int thread; bool local; int waiter; } Te;

// a call
typedef struct
{
	int   id, fail, nest, nest_fail, delay;
	bool  held;
	bool  entered, done;
	int   result;
	Event go;
	Rpc*  rpc;
} Ca;

typedef struct { Msg msg; int n, by; } Mail;

static Task     tasks[6];
static int      tasks_count, coros_count, events_count;
static Tw       workers[COROS];
static Te       evs[EVENTS];
static Ca       calls[CALLS];
static int      calls_count, calls_served;
#define MAILS 32768
static Mail     mails[MAILS];
static int      mails_count;
static int      receiving[6];
static int      sent[COROS][6], got[COROS][6];
static atomic_u32 spins;
static bool     logging;
static char*    log_text;
static int      log_at;
static Event    thread_ev[6];
static int      thread_order[6];

#define QUIET __attribute__((disable_sanitizer_instrumentation, noinline)) static

QUIET void
note(const char* fmt, ...)
{
	if (! logging || log_at > LOG - 4096)
		return;
	va_list args;
	va_start(args, fmt);
	if (log_at)
		log_text[log_at++] = ',';
	log_at += sprintf(log_text + log_at, "{\"t\":%d,", (int)vs_time_ms());
	log_at += vsnprintf(log_text + log_at, 2000, fmt, args);
	va_end(args);
}

QUIET int coro_of(const char* s)  { return atoi(s + 1) - 1; }
QUIET int event_of(const char* s) { return s[0] ? s[1] - '1' : -1; }

QUIET Mail* mail_new(void) { return &mails[mails_count++ % MAILS]; }
QUIET Ca*   ca_new(void)   { return &calls[++calls_count]; }
QUIET void  ca_served(void) { calls_served++; }

// -------------------------------------------------- calls
static void
served(Ca* ca)
{
	note("\"e\":\"serve\",\"n\":%d}", ca->id);
	ca->done = true;
	ca_served();
}

static void
call_main(Rpc* self, void* arg)
{
	unused(arg);
	Ca* ca = self->arg;
	note("\"e\":\"enter\",\"n\":%d}", ca->id);
	if (ca->entered)
		v_bad("call %d is executed twice", ca->id);
	ca->entered = true;
	if (ca->held)
		event_wait(&ca->go, -1);
	else
	if (ca->delay)
		coroutine_sleep(ca->delay);
	if (ca->nest)
	{
		Ca* in = &calls[ca->nest];
		if (error_catch( rpc(&tasks[tasks_count + in->id % 2], MSG_CLIENT, in) ))
		{
			served(ca);
			rethrow();
		}
		if (in->result != in->id * 7)
			v_bad("call %d returned %d", in->id, in->result);
	}
	served(ca);
	if (ca->fail)
		error("boom %d", ca->id);
	ca->result = ca->id * 7;
}

static void
call_coro(void* arg)
{
	Ca* ca = arg;
	auto rpc = ca->rpc;
	event_attach(&ca->go);
	rpc_execute(rpc, call_main, NULL);
}

static void
server_main(void* arg)
{
	unused(arg);
	for (;;)
	{
		auto msg = task_recv();
		if (msg->id == MSG_STOP)
			break;
		auto rpc = rpc_of(msg);
		Ca* ca = rpc->arg;
		ca->rpc = rpc;
		coroutine_create(call_coro, ca);
	}
}

static Ca*
call_new(int fail, int delay)
{
	auto ca = ca_new();
	memset(ca, 0, sizeof(*ca));
	ca->id    = ca - calls;
	ca->fail  = fail;
	ca->delay = delay;
	ca->held  = ! logging;
	event_init(&ca->go);
	return ca;
}

static void
returned(Ca* ca)
{
	if (ca->fail || ca->nest_fail)
		v_bad("call %d did not return its error", ca->id);
	if (ca->result != ca->id * 7)
		v_bad("call %d returned %d", ca->id, ca->result);
}

// -------------------------------------------------- commands
static void worker_main(void*);

static bool
alive(Tw* w)
{
	return w->gen && coroutine_mgr_find(&tasks[w->thread].coroutine_mgr, w->coro) != NULL;
}

static void
spawn(int d)
{
	auto w = &workers[d];
	w->gen++;
	w->state = BUSY;
	w->started = false;
	w->pause = w->count = w->at = w->join = w->joins = 0;
	w->wait  = -1;
	w->last[0] = 0;
	event_init(&w->ev);
	w->coro = coroutine_create(worker_main, w);
}

static void
kill_of(int d)
{
	auto w = &workers[d];
	coroutine_kill_nowait(w->coro);
}

// what a command does; its outcome is the error or w->last
static void
execute(Tw* w, Cm* cm)
{
	int d = cm->a[0] == 'c' ? coro_of(cm->a) : -1;
	int e = cm->a[0] == 'e' ? event_of(cm->a) : -1;
	strcpy(w->last, "ok");
	if (! strcmp(cm->kind, "wait"))
	{
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"wait\",\"ev\":\"%s\",\"w\":%d}", w->id, cm->a, cm->n);
		w->wait = e;
		evs[e].waiter++;
		if (event_wait(&evs[e].ev, cm->n))
			strcpy(w->last, "timeout");
	} else
	if (! strcmp(cm->kind, "sleep"))
	{
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"sleep\",\"w\":%d}", w->id, cm->n);
		coroutine_sleep(cm->n);
	} else
	if (! strcmp(cm->kind, "pause"))
	{
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"pause\"}", w->id);
		w->pause++;
		cancel_pause();
	} else
	if (! strcmp(cm->kind, "resume"))
	{
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"resume\"}", w->id);
		w->pause--;
		cancel_resume();
	} else
	if (! strcmp(cm->kind, "signal"))
	{
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"signal\",\"ev\":\"%s\"}", w->id, cm->a);
		event_signal(&evs[e].ev);
	} else
	if (! strcmp(cm->kind, "kill"))
	{
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"kill\",\"d\":\"%s\"}", w->id, cm->a);
		kill_of(d);
	} else
	if (! strcmp(cm->kind, "spawn"))
	{
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"spawn\",\"d\":\"%s\"}", w->id, cm->a);
		spawn(d);
	} else
	if (! strcmp(cm->kind, "join") || ! strcmp(cm->kind, "killjoin"))
	{
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"%s\",\"d\":\"%s\"}", w->id, cm->kind, cm->a);
		workers[d].join++;
		w->joins = d + 1;
		if (! strcmp(cm->kind, "join"))
			coroutine_wait(workers[d].coro);
		else
			coroutine_kill(workers[d].coro);
	} else
	if (! strcmp(cm->kind, "send"))
	{
		// send <thread> <n>, in scripts: n messages
		int to = cm->a[1] - '1', n = logging ? cm->n : 1;
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"send\",\"to\":\"%s\",\"n\":%d}", w->id, cm->a, n);
		for (int i = 0; i < n; i++)
		{
			auto mail = mail_new();
			mail->by = w->id;
			mail->n  = logging ? sent[w->id - 1][to]++ : cm->n;
			msg_init(&mail->msg, MSG_CLIENT);
			task_send(&tasks[to], &mail->msg);
		}
	} else
	if (! strcmp(cm->kind, "recv"))
	{
		// recv, in scripts: recv <n>
		int n = logging ? cm->n : 1;
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"recv\",\"n\":%d}", w->id, n);
		receiving[w->thread]++;
		for (int i = 0; i < n; i++)
		{
			auto mail = (Mail*)task_recv();
			if (logging && mail->by && mail->n != got[mail->by - 1][w->thread]++)
				v_bad("message %d of c%d instead of %d", mail->n, mail->by, got[mail->by - 1][w->thread] - 1);
			if (logging)
				note("\"e\":\"got\",\"c\":\"c%d\",\"by\":\"c%d\",\"n\":%d}", w->id, mail->by, mail->n);
			else
				sprintf(w->last, "got %d", mail->n);
		}
		receiving[w->thread]--;
	} else
	if (! strcmp(cm->kind, "block"))
	{
		// keeps the thread busy
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"block\"}", w->id);
		for (int i = 0; i < cm->n * 100; i++)
			atomic_u32_inc(&spins);
	} else
	if (! strcmp(cm->kind, "both"))
	{
		for (int i = 0; i < 2; i++)
		{
			auto what = cm->list[0][i];
			if (cm->list[1][i])
				kill_of(what);
			else
				event_signal(&evs[what].ev);
		}
	} else
	if (! strcmp(cm->kind, "rpcnest"))
	{
		auto ca = call_new(cm->list[0][0], cm->list[0][1]);
		auto in = call_new(cm->list[1][0], cm->list[1][1]);
		ca->nest = in->id;
		ca->nest_fail = in->fail;
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"rpc\",\"ns\":[%d],\"fail\":[%d],\"nest\":%d,\"nfail\":%d}",
		     w->id, ca->id, ca->fail, in->id, in->fail);
		rpc(&tasks[tasks_count + ca->id % 2], MSG_CLIENT, ca);
		returned(ca);
	} else
	if (! strcmp(cm->kind, "rpcset"))
	{
		Ca* list[8];
		char ns[64], fs[64];
		int at = 0, bt = 0;
		for (int i = 0; i < cm->n; i++)
		{
			list[i] = call_new(cm->list[i][0], cm->list[i][1]);
			at += sprintf(ns + at, "%s%d", i ? "," : "", list[i]->id);
			bt += sprintf(fs + bt, "%s%d", i ? "," : "", list[i]->fail);
		}
		note("\"e\":\"call\",\"c\":\"c%d\",\"k\":\"rpc\",\"ns\":[%s],\"fail\":[%s],\"nest\":0,\"nfail\":0}", w->id, ns, fs);
		if (cm->n == 1)
			rpc(&tasks[tasks_count + list[0]->id % 2], MSG_CLIENT, list[0]);
		else
		{
			RpcSet set;
			rpc_set_init(&set);
			defer(rpc_set_free, &set);
			rpc_set_prepare(&set, cm->n);
			for (int i = 0; i < cm->n; i++)
				rpc_send(rpc_set_add(&set, i, MSG_CLIENT, list[i]), &tasks[tasks_count + list[i]->id % 2]);
			rpc_set_wait(&set);
		}
		for (int i = 0; i < cm->n; i++)
			returned(list[i]);
	}
}

// whether it applies now (scripts)
static bool
applies(Tw* w, Cm* cm)
{
	int d = cm->a[0] == 'c' ? coro_of(cm->a) : -1;
	int e = cm->a[0] == 'e' ? event_of(cm->a) : -1;
	if (d >= 0 && (d >= coros_count || workers[d].thread != w->thread || d == w->id - 1))
		return false;
	if (! strcmp(cm->kind, "wait"))
		return evs[e].thread == w->thread && ! evs[e].waiter;
	if (! strcmp(cm->kind, "signal"))
		return ! evs[e].local || evs[e].thread == w->thread;
	if (! strcmp(cm->kind, "resume"))
		return w->pause > 0;
	if (! strcmp(cm->kind, "spawn"))
		return ! alive(&workers[d]);
	if (! strcmp(cm->kind, "kill"))
		return alive(&workers[d]);
	if (! strcmp(cm->kind, "join") || ! strcmp(cm->kind, "killjoin"))
	{
		if (workers[d].join || ! alive(&workers[d]))
			return false;
		for (int i = d, n = 0; n < COROS; n++)
		{
			if (i == w->id - 1)
				return false;
			if (! workers[i].joins)
				break;
			i = workers[i].joins - 1;
		}
		return true;
	}
	if (! strcmp(cm->kind, "send"))
		return cm->a[1] - '1' < tasks_count && cm->a[1] - '1' != w->thread && mails_count + cm->n < MAILS;
	if (! strcmp(cm->kind, "recv"))
		return ! receiving[w->thread];
	if (! strncmp(cm->kind, "rpc", 3))
		return calls_count + 32 < CALLS;
	return true;
}

static void
run_command(Tw* w, Cm* cm)
{
	bool on_error = error_catch( execute(w, cm) );
	if (on_error)
	{
		auto error = &am_self()->error;
		if (error->code == CANCEL)
			strcpy(w->last, "cancel");
		else
			snprintf(w->last, sizeof(w->last), "%.*s", (int)buf_size(&error->text), (char*)error->text.start);
	}
	if (w->wait >= 0)
		evs[w->wait].waiter--;
	w->wait  = -1;
	w->joins = 0;
	if (logging)
		note("\"e\":\"ret\",\"c\":\"c%d\",\"r\":\"%s\"}", w->id, w->last);
}

static void
worker_main(void* arg)
{
	Tw* w = arg;
	w->started = true;
	event_attach(&w->ev);
	note("\"e\":\"up\",\"c\":\"c%d\"}", w->id);
	for (;;)
	{
		while (w->at < w->count)
		{
			auto cm = &w->cmds[w->at++];
			w->state = BUSY;
			if (! strcmp(cm->kind, "exit"))
				goto done;
			if (! logging || applies(w, cm))
				run_command(w, cm);
		}
		w->state = IDLE;
		// (not a cancellation point)
		wait_event(&w->ev, am_self());
	}
done:
	w->count = w->at = 0;
	w->state = DEAD;
	note("\"e\":\"exit\",\"c\":\"c%d\"}", w->id);
}

// -------------------------------------------------- threads
static void
thread_main(void* arg)
{
	int t = (int)(intptr_t)arg;
	event_attach(&thread_ev[t]);
	for (int i = 0; i < events_count; i++)
		if (evs[i].thread == t && ! evs[i].local)
			event_attach(&evs[i].ev);
	for (int i = 0; i < coros_count; i++)
		if (workers[i].thread == t)
			spawn(i);
	for (;;)
	{
		wait_event(&thread_ev[t], am_self());
		if (thread_order[t])
			break;
	}
	if (t == 0 && events_count > 2)
		event_signal(&evs[2].ev);
}

static void
quiesce(int ms)
{
	if (! vs_quiesce(ms))
		v_bad("the threads do not come to rest");
}

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
	log_text = malloc(LOG);
}

void
vmod_begin(void)
{
	tasks_count  = v_cfgi("tasks", 1);
	coros_count  = v_cfgi("coros", 3);
	events_count = v_cfgi("events", 4);
	logging      = v_cfgi("script", 0);
	log_at       = 0;
	memset(workers, 0, sizeof(workers));
	memset(receiving, 0, sizeof(receiving));
	memset(thread_order, 0, sizeof(thread_order));
	calls_count = calls_served = mails_count = 0;
	for (int i = 0; i < events_count; i++)
	{
		// e3 is used on its thread only, e4 follows e1 and e2, e5 is of the last thread
		event_init(&evs[i].ev);
		evs[i].waiter = 0;
		evs[i].local  = i == 2;
		evs[i].thread = i == 4 ? tasks_count - 1 : 0;
		if (i < 2 && events_count > 3)
			event_set_parent(&evs[i].ev, &evs[3].ev);
	}
	memset(sent, 0, sizeof(sent));
	memset(got, 0, sizeof(got));
	for (int i = 0; i < coros_count; i++)
	{
		workers[i].id     = i + 1;
		workers[i].thread = i % tasks_count;
		workers[i].state  = DEAD;
		workers[i].wait   = -1;
	}
	vs_begin(v_cfgi("seed", 1), v_cfgi("pa", 3), v_cfgi("pp", 40));
	for (int i = 0; i < tasks_count + 2; i++)
	{
		event_init(&thread_ev[i]);
		task_init(&tasks[i]);
		task_create(&tasks[i], "w", i < tasks_count ? thread_main : server_main, (void*)(intptr_t)i);
	}
	quiesce(0);
	log_at = 0;
	v_out("{\"bad\":%s}", v_bad_json());
}

static void
observe(void)
{
	static const char* state[] = { "idle", "busy", "dead" };
	for (int i = 0; i < coros_count; i++)
		if (! alive(&workers[i]))
			workers[i].state = DEAD;
	v_out("{\"pc\":{");
	for (int i = 0; i < coros_count; i++)
		v_out("%s\"c%d\":\"%s\"", i ? "," : "", i + 1, state[workers[i].state]);
	v_out("},\"last\":{");
	for (int i = 0; i < coros_count; i++)
	{
		auto w = &workers[i];
		v_out("%s\"c%d\":\"%s\"", i ? "," : "", i + 1, w->state == IDLE ? w->last : "");
		if (w->state == IDLE)
			w->last[0] = 0;
	}
	v_out("},\"t\":%d", (int)vs_time_ms());
}

static int
parse(int at, Cm* cm)
{
	memset(cm, 0, sizeof(*cm));
	snprintf(cm->kind, sizeof(cm->kind), "%s", v_str(at++));
	auto k = cm->kind;
	if (! strcmp(k, "wait") || ! strcmp(k, "send"))
	{
		snprintf(cm->a, sizeof(cm->a), "%s", v_str(at++));
		cm->n = v_int(at++);
	} else
	if (! strcmp(k, "sleep") || ! strcmp(k, "block") || (! strcmp(k, "recv") && logging))
		cm->n = v_int(at++);
	else
	if (! strcmp(k, "signal") || ! strcmp(k, "kill") || ! strcmp(k, "spawn") || ! strcmp(k, "join") || ! strcmp(k, "killjoin"))
		snprintf(cm->a, sizeof(cm->a), "%s", v_str(at++));
	else
	if (! strcmp(k, "both"))
	{
		for (int i = 0; i < 2; i++)
		{
			cm->list[1][i] = ! strcmp(v_str(at++), "kill");
			cm->list[0][i] = coro_of(v_str(at++));
		}
	} else
	if (! strcmp(k, "rpcset") || ! strcmp(k, "rpcnest"))
	{
		cm->n = ! strcmp(k, "rpcset") ? v_int(at++) : 2;
		for (int i = 0; i < cm->n; i++)
		{
			auto s = v_str(at++);
			cm->list[i][0] = *s == 't' || *s == 'T' || *s == '1';
			if (logging)
				cm->list[i][1] = v_int(at++);
		}
	}
	return at;
}

void
vmod_op(void)
{
	if (v_is("script"))
	{
		// script <c> <command>...: runs with the others from the next "go"
		auto w = &workers[coro_of(v_str(1))];
		v_out("{}");
		if (w->state == BUSY)
			return;
		int at = 2, count = 0;
		w->at = w->count = 0;
		while (at < v_argc && count < CMDS)
			at = parse(at, &w->cmds[count++]);
		w->n_script = count;
		return;
	}
	if (v_is("go"))
	{
		for (int i = 0; i < coros_count; i++)
		{
			auto w = &workers[i];
			if (w->state == IDLE && w->n_script)
			{
				w->count = w->n_script;
				event_signal(&w->ev);
			}
			w->n_script = 0;
		}
		quiesce(v_argc > 1 ? v_int(1) : 0);
	} else
	if (v_is("rest"))
	{
		// (demonstrations) nothing waits
		for (int i = 0; i < coros_count; i++)
			if (workers[i].state == BUSY)
				v_bad("c%d waits forever", i + 1);
	} else
	if (v_is("advance"))
		quiesce(v_int(1));
	else
	if (v_is("serve"))
	{
		event_signal(&calls[v_int(1)].go);
		quiesce(0);
		if (calls_served == calls_count)
			calls_served = calls_count = 0;
	} else
	{
		// "<kind> <c> <args>"
		static char swap[16];
		auto w = &workers[coro_of(v_str(1))];
		snprintf(swap, sizeof(swap), "%s", v_argv[0]);
		v_argv[1] = swap;
		w->at = w->count = 0;
		parse(1, &w->cmds[0]);
		w->count = 1;
		event_signal(&w->ev);
		quiesce(0);
	}
	observe();
	if (logging)
		v_out(",\"events\":[%.*s]", log_at, log_text);
	log_at = 0;
	v_out(",\"bad\":%s}", v_bad_json());
}

void
vmod_end(void)
{
	// let all calls go, end all coroutines
	bool was = logging;
	logging = false;
	for (int i = 0; i < coros_count; i++)
	{
		auto w = &workers[i];
		w->at = w->count = 0;
	}
	static Msg stop[6];
	for (int round = 0; round < 20; round++)
	{
		for (int n = 1; n <= calls_count; n++)
			if (calls[n].entered && ! calls[n].done)
				event_signal(&calls[n].go);
		if (was)
			quiesce(1000);
		else
			quiesce(0);
	}
	for (int i = 0; i < coros_count; i++)
	{
		auto w = &workers[i];
		if (w->state == DEAD)
			continue;
		strcpy(w->cmds[0].kind, "exit");
		w->at = 0;
		w->count = 1;
		event_signal(&w->ev);
	}
	for (int i = 0; i < tasks_count; i++)
	{
		// (a receiver ends when it gets something)
		thread_order[i] = 1;
		for (int k = 0; k < 512 && receiving[i]; k++)
		{
			auto mail = mail_new();
			msg_init(&mail->msg, MSG_CLIENT);
			task_send(&tasks[i], &mail->msg);
		}
		event_signal(&thread_ev[i]);
		for (int k = 0; k < events_count; k++)
			if (! evs[k].local && evs[k].thread == i)
				event_signal(&evs[k].ev);
	}
	for (int i = tasks_count; i < tasks_count + 2; i++)
	{
		msg_init(&stop[i], MSG_STOP);
		task_send(&tasks[i], &stop[i]);
	}
	quiesce(10000);
	for (int i = 0; i < tasks_count + 2; i++)
		task_wait(&tasks[i]);
	vs_end();
	for (int i = 0; i < tasks_count + 2; i++)
		task_free(&tasks[i]);
	v_out("{\"bad\":%s}", v_bad_json());
}
