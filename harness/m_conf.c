// Driver of the Users and Conf specifications (spec/Users.tla, spec/Conf.tla).
#include "vdrv.h"
#include "vfault.h"
#include <time.h>
#include <openssl/hmac.h>
#include <openssl/evp.h>

#define FRONTS 4
static char      dir[300];
static UserMgr   mgr;
static Auth      fronts[FRONTS];
static bool      open_users;
static long long now_sec;
static bool      late;      // just before the next second

// ---------------------------------------------------------------- time
#define BASE 1700000000ll
int __real_clock_gettime(clockid_t, struct timespec*);
int
__wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	if (! now_sec || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE))
		return __real_clock_gettime(id, ts);
	ts->tv_sec  = BASE + now_sec;
	ts->tv_nsec = late ? 999999999 : 0;
	return 0;
}

static void
set_time(long long value)
{
	now_sec = value;
	late    = value % 2;
	timer_mgr_reset(&am_task->timer_mgr);
}

// ---------------------------------------------------------------- names
static char long_name[201], long_secret[131];
static const char* names[] =
{
	"u", "U", "uu", long_name, "q\"uo\\te\t'\n", "\xc3\xbcser\x01\x7f"
};
static const char* secrets[] =
{
	"secret", "Secret", long_secret, "a\"b\\c\nd'e\r\f\b\xe2\x82\xac\x02", "secretsecret"
};
#define COUNT(a) (int)(sizeof(a) / sizeof(*(a)))

static const char*
name_of(const char* tok)
{
	return names[atoi(tok + 1) - 1];
}
static const char*
secret_of(const char* tok)
{
	return *tok == 's' ? secrets[atoi(tok + 1) - 1] : "";
}
static void
out_name(Str* s, const char** list, int count, char letter)
{
	if (str_empty(s)) {
		v_out("\"\"");
		return;
	}
	for (int i = 0; i < count; i++)
		if (str_is_cstr(s, list[i])) {
			v_out("\"%c%d\"", letter, i + 1);
			return;
		}
	v_out_str(str_of(s), str_size(s));
}

// ---------------------------------------------------------------- tokens
static void
b64(Buf* out, const uint8_t* data, int size)
{
	static const char tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
	for (int i = 0; i < size; i += 3)
	{
		uint32_t v = data[i] << 16;
		if (i + 1 < size)
			v |= data[i + 1] << 8;
		if (i + 2 < size)
			v |= data[i + 2];
		int n = size - i >= 3 ? 4 : size - i + 1;
		for (int k = 0; k < n; k++)
			buf_write(out, &tab[(v >> (18 - 6 * k)) & 63], 1);
	}
}
static void
text(Buf* out, const char* s)
{
	buf_write(out, s, strlen(s));
}
static void
quoted(Buf* out, const char* s)
{
	text(out, "\"");
	for (; *s; s++)
	{
		const char* from = "\"\\\b\f\n\r\t";
		const char* to   = "\"\\bfnrt";
		const char* at   = strchr(from, *s);
		if (at) {
			char e[2] = { '\\', to[at - from] };
			buf_write(out, e, 2);
		} else
			buf_write(out, s, 1);
	}
	text(out, "\"");
}
static void
header(Buf* out, const char* h)
{
	if (! strcmp(h, "ok"))     text(out, "{\"alg\":\"HS256\",\"typ\":\"JWT\"}");
	else if (! strcmp(h, "spaced")) text(out, " {\n \"typ\" : \"JWT\",\t\"alg\" : \"HS256\" } ");
	else if (! strcmp(h, "extra"))  text(out, "{\"kid\":\"k1\",\"alg\":\"HS256\",\"x\":[1,{\"alg\":\"none\"}],\"typ\":\"JWT\"}");
	else if (! strcmp(h, "none"))   text(out, "{\"alg\":\"none\",\"typ\":\"JWT\"}");
	else if (! strcmp(h, "hs512"))  text(out, "{\"alg\":\"HS512\",\"typ\":\"JWT\"}");
	else if (! strcmp(h, "rs256"))  text(out, "{\"alg\":\"RS256\",\"typ\":\"JWT\"}");
	else if (! strcmp(h, "notyp"))  text(out, "{\"alg\":\"HS256\"}");
	else if (! strcmp(h, "noalg"))  text(out, "{\"typ\":\"JWT\"}");
	else if (! strcmp(h, "typ"))    text(out, "{\"alg\":\"HS256\",\"typ\":\"JWE\"}");
	else if (! strcmp(h, "junk"))   text(out, "alg=HS256,typ=JWT");
	else text(out, "[\"alg\",\"HS256\",\"typ\",\"JWT\"]");
}
static void
payload(Buf* out, const char* form, const char* user, long long iat, long long exp)
{
	char i[64], e[64];
	snprintf(i, sizeof(i), "%lld", iat ? BASE + iat : 0);
	snprintf(e, sizeof(e), "%lld", exp ? BASE + exp : 0);
	bool spaced = !strcmp(form, "spaced");
	if (! strcmp(form, "junk")) {
		text(out, "sub=");
		text(out, user);
		return;
	}
	if (! strcmp(form, "array")) {
		text(out, "[");
		quoted(out, user);
		text(out, "]");
		return;
	}
	text(out, spaced ? "\n{ " : "{");
	if (spaced) {
		text(out, "\"exp\" : ");
		text(out, e);
		text(out, " ,\t");
	}
	if (! strcmp(form, "extra"))
		text(out, "\"aud\":[\"a\",{\"sub\":\"root\"}],\"nbf\":null,\"x\":1.5,");
	if (strcmp(form, "nosub")) {
		text(out, "\"sub\":");
		if (! strcmp(form, "subnum"))
			text(out, "17");
		else
			quoted(out, user);
	}
	if (strcmp(form, "noiat")) {
		text(out, strcmp(form, "nosub") ? ",\"iat\":" : "\"iat\":");
		text(out, i);
	}
	if (!spaced && strcmp(form, "noexp")) {
		text(out, ",\"exp\":");
		if (! strcmp(form, "strexp"))
			text(out, "\"");
		text(out, e);
		if (! strcmp(form, "strexp"))
			text(out, "\"");
	}
	if (strcmp(form, "cut"))
		text(out, "}");
}

typedef struct { const char* head; const char* pay; const char* user; long long iat, exp; } Content;
static int
content(Content* self, int at)
{
	self->head = v_str(at);
	self->pay  = v_str(at + 1);
	self->user = name_of(v_str(at + 2));
	self->iat  = v_int(at + 3);
	self->exp  = v_int(at + 4);
	return at + 5;
}
static void
part(Buf* out, Content* c, bool head)
{
	Buf raw;
	buf_init(&raw);
	if (head)
		header(&raw, c->head);
	else
		payload(&raw, c->pay, c->user, c->iat, c->exp);
	b64(out, raw.start, buf_size(&raw));
	buf_free(&raw);
}

// auth FRONT content(5) by form content(5) frame
static void
make_token(Buf* out)
{
	Content c, of;
	int at = content(&c, 2);
	const char* by   = secret_of(v_str(at));
	const char* form = v_str(at + 1);
	at = content(&of, at + 2);
	const char* frame = v_str(at);

	Buf h, p, s, sig;
	buf_init(&h);
	buf_init(&p);
	buf_init(&s);
	buf_init(&sig);
	part(&h, &c, true);
	part(&p, &c, false);
	part(&s, &of, true);
	text(&s, ".");
	part(&s, &of, false);
	uint8_t digest[36];
	memset(digest, 0, sizeof(digest));
	HMAC(EVP_sha256(), by, strlen(by), (uint8_t*)s.start, buf_size(&s), digest, NULL);
	int size = 32;
	if (! strcmp(form, "flip"))  digest[13] ^= 0x10;
	if (! strcmp(form, "first")) digest[0] ^= 0x80;
	if (! strcmp(form, "last"))  digest[31] ^= 1;
	if (! strcmp(form, "short")) size = 31;
	if (! strcmp(form, "long"))  size = 33;
	if (! strcmp(form, "half"))  size = 16;
	if (! strcmp(form, "zero"))  memset(digest, 0, 32);
	b64(&sig, digest, size);
	if (! strcmp(form, "bad64")) sig.start[7] = '!';

	bool f_no = !strcmp(frame, "nobearer"), nothing = !strcmp(frame, "nothing");
	if (nothing)
		goto done;
	if (! f_no)
		text(out, !strcmp(frame, "space") ? "Bearer  " : "Bearer ");
	if (! strcmp(frame, "only"))
		goto done;
	if (strcmp(frame, "emptyh"))
		buf_write(out, h.start, buf_size(&h));
	if (! strcmp(frame, "onepart"))
		goto done;
	text(out, ".");
	if (strcmp(frame, "emptyp"))
		buf_write(out, p.start, buf_size(&p));
	if (! strcmp(frame, "twoparts"))
		goto done;
	text(out, ".");
	if (strcmp(frame, "emptyd"))
		buf_write(out, sig.start, buf_size(&sig));
	if (! strcmp(frame, "four"))
		text(out, ".AAAA");
	if (! strcmp(frame, "tail"))
		text(out, " ");
done:
	buf_free(&h);
	buf_free(&p);
	buf_free(&s);
	buf_free(&sig);
}

// the token in memory of exactly its size
static User*
present(int front, Buf* token)
{
	int size = buf_size(token);
	char* copy = malloc(size ? size : 1);
	memcpy(copy, token->start, size);
	Str str;
	str_set(&str, copy, size);
	auto user = auth(&fronts[front - 1], &str);
	memset(copy, 'x', size);
	free(copy);
	return user;
}

// ---------------------------------------------------------------- settings
static void
save_state(void* arg)
{
	unused(arg);
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/state.json", dir);
	state_save(state(), path);
}
static RuntimeIf iface = { .save_state = save_state };

static void
fresh(void)
{
	config_free(config());
	config_init(config());
	config_prepare(config());
	state_free(state());
	state_init(state());
	state_prepare(state());
	opt_string_set_raw(&state()->directory, dir, strlen(dir));
}

static void
read_files(void)
{
	fresh();
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/config.json", dir);
	if (fs_exists("%s", path))
		config_open(config(), path);
	snprintf(path, sizeof(path), "%s/state.json", dir);
	if (fs_exists("%s", path))
		state_open(state(), path);
	else
		v_bad("there is no state file");
}

static void
unhex(Buf* out, const char* s)
{
	for (; s[0] && s[1]; s += 2)
	{
		char two[3] = { s[0], s[1], 0 };
		char c = strtol(two, NULL, 16);
		buf_write(out, &c, 1);
	}
	buf_write(out, "", 1);
}

// ARGS: pairs "argv" HEX or "json" HEX
static void
assign(Opts* opts, int at)
{
	for (; at + 1 < v_argc; at += 2)
	{
		Buf t;
		buf_init(&t);
		defer_buf(&t);
		unhex(&t, v_str(at + 1));
		if (! strcmp(v_str(at), "argv"))
		{
			char* argv[] = { t.start };
			opts_set_argv(opts, 1, argv);
		} else
		{
			Str str;
			str_set(&str, t.start, buf_size(&t) - 1);
			opts_set(opts, &str);
		}
	}
}

static void
out_opts(const char* key, Opts* opts)
{
	v_out("\"%s\":{", key);
	bool first = true;
	list_foreach(&opts->list)
	{
		auto opt = list_at(Opt, link);
		v_out("%s\"%.*s\":", first ? "" : ",", str_size(&opt->name), str_of(&opt->name));
		first = false;
		switch (opt->type) {
		case OPT_BOOL:
			v_out("%s", opt_int_of(opt) ? "true" : "false");
			break;
		case OPT_INT:
			v_out("%lld", (long long)opt_int_of(opt));
			break;
		case OPT_STRING:
			v_out_str(str_of(&opt->string), str_size(&opt->string));
			break;
		case OPT_JSON:
		{
			if (opt_json_empty(opt)) {
				v_out("null");
				break;
			}
			Buf t;
			buf_init(&t);
			uint8_t* pos = opt_json_of(opt);
			json_export(&t, NULL, &pos);
			v_out("%.*s", (int)buf_size(&t), (char*)t.start);
			buf_free(&t);
			break;
		}
		}
	}
	v_out("},");
}

static void
do_save(void)
{
	save_state(NULL);
}

// ---------------------------------------------------------------- module
void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
	memset(long_name, 'n', sizeof(long_name) - 1);
	memset(long_secret, 'k', sizeof(long_secret) - 1);
	runtime()->iface = &iface;
}

static void
close_users(void)
{
	if (! open_users)
		return;
	for (int i = 0; i < FRONTS; i++)
		auth_free(&fronts[i]);
	user_mgr_free(&mgr);
	open_users = false;
}

static void
start_users(void)
{
	user_mgr_init(&mgr);
	for (int i = 0; i < FRONTS; i++)
		auth_init(&fronts[i]);
	open_users = true;
	user_mgr_open(&mgr);
}

void
vmod_begin(void)
{
	static int n;
	snprintf(dir, sizeof(dir), "%s/%d", vf_dir(), n++);
	__real_mkdir(dir, 0755);
	fresh();
	v_out("{");
	out_opts("conf", &config()->opts);
	out_opts("st", &state()->opts);
	if (v_cfgi("users", 0)) {
		do_save();
		start_users();
	}
	set_time(1);
	v_out("\"bad\":%s}", v_bad_json());
}

void
vmod_end(void)
{
	close_users();
	set_time(0);
	vf_rmtree(dir);
	v_out("{\"bad\":%s}", v_bad_json());
}

static UserConfig*
user_args(void)
{
	auto c = user_config_allocate();
	Str s;
	str_set_cstr(&s, name_of(v_str(1)));
	user_config_set_name(c, &s);
	str_set_cstr(&s, secret_of(v_str(2)));
	user_config_set_secret(c, &s);
	return c;
}

static void
users_op(void)
{
	bool err = false;
	if (v_is("create"))
	{
		auto c = user_args();
		err = error_catch( user_mgr_create(&mgr, c, v_int(3)) );
		user_config_free(c);
	} else
	if (v_is("alter"))
	{
		auto c = user_args();
		err = error_catch( user_mgr_alter(&mgr, c) );
		user_config_free(c);
	} else
	if (v_is("drop"))
	{
		Str s;
		str_set_cstr(&s, name_of(v_str(1)));
		err = error_catch( user_mgr_drop(&mgr, &s, v_int(2)) );
	} else
	if (v_is("sync"))
	{
		auth_sync(&fronts[v_int(1) - 1], &mgr.cache);
	} else
	if (v_is("auth") || v_is("issue"))
	{
		Buf t;
		buf_init(&t);
		if (v_is("auth"))
			make_token(&t);
		else
		{
			Str s;
			str_set_cstr(&s, name_of(v_str(2)));
			auto user = user_cache_find(&mgr.cache, &s);
			Timestamp expire;
			timestamp_init(&expire);
			timestamp_set_unixtime(&expire, (BASE + v_int(3)) * 1000000);
			Buf* jwt = NULL;
			if (user)
				err = error_catch( jwt = jwt_create(&user->config->name, &user->config->secret, &expire) );
			if (jwt) {
				text(&t, "Bearer ");
				buf_write(&t, jwt->start, buf_size(jwt));
				buf_free(jwt);
			}
		}
		auto user = present(v_int(1), &t);
		v_out("\"res\":");
		if (user)
			out_name(&user->config->name, names, COUNT(names), 'n');
		else
			v_out("\"\"");
		v_out(",");
		buf_free(&t);
	} else
	if (v_is("tick"))
	{
		set_time(v_int(1));
	} else
	if (v_is("restart"))
	{
		close_users();
		read_files();
		start_users();
	}
	v_out("\"ok\":%s,\"users\":[", err ? "false" : "true");
	// as listed with and without secrets, by itself and by name
	auto list = user_mgr_list(&mgr, NULL, FSECRETS);
	auto plain = user_mgr_list(&mgr, NULL, 0);
	uint8_t* pos = list->start;
	uint8_t* ppos = plain->start;
	json_read_array(&pos);
	json_read_array(&ppos);
	bool first = true;
	while (! json_read_array_end(&pos))
	{
		auto c = user_config_read(&pos);
		v_out("%s[", first ? "" : ",");
		first = false;
		out_name(&c->name, names, COUNT(names), 'n');
		v_out(",");
		out_name(&c->secret, secrets, COUNT(secrets), 's');
		v_out("]");
		if (json_read_array_end(&ppos))
			v_bad("users are missing from the list without secrets");
		else {
			Str name;
			str_init(&name);
			uint8_t* at = ppos;
			Decode obj[] = { { DECODE_STRING_READ, "name", &name }, { 0, NULL, NULL } };
			decode_obj(obj, "user", &ppos);
			if (! str_compare(&name, &c->name))
				v_bad("the lists of users differ");
			Decode obj2[] = { { DECODE_STRING_READ, "secret", &name }, { 0, NULL, NULL } };
			if (! error_catch( decode_obj(obj2, "user", &at) ))
				v_bad("a secret is listed");
		}
		auto one = user_mgr_list(&mgr, &c->name, FSECRETS);
		uint8_t* at = one->start;
		auto c1 = user_config_read(&at);
		if (!str_compare(&c1->name, &c->name) || !str_compare(&c1->secret, &c->secret))
			v_bad("a user is listed as another one");
		user_config_free(c1);
		buf_free(one);
		user_config_free(c);
	}
	buf_free(list);
	buf_free(plain);
	v_out("],\"bad\":%s}", v_bad_json());
}

void
vmod_op(void)
{
	v_out("{");
	if (open_users) {
		users_op();
		return;
	}
	bool err = false;
	const char* res = "done";
	char path[PATH_MAX];
	if (v_is("boot"))
	{
		assign(&config()->opts, 1);
		snprintf(path, sizeof(path), "%s/config.json", dir);
		config_save(config(), path);
		do_save();
	} else
	if (v_is("restart"))
	{
		read_files();
		assign(&config()->opts, 1);
	} else
	if (v_is("set"))
		err = error_catch( assign(&config()->opts, 1) );
	else
	if (v_is("stset"))
		err = error_catch( assign(&state()->opts, 1) );
	else
	if (v_is("save"))
		do_save();
	else
	if (v_is("savecut") || v_is("savefail"))
	{
		vf_arm();
		if (v_is("savecut")) {
			vf.crash_at = v_int(1);
			vf.crash_cut = v_int(2);
		} else {
			const char* f = v_str(1);
			vf.fail_kind = !strcmp(f, "create") ? VF_CREATE : !strcmp(f, "open") ? VF_OPEN : !strcmp(f, "write") ? VF_WRITE :
			               !strcmp(f, "rename") ? VF_RENAME : !strcmp(f, "unlink") ? VF_UNLINK : VF_SYNC;
			vf.fail_skip = v_int(2);
		}
		int rc = vf_child(do_save);
		vf_disarm();
		res = rc == 42 ? "crash" : rc == 0 ? "done" : rc == 1 ? "error" : "died";
		// what was to be saved
		char was[PATH_MAX];
		snprintf(path, sizeof(path), "%s.new", dir);
		if (fs_exists("%s", path))
			__real_unlink(path);
		state_save(state(), path);
		// what is there after a restart
		read_files();
		out_opts("after", &state()->opts);
		// save again
		state_open(state(), path);
		do_save();
		read_files();
		__real_unlink(path);
		unused(was);
	}
	v_out("\"ok\":%s,\"res\":\"%s\",", err ? "false" : "true", res);
	out_opts("conf", &config()->opts);
	out_opts("st", &state()->opts);
	v_out("\"bad\":%s}", v_bad_json());
}
