// Driver of the Box specification (spec/Box.tla): buffers and their pool, arenas,
// the hash table, the tree, the list of ids and linked lists.
#include "vdrv.h"
#include <amelie_runtime>

#define MAX 1024
static BufMgr vmgr;
static Buf*   vbufs[MAX];
static int    vrefs[MAX];
static int    vbufs_count;

static Arena  varena;
static struct { uint8_t* p; int n; } vmem[MAX];
static int    vmem_count;

typedef struct
{
	HashtableNode node;
	int           id;
	bool          on;
} HNode;
static Hashtable vtable;
static HNode     vnodes[MAX];

typedef struct
{
	RbtreeNode node;
	int        key;
} TNode;
static Rbtree vtree;
static TNode  vtnodes[2][MAX];
static int    vtree_at[MAX];

static IdMgr  vids;

typedef struct
{
	List link;
	int  id;
} LNode;
static List  vlist;
static LNode vlnodes[64];

static inline
rbtree_get(vtree_find, compare_int64(container_of(n, TNode, node)->key, *(int*)key))

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

void
vmod_begin(void)
{
	buf_mgr_init(&vmgr);
	vbufs_count = 0;
	arena_init(&varena, 2048);
	vmem_count = 0;
	hashtable_init(&vtable);
	hashtable_create(&vtable, v_cfgi("size", 4));
	memset(vnodes, 0, sizeof(vnodes));
	rbtree_init(&vtree);
	id_mgr_init(&vids);
	list_init(&vlist);
	v_out("{}");
}

void
vmod_end(void)
{
	for (int i = 0; i < vbufs_count; i++)
		while (vrefs[i] > 0)
		{
			vrefs[i]--;
			buf_free(vbufs[i]);
		}
	buf_mgr_free(&vmgr);
	arena_free(&varena);
	hashtable_free(&vtable);
	id_mgr_free(&vids);
	v_out("{}");
}

static uint64_t
fnv(uint64_t h, uint8_t* p, int n)
{
	for (int i = 0; i < n; i++)
		h = (h ^ p[i]) * 1099511628211ull;
	return h;
}

static void
pattern(uint8_t* p, int seed, int n)
{
	for (int i = 0; i < n; i++)
		p[i] = seed + i;
}

static void
buf_op(void)
{
	static uint8_t data[1 << 20];
	if (v_is("bcreate"))
	{
		auto buf = buf_mgr_create(&vmgr, 0);
		if (! buf_empty(buf))
			v_bad("a new buffer is not empty");
		for (int i = 0; i < vbufs_count; i++)
			if (vrefs[i] && vbufs[i] == buf)
				v_bad("a buffer in use is given out");
		if (buf_capacity(buf) >= 32 * 1024)
			v_bad("a buffer over the limit of the pool is kept");
		vrefs[vbufs_count] = 1;
		vbufs[vbufs_count++] = buf;
	} else
	{
		auto buf = vbufs[v_int(1)];
		if (v_is("bfree"))
		{
			vrefs[v_int(1)]--;
			buf_free(buf);
		} else
		if (v_is("bref"))
		{
			vrefs[v_int(1)]++;
			buf_ref(buf);
		} else
		if (v_is("bwrite"))
		{
			int n = v_int(3);
			pattern(data, v_int(2), n);
			// any of the ways to put data
			switch ((v_int(2) + n) % 4) {
			case 0:
				memcpy(buf_emplace(buf, n), data, n);
				break;
			case 1:
				buf_reserve(buf, n);
				for (int i = 0; i < n; i++)
					buf_append_u8(buf, data[i]);
				break;
			case 2:
			{
				Str str;
				str_set_u8(&str, data, n);
				buf_write_str(buf, &str);
				break;
			}
			default:
				buf_write(buf, data, n);
				break;
			}
		} else
		if (v_is("bprint"))
		{
			int n = v_int(3);
			memset(data, v_int(2), n);
			data[n] = 0;
			if (n > 2)
				buf_printf(buf, "%s%c%.*s", (char*)data + 2, (char)v_int(2), 1, (char*)data);
			else
				buf_printf(buf, "%s", (char*)data);
		} else
		if (v_is("bcopy"))
			buf_write_buf(buf, vbufs[v_int(2)]);
		else
		if (v_is("btruncate"))
			buf_truncate(buf, v_int(2));
		else
			buf_reset(buf);
		if (vrefs[v_int(1)] && (buf_size(buf) + buf_size_unused(buf) != buf_capacity(buf) || buf_empty(buf) != (buf_size(buf) == 0)))
			v_bad("sizes of a buffer");
	}
	v_out("{\"ok\":true,\"bufs\":[");
	for (int i = 0; i < vbufs_count; i++)
	{
		v_out("%s", i ? "," : "");
		if (! vrefs[i])
		{
			v_out("[]");
			continue;
		}
		Str str;
		buf_str(vbufs[i], &str);
		v_out("[%d,\"%016" PRIx64 "\"]", buf_size(vbufs[i]), fnv(14695981039346656037ull, str_u8(&str), str_size(&str)));
	}
	v_out("],\"bad\":%s}", v_bad_json());
}

static void
arena_op(void)
{
	if (v_is("areset"))
	{
		arena_reset(&varena);
		vmem_count = 0;
	} else
	{
		int n = v_int(2);
		uint8_t* p = arena_allocate(&varena, n);
		pattern(p, v_int(1), n);
		vmem[vmem_count].p = p;
		vmem[vmem_count++].n = n;
	}
	v_out("{\"ok\":true,\"arena\":[");
	for (int i = 0; i < vmem_count; i++)
		v_out("%s\"%016" PRIx64 "\"", i ? "," : "", fnv(14695981039346656037ull, vmem[i].p, vmem[i].n));
	v_out("],\"bad\":%s}", v_bad_json());
}

static bool
table_cmp(HashtableNode* node, void* arg)
{
	return container_of(node, HNode, node)->id == *(int*)arg;
}

static void
table_op(void)
{
	bool res = true;
	int id = v_int(1);
	auto n = &vnodes[id];
	if (v_is("hset"))
	{
		hashtable_node_init(&n->node);
		n->node.hash = v_int(2);
		n->id = id;
		hashtable_reserve(&vtable);
		hashtable_set(&vtable, &n->node);
	} else
	if (v_is("hdel"))
		hashtable_delete(&vtable, &n->node);
	else
	{
		auto found = hashtable_get(&vtable, v_int(2), table_cmp, &id);
		res = found != NULL;
		if (found && found != &n->node)
			v_bad("another node is returned");
	}
	v_out("{\"ok\":true,\"res\":%s,\"nodes\":[", res ? "true" : "false");
	int count = 0;
	for (int pos = hashtable_next(&vtable, -1); pos != -1; pos = hashtable_next(&vtable, pos))
		v_out("%s%d", count++ ? "," : "", container_of(hashtable_at(&vtable, pos), HNode, node)->id);
	// each of them is found
	for (int pos = hashtable_next(&vtable, -1); pos != -1; pos = hashtable_next(&vtable, pos))
	{
		auto node = container_of(hashtable_at(&vtable, pos), HNode, node);
		if (hashtable_get(&vtable, node->node.hash, table_cmp, &node->id) != &node->node)
			v_bad("node %d is in the table, but not found", node->id);
	}
	v_out("],\"bad\":%s}", v_bad_json());
}

static int
tree_depth(RbtreeNode* n)
{
	if (! n)
		return 0;
	int l = tree_depth(n->l), r = tree_depth(n->r);
	return 1 + (l > r ? l : r);
}

static void
tree_op(void)
{
	int key = v_int(1);
	bool res = true;
	RbtreeNode* match = NULL;
	auto n = &vtnodes[vtree_at[key]][key];
	int rc = vtree_find(&vtree, NULL, &key, &match);
	bool found = match && rc == 0;
	if (v_is("tset"))
	{
		if (found)
			v_bad("a key which is not there is found");
		rbtree_init_node(&n->node);
		n->key = key;
		rbtree_set(&vtree, match, rc, &n->node);
	} else
	if (v_is("tdel"))
	{
		if (match != &n->node)
			v_bad("a key is not found");
		rbtree_remove(&vtree, &n->node);
	} else
	if (v_is("trep"))
	{
		vtree_at[key] ^= 1;
		auto with = &vtnodes[vtree_at[key]][key];
		with->key = key;
		rbtree_init_node(&with->node);
		rbtree_replace(&vtree, &n->node, &with->node);
		memset(n, 0xff, sizeof(*n));
	} else
		res = found;
	v_out("{\"ok\":true,\"res\":%s,\"keys\":[", res ? "true" : "false");
	static int keys[MAX];
	int count = 0;
	for (auto at = rbtree_min(&vtree); at && count < MAX; at = rbtree_next(&vtree, at))
	{
		keys[count++] = container_of(at, TNode, node)->key;
		v_out("%s%d", count > 1 ? "," : "", keys[count - 1]);
	}
	v_out("],\"down\":[");
	int down = 0;
	for (auto at = rbtree_max(&vtree); at && down < MAX; at = rbtree_prev(&vtree, at))
		v_out("%s%d", down++ ? "," : "", container_of(at, TNode, node)->key);
	for (int i = 0; i < count; i++)
	{
		match = NULL;
		rc = vtree_find(&vtree, NULL, &keys[i], &match);
		if (!match || rc != 0 || container_of(match, TNode, node)->key != keys[i])
			v_bad("key %d is in the tree, but not found", keys[i]);
	}
	// searches take a logarithmic number of steps
	int limit = 0;
	while ((1 << limit) < count + 1)
		limit++;
	if (tree_depth(vtree.root) > 2 * limit + 1)
		v_bad("depth %d with %d keys", tree_depth(vtree.root), count);
	v_out("],\"bad\":%s}", v_bad_json());
}

static void
ids_op(void)
{
	uint64_t res = UINT64_MAX;
	auto dest = buf_create();
	bool many = false;
	int count = 0;
	uint64_t v = v_argc > 1 ? v_int(1) : 0;
	if (v_is("iadd"))
		id_mgr_add(&vids, v);
	else
	if (v_is("idel"))
		id_mgr_delete(&vids, v);
	else
	if (v_is("imin"))
		res = id_mgr_min(&vids);
	else
	if (v_is("imax"))
		res = id_mgr_max(&vids);
	else
	if (v_is("ifind"))
		res = id_mgr_find(&vids, v);
	else
	if (v_is("inext"))
		res = id_mgr_next(&vids, v);
	else
	if (v_is("icopy"))
	{
		many = true;
		count = id_mgr_copy(&vids, dest, v);
	} else
	if (v_is("igc"))
	{
		many = true;
		count = id_mgr_gc_between(&vids, dest, v);
	} else
		id_mgr_reset(&vids);
	v_out("{\"ok\":true,\"res\":");
	if (many)
	{
		v_out("[");
		if (buf_size(dest) != count * 8)
			v_bad("%d ids counted, %d returned", count, buf_size(dest) / 8);
		for (int i = 0; i < count; i++)
			v_out("%s%" PRIu64, i ? "," : "", buf_u64(dest)[i]);
		v_out("]");
	} else
		v_out("%" PRIi64, (int64_t)res);
	buf_free(dest);
	int n = 0;
	uint64_t min = 0;
	id_mgr_stats(&vids, &n, &min);
	dest = buf_create();
	count = id_mgr_copy(&vids, dest, UINT64_MAX);
	if (n != count || min != id_mgr_min(&vids))
		v_bad("statistics of the ids");
	v_out(",\"ids\":[");
	for (int i = 0; i < count; i++)
		v_out("%s%" PRIu64, i ? "," : "", buf_u64(dest)[i]);
	buf_free(dest);
	v_out("],\"bad\":%s}", v_bad_json());
}

static void
list_op(void)
{
	int res = -1;
	if (v_is("lpop"))
		res = container_of(list_pop(&vlist), LNode, link)->id;
	else
	{
		auto n = &vlnodes[v_int(1)];
		n->id = v_int(1);
		if (v_is("lappend"))
			list_append(&vlist, &n->link);
		else
		if (v_is("lpush"))
			list_push(&vlist, &n->link);
		else
			list_unlink(&n->link);
	}
	v_out("{\"ok\":true,\"res\":%d,\"items\":[", res);
	int count = 0;
	list_foreach_safe(&vlist)
		v_out("%s%d", count++ ? "," : "", list_at(LNode, link)->id);
	v_out("],\"down\":[");
	int down = 0;
	list_foreach_reverse(&vlist)
	{
		auto n = list_at(LNode, link);
		if (list_is_first(&vlist, &n->link) != (down == count - 1) || list_is_last(&vlist, &n->link) != (down == 0))
			v_bad("first or last of the list");
		v_out("%s%d", down++ ? "," : "", n->id);
	}
	if (list_empty(&vlist) != (count == 0))
		v_bad("emptiness of the list");
	v_out("],\"bad\":%s}", v_bad_json());
}

void
vmod_op(void)
{
	switch (v_str(0)[0]) {
	case 'b':
		buf_op();
		break;
	case 'a':
		arena_op();
		break;
	case 'h':
		table_op();
		break;
	case 't':
		tree_op();
		break;
	case 'i':
		ids_op();
		break;
	default:
		list_op();
		break;
	}
}
