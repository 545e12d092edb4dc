// What the functions of the SQL layer see of the executor, replication and the database.
#pragma once
typedef struct Executor Executor;
typedef struct Commit   Commit;
typedef struct CodeData CodeData;
typedef struct Repl     Repl;
typedef struct
{
	Catalog catalog;
} Db;
