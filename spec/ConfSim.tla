------------------------------- MODULE ConfSim ------------------------------
EXTENDS Conf, VBind
VARIABLE hist
R(S) == RandomElement(S)
SimConf == [
  uuid |-> "string", timezone |-> "string", format |-> "string", log_enable |-> "bool", log_to_file |-> "bool",
  log_to_stdout |-> "bool", log_connections |-> "bool", log_options |-> "bool", tls_capath |-> "string",
  tls_ca |-> "string", tls_cert |-> "string", tls_key |-> "string", listen |-> "json", limit_send |-> "int",
  limit_recv |-> "int", limit_write |-> "int", frontends |-> "pos", backends |-> "pos", jobs |-> "pos",
  cpu_affinity |-> "bool", wal_worker |-> "bool", wal_crc |-> "bool", wal_sync_on_create |-> "bool",
  wal_sync_on_close |-> "bool", wal_sync_on_write |-> "bool", wal_sync_interval |-> "string", wal_size |-> "int",
  wal_truncate |-> "int", storage_crc |-> "bool", storage_sync |-> "bool", catalog_sync |-> "bool",
  checkpoint_interval |-> "string", repl_readahead |-> "pos", repl_reconnect_ms |-> "int"]
SimKept == [repl |-> "bool", repl_primary |-> "string", replicas |-> "json"]
SInit == Init /\ hist = <<>>
One(types, more) == <<R(DOMAIN types \cup more), R({"argv", "json"}), R(Toks)>>
RECURSIVE Good(_, _)
Good(n, types) == IF n = 0 THEN <<>>
  ELSE LET name == R(DOMAIN types) how == R({"argv", "json"})
           ks == {k \in Toks : Parse(types[name], how, k) # Bad} IN
       <<<<name, how, R(ks)>>>> \o Good(n - 1, types)
SNext ==
  /\ \/ \E as \in {Good(R(0 .. 6), Conf)} : Boot(as)
     \/ \E as \in {Good(R({0, 0, 1, 3}), Conf)} : Restart(as)
     \/ \E a \in {One(Conf, {"nosuch"})} : Set(a)
     \/ \E a \in {Good(1, Conf)[1]} : Set(a)
     \/ \E a \in {Good(1, Conf)[1]} : Set(a)
     \/ \E a \in {One(Kept, Fixed)} : StSet(a)
     \/ \E a \in {Good(1, Kept)[1]} : StSet(a)
     \/ \E a \in {Good(1, Kept)[1]} : StSet(a)
     \/ Save
     \/ \E k \in {R(Crashes)}, c \in {R({0, 50, 100})} : SaveCut(k, c)
     \/ \E f \in {R(Fails)}, n \in {R(0 .. 2)} : SaveFail(f, n)
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
