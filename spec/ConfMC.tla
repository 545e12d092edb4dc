------------------------------- MODULE ConfMC -------------------------------
EXTENDS Conf, VBind
MCConf == [wal_crc |-> "bool", frontends |-> "pos", tls_ca |-> "string"]
MCKept == [repl |-> "bool", replicas |-> "json"]
View == svars
LogStep == Emit([s |-> Canon(svars), o |-> op', t |-> Canon(svars')])
=============================================================================
