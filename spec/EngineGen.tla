------------------------------ MODULE EngineGen ------------------------------
EXTENDS Engine, Json, IOUtils, CSV
\* stages observed through provider calls
Seen(e) == e[2] \notin {"prepare", "tmp", "initial"}
\* the changed functions handed on: by module name, each module's functions in their order
Data == [d \in {1, 2} |-> IF d = 1 THEN <<[m |-> "ex.com/a", n |-> 1]>> ELSE <<[m |-> "ex.com/Z", n |-> 2], [m |-> "ex.com/a", n |-> 1], [m |-> "ex.com/a/v2", n |-> 0], [m |-> "ex.com/b", n |-> 3]>>]
Funcs == IF "modules" \in DOMAIN out /\ out["modules"] = "ok" THEN Data[cfg.data] ELSE <<>>
Line(s) == s \in {"line", "area"}
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, out |-> out, log |-> SelectSeq(log, Seen), err |-> err, rep |-> rep, funcs |-> Funcs,
          radius |-> IF cfg.scope = "area" THEN 1 ELSE 0, expand |-> cfg.src \in {"flag", "list"},
          fast |-> cfg.mode # "full", line |-> Line(cfg.scope), targeted |-> cfg.mt # "full"])>>, IOEnv.OUT)
==============================================================================
