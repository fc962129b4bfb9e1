------------------------------- MODULE FSDiff -------------------------------
(***************************************************************************)
(* How an observed answer of the real code compares with the one PkgFS     *)
(* expects, and what is learnt from it (the modification times).           *)
(***************************************************************************)
EXTENDS PkgFS

Range_(s) == {s[i] : i \in DOMAIN s}
Tag(pre, s) == {<<pre, x>> : x \in s}
Cond(c, x) == IF c THEN {x} ELSE {}

\* entries seen (as a sequence of infos with .p) against the name space
SnapDiff(cf, s, seen, pre, raw) ==
    LET at == {seen[i].p : i \in DOMAIN seen}
        tag(p, asp) == {<<pre, x, p>> : x \in asp}
    IN  Cond(Len(seen) # Cardinality(at), <<pre, "twice", <<>>>>) \cup
        {<<pre, "missing", p>> : p \in DOMAIN s.n \ at} \cup
        {<<pre, "extra", p>> : p \in at \ DOMAIN s.n} \cup
        UNION {IF seen[i].p \notin DOMAIN s.n THEN {}
               ELSE LET p == seen[i].p
                        ob == Obj(s, p)
                    IN  tag(p, InfoDiff(s, InfoOf(cf, s, p, ob), seen[i])) \cup
                        Cond(raw /\ ~ob.dir /\ ob.data # seen[i].d, <<pre, "data", p>>)
               : i \in DOMAIN seen}

\* what disagrees between the expected response x and the recorded event e
Diffs(cf, s, e, x) ==
    LET okboth == x.r = e.r /\ e.r = "ok"
        base == Cond(~ErrMatch(x.r, e.r), <<e.op, IF e.r = "ok" THEN "accepted"
                                                  ELSE IF x.r = "ok" THEN "refused"
                                                  ELSE "class">>)
        handle == IF ~okboth THEN {} ELSE
                  Cond(x.p # e.hp, <<e.op, "path">>) \cup Cond(~e.nmok, <<e.op, "hname">>) \cup
                  Cond(e.p[1] \in cf.reg /\ e.hi # e.p[1], <<e.op, "hinfo">>) \cup
                  Tag(e.op, InfoDiff(s, x.i, e.i))
    IN  CASE e.op \in {"create", "open", "diropen"} -> base \cup handle
          [] e.op = "fopen" -> base \cup (IF ~okboth THEN {} ELSE
                  Cond(x.p # e.hp, <<e.op, "path">>) \cup Cond(~e.nmok, <<e.op, "hname">>) \cup
                  Tag(e.op, InfoDiff(s, x.i, e.i)))
          [] e.op = "write" -> base \cup Cond(x.n # e.n, <<e.op, "count">>)
          [] e.op = "read" -> base \cup Cond(x.d # e.d, <<e.op, "data">>)
          [] e.op = "seek" -> base \cup Cond(x.pos # -1 /\ x.pos # e.pos, <<e.op, "pos">>)
          [] e.op \in {"stat", "fstat"} -> base \cup (IF okboth THEN Tag(e.op, InfoDiff(s, x.i, e.i)) ELSE {})
          [] e.op = "readdir" ->
                LET names == {e.ls[i].nm : i \in DOMAIN e.ls}
                    allowed == {q[Len(q)] : q \in DOMAIN x.all}
                IN  base \cup
                    (IF x.m = -1 THEN {} ELSE
                     Cond(Len(e.ls) # x.m, <<e.op, "count">>) \cup
                     Cond(Cardinality(names) # Len(e.ls), <<e.op, "twice">>) \cup
                     Cond(\E nm \in names : nm \notin allowed, <<e.op, "foreign">>) \cup
                     UNION {UNION {IF q[Len(q)] = e.ls[i].nm THEN Tag(e.op, InfoDiff(s, x.all[q], e.ls[i])) ELSE {}
                                   : q \in DOMAIN x.all} : i \in DOMAIN e.ls})
          [] e.op = "walk" ->
                LET seen == [i \in DOMAIN e.vs |-> e.vs[i].p]
                    st == Range_(seen)
                    sx == Range_(x.vs)
                IN  base \cup
                    Cond(seen # x.vs /\ st = sx, <<e.op, "order">>) \cup
                    Cond(st \ sx # {}, <<e.op, "foreign">>) \cup
                    Cond(sx \ st # {}, <<e.op, "missing">>) \cup
                    (IF seen # x.vs THEN {} ELSE
                     UNION {Tag(e.op, InfoDiff(s, x.is[i], e.vs[i])) : i \in DOMAIN e.vs})
          [] e.op = "reload" -> base \cup Cond(~e.same, <<e.op, "unstable">>) \cup Cond(~e.infos, <<e.op, "infos">>)
          [] e.op = "parse" -> base \cup (IF e.r = "ok" THEN Cond(x.p # e.hp, <<e.op, "path">>) ELSE {})
          [] e.op = "fds" -> Cond(e.n > x.n, <<e.op, "leak">>) \cup Cond(e.n < x.n, <<e.op, "lost">>)
          [] e.op = "snap" -> SnapDiff(cf, s, e.st, "st", FALSE) \cup SnapDiff(cf, s, e.dp, "dp", TRUE) \cup
                                Cond(e.kp # 0, <<"kept", "changed">>)   \* infos handed out before
          [] OTHER -> base

\* modification times learnt from the response
RECURSIVE BindAll(_, _)
BindAll(s, prs) == IF prs = <<>> THEN s ELSE BindAll(Bind(s, Head(prs)[1], Head(prs)[2]), Tail(prs))
Learn(cf, s, e, x) ==
    CASE e.op \in {"create", "open", "fopen", "diropen", "stat", "fstat"} ->
            IF e.r = "ok" THEN Bind(s, x.i, e.i) ELSE s
      [] e.op = "walk" -> BindAll(s, [i \in DOMAIN x.is |-> <<x.is[i], e.vs[i]>>])
      [] e.op = "snap" -> BindAll(s, [i \in DOMAIN e.dp |-> <<InfoOf(cf, s, e.dp[i].p, Obj(s, e.dp[i].p)), e.dp[i]>>])
      [] OTHER -> s
=============================================================================
