----------------------------- MODULE MCHistory -----------------------------
(* All histories of two threads and two documents, up to a bound of steps.   *)
(* Both documents have been parsed, by one thread or by two, when they begin.*)
(* The implementation is modelled as a machine with state of its own (what   *)
(* threads remember: the last document and tree they worked at) which the    *)
(* values of items do not depend on.                                         *)
EXTENDS History
VARIABLES items, busy, events, memory, values
v == <<items, busy, events, memory, values>>
Bound == atoi(IOEnv.MAXLEN)
Threads == {0, 1}
Docs == {0, 1}
NoBusy == [t \in Threads |-> Nothing]
Before == IF IOEnv.BEFORE = "parsed"
          THEN LET p(d) == Item("prepare", Nothing, d) IN
               [items |-> <<p(0), p(1), Item("parse", p(0), 0), Item("parse", p(1), 1)>>,
                events |-> <<<<"start", 0, "prepare", -1, 0>>, <<"end", 0>>, <<"start", 0, "prepare", -1, 1>>, <<"end", 0>>,
                             <<"start", 1, "parse", 0, 0>>, <<"start", 0, "parse", 1, 1>>, <<"end", 1>>, <<"end", 0>>>>]
          ELSE [items |-> <<>>, events |-> <<>>]
Init == /\ items = Before.items /\ events = Before.events /\ busy = NoBusy
        /\ memory = [t \in Threads |-> ""] /\ values = Map(LAMBDA i : i.term, Before.items)
Steps == Len(items) - Len(Before.items) + Cardinality({t \in Threads : busy[t] # Nothing})
Start(t) ==
    /\ busy[t] = Nothing /\ Steps < Bound
    (* a thread that is idle before the other one is the first *)
    /\ t = 1 => busy[0] # Nothing \/ \E i \in 1..Len(events) : events[i][1] = "end"
    /\ \E op \in Ops : \E k \in -1..(Len(items) - 1) : \E d \in Docs :
         /\ (k = -1) = (Given[op] = "none") /\ (k >= 0 => items[k + 1].kind = Given[op])
         /\ op \notin UsesDoc => d = 0
         /\ LET e == <<"start", t, op, k, d>> IN
            busy' = Started(items, busy, e) /\ events' = Append(events, e) /\ memory' = [memory EXCEPT ![t] = busy'[t].term]
    /\ UNCHANGED <<items, values>>
(* what a step returns: determined by the item, whatever threads remember *)
End(t) == /\ busy[t] # Nothing /\ items' = Append(items, busy[t]) /\ values' = Append(values, busy[t].term)
          /\ busy' = [busy EXCEPT ![t] = Nothing] /\ events' = Append(events, <<"end", t>>) /\ UNCHANGED memory
Emit == /\ busy = NoBusy /\ Steps = Bound
        /\ PrintT("@@CASE " \o ToJson([events |-> events, terms |-> Map(LAMBDA i : i.term, items)])) /\ busy' = [busy EXCEPT ![0] = [Nothing EXCEPT !.kind = "over"]]
        /\ UNCHANGED <<items, events, memory, values>>
Over == busy[0].kind = "over"
Next == ~Over /\ ((\E t \in Threads : Start(t) \/ End(t)) \/ Emit)
(* equal inputs, equal values: of the last item and any other *)
Determined == LET n == Len(items) IN n > 0 => \A i \in 1..(n - 1) : items[i].term = items[n].term => values[i] = values[n]
(* a tree that is made of another one is the same tree; items are made of items that are there *)
Copied == \A t \in Threads : busy[t].kind = "tree" /\ ~busy[t].parse => \E i \in 1..Len(items) : items[i] = busy[t] \/ items[i].term = busy[t].term
Kinds == items = <<>> \/ Last(items).kind \in {"tokens", "tree", "page"}
=============================================================================
