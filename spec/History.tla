------------------------------ MODULE History ------------------------------
(* The stages of the pipeline as steps which several threads take in any     *)
(* order and at the same time: preparing a document (preprocessing and       *)
(* tokenizing), parsing, copying a tree, writing a tree out and reading it   *)
(* back, rendering.  What a step makes is determined by what it is given.    *)
EXTENDS Str

Ops == {"prepare", "parse", "own", "copy", "read", "html", "text"}
Given == [prepare |-> "none", parse |-> "tokens", own |-> "tree", copy |-> "tree", read |-> "tree", html |-> "tree", text |-> "tree"]
Made == [prepare |-> "tokens", parse |-> "tree", own |-> "tree", copy |-> "tree", read |-> "tree", html |-> "page", text |-> "page"]
(* steps that depend on page information and settings, not on items only *)
UsesDoc == {"prepare", "parse", "html", "text"}

(* An item: its kind, and the term that determines its value.  A copy is the *)
(* tree it is a copy of.                                                     *)
Item(op, given, doc) ==
    [kind |-> Made[op], parse |-> op = "parse",
     term |-> CASE op = "prepare" -> "prepare(" \o ToString(doc) \o ")"
                [] op \in {"own", "copy", "read"} -> given.term
                [] OTHER -> op \o "(" \o given.term \o "," \o ToString(doc) \o ")"]
Nothing == [kind |-> "none", parse |-> FALSE, term |-> ""]

(* A history is a sequence of events <<"start", thread, op, item, doc>> and  *)
(* <<"end", thread>>.  Items are numbered from 0 as they are finished.       *)
(* busy: per thread, Nothing or the item which is being made.                *)
Started(items, busy, e) ==
    [busy EXCEPT ![e[2]] = Item(e[3], IF e[4] = -1 THEN Nothing ELSE items[e[4] + 1], e[5])]
=============================================================================
