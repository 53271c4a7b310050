------------------------------- MODULE ClassEnum -------------------------------
(* Methods: tables of the classes, entries and prototypes of tree objects, and *)
(* lexical property lookup in environments.  A behaviour is a history of       *)
(* definitions; what every call finds after it is a function of the state.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH
VARIABLES ops, tbl, own, proto

(* the class hierarchy; everything else is a direct descendant of any *)
Parent(c) == CASE c = "Any" -> "" [] c = "String" -> "Buffer" [] c \in {"Macro", "Environment"} -> "Lambda" [] OTHER -> "Any"
(* the values methods are called on, by class; objects 1..3 are trees of their own *)
Values == <<"Nil", "Int", "Float", "Bool", "Keyword", "Symbol", "String", "Buffer", "BufferView", "Pair", "Array", "Tree", "Lambda", "NativeFunc",
            "Macro", "Environment", "BytecodeArr", "Type">>
Objects == 1..3
Classes == {"Any", "Nil", "Int", "Bool", "Pair", "Tree", "Buffer", "String", "Lambda", "Macro", "Environment", "Type", "Symbol", "Keyword"}
Methods == {"m1", "m2"}
OwnNames == Methods \cup {"length"}

vars == <<ops, tbl, own, proto>>
Init == ops = <<>> /\ tbl = [c \in Classes |-> [m \in Methods |-> 0]] /\ own = [o \in Objects |-> [m \in OwnNames |-> 0]] /\ proto = [o \in Objects |-> 0]

RECURSIVE Up(_, _)
Up(p, o) == IF o = 0 THEN {} ELSE {o} \cup Up(p, p[o])
(* how a definition is made alternates, which must make no difference *)
Now == Len(ops) + 1
Add(c, m) == /\ tbl' = [tbl EXCEPT ![c][m] = Now] /\ ops' = Append(ops, <<"add", c, m, Now>>) /\ UNCHANGED <<own, proto>>
Own(o, m) == /\ own' = [own EXCEPT ![o][m] = Now] /\ ops' = Append(ops, <<"own", o, m, Now>>) /\ UNCHANGED <<tbl, proto>>
Proto(o, p) == /\ p # proto[o] /\ ~(o \in Up(proto, p))
               /\ proto' = [proto EXCEPT ![o] = p] /\ ops' = Append(ops, <<"proto", o, p, Now>>) /\ UNCHANGED <<tbl, own>>
Next == /\ Len(ops) < DEPTH
        /\ \/ \E c \in Classes, m \in Methods : Add(c, m)
           \/ \E o \in Objects, m \in OwnNames : Own(o, m)
           \/ \E o \in Objects, p \in 0..3 : Proto(o, p)

RECURSIVE ClassFind(_, _), ObjFind(_, _)
ClassFind(c, m) == IF c = "" THEN 0
                   ELSE IF c \in Classes /\ m \in Methods /\ tbl[c][m] # 0 THEN tbl[c][m] ELSE ClassFind(Parent(c), m)
ObjFind(o, m) == IF o = 0 THEN ClassFind("Tree", m) ELSE IF own[o][m] # 0 THEN own[o][m] ELSE ObjFind(proto[o], m)
(* 0: there is no such method *)
Found(m) == [v \in DOMAIN Values |-> ClassFind(Values[v], m)] 
FoundO(m) == [o \in Objects |-> ObjFind(o, m)]
(* built-in methods of trees stay reachable unless overridden *)
Length(o) == IF ObjFind(o, "length") # 0 THEN <<"tag", ObjFind(o, "length")>>
             ELSE <<"n", 1 + Cardinality({m \in OwnNames : own[o][m] # 0}) + (IF \E i \in DOMAIN ops : ops[i][1] = "proto" /\ ops[i][2] = o THEN 1 ELSE 0)>>
(* sanity: a definition reaches exactly the class and its heirs that do not override it *)
TypeOK == \A m \in Methods, v \in DOMAIN Values : ClassFind(Values[v], m) \in 0..Len(ops)
Emit == ops # <<>> => PrintT("@" \o ToJson([ops |-> ops, v1 |-> Found("m1"), v2 |-> Found("m2"), o1 |-> FoundO("m1"), o2 |-> FoundO("m2"), len |-> [o \in Objects |-> Length(o)]]))
SimEmit == Len(ops) = DEPTH => Emit
===============================================================================
