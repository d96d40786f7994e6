------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The loosely typed reader: a bin_prot layout (the JSON file produced by  *)
(* the OCaml tooling, used here verbatim as nested tuples) drives the      *)
(* reading of bytes into a bin_prot::Value.  One action per BinProtRule    *)
(* (protocol/bin-prot/src/loose_deserializer.rs together with the          *)
(* traversal in value/layout/traverse.rs).                                 *)
(* `path` is the module path of the reference met most recently, which     *)
(* selects the reader of a `Custom` rule.                                  *)
(***************************************************************************)
EXTENDS Cursor

VARIABLES path

lvars == << rvars, path >>

Rule(tag)  == << tag >>
IntRules   == {"Int", "Int32", "Int64", "Native_int"}
Unreadable == {"Nat0", "Vec", "Hashtable", "Type_var", "Bigstring", "Self_reference",
               "Type_closure", "Type_abstraction"}

VectorLen == [ p \in {"Pickles_type.Vector.Vector2", "Pickles_types.Vector.Vector2",
                      "Pickles_types.Vector.Vector4", "Pickles_types.Vector.Vector8",
                      "Pickles_types.Vector.Vector17", "Pickles_types.Vector.Vector18"} |->
               CASE p = "Pickles_type.Vector.Vector2"    -> 2
                 [] p = "Pickles_types.Vector.Vector2"   -> 2
                 [] p = "Pickles_types.Vector.Vector4"   -> 4
                 [] p = "Pickles_types.Vector.Vector8"   -> 8
                 [] p = "Pickles_types.Vector.Vector17"  -> 17
                 [] p = "Pickles_types.Vector.Vector18"  -> 18 ]
BigIntPaths == {"Ledger_hash0", "State_hash", "Pending_coinbase.Stack_hash", "State_body_hash",
                "Pending_coinbase.Hash_builder", "Snark_params.Make_inner_curve_scalar",
                "Snark_params.Tick", "Epoch_seed",
                "Zexe_backend.Zexe_backend_common.Stable.Field",
                "Pending_coinbase.Coinbase_stack"}
NoPath == "<none>"

LNeed(r) ==
  CASE r[1] \in {"Unit", "Bool", "Char", "Option", "Sum"} -> 1
    [] r[1] \in IntRules -> IntNeed
    [] r[1] = "Float" -> 8
    [] r[1] = "String" -> StrNeed
    [] r[1] = "List" -> Nat0Need
    [] r[1] = "Polyvar" -> 4
    [] OTHER -> 0

LHas == Running /\ todo # << >> /\ Avail >= LNeed(Top)
Same == path' = path
Rep(n, r) == << "rep", n, r >>
SetPath(p) == path' = p

LUnit == /\ LHas /\ Top[1] = "Unit" /\ Same
         /\ IF At(1) = 0 THEN Accept(1, << Tok("unit", << >>) >>, << >>) ELSE Reject("InvalidByte")
LBool == /\ LHas /\ Top[1] = "Bool" /\ Same
         /\ IF At(1) \in {0, 1} THEN Accept(1, << Tok("bool", << At(1) >>) >>, << >>)
                                ELSE Reject("InvalidByte")
LChar == /\ LHas /\ Top[1] = "Char" /\ Same
         /\ Accept(1, << Tok("char", << At(1) >>) >>, << >>)
LInt  == /\ LHas /\ Top[1] \in IntRules /\ Same
         /\ IF BadLead(At(1), TRUE) THEN Reject("InvalidIntegerByte")
            ELSE Accept(IntNeed, << Tok("int", IntAt) >>, << >>)
LFloat == /\ LHas /\ Top[1] = "Float" /\ Same
          /\ Accept(8, << Tok("f64", Slice(8)) >>, << >>)
(* an OCaml string need not be UTF-8: it is delivered as a list of chars *)
LString == /\ LHas /\ Top[1] = "String" /\ Same
           /\ IF BadLead(At(1), FALSE) THEN Reject("InvalidIntegerByte")
              ELSE LET b == SubSeq(inp, pos + Nat0Need + 1, pos + StrNeed)
                   IN Accept(StrNeed, << Tok("list", FromNat(Len(b))) >>
                                      \o [i \in 1..Len(b) |-> Tok("char", << b[i] >>)], << >>)
LOption == /\ LHas /\ Top[1] = "Option" /\ Same
           /\ CASE At(1) = 0 -> Accept(1, << Tok("none", << >>) >>, << >>)
                [] At(1) = 1 -> Accept(1, << Tok("some", << >>) >>, << Top[2] >>)
                [] OTHER -> Reject("InvalidOptionByte")
LRecord == /\ LHas /\ Top[1] = "Record" /\ Same
           /\ LET fs == Top[2] IN
              Accept(0, << Tok("rec", << Len(fs) >>) >>,
                     [i \in 1..(2 * Len(fs)) |->
                        IF i % 2 = 1 THEN << "field", fs[(i + 1) \div 2].field_name >>
                                     ELSE fs[i \div 2].field_rule])
LField  == /\ LHas /\ Top[1] = "field" /\ Same
           /\ Accept(0, << NTok("field", << >>, Top[2]) >>, << >>)
LTuple  == /\ LHas /\ Top[1] = "Tuple" /\ Same
           /\ Accept(0, << Tok("tup", << Len(Top[2]) >>) >>, Top[2])
LSum    == /\ LHas /\ Top[1] = "Sum" /\ Same
           /\ IF At(1) < Len(Top[2])
              THEN LET c == Top[2][At(1) + 1] IN
                   Accept(1, << NTok("sum", << c.index >>, c.ctor_name) >>,
                          << << "Tuple", c.ctor_args >> >>)
              ELSE Reject("reject")
LPoly   == /\ LHas /\ Top[1] = "Polyvar" /\ Same
           /\ LET vs == Top[2]
                  w == Slice(4)
                  hit == { i \in 1..Len(vs) : vs[i][1] = "Tagged"
                                              /\ FromNat4(vs[i][2].hash) = TagOfWire(w) }
                  inh == { i \in 1..Len(vs) : vs[i][1] # "Tagged" }
              IN IF ~TagOdd(w) THEN Reject("any")
                 ELSE IF hit = {} THEN Reject(IF inh = {} THEN "UnknownPolyvarTag" ELSE "reject")
                 ELSE LET i == CHOOSE i \in hit : \A j \in hit : i <= j IN
                      \* an inherited alternative before the tag is not supported
                      IF \E j \in inh : j < i THEN Reject("any")
                      ELSE Accept(4, << NTok("pv", TagOfWire(w), vs[i][2].polyvar_name) >>,
                                  << << "Tuple", vs[i][2].polyvar_args >> >>)
LList   == /\ LHas /\ Top[1] = "List" /\ Same
           /\ IF BadLead(At(1), FALSE) THEN Reject("InvalidIntegerByte")
              ELSE Accept(Nat0Need, << Tok("list", Nat0At) >>, << Rep(ToNat(Nat0At), Top[2]) >>)
LRep    == /\ LHas /\ Top[1] = "rep" /\ Same
           /\ IF Top[2] = 0 THEN Accept(0, << >>, << >>)
              ELSE Accept(0, << >>, << Top[3], Rep(Top[2] - 1, Top[3]) >>)
LRef    == /\ LHas /\ Top[1] = "Reference"
           /\ IF Top[2][1] = "Resolved"
              THEN /\ SetPath(IF "source_module_path" \in DOMAIN Top[2][2]
                              THEN Top[2][2].source_module_path ELSE "")
                   /\ Accept(0, << >>, << Top[2][2].ref_rule >>)
              ELSE Same /\ Reject("UnimplementedRule")
LCustom == /\ LHas /\ Top[1] = "Custom" /\ Same
           /\ IF path = NoPath THEN Reject("LayoutIteratorError")
              ELSE IF path \in DOMAIN VectorLen
                   THEN IF Top[2] = << >> THEN Reject("reject")
                        ELSE Accept(0, << Tok("tup", << VectorLen[path] + 1 >>) >>,
                                    << Rep(VectorLen[path], Top[2][1]), << "Unit" >> >>)
              ELSE IF path \in BigIntPaths
                   THEN Accept(0, << Tok("tup", << 32 >>) >>, << Rep(32, << "Char" >>) >>)
              ELSE Reject("UnknownCustomType")
LUnreadable == /\ LHas /\ Top[1] \in Unreadable /\ Same /\ Reject("UnimplementedRule")

LFinish == /\ Running /\ todo = << >> /\ Same
           /\ st' = "ok" /\ UNCHANGED << todo, inp, closed, pos, toks >>
LTruncated == /\ Running /\ todo # << >> /\ Avail < LNeed(Top) /\ closed /\ Same
              /\ Reject("Io")

LReader == \/ LUnit \/ LBool \/ LChar \/ LInt \/ LFloat \/ LString \/ LOption \/ LRecord
           \/ LField \/ LTuple \/ LSum \/ LPoly \/ LList \/ LRep \/ LRef \/ LCustom
           \/ LUnreadable \/ LFinish \/ LTruncated

LInit(rule, bytes, eof) ==
  /\ todo = << rule >> /\ inp = bytes /\ closed = eof
  /\ pos = 0 /\ toks = << >> /\ st = "run" /\ path = NoPath
=============================================================================
