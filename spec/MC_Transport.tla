---------------------------- MODULE MC_Transport ----------------------------
(* Programs with input and output slots, each given a name of some form    *)
(* and perhaps a fault.  A run opens its inputs and outputs, reads all,    *)
(* computes, writes and closes; it succeeds or ends with an error.         *)
EXTENDS Transport, Json
CONSTANTS MaxDev, Progs

\* slots: dir, and what cannot be done with them: "twice" may be read more
\* than once or is no argument of its own (no standard input), "head" is read only in part (damage may go
\* unnoticed), "text" is a text (unstructured), "model" has structure of its own
In(k) == [dir |-> "in", kind |-> k]
Out == [dir |-> "out", kind |-> "out"]
Slots(p) ==
    CASE p = "counts2kn" -> [text |-> In("twice"), dev |-> In("text"), vocab |-> In("text"), model |-> Out, counts |-> Out, vocabout |-> Out]
      [] p = "counts2kn-s" -> [text |-> In("twice"), model |-> Out]
      [] p = "counts2kn-c" -> [text |-> In("twice"), vocab |-> In("text"), model |-> Out]
      [] p = "counts2kn-Z" -> [text |-> In("twice"), vocab |-> In("text"), model |-> Out]
      [] p = "counts2kn-r" -> [text |-> In("twice"), model |-> Out]
      [] p = "varigram_kn" -> [text |-> In("twice"), dev |-> In("text"), vocab |-> In("text"), model |-> Out, counts |-> Out, vocabout |-> Out]
      [] p = "varigram_kn-S" -> [text |-> In("twice"), model |-> Out]
      [] p = "perplexity-a" -> [model |-> In("model"), text |-> In("text"), out |-> Out, stream |-> Out]
      [] p = "perplexity-A" -> [model |-> In("model"), text |-> In("text"), ccs |-> In("text"), wb |-> In("text"), out |-> Out]
      [] p = "perplexity-f" -> [model |-> In("model"), text |-> In("text"), mb |-> In("text"), out |-> Out]
      [] p = "perplexity-i" -> [model |-> In("twice"), inter |-> In("twice"), text |-> In("text"), out |-> Out]
      [] p = "perplexity-fi" -> [model |-> In("model"), inter |-> In("model"), text |-> In("text"), out |-> Out]
      [] p = "arpa2bin" -> [model |-> In("model"), out |-> Out]
      [] p = "bin2arpa" -> [model |-> In("model"), out |-> Out]
      [] p = "arpa2arpa" -> [model |-> In("model"), out |-> Out]
      [] p = "add_zeroprob_grams" -> [model |-> In("model"), out |-> Out]
      [] p = "arpasize" -> [model |-> In("model"), out |-> Out]
      [] p = "arpasize-S" -> [model |-> In("head"), out |-> Out]
      [] p = "check_model" -> [model |-> In("model"), text |-> In("text")]
      [] p = "simpleinterpolate2arpa" -> [model |-> In("twice"), inter |-> In("model"), out |-> Out]

Faults(s, form) ==
    IF s.dir = "in"
    THEN CASE form = "plain" -> {"none", "missing"} \cup (IF s.kind = "head" THEN {} ELSE {"directory"})
           [] form \in {"gz", "bz2"} -> {"none", "missing"} \cup (IF s.kind = "head" THEN {} ELSE {"cut", "raw"})
           [] form = "inpipe" -> {"none"} \cup (IF s.kind = "head" THEN {} ELSE {"nocommand"})
           [] form = "std" -> {"none"}
           [] OTHER -> {}
    ELSE CASE form \in {"plain", "outpipe", "std"} -> {"none", "full"} \cup (IF form = "plain" THEN {"nodir"} ELSE {})
           [] form \in {"gz", "bz2"} -> {"none", "nodir"}
           [] OTHER -> {}
Choices(s) == {c \in [form : Forms, fault : {"none", "missing", "directory", "cut", "raw", "nocommand", "full", "nodir"}] :
                 c.fault \in Faults(s, c.form) /\ (c.form = "std" => s.kind # "twice")}
Normal == [form |-> "plain", fault |-> "none"]

VARIABLES p, ch, phase, got, fs, outcome
vars == <<p, ch, phase, got, fs, outcome>>
S == Slots(p)
DevSlots == {x \in DOMAIN S : ch[x] # Normal}
\* the file system before the run: what each input slot's name leads to
Before == LET I == {x \in DOMAIN S : S[x].dir = "in" /\ ch[x].fault \notin {"missing", "nocommand"}}
          IN [x \in I |-> IF ch[x].fault \in {"cut", "directory"} THEN [enc |-> "damaged", data |-> <<x>>]
                          ELSE IF ch[x].fault = "raw" THEN [enc |-> "none", data |-> <<x>>]
                          ELSE [enc |-> Encoding(ch[x].form), data |-> <<x>>]]
OneStd(f) == \A d \in {"in", "out"} : Cardinality({x \in DOMAIN f : S[x].dir = d /\ f[x].form = "std"}) <= 1
Init == /\ p \in Progs
        /\ ch = [x \in DOMAIN Slots(p) |-> Normal]
        /\ phase = "choose" /\ got = <<>> /\ fs = <<>> /\ outcome = ""
\* at most MaxDev slots are given something else than a good plain file
Choose == /\ phase = "choose"
          /\ Cardinality(DevSlots) < MaxDev
          /\ \E x \in DOMAIN S \ DevSlots : \E c \in Choices(S[x]) \ {Normal} :
               ch' = [ch EXCEPT ![x] = c] /\ OneStd(ch')
          /\ UNCHANGED <<p, phase, got, fs, outcome>>
Start == /\ phase = "choose" /\ phase' = "open" /\ fs' = Before
         /\ UNCHANGED <<p, ch, got, outcome>>
Name(x) == [form |-> ch[x].form, base |-> IF ch[x].fault = "nodir" THEN "nodir" ELSE x]
Open == /\ phase = "open"
        /\ IF \A x \in DOMAIN S : OpenOK(fs, Name(x), IF S[x].dir = "in" THEN "r" ELSE "w", "linear")
           THEN phase' = "read" /\ UNCHANGED outcome ELSE phase' = "end" /\ outcome' = "error"
        /\ UNCHANGED <<p, ch, got, fs>>
\* a directory opens, but cannot be read; a cut file and a command that is
\* not there end in an error
ReadAll == /\ phase = "read"
           /\ LET I == {x \in DOMAIN S : S[x].dir = "in"}
                  r(x) == Content(fs, Name(x))
              IN /\ got' = [x \in I |-> r(x).data]
                 /\ IF \E x \in I : r(x).bad \/ ch[x].fault \in {"cut", "directory", "nocommand"}
                    THEN phase' = "end" /\ outcome' = "error" ELSE phase' = "write" /\ UNCHANGED outcome
           /\ UNCHANGED <<p, ch, fs>>
WriteAll == /\ phase = "write"
            /\ LET O == {x \in DOMAIN S : S[x].dir = "out"}
               IN /\ fs' = [x \in O |-> [enc |-> Encoding(ch[x].form), data |-> <<x, got>>]] @@ fs
                  /\ outcome' = IF \E x \in O : ch[x].fault = "full" THEN "error" ELSE "same"
            /\ phase' = "end" /\ UNCHANGED <<p, ch, got>>
Next == Choose \/ Start \/ Open \/ ReadAll \/ WriteAll
Spec == Init /\ [][Next]_vars

Ideal == [x \in {y \in DOMAIN S : S[y].dir = "in"} |-> <<x>>]
\* what travels is the content, however it travels
Faithful == outcome = "same" => /\ got = Ideal
                                /\ \A x \in DOMAIN S : S[x].dir = "out" =>
                                     Content(fs, Name(x)).data = <<x, Ideal>>
\* no fault goes unnoticed, and nothing else is an error
Noticed == phase = "end" => (outcome = "same") = (\A x \in DOMAIN S : ch[x].fault = "none")
Emit == phase = "end" => PrintT("CASE|" \o ToJson([prog |-> p, outcome |-> outcome,
            dev |-> [x \in DevSlots |-> <<ch[x].form, ch[x].fault>>]]))
=============================================================================
