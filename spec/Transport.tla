----------------------------- MODULE Transport -----------------------------
(* How a file name is turned into a stream.  The name's form decides how   *)
(* the bytes travel; what the program sees is the content.  The file       *)
(* system maps plain names to [enc, data]; data is a sequence.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Forms == {"plain", "gz", "bz2", "inpipe", "outpipe", "std"}
Encoding(form) == IF form \in {"gz", "bz2"} THEN form ELSE "none"
\* name: [form, base]; a pipe's base is the plain file behind its command
Exists(fs, n) == n.base \in DOMAIN fs
Piped(form) == form \in {"gz", "bz2", "inpipe", "outpipe"}


\* a stream that is not open
Closed == [open |-> FALSE, name |-> [form |-> "plain", base |-> ""], dir |-> "", data |-> <<>>, bad |-> FALSE, ended |-> FALSE]

Base(mode) == IF mode \in {"rb", "wb"} THEN IF mode = "rb" THEN "r" ELSE "w" ELSE mode
\* can the name be opened so
OpenOK(fs, n, mode, seek) ==
    LET m == Base(mode) IN
    /\ n.form = "std" => seek = "linear" /\ m \in {"r", "w"}
    /\ Piped(n.form) => seek # "seekable" /\ m \in {"r", "w"}
    /\ (n.form \in {"plain", "gz", "bz2"} /\ m \in {"r", "r+"}) => Exists(fs, n)
    /\ ~(n.form \in {"plain", "gz", "bz2"} /\ n.base = "nodir")
    /\ n.form = "inpipe" => m = "r"
    /\ n.form = "outpipe" => m = "w"
\* what reading gives, and whether the end of it is an accident
Content(fs, n) ==
    IF ~Exists(fs, n) THEN [data |-> <<>>, bad |-> n.form \in {"gz", "bz2"}]
    ELSE LET f == fs[n.base] IN
         IF n.form \in {"gz", "bz2"}
         THEN IF f.enc = n.form THEN [data |-> f.data, bad |-> FALSE] ELSE [data |-> <<>>, bad |-> TRUE]
         ELSE [data |-> IF f.enc = "none" THEN f.data ELSE <<f.enc, f.data>>, bad |-> FALSE]
Written(fs, n, data) == (n.base :> [enc |-> Encoding(n.form), data |-> data]) @@ fs
=============================================================================
