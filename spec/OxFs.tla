-------------------------------- MODULE OxFs --------------------------------
(***************************************************************************)
(* A directory as a process sees it: names, files, open descriptors.       *)
(* The content of a file is the sequence of marks written to it; "old" is  *)
(* the content a file had before.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

FsRange(s) == {s[j] : j \in 1..Len(s)}
FsWithout(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
FsPut(f, k, v) == (k :> v) @@ f

\* names: the names that exist, in a sequence
FsInit(sq) ==
    [names |-> [n \in FsRange(sq) |-> CHOOSE i \in 1..Len(sq) : sq[i] = n],
     data |-> [i \in 1..Len(sq) |-> <<"old">>],
     fds |-> [x \in {} |-> 0], next |-> Len(sq) + 1]

FsOpen(fs, n, fd, creat, trunc) ==
    IF n \in DOMAIN fs.names
    THEN LET i == fs.names[n]
         IN [fs EXCEPT !.fds = FsPut(@, fd, i), !.data = IF trunc THEN FsPut(@, i, <<"cut">>) ELSE @]
    ELSE IF creat
    THEN [fs EXCEPT !.names = FsPut(@, n, fs.next), !.data = FsPut(@, fs.next, <<>>),
                    !.fds = FsPut(@, fd, fs.next), !.next = @ + 1]
    ELSE fs
FsWrite(fs, fd, mark) ==
    IF fd \in DOMAIN fs.fds THEN [fs EXCEPT !.data[fs.fds[fd]] = Append(@, mark)] ELSE fs
FsTruncate(fs, fd) ==
    IF fd \in DOMAIN fs.fds THEN [fs EXCEPT !.data[fs.fds[fd]] = <<"cut">>] ELSE fs
FsClose(fs, fd) == [fs EXCEPT !.fds = FsWithout(@, fd)]
FsUnlink(fs, n) == [fs EXCEPT !.names = FsWithout(@, n)]
FsLink(fs, a, b) == IF a \in DOMAIN fs.names THEN [fs EXCEPT !.names = FsPut(@, b, fs.names[a])] ELSE fs
\* one step: b stands for what a stood for, a is gone
FsRename(fs, a, b) ==
    IF a \in DOMAIN fs.names THEN [fs EXCEPT !.names = FsPut(FsWithout(@, a), b, fs.names[a])] ELSE FsUnlink(fs, b)
FsSwap(fs, a, b) ==
    IF {a, b} \subseteq DOMAIN fs.names
    THEN [fs EXCEPT !.names = FsPut(FsPut(@, a, fs.names[b]), b, fs.names[a])] ELSE fs

Content(fs, n) == IF n \in DOMAIN fs.names THEN fs.data[fs.names[n]] ELSE <<"none">>
=============================================================================
