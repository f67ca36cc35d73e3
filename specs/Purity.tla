-------------------------------- MODULE Purity ------------------------------
(* Calculations as operations on shared inputs: materials, geometry            *)
(* descriptions, layer lists, textures, interfaces and structures, options,     *)
(* stored files. A calculation reads them and leaves them as they are; its     *)
(* result depends on them only, so that it is the same whenever it is made.     *)
EXTENDS Integers, Sequences, FiniteSets
Kinds == {"materials", "geometry", "layers", "textures", "structures", "objects", "options", "files"}
\* the inputs a calculation may read
Reads(e) ==
  CASE e \in {"tmm", "tmmprof", "inc", "incprof", "nbr", "gen"} -> {"materials", "layers", "objects", "options"}
    [] e \in {"rcwa", "rcwaprof", "fields", "genrcwa"} -> {"materials", "layers", "geometry", "objects", "options"}
    [] e \in {"lookup", "readlookup"} -> {"materials", "layers", "options", "files"}
    [] e \in {"mxtmm", "mxmirror", "mxlamb", "genmx", "readmxtmm"} -> {"materials", "layers", "structures", "options", "files"}
    [] e \in {"mxrcwa", "readmxrcwa"} -> {"materials", "layers", "geometry", "structures", "options", "files"}
    [] e \in {"mxrtf", "mxrttmm", "readmxrttmm"} -> {"materials", "layers", "textures", "structures", "options", "files"}
    [] OTHER -> {"materials", "layers", "textures", "objects", "options"}
\* a result, as a function of the versions of what it reads
Result(e, ver) == [e |-> e, on |-> [k \in Reads(e) |-> ver[k]]]
=============================================================================
