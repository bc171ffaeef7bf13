------------------------------ MODULE Interfaces -----------------------------
(***************************************************************************)
(* The two interfaces as they are published: the numbers behind the names  *)
(* in both languages, how names are shown, the layout of the image format  *)
(* structure, and what a program needs to use the C header: nothing else.  *)
(***************************************************************************)
EXTENDS Formats

Errors == <<"invalid_value", "invalid_operation", "not_enough_data">>
Results == <<"ok", "err">>

\* how Rust shows formats and color spaces
PfShown == PfName
CsShown == <<"rgb", "bt-601", "bt-709", "bt-601-fr", "bt-709-fr">>

Numbered(kind, names) == {[kind |-> kind, name |-> names[k], number |-> k - 1] : k \in 1..Len(names)}
Names ==
  Numbered("format", PfName) \union Numbered("space", CsName) \union Numbered("error", Errors)

\* the numbers in the header
HeaderNumbers ==
  Names \union Numbered("result", Results)
    \union {[kind |-> "space", name |-> "lrgb", number |-> CsRgb],     \* kept for older programs
            [kind |-> "stride", name |-> "auto", number |-> 0]}
\* and in Rust
RustNumbers == Names \union {[kind |-> "stride", name |-> "auto", number |-> 0]}

\* Bytes: where the parts of the structure are, how large they are, and it is
Layouts ==
  {[part |-> "pixel_format", at |-> 0, size |-> 4], [part |-> "color_space", at |-> 4, size |-> 4],
   [part |-> "num_planes", at |-> 8, size |-> 4], [part |-> "all", at |-> 0, size |-> 12]}

Functions == {"dcp_describe_acceleration", "dcp_unref_string", "dcp_get_buffers_size", "dcp_convert_image"}
Languages == {"c99", "c11", "c17", "c++11", "c++17", "c++20"}

\* What must be known of the library before it is believed to be complete
Required ==
  {[e |-> "number", of |-> "header", kind |-> x.kind, name |-> x.name, number |-> x.number] : x \in HeaderNumbers}
  \union {[e |-> "number", of |-> "rust", kind |-> x.kind, name |-> x.name, number |-> x.number] : x \in RustNumbers}
  \union {[e |-> "layout", of |-> o, part |-> x.part, at |-> x.at, size |-> x.size] :
            o \in {"header", "rust"}, x \in Layouts}
  \union {[e |-> "shown", kind |-> "format", name |-> PfName[k], text |-> PfShown[k]] : k \in 1..Len(PfName)}
  \union {[e |-> "shown", kind |-> "space", name |-> CsName[k], text |-> CsShown[k]] : k \in 1..Len(CsName)}
  \* included before anything else
  \union {[e |-> "header", language |-> l, compiles |-> TRUE] : l \in Languages}
  \* functions have C's names and the published types
  \union {[e |-> "function", language |-> l, name |-> f, type |-> TRUE, linkage |-> TRUE] :
            l \in Languages, f \in Functions}

ASSUME Cardinality(HeaderNumbers) = 21 /\ Cardinality(RustNumbers) = 18
\* no number means two things
ASSUME \A x, y \in HeaderNumbers :
         x.kind = y.kind /\ x.number = y.number /\ x.name # y.name => {x.name, y.name} = {"rgb", "lrgb"}
=============================================================================
