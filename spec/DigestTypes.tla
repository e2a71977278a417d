----------------------------- MODULE DigestTypes ------------------------------
(* Selection of digest types by a comma separated list of names.             *)
EXTENDS Text, FiniteSets

Order == <<"md5", "sha1", "sha224", "sha256", "sha512">>
Label == [md5 |-> "MD5", sha1 |-> "SHA1", sha224 |-> "SHA224", sha256 |-> "SHA256", sha512 |-> "SHA512"]
Names ==
  [md5 |-> {"md5", "MD5"}] @@
  [a \in {"sha1", "sha224", "sha256", "sha512"} |->
     LET n == SubSeq(a, 4, Len(a))
     IN {p \o h \o n : p \in {"sha", "SHA"}, h \in {"", "-", "_"}}]
TypeNamed(name) == {a \in DOMAIN Names : name \in Names[a]}

Elements(text) == [i \in 1..Len(Split(Chars(text), ",")) |-> Join(Split(Chars(text), ",")[i])]
(* Lists with an empty element are neither promised to be accepted nor refused. *)
Regular(text) == \A i \in DOMAIN Elements(text) : Elements(text)[i] # ""
Selected(text) == UNION {TypeNamed(Elements(text)[i]) : i \in DOMAIN Elements(text)}
InOrder(types) == SelectSeq(Order, LAMBDA a : a \in types)
=============================================================================
