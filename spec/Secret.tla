------------------------------ MODULE Secret -------------------------------
(* Secrets stay secret (C35): the password of the database and the admin secret
   of Hasura.  Two runs that differ only in the secret are compared:
     a, b    what each of them showed: exit, err (terminal), out (standard output),
             file (the report), ev (requests without the login, in order)
     leaks   places in which a secret, in any usual writing, was found
     auth    every login or request carried the secret it is entitled to          *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Shown == {"exit", "err", "out", "file", "ev"}
Rule(r) ==
  IF r.panic THEN {"crashed"} ELSE
  {"the secret is found in: " \o x : x \in ToSet(r.leaks)}
  \cup {"depends on the secret: " \o x : x \in {y \in Shown : r.a[y] # r.b[y]}}
=============================================================================
