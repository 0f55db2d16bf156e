------------------------------ MODULE RoundTrip ------------------------------
(* Writing a configuration and reading it again gives the same configuration. *)
(* A configuration is a record: section -> sequence of entities; an entity is *)
(* the sequence of its class and its "field=value" texts.                     *)
EXTENDS Base

Sections == {"head", "time_model", "state", "process", "queue", "node", "resource", "product", "sink", "source", "auxiliary", "scenario"}
RoundTripInit(cfg) == 0
Differ(a, b) == { k \in Sections : a[k] # b[k] }
Txt(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE IN x

RoundTripClauses(cfg, s, e) ==
  IF e.e = "trip" THEN
    <<C("a configuration that was written and read is unchanged: " \o Txt(Differ(e.a, e.read)), e.a = e.read),
      C("a configuration that was written and made is unchanged: " \o Txt(Differ(e.a, e.made)), e.a = e.made),
      C("writing does not change the configuration: " \o Txt(Differ(e.a, e.after)), e.a = e.after),
      C("writing again gives the same text", e.text1 = e.text2),
      C("the hash survives writing and reading", e.hash1 = e.hash2),
      C("the simulation of the read configuration is the same", e.log1 = e.log2)>>
  ELSE <<C("a valid configuration can be written and read", FALSE)>>

RoundTripUpd(cfg, s, e) == s
=============================================================================
