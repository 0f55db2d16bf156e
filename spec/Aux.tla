-------------------------------- MODULE Aux ---------------------------------
(* Auxiliaries.                                                               *)
(* cfg.need[t]  auxiliary types a product of type t may use (<<>>: none)      *)
(* cfg.type[p]  product types;  cfg.atype[x] type of auxiliary x              *)
(* cfg.count[t][place] = number of auxiliaries of type t stored at place      *)
(* state: home[x], ph[x] in                                                   *)
(*   "idle"    in its storage, free                                           *)
(*   "called"  reserved, in its storage, being fetched or about to be         *)
(*   "bring"   on its way to the product                                      *)
(*   "with"    accompanies the product                                        *)
(*   "return"  the product is finished, the auxiliary is brought back         *)
(*   "back"    in its storage again, about to be released                     *)
(* user[x] = product served (known from the next quiescent instant on)        *)
EXTENDS Base

AuxInit(cfg) == [home |-> Empty, ph |-> Empty, user |-> Empty, goal |-> Empty,
                 live |-> {}, fin |-> {}, at |-> Empty]

ANeeds(cfg, p) == SeqSet(Get(cfg.need, Get(cfg.type, p, None), <<>>))
AServing(s, p) == { x \in DOMAIN s.user : s.user[x] = p }
APh(s, x) == Get(s.ph, x, None)

AuxClauses(cfg, s, e) ==
  CASE e.e = "make" ->
       << C("an auxiliary is created twice", e.x \notin DOMAIN s.home) >>
  [] e.e = "put" ->
       << C("an unknown auxiliary is stored", e.x \in DOMAIN s.home),
          C("an auxiliary is stored at another place than its storage",
             e.x \in DOMAIN s.home => s.home[e.x] = e.q),
          C("an auxiliary is stored while it serves a product", APh(s, e.x) \in {"new", "return"}) >>
  [] e.e = "take" ->
       << C("an auxiliary is taken out of its storage without a product to serve", APh(s, e.x) = "called"),
          C("an auxiliary is taken from a place where it is not", Get(s.home, e.x, None) = e.q) >>
  [] e.e = "use" ->
       << C("an auxiliary in use is given to another product", APh(s, e.x) = "idle") >>
  [] e.e = "free" ->
       << C("an auxiliary is released although it is not back in its storage", APh(s, e.x) = "back") >>
  [] e.e = "order" ->
       << C("a transport of an auxiliary that serves no product", APh(s, e.x) \in {"called", "with"}),
          C("an auxiliary is fetched from another place than its storage",
             APh(s, e.x) = "called" => e.o = s.home[e.x]),
          C("an auxiliary is brought back to another place than its storage",
             APh(s, e.x) = "with" => e.g = s.home[e.x]),
          C("an auxiliary is brought back before its product is finished",
             APh(s, e.x) = "with" => Get(s.user, e.x, None) \in s.fin),
          C("an auxiliary is brought back from another place than where its product was finished",
             APh(s, e.x) = "with" /\ Get(s.user, e.x, None) \in s.fin => e.o = s.at[s.user[e.x]]) >>
  [] e.e = "work" ->
       << C("work on a product starts before its auxiliary has arrived",
             ANeeds(cfg, e.p) # {} =>
                 \E x \in AServing(s, e.p) : s.ph[x] = "with") >>
  [] e.e = "snap" ->
       LET X == DOMAIN s.home
           fresh(x) == s.ph[x] \notin {"idle", "new"} /\ x \notin DOMAIN s.user
           holder(x) == IF x \in DOMAIN s.user THEN s.user[x] ELSE e.aux[x][2]
           waiting == { p \in s.live \ s.fin : ANeeds(cfg, p) # {} /\ \A x \in X : e.aux[x][2] # p }
       IN
       << C("the number of auxiliaries changed", DOMAIN e.aux = X),
          C("the number of auxiliaries in a storage is not the configured one",
             \A t \in DOMAIN cfg.count : \A q \in DOMAIN cfg.count[t] :
                 Cardinality({ x \in X : s.home[x] = q /\ cfg.atype[x] = t }) = cfg.count[t][q]),
          C("an auxiliary is neither stored nor in use",
             \A x \in X : s.ph[x] # "new" /\ (e.aux[x][1] = 1) = (s.ph[x] # "idle")),
          C("a free auxiliary is still assigned to a product",
             \A x \in X : s.ph[x] = "idle" => e.aux[x][2] = None),
          C("an auxiliary in use serves no product",
             \A x \in X : s.ph[x] # "idle" => e.aux[x][2] # None),
          C("an auxiliary changes its product before it was released",
             \A x \in X : x \in DOMAIN s.user => e.aux[x][2] = s.user[x]),
          C("an auxiliary serves a product that does not need it",
             \A x \in X : e.aux[x][2] # None => cfg.atype[x] \in ANeeds(cfg, e.aux[x][2])),
          C("two auxiliaries serve the same product",
             \A x, y \in X : x # y /\ e.aux[x][2] # None => e.aux[x][2] # e.aux[y][2]),
          C("an auxiliary serves a product that is not in the system",
             \A x \in X : e.aux[x][2] # None => e.aux[x][2] \in s.live),
          C("an auxiliary stays with a finished product instead of being brought back",
             \A x \in X : e.aux[x][2] \in s.fin => s.ph[x] \in {"return", "back"}),
          C("a stored auxiliary is not where its storage is",
             \A x \in X : s.ph[x] \in {"idle", "called"} => e.aux[x][3] = s.home[x]),
          C("an auxiliary did not arrive at its product",
             \A x \in X : s.ph[x] = "with" /\ x \notin DOMAIN s.user => FALSE),
          C("a product waits for an auxiliary although one is free",
             \A p \in waiting : \A x \in X : cfg.atype[x] \in ANeeds(cfg, p) => e.aux[x][1] = 1) >>
  [] e.e = "leg" ->
       << C("an auxiliary is carried without an order", APh(s, e.x) \in {"bring", "return"}) >>
  [] e.e = "arrive" ->
       << C("an auxiliary is brought to a place where its product is not",
             APh(s, e.x) = "bring" /\ e.x \in DOMAIN s.user /\ s.user[e.x] \in DOMAIN cfg.born
                => e.g = cfg.born[s.user[e.x]]) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

AuxUpd(cfg, s, e) ==
  CASE e.e = "make" -> [s EXCEPT !.home = Put(@, e.x, e.q), !.ph = Put(@, e.x, "new")]
    [] e.e = "put"  -> [s EXCEPT !.ph = Put(@, e.x, IF s.ph[e.x] = "new" THEN "idle" ELSE "back")]
    [] e.e = "take" -> [s EXCEPT !.ph = Put(@, e.x, "bring")]
    [] e.e = "use"  -> [s EXCEPT !.ph = Put(@, e.x, "called")]
    [] e.e = "free" -> [s EXCEPT !.ph = Put(@, e.x, "idle"), !.user = Del(@, e.x), !.goal = Del(@, e.x)]
    [] e.e = "order" -> [s EXCEPT !.goal = Put(@, e.x, e.g),
                                  !.ph = Put(@, e.x, IF s.ph[e.x] = "with" THEN "return" ELSE @[e.x])]
    [] e.e = "arrive" -> IF s.ph[e.x] = "bring" /\ Get(s.goal, e.x, None) = e.g
                         THEN [s EXCEPT !.ph = Put(@, e.x, "with")] ELSE s
    [] e.e = "new" -> [s EXCEPT !.live = @ \cup {e.p}]
    [] e.e = "fin" -> [s EXCEPT !.fin = @ \cup {e.p}, !.at = Put(@, e.p, e.r)]
    [] e.e = "snap" ->
         [s EXCEPT !.user = [ x \in { y \in DOMAIN e.aux : e.aux[y][2] # None } |-> e.aux[x][2] ]]
    [] OTHER -> s
=============================================================================
