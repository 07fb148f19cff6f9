-------------------------------- MODULE GoMods -------------------------------
(* Module definitions: a project has members (one, or those of a workspace), a   *)
(* member requires modules at versions; an update is a requirement that both the *)
(* current and the updated definition of a member have, at different versions.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Mods == {"ex.com/a", "ex.com/b", "ex.com/b/v2", "ex.com/C", "gopkg.in/d.v1"}
Versions == {"v1.0.0", "v1.0.1", "v1.10.0", "v1.9.0", "v1.0.0-rc.1", "v0.0.0-20240102030405-abcdef123456"}
VersionsOf(m) == IF m = "ex.com/b/v2" THEN {"v2.0.0", "v2.0.1", "v2.10.0", "v2.9.0"} ELSE Versions
\* definitions: member -> sequence of [m, v, ind], a module at most once per member
Modules(reqs) == {reqs[i].m : i \in 1..Len(reqs)}
Entry(reqs, m) == reqs[CHOOSE i \in 1..Len(reqs) : reqs[i].m = m]
Updates(old, new) == {[name |-> m, old |-> Entry(old, m).v, new |-> Entry(new, m).v] :
                        m \in {x \in Modules(old) \cap Modules(new) : Entry(old, x).v # Entry(new, x).v}}
\* over a workspace: what changes in some member that is there before and after
AllUpdates(old, new) == UNION {Updates(old[d], new[d]) : d \in DOMAIN old \cap DOMAIN new}
\* an update is indirect if every member that has it needs it only indirectly
Indirect(old, new, u) == \A d \in DOMAIN old \cap DOMAIN new : u \in Updates(old[d], new[d]) => Entry(new[d], u.name).ind
Selected(old, m) == {Entry(old[d], m).v : d \in {x \in DOMAIN old : m \in Modules(old[x])}}
\* versions in semantic order, oldest first; where members differ, the oldest or the newest of them counts
Order == <<"v0.0.0-20240102030405-abcdef123456", "v1.0.0-rc.1", "v1.0.0", "v1.0.1", "v1.9.0", "v1.10.0", "v2.0.0", "v2.0.1", "v2.9.0", "v2.10.0">>
Rank(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
Oldest(s, vs) == CHOOSE v \in vs : \A w \in vs : Rank(s, v) <= Rank(s, w)
Newest(s, vs) == CHOOSE v \in vs : \A w \in vs : Rank(s, v) >= Rank(s, w)
GoOrder == <<"1.9", "1.12", "1.12.17", "1.13", "1.21", "1.22beta1", "1.24rc1", "1.24.1", "2.0">>
\* ---- Go versions: <<major, minor, patch>> ----
GoVers == [x \in {"1.9", "1.12", "1.12.17", "1.13", "1.13.0", "1.21", "1.24rc1", "1.22beta1", "1.24.1", "2.0"} |->
   CASE x = "1.9" -> <<1, 9>> [] x \in {"1.12", "1.12.17"} -> <<1, 12>> [] x \in {"1.13", "1.13.0"} -> <<1, 13>> [] x = "1.21" -> <<1, 21>>
     [] x = "1.24rc1" -> <<1, 24>> [] x = "1.22beta1" -> <<1, 22>> [] x = "1.24.1" -> <<1, 24>> [] x = "2.0" -> <<2, 0>>]
TooOld(x) == x # "" /\ (GoVers[x][1] < 1 \/ (GoVers[x][1] = 1 /\ GoVers[x][2] < 13))
==============================================================================
