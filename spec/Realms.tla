------------------------------ MODULE Realms ------------------------------
(* Which realm what comes from (ECMA-262 9.3, 10.1.14, 7.3.24): objects a realm's functions create,      *)
(* errors they throw, prototypes taken from a newTarget, species, globals and changed intrinsics.         *)
(* An object is observed as <<realm, intrinsic>> of its prototype, or <<"own", n>>.                         *)
EXTENDS Drv, Integers, SequencesExt

R(s, v) == [s |-> s, r |-> v]
P(r, name) == <<"p", r, name>>

(* a newTarget: <<"f", realm, kind of prototype property ("obj" | "none"), id>>, or a wrapper                *)
(* <<"bound" | "proxy" | "revoked", realm, inner>>                                                            *)
RECURSIVE RealmOf(_), ProtoOf(_), Revoked(_)
Revoked(t) == t[1] = "revoked" \/ (t[1] \in {"bound", "proxy"} /\ Revoked(t[3]))
RealmOf(t) == IF t[1] = "f" THEN t[2] ELSE RealmOf(t[3])
\* the object its prototype property gives, 0 for none (a bound function has none)
ProtoOf(t) == CASE t[1] = "f" -> IF t[3] = "obj" THEN t[4] ELSE 0
                [] t[1] = "proxy" -> ProtoOf(t[3])
                [] OTHER -> 0
RECURSIVE RevokedProxyOnPath(_)
RevokedProxyOnPath(t) == t[1] = "revoked" \/ (t[1] = "proxy" /\ RevokedProxyOnPath(t[3]))
\* GetPrototypeFromConstructor(t, name), evaluated by code of realm cur: an error if a revoked proxy is asked
FromCtor(t, name, cur) == IF RevokedProxyOnPath(t) THEN <<"err", cur, "TypeError">>           \* reading its prototype
                          ELSE IF ProtoOf(t) # 0 THEN <<"own", ProtoOf(t)>>
                          ELSE IF Revoked(t) THEN <<"err", cur, "TypeError">>                  \* asking for its realm
                          ELSE P(RealmOf(t), name)
(* what code of a function of realm r makes; c: code of that realm called from elsewhere *)
Lang == [arr |-> "Array", obj |-> "Object", fun |-> "Function", arrow |-> "Function", re |-> "RegExp", cls |-> "Function", clsproto |-> "Object",
         args |-> "Object", afun |-> "AsyncFunction", gfun |-> "GeneratorFunction", agfun |-> "AsyncGeneratorFunction", gproto |-> "Generator",
         agproto |-> "AsyncGenerator", rest |-> "Array", restobj |-> "Object", spread |-> "Array", tplobj |-> "Array", acall |-> "Promise", method |-> "Function",
         getter |-> "Function", strbox |-> "String", numbox |-> "Number", fproto |-> "Object", thisbox |-> "Number", boolbox |-> "Boolean", symbox |-> "Symbol",
         bigbox |-> "BigInt", classfield |-> "Array", evalarr |-> "Array", ievalarr |-> "Array", newfun |-> "Function", genobj |-> "Generator",
         asyncgenobj |-> "AsyncGenerator", iterres |-> "Object"]
LangErr == [nullprop |-> "TypeError", undef |-> "ReferenceError", tdz |-> "ReferenceError", notfun |-> "TypeError", notctor |-> "TypeError", constassign |-> "TypeError",
            frozen |-> "TypeError", classcall |-> "TypeError", notiter |-> "TypeError", instof |-> "TypeError", inop |-> "TypeError", bigmix |-> "TypeError",
            evalsyn |-> "SyntaxError", evalconf |-> "SyntaxError", super2 |-> "ReferenceError", nosuper |-> "ReferenceError", privmiss |-> "TypeError", destruct |-> "TypeError", symnum |-> "TypeError",
            bigdiv |-> "RangeError", spreadnon |-> "TypeError", derivedret |-> "TypeError", heritage |-> "TypeError", setgetter |-> "TypeError", genrunning |-> "TypeError",
            newarrow |-> "TypeError", privtwice |-> "TypeError", deleteprop |-> "TypeError", templ |-> "TypeError"]
\* built-in functions of realm r given something they refuse
BuiltinErr == [arrayLen |-> "RangeError", decode |-> "URIError", json |-> "SyntaxError", defprop |-> "TypeError", repeat |-> "RangeError", bigint |-> "RangeError",
               regexp |-> "SyntaxError", ieval |-> "SyntaxError", funsyn |-> "SyntaxError", mapcall |-> "TypeError", reduce |-> "TypeError", reflectget |-> "TypeError",
               proxyinv |-> "TypeError", symbolnew |-> "TypeError", setproto |-> "TypeError", mapget |-> "TypeError", fixed |-> "RangeError", date |-> "RangeError",
               weakset |-> "TypeError", promisethis |-> "TypeError", create |-> "TypeError", ab |-> "RangeError", typed |-> "TypeError", gen |-> "TypeError", normalize |-> "RangeError",
               species |-> "TypeError", aggregate |-> "AggregateError", stringraw |-> "TypeError", fromEntries |-> "TypeError", bindnon |-> "TypeError", sortcmp |-> "TypeError", tosym |-> "TypeError",
               funinj |-> "SyntaxError", funinj2 |-> "SyntaxError", genfuninj |-> "SyntaxError", afunpar |-> "SyntaxError", reflags |-> "SyntaxError"]
\* built-ins of realm a that make something, given something of realm b: whose it is ("a" | "b")
Makes == [keys |-> <<"a", "Array">>, entries |-> <<"a", "Array">>, split |-> <<"a", "Array">>, gopn |-> <<"a", "Array">>, jsonarr |-> <<"a", "Array">>, jsonobj |-> <<"a", "Object">>,
          descr |-> <<"a", "Object">>, descrs |-> <<"a", "Object">>, objcreate |-> <<"a", "Object">>, toobj |-> <<"a", "String">>, boxing |-> <<"a", "Number">>, values |-> <<"a", "ArrayIterator">>,
          mapit |-> <<"a", "MapIterator">>, setit |-> <<"a", "SetIterator">>, strit |-> <<"a", "StringIterator">>, mapiter |-> <<"a", "Object">>, arriter |-> <<"a", "Object">>, stritres |-> <<"a", "Object">>,
          map |-> <<"a", "Array">>, filter |-> <<"a", "Array">>, slice |-> <<"a", "Array">>, concat |-> <<"a", "Array">>, splice |-> <<"a", "Array">>, flat |-> <<"a", "Array">>, flatMap |-> <<"a", "Array">>,
          toSorted |-> <<"a", "Array">>, toSpliced |-> <<"a", "Array">>, withx |-> <<"a", "Array">>, toReversed |-> <<"a", "Array">>,
          then |-> <<"b", "Promise">>, finally |-> <<"b", "Promise">>, resolve |-> <<"a", "Promise">>, resolveSame |-> <<"b", "Promise">>, resolveOther |-> <<"b", "Promise">>, all |-> <<"b", "Promise">>,
          tmap |-> <<"b", "Uint8Array">>, tslice |-> <<"b", "Uint8Array">>, tsub |-> <<"b", "Uint8Array">>, bufslice |-> <<"b", "ArrayBuffer">>, tobuf |-> <<"a", "ArrayBuffer">>, exec |-> <<"a", "Array">>, matchAll |-> <<"a", "RegExpStringIterator">>,
          match |-> <<"a", "Array">>, arrfrom |-> <<"b", "Array">>, arrof |-> <<"b", "Array">>, bind |-> <<"b", "Function">>, proxyrev |-> <<"a", "Object">>, fromEntries |-> <<"a", "Object">>, ownKeys |-> <<"a", "Array">>,
          reflApply |-> <<"b", "Array">>, genNext |-> <<"b", "Object">>, genDone |-> <<"a", "Object">>, callArr |-> <<"b", "Array">>, newArr |-> <<"b", "Array">>, raw |-> <<"a", "Function">>, assign |-> <<"b", "Object">>]
(* operations *)
RApply(x, s) ==
    CASE x.n = "new" -> R(s, IF x.c \in {"fn", "ctor"} THEN FromCtor(x.t, "Object", x.d) ELSE IF x.c = "cls" THEN FromCtor(x.t, "Object", x.a) ELSE FromCtor(x.t, x.c, x.a))     \* Reflect.construct of realm d on c of realm a, newTarget t; a class without a constructor has a built-in one
      [] x.n = "lang" -> R(s, P(x.a, Lang[x.k]))
      [] x.n = "langerr" -> R(s, <<"err", x.a, LangErr[x.k]>>)
      [] x.n = "err" -> R(s, <<"err", x.a, BuiltinErr[x.k]>>)
      [] x.n = "make" -> R(s, P(IF Makes[x.k][1] = "a" THEN x.a ELSE x.b, Makes[x.k][2]))
      [] x.n = "this" -> R(s, <<"global", x.a>>)
      [] x.n = "setvar" -> R([s EXCEPT !.g[x.a + 1][x.k] = x.v], <<"u">>)
      [] x.n = "getvar" -> R(s, <<"i", s.g[x.a + 1][x.k]>>)                  \* 0: not there
      [] x.n = "patch" -> R([s EXCEPT !.p[x.a + 1][x.k] = x.v], <<"u">>)     \* a property of the intrinsic prototype x.k of realm a
      [] x.n = "probe" -> R(s, <<"i", s.p[x.a + 1][x.k]>>)                    \* what code of realm b sees in an object made by realm a
      [] x.n = "prim" -> R(s, <<"i", s.p[x.a + 1][x.k]>>)                    \* what code of realm a sees in a primitive
      [] x.n = "symbol" -> R(s, <<"b", TRUE>>)
GStart(c) == [g |-> [i \in 1..3 |-> [x |-> 0, y |-> 0]], p |-> [i \in 1..3 |-> [Array |-> 0, Object |-> 0, String |-> 0, Number |-> 0, Function |-> 0, Map |-> 0]]]
NoOps(s) == {}
NoInit == {}
\* what a realm's code does changes that realm only
Isolated == [][\A i \in 1..3 : (ev' # <<>> /\ ev'[1].n \in {"setvar", "patch"} /\ ev'[1].a # i - 1) => st'.g[i] = st.g[i] /\ st'.p[i] = st.p[i]]_st
Pure == [][(ev' # <<>> /\ ev'[1].n \notin {"setvar", "patch"}) => st' = st]_st
===========================================================================
