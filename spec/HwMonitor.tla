------------------------------ MODULE HwMonitor ------------------------------
(***************************************************************************)
(* What the hardware back ends do, seen from the device and the caller.    *)
(*                                                                         *)
(* cryptodev: a thread gets one session (a descriptor and a session on it) *)
(* on its first call, uses it for all its calls and releases it when it    *)
(* ends.  A call is either one request to the device with exactly its      *)
(* parameters, or refused without any request.                             *)
(*                                                                         *)
(* Numbers are sequences of four digits to the base Base, most significant *)
(* first: the device takes two digits (32 bits), callers give four (64).   *)
(*                                                                         *)
(* Events [k, t, ...] of thread t:                                         *)
(*   call(f, n, in, is, il, out, os, ol)    f: c/d single, C/D several     *)
(*   alloc free open(fd) setfd(fd) sess(fd, ses) info(fd, ses, mask) keep  *)
(*   fail(what, e)      one of those failed, with errno e                  *)
(*   crypt(fd, ses, op, n, len, dlen, src, dst, lens, dlens, e, rets, ols) *)
(*   acc(op, in, il, out, ol, flags, ret, res)   a call of the AIX service *)
(*   ret(ret, rets, ols)                    the call returns               *)
(*   fses(fd, ses) close(fd)                                               *)
(*   impl(req, pref, fns)  avail(ret, is)   exit                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Base, MaxChunks
EINVAL == -22
ENOMEM == 12

Umax == <<0, 0, Base - 1, Base - 1>>                   \* largest the device can be given
Skip == <<Base - 1, Base - 1, Base - 1, Base - 1>>     \* marks a chunk to be skipped
Zero == <<0, 0, 0, 0>>
Fits(a) == a[1] = 0 /\ a[2] = 0
(* a * n + b, with whatever does not fit into four digits in front *)
MulAdd(a, n, b) ==
  LET d4 == a[4] * n + b[4]
      d3 == a[3] * n + b[3] + d4 \div Base
      d2 == a[2] * n + b[2] + d3 \div Base
      d1 == a[1] * n + b[1] + d2 \div Base
  IN <<d1 \div Base, d1 % Base, d2 % Base, d3 % Base, d4 % Base>>
Times(a, n) == LET p == MulAdd(a, n, Zero) IN <<p[2], p[3], p[4], p[5]>>
Plus(a, n, b) == LET p == MulAdd(b, n, a) IN <<p[2], p[3], p[4], p[5]>>      \* a + n * b
Spans(s, n) == LET p == MulAdd(s, n, Zero) IN p[1] = 0 /\ p[2] = 0 /\ p[3] = 0
Aligned(a, mask) == a[4] % (mask + 1) = 0

Single(c) == c.f \in {"c", "d"}
Stride(c, s, l) == IF Single(c) THEN l[1] ELSE s
Is(c) == Stride(c, c.is, c.il)
Os(c) == Stride(c, c.os, c.ol)
(* can be put into a request *)
Representable(c) ==
  /\ c.n <= MaxChunks /\ Spans(Is(c), c.n) /\ Spans(Os(c), c.n)
  /\ \A i \in 1..c.n : /\ c.il[i] = Skip \/ (Fits(c.il[i]) /\ c.il[i] # Umax)
                       /\ Fits(c.ol[i])
Acceptable(c, mask) == Representable(c) /\ Aligned(c.in, mask) /\ Aligned(c.out, mask)
Mark(l) == IF l = Skip THEN Umax ELSE l
(* the request a call has to become *)
Wanted(c) == [op |-> IF c.f \in {"c", "C"} THEN "enc" ELSE "dec", n |-> c.n,
              len |-> Times(Is(c), c.n), dlen |-> Times(Os(c), c.n), src |-> c.in, dst |-> c.out,
              lens |-> [i \in 1..c.n |-> Mark(c.il[i])], dlens |-> c.ol]
Made(e) == [op |-> e.op, n |-> e.n, len |-> e.len, dlen |-> e.dlen, src |-> e.src, dst |-> e.dst, lens |-> e.lens, dlens |-> e.dlens]

NoCall == [f |-> "-"]
T0 == [fd |-> 0, ses |-> 0, mask |-> 0, mem |-> 0, call |-> NoCall, reqs |-> 0, err |-> 0, dev |-> [e |-> 0, rets |-> <<>>, ols |-> <<>>],
       accs |-> <<>>, gone |-> FALSE]
(* key: whether threads can remember their session; mask: that of the devices seen so far; aix: which back end *)
M0(T, aix) == [th |-> [t \in T |-> T0], nokey |-> FALSE, mask |-> -1, hw |-> ~aix, bad |-> {}]
When(c, s) == IF c THEN {s} ELSE {}
Put(m, t, r, S) == [m EXCEPT !.th[t] = r, !.bad = @ \cup S]
Free(h) == h.fd = 0 /\ h.ses = 0 /\ h.mem = 0
Unchanged(h, e) == e.ols = h.call.ol /\ e.rets = h.call.rets

(* the chunks a call of the AIX back end passes on, in order *)
RECURSIVE Todo(_, _)
Todo(c, i) == IF i > c.n THEN <<>>
              ELSE IF c.il[i] = Skip /\ ~Single(c) THEN Todo(c, i + 1)
              ELSE <<[i |-> i, op |-> IF c.f \in {"c", "C"} THEN "enc" ELSE "dec", in |-> Plus(c.in, i - 1, Is(c)), il |-> c.il[i],
                      out |-> Plus(c.out, i - 1, Os(c)), ol |-> c.ol[i]]>> \o Todo(c, i + 1)
AixRight(h, e) ==
  LET w == Todo(h.call, 1) IN
  /\ Len(w) = Len(h.accs)
  /\ \A j \in 1..Len(w) : LET a == h.accs[j] IN
       /\ [i |-> w[j].i, op |-> a.op, in |-> a.in, il |-> a.il, out |-> a.out, ol |-> a.ol] = w[j]
       /\ a.flags = 0
       /\ e.ols[w[j].i] = a.res
       /\ IF Single(h.call) THEN e.ret = a.ret ELSE e.rets[w[j].i] = a.ret
  /\ ~Single(h.call) => /\ e.ret = 0
                        /\ \A i \in 1..h.call.n : h.call.il[i] = Skip => (e.ols[i] = h.call.ol[i] /\ e.rets[i] = h.call.rets[i])

(* the result of a call, given what the thread saw of the device meanwhile *)
HwRight(m, h, e) ==
  LET c == h.call IN
  IF h.err # 0 /\ h.reqs = 0
  THEN /\ e.ret \in {-h.err} \cup (IF Representable(c) THEN {} ELSE {EINVAL})
       /\ Unchanged(h, e)
  ELSE IF m.nokey /\ h.reqs = 0 THEN e.ret \in {-ENOMEM} \cup (IF Representable(c) THEN {} ELSE {EINVAL}) /\ Unchanged(h, e)
  ELSE IF ~Acceptable(c, h.mask) THEN h.reqs = 0 /\ e.ret = EINVAL /\ Unchanged(h, e)
  ELSE /\ h.reqs = 1
       /\ IF h.dev.e # 0 THEN e.ret = -h.dev.e /\ e.ols = c.ol
          ELSE /\ e.ols = h.dev.ols
               /\ IF Single(c) THEN e.ret = h.dev.rets[1] ELSE e.ret = 0 /\ e.rets = h.dev.rets

Step(m, e) ==
  LET t == e.t  h == m.th[t] IN
  CASE e.k = "call" -> Put(m, t, [h EXCEPT !.call = e, !.reqs = 0, !.err = 0, !.accs = <<>>], When(h.gone, "after exit"))
    [] e.k = "alloc" -> Put(m, t, [h EXCEPT !.mem = @ + 1], {})
    [] e.k = "free" -> Put(m, t, [h EXCEPT !.mem = @ - 1], {})
    [] e.k = "open" -> Put(m, t, [h EXCEPT !.fd = e.fd], When(h.fd # 0, "second descriptor"))
    [] e.k = "setfd" -> Put(m, t, h, When(h.fd # e.fd, "foreign descriptor"))
    [] e.k = "sess" -> Put(m, t, [h EXCEPT !.ses = e.ses], When(h.fd # e.fd, "foreign descriptor") \cup When(h.ses # 0, "second session")
                                                           \cup When(e.alg # 1, "not 842"))
    [] e.k = "info" -> [Put(m, t, [h EXCEPT !.mask = e.mask], When(h.fd # e.fd \/ h.ses # e.ses, "foreign session"))
                          EXCEPT !.mask = e.mask]
    [] e.k = "keep" -> m
    [] e.k = "fail" -> [Put(m, t, [h EXCEPT !.err = IF @ = 0 /\ h.call.f # "-" /\ e.what \notin {"fses", "close"} THEN e.e ELSE @,
                                            !.ses = IF e.what = "fses" THEN 0 ELSE @, !.fd = IF e.what = "close" THEN 0 ELSE @], {})
                          EXCEPT !.nokey = @ \/ e.what = "key"]
    [] e.k = "crypt" -> Put(m, t, [h EXCEPT !.reqs = @ + 1, !.dev = [e |-> e.e, rets |-> e.rets, ols |-> e.ols]],
                            When(h.fd # e.fd \/ h.ses # e.ses \/ h.ses = 0, "foreign session")
                            \cup When(h.call.f = "-" \/ h.call.f = "i", "request without call")
                            \cup When(h.call.f # "-" /\ h.call.f # "i" /\ ~(Acceptable(h.call, h.mask) /\ Made(e) = Wanted(h.call)), "wrong request"))
    [] e.k = "acc" -> Put(m, t, [h EXCEPT !.accs = Append(@, e)], {})
    [] e.k = "ret" -> Put(m, t, [h EXCEPT !.call = NoCall],
                          When(~(IF m.hw THEN HwRight(m, h, e) ELSE AixRight(h, e)), "wrong result")
                          \cup When(h.err # 0 /\ h.reqs = 0 /\ ~Free(h), "leak"))
    [] e.k = "impl" -> Put(m, t, [h EXCEPT !.call = NoCall],
                           When(e.fns # 1, "wrong functions") \cup When(e.req < 1, "alignment")
                           \cup When(m.hw /\ h.fd # 0 /\ e.req % (h.mask + 1) # 0, "alignment")
                           \cup When(m.hw /\ h.err # 0 /\ ~Free(h), "leak")
                           \cup When(~m.hw /\ e.pref % e.req # 0, "alignment"))
    [] e.k = "avail" -> Put(m, t, h, When((e.ret # 0) # (e.is # 0), "availability"))
    [] e.k = "fses" -> Put(m, t, [h EXCEPT !.ses = 0], When(h.fd # e.fd \/ h.ses # e.ses \/ h.ses = 0, "foreign session"))
    [] e.k = "close" -> Put(m, t, [h EXCEPT !.fd = 0], When(h.fd # e.fd \/ h.fd = 0, "foreign descriptor") \cup When(h.ses # 0, "session not released"))
    [] e.k = "exit" -> Put(m, t, [h EXCEPT !.gone = TRUE], When(~Free(h), "leak"))
    [] OTHER -> Put(m, t, h, {"unknown event"})
=============================================================================
