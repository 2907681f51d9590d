----------------------------- MODULE Processes -----------------------------
(* Processes that pass messages.  Process w of np is known by its world rank w; a
   communicator groups processes and ranks them anew:
     0  all of them, as they are    1  all, in reverse order    2  the even and the odd apart
   A value is a list of lists of integers; each process holds its own.                     *)
EXTENDS Balancer, TLC
Members(np, c, w) ==
  CASE c = 0 -> [i \in 1 .. np |-> i - 1]
    [] c = 1 -> [i \in 1 .. np |-> np - i]
    [] OTHER -> SelectSeq([i \in 1 .. np |-> i - 1], LAMBDA x : (x % 2) = (w % 2))
RankIn(m, w) == (CHOOSE i \in DOMAIN m : m[i] = w) - 1
\* the outcome per process, given what each finds in its group: F(members, rank)
Each(np, c, F(_, _, _)) == [i \in 1 .. np |-> LET m == Members(np, c, i - 1) IN F(m, RankIn(m, i - 1), i)]
(* --- collective --- *)
Bcast(np, c, root, data) == Each(np, c, LAMBDA m, k, i : data[m[root + 1] + 1])
Op2(op, a, b) == CASE op = 0 -> a + b [] op = 1 -> (IF a > b THEN a ELSE b) [] op = 2 -> (IF a < b THEN a ELSE b) [] OTHER -> a * b
Over(op, x, y) == [q \in DOMAIN x |-> [p \in DOMAIN x[q] |-> Op2(op, x[q][p], y[q][p])]]
\* the first `fixed' lists (the sizes of a matrix) are not data
Combined(op, m, data, fixed) ==
  LET all == [i \in DOMAIN m |-> data[m[i] + 1]]
      t == FoldLeft(LAMBDA a, b : TLCEval(Over(op, a, b)), all[1], SubSeq(all, 2, Len(all))) IN
  [q \in DOMAIN t |-> IF q <= fixed THEN all[1][q] ELSE t[q]]
Reduce(np, c, op, all, root, data, fixed) ==
  Each(np, c, LAMBDA m, k, i : IF all \/ k = root THEN Combined(op, m, data, fixed) ELSE data[i])
\* element e (from 0) of n is the business of one process of the group
Owner(n, size, e) == e \div (IF n = 0 THEN 1 ELSE CeilDiv(n, size))
Gather(np, c, root, data) ==
  Each(np, c, LAMBDA m, k, i : IF k # root THEN data[i]
                               ELSE [e \in DOMAIN data[i] |-> data[m[Owner(Len(data[i]), Len(m), e - 1) + 1] + 1][e]])
(* --- items <<type, source, destination, tag, value, whatever the destination held>>, received in a given order --- *)
Moved(np, c, items, order) ==
  Each(np, c, LAMBDA m, k, i : [q \in DOMAIN SelectSeq(order, LAMBDA o : items[o + 1][3] = k) |->
                                  items[SelectSeq(order, LAMBDA o : items[o + 1][3] = k)[q] + 1][5]])
(* --- a file all processes open and write the same steps to, each its own numbers: the first one's --- *)
Digits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
RECURSIVE Dec(_)
Dec(x) == IF x < 0 THEN <<45>> \o Dec(-x) ELSE IF x < 10 THEN <<Digits[x + 1]>> ELSE Dec(x \div 10) \o <<Digits[(x % 10) + 1]>>
StepLines(t) ==
  CASE t[1] = 0 -> <<<<78, 117, 109, 98, 101, 114, 61>> \o Dec(t[2][1])>>
    [] t[1] = 1 -> <<<<76, 105, 115, 116>>, Dec(Len(t[2]))>> \o Map(t[2], LAMBDA x : Dec(x))
    [] t[1] = 2 -> <<<<76, 105, 110, 101>> \o Dec(t[2][1])>>
    [] OTHER -> <<<<80, 105, 101, 99, 101>> \o Dec(t[2][1])>>
FileLines(todo) == FoldLeft(LAMBDA a, t : a \o StepLines(t), <<>>, todo)
(* --- loops from a to b - 1: what each process does, in its order --- *)
Share(a, b, size, k) == [q \in DOMAIN DefaultSharing(b - a, size)[k + 1] |-> DefaultSharing(b - a, size)[k + 1][q] + a]
=============================================================================
