----------------------------- MODULE BoolTables -----------------------------
(* The operations of NumPy on booleans: addition is "or", multiplication "and", False < True.
   A boolean occupies a byte; every byte but 0 is true (arrays of other bytes are made with view), and results are 0 or 1. *)
EXTENDS Naturals, Sequences, Json
CONSTANT OutFile
Bytes == <<0, 1, 2, 64, 127, 128, 129, 254, 255>>
Truth(b) == b # 0
Bin(op, x, y) ==
    CASE op \in {"add", "maximum", "bitwise_or", "logical_or"} -> x \/ y
      [] op \in {"multiply", "minimum", "bitwise_and", "logical_and"} -> x /\ y
      [] op \in {"bitwise_xor", "not_equal"} -> x # y
      [] op = "equal" -> x = y
      [] op = "less" -> ~x /\ y
      [] op = "less_equal" -> x => y
      [] op = "greater" -> x /\ ~y
      [] op = "greater_equal" -> y => x
Un(op, x) ==
    CASE op \in {"invert", "logical_not"} -> ~x
      [] op = "absolute" -> x
      [] op \in {"isnan", "isinf"} -> FALSE
      [] op = "isfinite" -> TRUE
Ops2 == {"add", "multiply", "minimum", "maximum", "bitwise_and", "bitwise_or", "bitwise_xor", "logical_and", "logical_or",
         "equal", "not_equal", "less", "less_equal", "greater", "greater_equal"}
Ops1 == {"invert", "logical_not", "absolute", "isnan", "isinf", "isfinite"}
Num(p) == IF p THEN 1 ELSE 0
ASSUME JsonSerialize(OutFile, [two |-> [op \in Ops2 |-> [i \in DOMAIN Bytes |-> [j \in DOMAIN Bytes |-> Num(Bin(op, Truth(Bytes[i]), Truth(Bytes[j])))]]],
                               one |-> [op \in Ops1 |-> [i \in DOMAIN Bytes |-> Num(Un(op, Truth(Bytes[i])))]],
                               bytes |-> Bytes])
\* laws: De Morgan, order, xor
ASSUME \A x, y \in BOOLEAN :
    /\ Un("invert", Bin("bitwise_and", x, y)) = Bin("bitwise_or", Un("invert", x), Un("invert", y))
    /\ Bin("less_equal", x, y) = Un("logical_not", Bin("greater", x, y)) /\ Bin("less", x, y) = Bin("greater", y, x)
    /\ Bin("greater_equal", x, y) = Bin("less_equal", y, x)
    /\ Bin("bitwise_xor", x, y) = Un("invert", Bin("equal", x, y))
    /\ Bin("minimum", x, y) = (IF Bin("less", x, y) THEN x ELSE y) /\ Bin("maximum", x, y) = (IF Bin("less", x, y) THEN y ELSE x)
VARIABLE z
Spec == z = 0 /\ [][z' = z]_z
=============================================================================
