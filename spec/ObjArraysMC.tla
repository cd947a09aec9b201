----------------------------- MODULE ObjArraysMC -----------------------------
EXTENDS ObjArrays
CTyped == ("m" :> "Mid") @@ ("s" :> "Side")
CWide == ("l" :> "Leaf") @@ ("m" :> "Mid") @@ ("s" :> "Side") @@ ("b" :> "Base") @@ ("o" :> "Other") @@ ("l2" :> "Leaf")
CLeaf == ("l" :> "Leaf") @@ ("b" :> "Base")
COther == ("o" :> "Other")
=============================================================================
