CONSTANTS
  Users = {"w1", "w2", "g1", "g2", "e1", "e2"}
  Tables = {"word", "grapheme", "emoji"}
  Entries = 3
  NoUser = "none"
  Needs <- MCNeeds
SPECIFICATION Spec
INVARIANTS NobodyReadsPartly OneFills
PROPERTIES NeverAgain EverybodyGetsThere
