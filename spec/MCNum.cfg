SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  Gs <- MCGs
  Precs = {0, 2, 5}
  Pads = {0, 3, 6}
  Ws = {0, 4, 9}
INVARIANTS OnlyDigits ReadsBack SignRight BaseShown OctalShown MinDigits MinPadded MinWidth WidthIsLength NothingExtra FillSides Grouped SepNotFirst
CHECK_DEADLOCK FALSE
