-------------------------------- MODULE MCNum --------------------------------
EXTENDS NumModel
MCVals == {0, 1, 7, 8, 9, 100, 127, 128, 200, 255}
MCGs == {<<>>, <<1>>, <<3>>, <<2, 1>>, <<1, 2, 1>>}
=============================================================================
