--------------------------- MODULE RasterSweepMC ---------------------------
EXTENDS RasterSweep
SmallKinds == {<< >>, <<1, 1>>, <<-1, -1>>, <<0, 1>>}
FewKinds == {<< >>, <<1, 1>>, <<0, 1>>}
=============================================================================
