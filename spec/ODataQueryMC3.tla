--------------------------- MODULE ODataQueryMC3 ---------------------------
EXTENDS ODataQueryMC
V3 == {Null, 1, 2}
=============================================================================
