---------------------------- MODULE MCBrillouin ----------------------------
EXTENDS BrillouinReduce
MeshSet == {<<1, 1, 1>>, <<2, 2, 1>>, <<3, 3, 1>>, <<4, 4, 1>>, <<5, 5, 1>>, <<4, 3, 1>>, <<3, 4, 2>>, <<3, 3, 3>>, <<1, 4, 2>>}
=============================================================================
